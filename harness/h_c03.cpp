// C03: views, nested views, row/column views and cofactor views are exact windows.
#include "gen.hpp"
using namespace malg;
static const Large large(150);
static const Long long_cases(80);

// A window of an abstract matrix: for each exposed position, the position in the store.
struct Win {
    size_t R = 0, C = 0;
    std::vector<std::pair<size_t, size_t>> at; // row-major
    const std::pair<size_t, size_t> &operator()(size_t r, size_t c) const { return at[r * C + c]; }
    std::pair<size_t, size_t> linear(size_t k) const { return at[Mod<int>::lin(k, R, C)]; }
};
static Win whole(size_t R, size_t C)
{
    Win w; w.R = R; w.C = C;
    for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) w.at.push_back({ r, c });
    return w;
}
static Win sub(const Win &p, size_t r0, size_t r1, size_t c0, size_t c1)
{
    r1 = std::min(r1, p.R); c1 = std::min(c1, p.C);
    Win w; w.R = r1 - r0; w.C = c1 - c0;
    for (size_t r = r0; r < r1; ++r) for (size_t c = c0; c < c1; ++c) w.at.push_back(p(r, c));
    return w;
}
static Win cof(const Win &p, size_t xr, size_t xc)
{
    Win w; w.R = p.R - 1; w.C = p.C - 1;
    for (size_t r = 0; r < p.R; ++r) for (size_t c = 0; c < p.C; ++c) if (r != xr && c != xc) w.at.push_back(p(r, c));
    return w;
}
struct Rg { size_t a, b; };
// A non-empty range with a start inside of n, the end possibly beyond it.
static Rg rg(Rng &r, size_t n)
{
    size_t a = r.below(n), b = a + 1 + r.below(n - a);
    if (r.chance(1, 6)) b = static_cast<size_t>(-1);
    else if (r.chance(1, 6)) b = n + r.below(3), b = std::max(b, a + 1);
    return { a, b };
}

template <typename T>
struct Ctx {
    Matrix<T> store;
    Mod<T> model;
    std::string path;
    Rng &r;
    Ctx(Rng &rr, size_t R, size_t C) : r(rr) { model = imod<T>(r, R, C, -99, 99); store = mat(model); }
};

// Reads everything through a view (mutable or not).
template <typename T, typename VT>
void read_all(Ctx<T> &x, VT &v, const Win &w, const char *kind)
{
    VF_CHECK(v.rows() == w.R && v.cols() == w.C && v.size() == w.R * w.C, std::string(kind) + "-shape",
             x.path << " reports " << v.rows() << "x" << v.cols() << " (" << v.size() << ") want " << w.R << "x" << w.C);
    VF_CHECK(v.empty() == (w.R * w.C == 0), std::string(kind) + "-empty", x.path);
    if (v.rows() != w.R || v.cols() != w.C) return;
    const VT &cv = v;
    bool ok = true, okat = true, oklin = true, okaddr = true;
    for (size_t r = 0; r < w.R; ++r)
        for (size_t c = 0; c < w.C; ++c) {
            auto p = w(r, c);
            const T &e = x.model(p.first, p.second);
            ok = ok && same_val<T>(v(r, c), e) && same_val<T>(cv(r, c), e);
            okat = okat && same_val<T>(v.at(r, c), e) && same_val<T>(cv.at(r, c), e);
            okaddr = okaddr && &cv(r, c) == &static_cast<const Matrix<T> &>(x.store)(p.first, p.second);
        }
    for (size_t k = 0; k < w.R * w.C; ++k) {
        auto p = w.linear(k);
        const T &e = x.model(p.first, p.second);
        oklin = oklin && same_val<T>(v[k], e) && same_val<T>(cv[k], e);
    }
    VF_CHECK(ok, std::string(kind) + "-read", x.path << " of " << show(x.model));
    VF_CHECK(okat, std::string(kind) + "-at", x.path << " of " << show(x.model));
    VF_CHECK(oklin, std::string(kind) + "-linear-read", x.path << " of " << show(x.model));
    VF_CHECK(okaddr, std::string(kind) + "-copy", x.path << ": the view does not refer to the elements of the matrix");
}
template <typename T>
void store_check(Ctx<T> &x, const std::string &what)
{
    VF_CHECK(equals(x.store, x.model), what, x.path << " got " << show(x.store) << " want " << show(x.model));
}
// Writes through a view.
template <typename T, typename VT>
void write_all(Ctx<T> &x, VT &v, const Win &w, const char *kind)
{
    Rng &r = x.r;
    if (!(v.rows() == w.R && v.cols() == w.C) || w.R * w.C == 0) return;
    for (int i = 0; i < 3; ++i) {
        size_t rr = r.below(w.R), cc = r.below(w.C);
        T val = ival<T>(r, -99, 99);
        auto p = w(rr, cc);
        switch (r.range(0, 2)) {
        case 0: v(rr, cc) = val; break;
        case 1: v.at(rr, cc) = val; break;
        default: {
            size_t k = r.below(w.R * w.C);
            p = w.linear(k);
            v[k] = val;
        }
        }
        x.model(p.first, p.second) = val;
        store_check(x, std::string(kind) + "-write");
    }
    // Assignment of another matrix-like object of the same shape.
    auto q = imod<T>(r, w.R, w.C, -99, 99);
    auto put = [&](const Mod<T> &m) { for (size_t a = 0; a < w.R; ++a) for (size_t b = 0; b < w.C; ++b) { auto p = w(a, b); x.model(p.first, p.second) = m(a, b); } };
    switch (r.range(0, 4)) {
    case 0: { auto Q = mat(q); VT &ret = (v = Q); VF_CHECK(&ret == &v, "assign-return", x.path); VF_CHECK(equals(Q, q), "source-modified", x.path); break; }
    case 1: { Operand<T> O(r, q); VT &ret = (v = O.get()); VF_CHECK(&ret == &v, "assign-return", x.path); PURE(O); break; }
    case 2: { auto qi = imod<int>(r, w.R, w.C, -9, 9); q = cmod<T>(qi); auto Q = mat(qi); v = Q; break; }
    case 3: { auto Q = mat(q); const Matrix<T> &cQ = Q; v = View<const Matrix<T>>(&cQ, Range::all()); VF_CHECK(equals(Q, q), "source-modified", x.path); break; }
    default: { // Arithmetic in place through the view.
        T s = ival<T>(r, 1, 3);
        for (size_t a = 0; a < w.R; ++a) for (size_t b = 0; b < w.C; ++b) { auto p = w(a, b); q(a, b) = x.model(p.first, p.second) + s; }
        static_cast<MatrixBase<T> &>(v) += s;
    }
    }
    put(q);
    store_check(x, std::string(kind) + "-assign");
    vf::hit(std::string("write.") + kind);
}

template <typename T>
void run(Rng &r)
{
    size_t R = dim(r, false, 12), C = dim(r, false, 12);
    Ctx<T> x(r, R, C);
    Win all = whole(R, C);
    vf::note(x.model.hash() + R * 64 + C);
    for (int step = 0; step < 4; ++step) {
        Rg a = rg(r, R), b = rg(r, C);
        std::ostringstream p;
        p << "[" << a.a << "," << a.b << ")x[" << b.a << "," << b.b << ")";
        x.path = p.str();
        int k = static_cast<int>(r.range(0, 9));
        vf::hit("kind." + std::to_string(k));
        const Matrix<T> &cs = x.store;
        Win w = sub(all, a.a, a.b, b.a, b.b);
        vf::op(x.path.c_str());
        switch (k) {
        case 0: { View<Matrix<T>> v = x.store(Range{ a.a, a.b }, Range{ b.a, b.b }); read_all(x, v, w, "view"); write_all(x, v, w, "view"); break; }
        case 1: { View<const Matrix<T>> v = cs(Range{ a.a, a.b }, Range{ b.a, b.b }); read_all(x, v, w, "const-view"); Matrix<T> M(v); Mod<T> m(w.R, w.C); for (size_t i = 0; i < w.R; ++i) for (size_t j = 0; j < w.C; ++j) m(i, j) = x.model(w(i, j).first, w(i, j).second); check_eq(M, m, "materialise"); break; }
        case 2: { auto v = utility::view(x.store, a.a, a.b, b.a, b.b); read_all(x, v, w, "utility-view"); write_all(x, v, w, "utility-view"); break; }
        case 3: { size_t row = r.below(R); auto v = utility::row(x.store, row, b.a, b.b); Win ww = sub(all, row, row + 1, b.a, b.b); x.path = "row " + std::to_string(row) + x.path; read_all(x, v, ww, "row-view"); write_all(x, v, ww, "row-view"); break; }
        case 4: { size_t col = r.below(C); auto v = utility::col(x.store, col, a.a, a.b); Win ww = sub(all, a.a, a.b, col, col + 1); x.path = "col " + std::to_string(col) + x.path; read_all(x, v, ww, "column-view"); write_all(x, v, ww, "column-view"); break; }
        case 5: { // View of a view (of a view).
            auto v = utility::view(x.store, a.a, a.b, b.a, b.b);
            Rg c = rg(r, w.R), d = rg(r, w.C);
            auto u = utility::view(v, c.a, c.b, d.a, d.b);
            Win ww = sub(w, c.a, c.b, d.a, d.b);
            x.path += " then [" + std::to_string(c.a) + "," + std::to_string(c.b) + ")x[" + std::to_string(d.a) + "," + std::to_string(d.b) + ")";
            read_all(x, u, ww, "nested-view"); write_all(x, u, ww, "nested-view");
            Rg e = rg(r, ww.R), f = rg(r, ww.C);
            auto t = utility::view(u, e.a, e.b, f.a, f.b);
            Win www = sub(ww, e.a, e.b, f.a, f.b);
            read_all(x, t, www, "nested3-view"); write_all(x, t, www, "nested3-view");
            if (r.chance(1, 2)) { auto v2 = utility::row(v, c.a, d.a, d.b); Win w2 = sub(w, c.a, c.a + 1, d.a, d.b); read_all(x, v2, w2, "nested-row"); write_all(x, v2, w2, "nested-row"); }
            else { auto v2 = utility::col(v, d.a, c.a, c.b); Win w2 = sub(w, c.a, c.b, d.a, d.a + 1); read_all(x, v2, w2, "nested-col"); write_all(x, v2, w2, "nested-col"); }
            break; }
        case 6: { // Cofactor view.
            size_t xr = r.below(R), xc = r.below(C);
            CofactorView<Matrix<T>> v(&x.store, xr, xc);
            Win ww = cof(all, xr, xc);
            x.path = "cofactor " + std::to_string(xr) + "," + std::to_string(xc);
            if (ww.R && ww.C) { read_all(x, v, ww, "cofactor-view"); write_all(x, v, ww, "cofactor-view"); }
            else VF_CHECK(v.rows() == ww.R && v.cols() == ww.C && v.size() == 0 && v.empty(), "cofactor-empty", x.path);
            CofactorView<const Matrix<T>> cv(&cs, xr, xc);
            if (ww.R && ww.C) read_all(x, cv, ww, "const-cofactor-view");
            break; }
        case 7: { // Cofactor of a view, view of a cofactor, cofactor of a cofactor.
            auto v = utility::view(x.store, a.a, a.b, b.a, b.b);
            if (w.R < 2 || w.C < 2) break;
            size_t xr = r.below(w.R), xc = r.below(w.C);
            CofactorView<View<Matrix<T>>> cv(&v, xr, xc);
            Win ww = cof(w, xr, xc);
            x.path += " cofactor " + std::to_string(xr) + "," + std::to_string(xc);
            read_all(x, cv, ww, "cofactor-of-view"); write_all(x, cv, ww, "cofactor-of-view");
            Rg c = rg(r, ww.R), d = rg(r, ww.C);
            View<CofactorView<View<Matrix<T>>>> vc(&cv, Range{ c.a, c.b }, Range{ d.a, d.b });
            Win www = sub(ww, c.a, c.b, d.a, d.b);
            read_all(x, vc, www, "view-of-cofactor"); write_all(x, vc, www, "view-of-cofactor");
            if (ww.R > 1 && ww.C > 1) {
                CofactorView<CofactorView<View<Matrix<T>>>> c2(&cv, r.below(ww.R), r.below(ww.C));
                Win w3 = cof(ww, c2._excluded_row, c2._excluded_col);
                read_all(x, c2, w3, "cofactor-of-cofactor"); write_all(x, c2, w3, "cofactor-of-cofactor");
            }
            break; }
        case 8: { // Defaults: the whole matrix.
            View<Matrix<T>> v(&x.store, Range::all());
            read_all(x, v, all, "default-view"); write_all(x, v, all, "default-view");
            View<Matrix<T>> u(&x.store, Range::all(), Range{ b.a, b.b });
            read_all(x, u, sub(all, 0, R, b.a, b.b), "all-rows-view");
            View<Matrix<T>> t(&x.store, a.a, a.b);
            read_all(x, t, sub(all, a.a, a.b, 0, C), "all-cols-view");
            { // Every bound that may be left out.
                auto take = [&](auto &&view, const Win &win, const char *what) { read_all(x, view, win, what); write_all(x, view, win, what); };
                const size_t row = r.below(R), col = r.below(C);
                switch (r.range(0, 9)) {
                case 0: take(utility::view(x.store), all, "view()"); break;
                case 1: take(utility::view(x.store, a.a), sub(all, a.a, R, 0, C), "view(row)"); break;
                case 2: take(utility::view(x.store, a.a, a.b), sub(all, a.a, a.b, 0, C), "view(rows)"); break;
                case 3: take(utility::view(x.store, a.a, a.b, b.a), sub(all, a.a, a.b, b.a, C), "view(rows,col)"); break;
                case 4: x.path += " row " + std::to_string(row); take(utility::row(x.store, row), sub(all, row, row + 1, 0, C), "row()"); break;
                case 5: x.path += " row " + std::to_string(row); take(utility::row(x.store, row, b.a), sub(all, row, row + 1, b.a, C), "row(col)"); break;
                case 6: x.path += " col " + std::to_string(col); take(utility::col(x.store, col), sub(all, 0, R, col, col + 1), "col()"); break;
                case 7: x.path += " col " + std::to_string(col); take(utility::col(x.store, col, a.a), sub(all, a.a, R, col, col + 1), "col(row)"); break;
                case 8: { View<Matrix<T>> s(&x.store, a.a); take(s, sub(all, a.a, R, 0, C), "View(row)"); break; }
                default: { View<Matrix<T>> s(&x.store, a.a, a.b, b.a); take(s, sub(all, a.a, a.b, b.a, C), "View(rows,col)"); }
                }
            }
            const auto &cx = cs;
            auto cvw = utility::view(cx, a.a, a.b, b.a, b.b);
            read_all(x, cvw, w, "const-utility-view");
            Rg c = rg(r, w.R), d = rg(r, w.C);
            auto nested = utility::view(cvw, c.a, c.b, d.a, d.b);
            read_all(x, nested, sub(w, c.a, c.b, d.a, d.b), "nested-const-view");
            break; }
        default: { // Assignment between views of the same type (same or other matrix), disjoint windows.
            auto other = imod<T>(r, w.R + 2, w.C + 2, -99, 99);
            auto O = mat(other);
            auto v = x.store(Range{ a.a, a.b }, Range{ b.a, b.b });
            auto o = O(Range{ 1, 1 + w.R }, Range{ 2, 2 + w.C });
            v = o;
            for (size_t i = 0; i < w.R; ++i) for (size_t j = 0; j < w.C; ++j) x.model(w(i, j).first, w(i, j).second) = other(i + 1, j + 2);
            store_check(x, "view-to-view-assign");
            VF_CHECK(equals(O, other), "source-modified", x.path);
            O(0, 0) = T(77);
            O(1, 2) = T(78);
            store_check(x, "view-to-view-alias");
            if (R > 1 && C > 1) {
                size_t xr = r.below(R), xc = r.below(C);
                auto m2 = imod<T>(r, R, C, -99, 99);
                auto M2 = mat(m2);
                CofactorView<Matrix<T>> c1(&x.store, xr, xc), c2(&M2, r.below(R), r.below(C));
                Win w1 = cof(all, xr, xc), w2 = cof(all, c2._excluded_row, c2._excluded_col);
                c1 = c2;
                for (size_t i = 0; i < w1.R; ++i) for (size_t j = 0; j < w1.C; ++j) x.model(w1(i, j).first, w1(i, j).second) = m2(w2(i, j).first, w2(i, j).second);
                store_check(x, "cofactor-to-cofactor-assign");
                VF_CHECK(equals(M2, m2), "source-modified", x.path);
                read_all(x, c1, w1, "cofactor-after-assign");
            }
            // Disjoint windows of the same matrix.
            if (R >= 2) {
                size_t h = R / 2;
                auto top = x.store(Range{ 0, h }, Range::all()), bottom = x.store(Range{ R - h, R }, Range::all());
                top = bottom;
                for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < C; ++j) x.model(i, j) = x.model(R - h + i, j);
                store_check(x, "same-matrix-assign");
            }
        }
        }
        store_check(x, "final");
    }
    if (vf::st().samples.size() < 3) vf::sample(x.path + " of " + show(x.model));
}
SCENARIO(windows_double, 3) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); run<double>(r); }
SCENARIO(windows_int, 2) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); run<int>(r); }
SCENARIO(windows_long, 1) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); run<long>(r); }
SCENARIO(windows_long_double, 1) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); run<long double>(r); }
SCENARIO(windows_complex, 1) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); run<cd>(r); }
SCENARIO(windows_float, 1) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); run<float>(r); }

// Lists: right shape writes the window, wrong or ragged shape leaves everything untouched.
template <typename T>
void lists(Rng &r)
{
    size_t R = 3 + r.below(4), C = 3 + r.below(4);
    Ctx<T> x(r, R, C);
    size_t h = 1 + r.below(3), wdt = 1 + r.below(3), r0 = r.below(R - h + 1), c0 = r.below(C - wdt + 1);
    auto q = imod<T>(r, 3, 3, -99, 99);
    auto v = x.store(Range{ r0, r0 + h }, Range{ c0, c0 + wdt });
    int k = static_cast<int>(r.range(0, 7));
    vf::note(x.model.hash() * 5 + h * 64 + wdt * 8 + k);
    size_t lr = 0, lc = 0;
    bool ragged = false;
    std::ostringstream p;
    p << h << "x" << wdt << " at " << r0 << "," << c0 << " list " << k;
    x.path = p.str();
    try {
        switch (k) {
        case 0: v = { { q(0, 0) } }; lr = 1; lc = 1; break;
        case 1: v = { { q(0, 0), q(0, 1) } }; lr = 1; lc = 2; break;
        case 2: v = { { q(0, 0), q(0, 1) }, { q(1, 0), q(1, 1) } }; lr = 2; lc = 2; break;
        case 3: v = { { q(0, 0), q(0, 1), q(0, 2) }, { q(1, 0), q(1, 1), q(1, 2) } }; lr = 2; lc = 3; break;
        case 4: v = { { q(0, 0), q(0, 1), q(0, 2) }, { q(1, 0), q(1, 1), q(1, 2) }, { q(2, 0), q(2, 1), q(2, 2) } }; lr = 3; lc = 3; break;
        case 5: v = { { q(0, 0), q(0, 1) }, { q(1, 0), q(1, 1) }, { q(2, 0), q(2, 1) } }; lr = 3; lc = 2; break;
        case 6: ragged = true; v = { { q(0, 0), q(0, 1) }, { q(1, 0) } }; break;
        default: ragged = true; v = { { q(0, 0), q(0, 1), q(0, 2) }, { q(1, 0), q(1, 1) }, { q(2, 0), q(2, 1), q(2, 2) } }; break;
        }
    } catch (const std::exception &) {
        ragged = true; // refused: nothing may have changed
        VF_CHECK(k >= 6 || lr != h || lc != wdt, "good-list-refused", x.path);
    }
    if (!ragged && lr == h && lc == wdt) {
        for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < wdt; ++j) x.model(r0 + i, c0 + j) = q(i, j);
        store_check(x, "list-assign");
        vf::hit("list.match");
    } else {
        store_check(x, "wrong-list-changed-something");
        vf::hit("list.mismatch");
    }
}
SCENARIO(list_assign, 2) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); pick_type(r, [&](auto t) { lists<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>(), Ty<long>(), Ty<long double>()); }

// A view follows later changes made directly to the matrix, and vice versa.
SCENARIO(live, 1)
{ Grained grained(r.chance(2, 3) ? ANY : WHOLE);
    size_t R = dim(r, false, 10), C = dim(r, false, 10);
    Ctx<double> x(r, R, C);
    Rg a = rg(r, R), b = rg(r, C);
    Win w = sub(whole(R, C), a.a, a.b, b.a, b.b);
    auto v = x.store(Range{ a.a, a.b }, Range{ b.a, b.b });
    View<Matrix<double>> copy(v); // copying a view copies the reference
    vf::note(x.model.hash() * 3);
    for (int i = 0; i < 6; ++i) {
        size_t rr = r.below(R), cc = r.below(C);
        double val = ival<double>(r, -99, 99);
        if (r.chance(1, 2)) { x.store(rr, cc) = val; x.model(rr, cc) = val; }
        else { size_t k = r.below(w.R * w.C); (r.chance(1, 2) ? v : copy)[k] = val; auto p = w.linear(k); x.model(p.first, p.second) = val; }
        read_all(x, v, w, "live-view");
        read_all(x, copy, w, "live-copy");
        store_check(x, "live-store");
    }
}
// A view of a matrix that is resized, reassigned or emptied shows what is left of its window.
SCENARIO(resized, 1)
{ Grained grained(r.chance(2, 3) ? ANY : WHOLE);
    size_t R = dim(r, false, 10), C = dim(r, false, 10);
    Ctx<double> x(r, R, C);
    Rg a = rg(r, R), b = rg(r, C);
    auto v = x.store(Range{ a.a, a.b }, Range{ b.a, b.b });
    auto n = utility::view(v, 0, 2, 1);
    const auto &cs = x.store;
    View<const Matrix<double>> cv = cs(Range{ a.a, a.b }, Range{ b.a, b.b });
    CofactorView<Matrix<double>> cf(&x.store, 0, C - 1);
    vf::note(x.model.hash() * 7);
    auto clip = [](const Win &p, size_t r0, size_t r1, size_t c0, size_t c1) {
        r1 = std::min(r1, p.R); c1 = std::min(c1, p.C);
        r0 = std::min(r0, r1); c0 = std::min(c0, c1);
        Win w = sub(p, r0, r1, c0, c1);
        return w;
    };
    for (int i = 0; i < 4; ++i) {
        size_t R2 = dim(r, true, 8), C2 = dim(r, true, 8);
        switch (r.range(0, 2)) {
        case 0: x.model = imod<double>(r, R2, C2, -99, 99); x.store = mat(x.model); break;
        case 1: x.model = imod<double>(r, R2, C2, -99, 99); x.store.resize(R2, C2); for (size_t p = 0; p < R2; ++p) for (size_t q = 0; q < C2; ++q) x.store(p, q) = x.model(p, q); break;
        default: { Matrix<double> o = mat(x.model = imod<double>(r, R2, C2, -99, 99)); x.store = std::move(o); }
        }
        std::ostringstream p;
        p << "[" << a.a << "," << a.b << ")x[" << b.a << "," << b.b << ") now of " << R2 << "x" << C2;
        x.path = p.str();
        Win all = whole(R2, C2), w = clip(all, a.a, a.b, b.a, b.b);
        vf::hit(w.R * w.C == 0 ? "resized.nothing-left" : w.R == a.b - a.a && w.C == b.b - b.a ? "resized.whole-window" : "resized.clipped");
        read_all(x, v, w, "resized-view");
        read_all(x, cv, w, "resized-const-view");
        read_all(x, n, clip(w, 0, 2, 1, w.C), "resized-nested-view");
        Matrix<double> M(v);
        VF_CHECK(M.rows() == w.R && M.cols() == w.C, "resized-materialise", x.path);
        write_all(x, v, w, "resized-view");
        // The cofactor of row 0 and of a column that may have gone.
        if (R2 > 0 && C2 >= C) read_all(x, cf, cof(all, 0, C - 1), "resized-cofactor");
        else VF_CHECK(cf.rows() == (R2 ? R2 - 1 : 0) && cf.cols() == (C2 ? C2 - 1 : 0) && cf.size() == cf.rows() * cf.cols(), "resized-cofactor-shape", x.path << " " << cf.rows() << "x" << cf.cols());
        store_check(x, "resized-store");
    }
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
