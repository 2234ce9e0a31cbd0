// C34: programs composed of many operations (results of one being operands of the next,
// temporaries, views of results, interleaved with unrelated work) compute what the
// composition of the definitions gives, and every operation is a function of its
// operands only, whatever was executed before.
#include "ops.hpp"
#include "ref.hpp"
using namespace malg;

// Every element small and with few fractional bits: the expressions below stay exact.
template <typename T> bool tame(const Mod<T> &m)
{
    for (auto &x : m.d) {
        auto ok = [](double v) { return std::fabs(v) <= 64 && v * 4 == std::floor(v * 4); };
        if constexpr (is_cx<T>) { if (!ok(x.real()) || !ok(x.imag())) return false; }
        else if (!ok(static_cast<double>(x))) return false;
    }
    return true;
}

template <typename T>
struct Program {
    Rng &r;
    std::vector<size_t> dims; // the dimensions in use: many shapes conform
    std::vector<Matrix<T>> m;
    std::vector<Mod<T>> w;
    std::string text;
    u64 h = 0;
    int nodes = 0;
    explicit Program(Rng &rr) : r(rr)
    {
        size_t k = static_cast<size_t>(r.range(1, 3));
        for (size_t i = 0; i < k; ++i) dims.push_back(static_cast<size_t>(r.chance(1, 40) ? r.range(10, 30) : r.range(1, 6)));
        size_t n = static_cast<size_t>(r.range(3, 6));
        for (size_t i = 0; i < n; ++i) { w.push_back(fresh(d(), d())); m.push_back(mat(w.back())); }
        for (auto &x : w) h = vf::mix(h ^ x.hash());
    }
    size_t d() { return dims[r.below(dims.size())]; }
    Mod<T> fresh(size_t R, size_t C) { return imod<T>(r, R, C, -3, 3); }
    void step(const char *s) { text += s; text += ' '; h = vf::mix(h ^ vf::mix(static_cast<u64>(s[0]) * 131 + static_cast<u64>(s[1]))); }
    using E = std::pair<Matrix<T>, Mod<T>>;
    E mk(Matrix<T> &&a, Mod<T> &&b, const char *what)
    {
        ++nodes;
        vf::hit(std::string("node.") + what);
        bool ok = equals(a, b);
        VF_CHECK(ok, std::string("expression-") + what, "got " << show(a) << " want " << show(b) << " after " << text);
        return E(std::move(a), std::move(b));
    }
    template <typename F> static Mod<T> zip(const Mod<T> &a, const Mod<T> &b, F f) { Mod<T> o(a.R, a.C); for (size_t i = 0; i < o.d.size(); ++i) o.d[i] = f(a.d[i], b.d[i]); return o; }
    template <typename F> static Mod<T> map(const Mod<T> &a, F f) { Mod<T> o(a.R, a.C); for (size_t i = 0; i < o.d.size(); ++i) o.d[i] = f(a.d[i]); return o; }
    static Mod<T> win(const Mod<T> &a, size_t r0, size_t c0, size_t R, size_t C) { Mod<T> o(R, C); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) o(i, j) = a(r0 + i, c0 + j); return o; }
    T sc() { return T(static_cast<int>(r.range(-2, 2))); }

    E leaf(size_t R, size_t C)
    {
        // A live object that contains such a window, if any.
        for (size_t t = 0; t < m.size(); ++t) {
            size_t i = r.below(m.size());
            if (w[i].R < R || w[i].C < C) continue;
            size_t r0 = r.below(w[i].R - R + 1), c0 = r.below(w[i].C - C + 1);
            const Matrix<T> &K = m[i];
            switch (r.range(0, 4)) {
            case 0: { step("view"); auto V = utility::view(m[i], r0, r0 + R, c0, c0 + C); return mk(Matrix<T>(V), win(w[i], r0, c0, R, C), "view"); }
            case 1: { step("cview"); auto V = K(Range{ r0, r0 + R }, Range{ c0, c0 + C }); Matrix<T> q(R, C, T(0)); q = V; return mk(std::move(q), win(w[i], r0, c0, R, C), "const-view"); }
            case 2: { step("xtract"); return mk(utility::extract(K, r0, r0 + R, c0, c0 + C), win(w[i], r0, c0, R, C), "extract"); }
            default:
                if (w[i].R == R && w[i].C == C) { step("copy"); return mk(Matrix<T>(K), Mod<T>(w[i]), "copy"); }
            }
        }
        switch (r.range(0, 5)) {
        case 0: { step("zeros"); return mk(utility::zeros<T>(R, C), Mod<T>(R, C), "zeros"); }
        case 1: { step("ones"); return mk(utility::ones<T>(R, C), Mod<T>(R, C, T(1)), "ones"); }
        case 2: { step("eye"); Mod<T> e(R, C); for (size_t i = 0; i < std::min(R, C); ++i) e(i, i) = T(2); return mk(utility::eye<T>(R, C, T(2)), std::move(e), "eye"); }
        default: { auto f = fresh(R, C); step("fresh"); return mk(mat(f), Mod<T>(f), "fresh"); }
        }
    }
    E expr(size_t R, size_t C, int depth)
    {
        if (depth <= 0 || r.chance(1, 6)) return leaf(R, C);
        switch (r.range(0, 19)) {
        case 0: { auto a = expr(R, C, depth - 1), b = expr(R, C, depth - 1); step("+"); return mk(a.first + b.first, zip(a.second, b.second, [](T x, T y) { return x + y; }), "sum"); }
        case 1: { auto a = expr(R, C, depth - 1), b = expr(R, C, depth - 1); step("-"); return mk(a.first - b.first, zip(a.second, b.second, [](T x, T y) { return x - y; }), "difference"); }
        case 2: case 3: { size_t k = d(); auto a = expr(R, k, depth - 1), b = expr(k, C, depth - 1); step("*"); return mk(a.first * b.first, mmul<T>(a.second, b.second), "product"); }
        case 4: { auto a = expr(R, C, depth - 1); T s = sc(); step("*s"); return mk(a.first * s, map(a.second, [s](T x) { return x * s; }), "scale"); }
        case 5: { auto a = expr(R, C, depth - 1); T s = sc(); step("s*"); return mk(s * a.first, map(a.second, [s](T x) { return x * s; }), "scale-left"); }
        case 6: { auto a = expr(R, C, depth - 1); step("/2"); return mk(a.first / T(2), map(a.second, [](T x) { return x / T(2); }), "quotient"); }
        case 7: case 8: { auto a = expr(C, R, depth - 1); step("trn"); return mk(linalg::transpose(a.first), mtrans(a.second), "transpose"); }
        case 9: {
            if (R < 2) break;
            size_t k = 1 + r.below(R - 1);
            auto a = expr(k, C, depth - 1), b = expr(R - k, C, depth - 1);
            step("vst");
            Mod<T> o(R, C);
            std::copy(a.second.d.begin(), a.second.d.end(), o.d.begin());
            std::copy(b.second.d.begin(), b.second.d.end(), o.d.begin() + static_cast<long>(k * C));
            return mk(utility::vstack(a.first, b.first), std::move(o), "vstack");
        }
        case 10: {
            if (C < 2) break;
            size_t k = 1 + r.below(C - 1);
            auto a = expr(R, k, depth - 1), b = expr(R, C - k, depth - 1);
            step("hst");
            Mod<T> o(R, C);
            for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) o(i, j) = j < k ? a.second(i, j) : b.second(i, j - k);
            return mk(utility::hstack(a.first, b.first), std::move(o), "hstack");
        }
        case 11: { auto a = expr(R, C, depth - 1), b = expr(R, C, depth - 1); step(".*"); return mk(element_wise_product(a.first, b.first), zip(a.second, b.second, [](T x, T y) { return x * y; }), "element-wise"); }
        case 12: { auto a = expr(R, C, depth - 1), b = expr(R, C, depth - 1); T x = sc(), y = sc(); step("lin"); return mk(linear_combination(a.first, x, b.first, y), zip(a.second, b.second, [x, y](T p, T q) { return p * x + q * y; }), "linear-combination"); }
        case 13: {
            auto a = expr(R + 1, C + 1, depth - 1);
            size_t p = r.below(R + 1), q = r.below(C + 1);
            step("cof");
            Mod<T> o(R, C);
            for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) o(i, j) = a.second(i + (i >= p), j + (j >= q));
            if (R == C && r.chance(1, 2)) return mk(linalg::cofactor(a.first, p, q), std::move(o), "cofactor");
            CofactorView<Matrix<T>> V(&a.first, p, q);
            return mk(Matrix<T>(V), std::move(o), "cofactor-view");
        }
        case 14: {
            if (R != C || R > 6) break;
            auto a = leaf(R, R);
            size_t n = r.below(3);
            step("pow");
            Mod<T> o = meye<T>(R);
            for (size_t i = 0; i < n; ++i) o = mmul<T>(o, a.second);
            return mk(linalg::powm(a.first, n), std::move(o), "power");
        }
        case 15: { auto a = expr(R, C, depth - 1); T s = sc(); step("+s"); return mk(a.first + s, map(a.second, [s](T x) { return x + s; }), "scalar-sum"); }
        case 16: {
            // A matrix-vector product, as a column.
            if (C != 1) break;
            size_t k = d();
            auto a = expr(R, k, depth - 1), b = expr(k, 1, depth - 1);
            step("A*x");
            Vector<T> x = utility::to_vector(b.first);
            return mk(utility::to_matrix(a.first * x, false), mmul<T>(a.second, b.second), "matrix-vector");
        }
        case 17: {
            // By way of a diagonal matrix.
            if (R != C) break;
            auto a = expr(R, R, depth - 1);
            step("dia");
            Mod<T> o(R, R);
            for (size_t i = 0; i < R; ++i) o(i, i) = a.second(i, i);
            return mk(utility::diag(utility::diag(a.first)), std::move(o), "diagonal");
        }
        case 18: {
            // By way of a view of a temporary that lives long enough.
            auto a = expr(R + 1, C, depth - 1), b = expr(R, C, depth - 1);
            step("v+m");
            auto V = utility::view(a.first, 1, R + 1, 0, C);
            return mk(V + b.first, zip(win(a.second, 1, 0, R, C), b.second, [](T x, T y) { return x + y; }), "view-sum");
        }
        default: {
            auto a = expr(R, C, depth - 1);
            step("map");
            return mk(element_wise_function(a.first, [](T x) { return T(1) - x; }), map(a.second, [](T x) { return T(1) - x; }), "map");
        }
        }
        return leaf(R, C);
    }
    // Reductions and predicates of a live object, against the definitions.
    void reduce(size_t i)
    {
        const Matrix<T> &K = m[i];
        const Mod<T> &a = w[i];
        const size_t R = a.R, C = a.C;
        if (a.size() == 0) return;
        step("reduce");
        switch (r.range(0, 5)) {
        case 0:
            if (R == C) {
                T g = linalg::determinant(K);
                CL want = rdet(wide(a));
                using Q = malg::is_complex_t<T>;
                LD tol = 64.0L * static_cast<LD>(R * R) * std::numeric_limits<Q>::epsilon() * row_prod(a);
                VF_CHECK(std::abs(conv<CL>(g) - want) <= tol, "reduce-determinant", "got " << g << " want " << conv<cd>(want) << " of " << show(a) << " after " << text);
                vf::hit(std::abs(want) > tol ? "reduce.regular" : "reduce.singular");
            }
            break;
        case 1: { T t(0); for (size_t k = 0; k < std::min(R, C); ++k) t += a(k, k); if (R == C) VF_CHECK(malg::trace(K) == t, "reduce-trace", malg::trace(K) << " of " << show(a) << " after " << text); break; }
        case 2: { bool sy = R == C; for (size_t p = 0; sy && p < R; ++p) for (size_t q = 0; q < C; ++q) if (!(a(p, q) == a(q, p))) sy = false;
            if (R == C && !is_cx<T>) VF_CHECK(static_cast<bool>(utility::is_symmetric(K)) == sy, "reduce-symmetric", show(a) << " after " << text); break; }
        case 3: { bool z = true, k = true; for (auto &x : a.d) { if (!(x == T(0))) z = false; if (!(x == a.d[0])) k = false; }
            VF_CHECK(static_cast<bool>(utility::is_zero(K)) == z && static_cast<bool>(utility::is_constant(K)) == k, "reduce-constant", show(a) << " after " << text); break; }
        case 4: { Vector<T> v = utility::ravel(K); T t(0); for (auto &x : a.d) t += x; VF_CHECK(malg::sum(v) == t, "reduce-sum", malg::sum(v) << " of " << show(a) << " after " << text); break; }
        default: if constexpr (!is_cx<T>) { size_t n = 0; for (auto &x : a.d) n += !(x == T(0)); VF_CHECK(utility::flatnonzero(K).size() == n, "reduce-nonzero", show(a) << " after " << text); } break;
        }
        vf::hit("reductions");
    }
    // Work whose results are not looked at here: it must not change what follows.
    void noise()
    {
        size_t i = r.below(m.size());
        const Matrix<T> &K = m[i];
        if (K.rows() > 6 || K.cols() > 6) return;
        if (r.chance(1, 2)) { reduce(i); return; }
        step("noise");
        switch (r.range(0, 6)) {
        case 0: if (K.rows() == K.cols()) (void)linalg::determinant(K); break;
        case 1: if (K.rows() == K.cols()) (void)linalg::inverse(K); break;
        case 2: if constexpr (!is_cx<T>) (void)linalg::qr_decomposition(K); break;
        case 3: if (K.rows() == K.cols()) (void)linalg::expm(K / T(64), 1e-4); break;
        case 4: { std::ostringstream o; o << K; } break;
        case 5: (void)utility::is_symmetric(K); (void)(K == K); break;
        default: try { (void)(K * Matrix<T>(K.cols() + 1, 2, T(1))); VF_CHECK(false, "noise-accepted", show(K)); } catch (const std::exception &) { vf::hit("refused"); } break;
        }
    }
    void statement()
    {
        size_t i = r.below(m.size());
        size_t R = w[i].R, C = w[i].C;
        int depth = static_cast<int>(r.range(1, 3));
        switch (r.range(0, 16)) {
        case 0: case 1: case 2: case 3: { auto e = expr(d(), d(), depth); step("=;"); if (r.chance(1, 2)) m[i] = e.first; else m[i] = std::move(e.first); w[i] = e.second; break; }
        case 4: { auto e = expr(R, C, depth); step("+=;"); m[i] += e.first; w[i] = zip(w[i], e.second, [](T x, T y) { return x + y; }); break; }
        case 5: { auto e = expr(C, C, 1); step("*=;"); m[i] *= e.first; w[i] = mmul<T>(w[i], e.second); break; }
        case 6: {
            size_t a = 1 + r.below(R), b = 1 + r.below(C), r0 = r.below(R - a + 1), c0 = r.below(C - b + 1);
            auto e = expr(a, b, depth);
            step("v=;");
            auto V = utility::view(m[i], r0, r0 + a, c0, c0 + b);
            if (r.chance(1, 2)) V = e.first; else { V -= e.first; e.second = zip(win(w[i], r0, c0, a, b), e.second, [](T x, T y) { return x - y; }); }
            for (size_t p = 0; p < a; ++p) for (size_t q = 0; q < b; ++q) w[i](r0 + p, c0 + q) = e.second(p, q);
            break;
        }
        case 7: { size_t a = r.below(R), b = r.below(R); step("swr;"); utility::swap_rows(m[i], a, b); for (size_t q = 0; q < C; ++q) std::swap(w[i].d[a * C + q], w[i].d[b * C + q]); break; }
        case 8: { size_t a = r.below(C), b = r.below(C); step("swc;"); utility::swap_cols(m[i], a, b); for (size_t q = 0; q < R; ++q) std::swap(w[i].d[q * C + a], w[i].d[q * C + b]); break; }
        case 9: {
            if (R < 2) break;
            size_t a = r.below(R);
            step("rmr;");
            utility::remove_row(m[i], a);
            w[i].d.erase(w[i].d.begin() + static_cast<long>(a * C), w[i].d.begin() + static_cast<long>((a + 1) * C));
            --w[i].R;
            break;
        }
        case 10: {
            size_t a = d(), b = d();
            step("rsz;");
            m[i].resize(a, b);
            Mod<T> o(a, b);
            for (size_t p = 0; p < a; ++p) for (size_t q = 0; q < b; ++q) o(p, q) = p < R && q < C ? w[i](p, q) : m[i](p, q);
            // New elements have the default value.
            for (size_t p = 0; p < a; ++p) for (size_t q = 0; q < b; ++q) if (!(p < R && q < C)) { VF_CHECK(m[i](p, q) == T(0), "resized-element", show(m[i]) << " after " << text); }
            w[i] = o;
            break;
        }
        case 11: { size_t a = r.below(R); T s = sc(); step("row;"); auto V = utility::row(m[i], a); V *= s; for (size_t q = 0; q < C; ++q) w[i](a, q) = w[i](a, q) * s; break; }
        case 13: { if (R < 2) break; size_t a = r.below(R), b = r.below(R); step("dup;"); T k = r.chance(1, 3) ? T(0) : T(1); for (size_t q = 0; q < C; ++q) { m[i](a, q) = m[i](b, q) * k; w[i](a, q) = w[i](b, q) * k; } break; }
        case 12: { step("std::swap;"); size_t j = r.below(m.size()); std::swap(m[i], m[j]); std::swap(w[i], w[j]); break; }
        default: noise(); break;
        }
        for (size_t j = 0; j < m.size(); ++j) {
            VF_CHECK(equals(m[j], w[j]), "program-state", "object " << j << " is " << show(m[j]) << " want " << show(w[j]) << " after " << text);
            if (!tame(w[j]) || w[j].size() == 0) { w[j] = fresh(d(), d()); m[j] = mat(w[j]); vf::hit("refreshed"); }
        }
        h = vf::mix(h ^ w[i].hash());
    }
};
template <typename T>
void program(Rng &r)
{
    Program<T> p(r);
    int n = static_cast<int>(r.range(6, 20));
    for (int k = 0; k < n; ++k) { vf::op("program"); p.statement(); }
    vf::note(p.h);
    vf::hit("nodes", static_cast<u64>(p.nodes));
    if (vf::st().samples.size() < 3) vf::sample(p.text);
}

// A set of inputs that is hard to tell from another: all the values a little off, or a few
// of them changed or exchanged (same shapes, same first and last elements, same sums).
template <typename T>
std::unique_ptr<Inputs<T>> neighbour(Rng &r, const Inputs<T> &x)
{
    std::unique_ptr<Inputs<T>> q(new Inputs<T>(x));
    static const double E[] = { 1e-2, 1e-4, 1e-6, 1e-9, 1e-12 };
    const double e = E[r.below(5)];
    const bool scale = !std::is_integral_v<T> && r.chance(1, 2);
    const bool one = r.chance(1, 3);
    auto edit = [&](auto &X, bool any) {
        using U = std::decay_t<decltype(X[0])>;
        const size_t n = X.size();
        if (!n) return;
        if constexpr (!std::is_integral_v<U>) {
            if (scale) {
                using Q = malg::is_complex_t<U>;
                if (one) { auto &y = X[r.below(n)]; y = y * static_cast<Q>(1 + e); }
                else for (size_t i = 0; i < n; ++i) X[i] = X[i] * static_cast<Q>(1 + e * r.real(-1, 1));
                return;
            }
        }
        if (!any) return;
        if (n < 4) { X[n / 2] = X[n / 2] + U(1); return; }
        const size_t i = 1 + r.below(n - 2), j = 1 + r.below(n - 2);
        if (r.chance(1, 2)) std::swap(X[i], X[j]);
        else { X[i] = X[i] + U(1); X[j] = X[j] - U(1); }
    };
    edit(q->A, false); edit(q->B, true); edit(q->C, true); edit(q->D, true); edit(q->AI, true); edit(q->col, false); edit(q->tall, false); edit(q->wide, false);
    edit(q->v, false); edit(q->w, true); edit(q->vc, true); edit(q->vr, true); edit(q->rt, true); edit(q->tri, false); edit(q->hes, false); edit(q->poles, false);
    edit(q->sys.A, false); edit(q->sys.B, true); edit(q->sys.C, true); edit(q->sys.D, true); edit(q->dsys.A, false); edit(q->dsys.B, true); edit(q->x0, true);
    return q;
}
// A request that is refused: it must leave nothing behind.
template <typename T>
void refused_request(Rng &r)
{
    const size_t a = static_cast<size_t>(r.range(1, 4)), b = a + static_cast<size_t>(r.range(1, 3));
    const Matrix<T> W = mat(imod<T>(r, a, b)), Z = mat(imod<T>(r, b + 1, a));
    const Vector<T> v = vec(ivec<T>(r, b + 1));
    auto refused = [&](const char *name, auto f) {
        vf::op(name);
        bool thrown = false;
        std::ostringstream log;
        auto *old = std::cerr.rdbuf(log.rdbuf());
        try { f(); } catch (const std::exception &) { thrown = true; }
        std::cerr.rdbuf(old);
        if (thrown) vf::hit(std::string("refused.") + name);
    };
    switch (r.range(0, 15)) {
    case 0: case 1: refused("inverse", [&] { (void)linalg::inverse(W); }); break;
    case 2: refused("determinant", [&] { (void)linalg::determinant(W); }); break;
    case 3: refused("adjoint", [&] { (void)linalg::adjoint(W); }); break;
    case 4: refused("product", [&] { (void)(W * W); }); break;
    case 5: refused("sum", [&] { (void)(W + Z); }); break;
    case 6: refused("matrix-vector", [&] { (void)(W * v); }); break;
    case 7: refused("vstack", [&] { (void)utility::vstack(W, Z); }); break;
    case 8: refused("hstack", [&] { (void)utility::hstack(W, Z); }); break;
    case 9: refused("all-close", [&] { (void)utility::all_close(W, Z); }); break;
    case 10: refused("element-wise", [&] { (void)element_wise_product(W, Z); }); break;
    case 11: refused("cofactor", [&] { (void)linalg::cofactor(W, a, b); }); break;
    case 12: if constexpr (std::is_floating_point_v<T>) refused("controllability", [&] { (void)control::ctrb(W, Z); }); break;
    case 13: if constexpr (std::is_floating_point_v<T>) refused("poly", [&] { (void)control::poly(mat(imod<T>(r, b, b + 1))); }); break;
    case 14: refused("zeros", [&] { (void)utility::zeros<T>(0, a); }); break;
    default: refused("remove-row", [&] { Matrix<T> M(W); utility::remove_row(M, a); }); break;
    }
}
// Every operation is a function of its operands: run on several inputs of the same and of
// different sizes, in order, then again in another order, the results agree bit by bit.
template <typename T>
void repeat(Rng &r)
{
    const auto &table = ops<T>();
    std::vector<std::unique_ptr<Inputs<T>>> in;
    size_t n = static_cast<size_t>(r.range(2, 5));
    const size_t K = static_cast<size_t>(r.range(2, 4));
    const bool near = r.chance(1, 2);
    for (size_t k = 0; k < K; ++k) {
        if (near && k && r.chance(2, 3)) { in.push_back(neighbour(r, *in[r.below(k)])); vf::hit("neighbouring-inputs"); continue; }
        if (r.chance(1, 4)) n = static_cast<size_t>(r.range(2, 5));
        in.emplace_back(new Inputs<T>(r, n, dim(r, false, 6), dim(r, false, 6)));
    }
    struct Run { size_t op, k; u64 bits; };
    std::vector<Run> runs;
    const bool few = r.chance(1, 2);
    const size_t base = r.below(table.size());
    size_t count = static_cast<size_t>(r.range(6, 20));
    u64 h = 0;
    for (size_t i = 0; i < count; ++i) {
        size_t o = few ? (base + r.below(2)) % table.size() : r.below(table.size());
        if (table[o].flags & RANDOM) continue;
        runs.push_back({ o, r.below(K), 0 });
    }
    std::vector<u64> prints;
    for (auto &x : in) { prints.push_back(x->print()); h = vf::mix(h ^ prints.back()); }
    std::string names;
    for (auto &q : runs) { Sink s; vf::op(table[q.op].name); table[q.op].fn(*in[q.k], s); q.bits = s.bits; VF_CHECK(!s.inconsistent, std::string("inconsistent-") + table[q.op].name, ""); names += std::string(table[q.op].name) + "#" + std::to_string(q.k) + " "; }
    for (size_t i = runs.size(); i-- > 1;) std::swap(runs[i], runs[r.below(i + 1)]);
    // The second time, the last execution before may have been on unrelated operands.
    std::unique_ptr<Inputs<T>> other(new Inputs<T>(r, r.chance(1, 2) ? in[0]->n : static_cast<size_t>(r.range(2, 5)), in[0]->R, in[0]->Cn));
    const auto bound = feq::tolerance();
    for (auto &q : runs) {
        Sink s;
        if (r.chance(1, 3)) { refused_request<T>(r); VF_CHECK(feq::tolerance() == bound, "refused-leaves-bound", "the comparison bound is " << feq::tolerance() << ", was " << bound); }
        if (r.chance(1, 2)) { Sink unrelated; table[q.op].fn(*other, unrelated); vf::hit("unrelated-before"); }
        vf::op(table[q.op].name);
        table[q.op].fn(*in[q.k], s);
        VF_CHECK(s.bits == q.bits, std::string("repeat-") + table[q.op].name, "another result the second time, on input " << q.k << " after " << names);
        // A copy of the operands, at another address, gives the same result.
        if (r.chance(1, 4)) {
            const std::unique_ptr<Inputs<T>> c(new Inputs<T>(*in[q.k]));
            Sink t;
            table[q.op].fn(*c, t);
            VF_CHECK(t.bits == q.bits, std::string("repeat-copy-") + table[q.op].name, "another result on a copy of input " << q.k << " after " << names);
        }
        h = vf::mix(h ^ q.bits);
    }
    for (size_t k = 0; k < K; ++k) VF_CHECK(in[k]->print() == prints[k], "inputs-modified", names);
    vf::hit("repeated-operations", runs.size());
    vf::note(h);
    if (r.chance(1, 50)) vf::sample(names);
}
// Functions of an object that is changed in place: after each change, the value is the one
// that an equal object at another address gives.
template <typename T>
void in_place(Rng &r)
{
    const size_t n = static_cast<size_t>(r.range(2, 7));
    Mod<T> a = imod<T>(r, n, n, -4, 4);
    for (size_t i = 0; i < n; ++i) a(i, i) = T(static_cast<int>(2 * n + 3 + i));
    std::unique_ptr<Matrix<T>> A(new Matrix<T>(mat(a)));
    Vector<T> v = vec(ivec<T>(r, n, 1, 5));
    using F = void (*)(const Matrix<T> &, const Vector<T> &, Sink &);
    static const std::vector<std::pair<const char *, F>> fs = [] {
        std::vector<std::pair<const char *, F>> f;
        auto add = [&](const char *q, F g) { f.push_back({ q, g }); };
        add("determinant", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { if (std::is_integral_v<T> && K.rows() > 4) return; s.exact(linalg::determinant(K)); });
        add("adjoint", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { if (K.rows() > (std::is_integral_v<T> ? 5u : 6u)) return; s.exact(linalg::adjoint(K)); });
        add("trace", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { s.exact(malg::trace(K)); });
        add("transpose", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { s.exact(linalg::transpose(K)); });
        add("power", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { if (std::is_integral_v<T>) s.exact(linalg::powm(K, 2)); else s.exact(linalg::powm(K, 5)); });
        add("product", [](const Matrix<T> &K, const Vector<T> &x, Sink &s) { s.exact(K * x); s.exact(K * K); });
        add("predicates", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { s.exact(static_cast<int>(utility::is_symmetric(K))); s.exact(static_cast<int>(utility::is_zero(K))); s.exact(static_cast<int>(utility::is_identity(K))); s.exact(static_cast<int>(utility::is_constant(K))); s.exact(K == K); });
        add("text", [](const Matrix<T> &K, const Vector<T> &x, Sink &s) { std::ostringstream o; o << K << x; s.exact(o.str()); });
        if constexpr (!std::is_integral_v<T>) {
            add("norms", [](const Matrix<T> &K, const Vector<T> &x, Sink &s) { s.exact(malg::square_norm(K)); s.exact(malg::infinity_norm(K)); s.exact(malg::infinity_norm(x)); s.exact(malg::log2_ceil(K)); });
            add("inverse", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { if (K.rows() > 6) return; s.exact(linalg::inverse(K)); });
            add("expm", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { s.exact(linalg::expm(K / T(64), 1e-6)); });
        }
        if constexpr (std::is_floating_point_v<T>) {
            add("exp", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { s.exact(linalg::exp(K / T(8))); });
            add("qr", [](const Matrix<T> &K, const Vector<T> &, Sink &s) { auto p = linalg::qr_decomposition(K); s.exact(p.first); s.exact(p.second); });
            add("poly", [](const Matrix<T> &K, const Vector<T> &x, Sink &s) { if (K.rows() > 5) return; s.exact(control::poly(K)); s.exact(control::polyreduce(x)); });
        }
        if constexpr (!is_cx<T>) add("find", [](const Matrix<T> &K, const Vector<T> &x, Sink &s) { s.exact(utility::find(K)); s.exact(malg::max(K)); s.exact(malg::min(x)); });
        return f;
    }();
    const auto &f = fs[r.below(fs.size())];
    const size_t steps = static_cast<size_t>(r.range(4, 10));
    Mod<T> saved = a;
    u64 h = a.hash();
    std::string hist;
    struct Past { Mod<T> a; Vector<T> v; u64 bits; std::string hist; };
    std::vector<Past> past;
    const bool late = r.chance(2, 3);
    auto compare = [&](const Past &x) {
        Sink t;
        const std::unique_ptr<Matrix<T>> B(new Matrix<T>(mat(x.a)));
        f.second(*B, x.v, t);
        VF_CHECK(x.bits == t.bits, std::string("in-place-") + f.first, "another value than an equal matrix gives, after " << x.hist << " now " << show(x.a));
        if (f.first == fs[0].first && !(std::is_integral_v<T> && n > 4)) {
            using Q = std::conditional_t<std::is_integral_v<malg::is_complex_t<T>>, double, malg::is_complex_t<T>>;
            const CL want = rdet(wide(x.a)), got = conv<CL>(linalg::determinant(*B));
            VF_CHECK(std::abs(got - want) <= 64.0L * static_cast<LD>(n * n) * std::numeric_limits<Q>::epsilon() * row_prod(x.a), "in-place-value", "got " << conv<cd>(got) << " want " << conv<cd>(want) << " after " << x.hist << " now " << show(x.a));
        }
    };
    for (size_t k = 0; k < steps; ++k) {
        const size_t i = r.below(n), j = r.below(n), q = r.below(n);
        switch (r.range(0, 7)) {
        case 0: hist += "element "; a(i, j) = ival<T>(r, -4, 4); break;
        case 1: hist += "zero-row "; for (size_t c = 0; c < n; ++c) a(i, c) = T(0); break;
        case 2: hist += "dup-row "; for (size_t c = 0; c < n; ++c) a(i, c) = a(q, c); break;
        case 3: hist += "restore "; a = saved; break;
        case 4: hist += "zero-interior "; if (n > 2) { size_t y = 1 + r.below(n - 2); for (size_t c = 0; c < n; ++c) a(y, c) = T(0); } break;
        case 5: hist += "vector "; v[i] = ival<T>(r, 1, 5); break;
        case 6: hist += "sub-diagonal "; for (size_t y = 1; y < n; ++y) a(y, y - 1) = ival<T>(r, -4, 4); break;
        default: hist += "swap "; for (size_t c = 0; c < n; ++c) std::swap(a(i, c), a(q, c)); break;
        }
        for (size_t y = 0; y < n; ++y) for (size_t x = 0; x < n; ++x) (*A)(y, x) = a(y, x);
        Sink s;
        vf::op(f.first);
        f.second(*A, v, s);
        check_eq(*A, a, "in-place-modified", hist);
        past.push_back({ a, v, s.bits, hist });
        // The comparison with equal objects comes at once, or after all the changes.
        if (!late || k + 1 == steps) { for (auto &x : past) compare(x); past.clear(); }
        h = vf::mix(h ^ a.hash());
    }
    vf::hit(std::string("in-place.") + f.first);
    vf::note(h);
}
SCENARIO(in_place_changes, 4) { switch (r.range(0, 3)) { case 0: case 1: in_place<double>(r); break; case 2: in_place<cd>(r); break; default: in_place<int>(r); } }
// Scalar helpers.
SCENARIO(scalars, 1)
{
    long n = r.range(-3, 20);
    long f = 1;
    for (long k = 2; k <= n; ++k) f *= k;
    VF_CHECK(linalg::factorial<long>(n) == f, "factorial", n << "! gives " << linalg::factorial<long>(n));
    if (n <= 12) VF_CHECK(linalg::factorial<int>(static_cast<int>(n)) == static_cast<int>(f), "factorial-int", n);
    VF_CHECK(linalg::factorial<double>(static_cast<double>(n)) == static_cast<double>(f), "factorial-double", n);
    VF_CHECK(utility::basis<double>() == 2 && utility::basis<float>() == 2, "basis", utility::basis<double>());
    size_t a = dim(r, false, 12), b = dim(r, false, 12), c = dim(r, false, 12);
    control::StateSpace<double> s(mat(imod<double>(r, a, a)), mat(imod<double>(r, a, b)), mat(imod<double>(r, c, a)), mat(imod<double>(r, c, b)));
    check_eq(control::generate_state_zero(s), std::vector<double>(a, 0.0), "zero-state");
    check_eq(control::generate_input_zero(s), std::vector<double>(b, 0.0), "zero-input");
    vf::note(static_cast<u64>(n + 3) * 7919 + a * 97 + b * 13 + c);
}
SCENARIO(programs_double, 5) { Grained g(r.chance(1, 2) ? QUARTERS : WHOLE); program<double>(r); }
SCENARIO(programs_complex, 3) { program<cd>(r); }
SCENARIO(programs_long_double, 1) { program<long double>(r); }
SCENARIO(repeats, 4) { switch (r.range(0, 3)) { case 0: case 1: repeat<double>(r); break; case 2: repeat<cd>(r); break; default: repeat<int>(r); } }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
