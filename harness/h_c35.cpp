// C35: positions and windows outside of an object are refused or clamped, in debug and release builds alike.
#include "gen.hpp"
using namespace malg;
static const Large large(300);
static const Long long_cases(80);

template <typename F>
void refused(const char *what, const std::string &ctx, F f)
{
    vf::op(what);
    vf::hit(std::string("refused.") + what);
    bool thrown = false;
    try { f(); } catch (const std::exception &) { thrown = true; }
    VF_CHECK(thrown, std::string("accepted:") + what, ctx);
}
// A position outside of n: just beyond, a little further, or absurd.
static size_t beyond(Rng &r, size_t n)
{
    switch (r.range(0, 7)) {
    case 0: case 1: case 2: return n;
    case 3: return n + 1 + r.below(4);
    case 4: return static_cast<size_t>(-1) - r.below(3);
    case 5: return (static_cast<size_t>(1) << 63) + r.below(3);
    case 6: return (static_cast<size_t>(1) << 32) + r.below(n + 1); // in range when cut to 32 bits
    default: return n + 256 * (1 + r.below(2)) - (n ? r.below(std::min<size_t>(n, 256)) : 0); // in range when cut to 8 bits, or little beyond
    }
}
static std::string str(size_t a, size_t b) { return std::to_string(a) + "," + std::to_string(b); }

// A matrix with guard elements around the window on which the functions work: nothing but the window may change.
template <typename T>
struct Framed {
    Mod<T> store;
    Matrix<T> M;
    Mod<T> window;
    size_t r0, c0;
    Framed(Rng &r, const Mod<T> &w) : window(w), r0(1 + r.below(2)), c0(1 + r.below(2))
    {
        store = imod<T>(r, w.R + r0 + 1, w.C + c0 + 1, -99, 99);
        for (size_t i = 0; i < w.R; ++i) for (size_t j = 0; j < w.C; ++j) store(r0 + i, c0 + j) = w(i, j);
        M = mat(store);
    }
    View<Matrix<T>> view() { return View<Matrix<T>>(&M, Range{ r0, r0 + window.R }, Range{ c0, c0 + window.C }); }
    void check(const std::string &ctx) { VF_CHECK(equals(M, store), "outside-changed", ctx << " got " << show(M) << " want " << show(store)); }
};

// Functions that select one row, column or element.
template <typename T>
void positions(Rng &r)
{
    size_t R = dim(r, true, 10), C = dim(r, true, 10);
    auto a = imod<T>(r, R, C);
    Operand<T> A(r, a);
    auto &P = A.get();
    size_t br = beyond(r, R), bc = beyond(r, C);
    size_t ir = R ? r.below(R) : 0, ic = C ? r.below(C) : 0;
    std::string x = show(a) + " at " + str(br, bc);
    vf::note(a.hash() * 3 + br * 7 + bc);
    refused("cofactor(row)", x, [&] { auto q = linalg::cofactor(P, br, ic); });
    refused("cofactor(column)", x, [&] { auto q = linalg::cofactor(P, ir, bc); });
    refused("cofactor(both)", x, [&] { auto q = linalg::cofactor(P, br, bc); });
    refused("extract(rows)", x, [&] { auto q = utility::extract(P, br); });
    refused("extract(rows,end)", x, [&] { auto q = utility::extract(P, br, br + 1); });
    refused("extract(cols)", x, [&] { auto q = utility::extract(P, 0, R, bc); });
    refused("extract(cols,end)", x, [&] { auto q = utility::extract(P, 0, R, bc, bc + 2); });
    refused("extract_row", x, [&] { auto q = utility::extract_row(P, br); });
    refused("extract_row(start)", x, [&] { auto q = utility::extract_row(P, ir, bc); });
    refused("extract_row(range)", x, [&] { auto q = utility::extract_row(P, ir, bc, bc + 1); });
    refused("extract_column", x, [&] { auto q = utility::extract_column(P, bc); });
    refused("extract_column(start)", x, [&] { auto q = utility::extract_column(P, ic, br); });
    refused("extract_column(range)", x, [&] { auto q = utility::extract_column(P, ic, br, br + 1); });
    if constexpr (!std::is_integral_v<T>) refused("vector_length", x, [&] { auto q = malg::vector_length(P, bc, 0, R); });
    PURE(A);
    // Modifying functions, on matrices and on windows.
    Framed<T> F(r, a);
    auto M = mat(a);
    auto both = [&](const char *what, auto f) {
        refused(what, x, [&] { f(static_cast<MatrixBase<T> &>(M)); });
        check_eq(M, a, "changed", std::string(what) + " " + x);
        if (R && C) {
            auto v = F.view();
            refused(what, x, [&] { f(static_cast<MatrixBase<T> &>(v)); });
            F.check(std::string(what) + " window of " + x);
        }
    };
    both("swap_rows(i)", [&](MatrixBase<T> &m) { utility::swap_rows(m, br, ir); });
    both("swap_rows(j)", [&](MatrixBase<T> &m) { utility::swap_rows(m, ir, br); });
    both("swap_rows(both)", [&](MatrixBase<T> &m) { utility::swap_rows(m, br, br); });
    both("swap_rows(range)", [&](MatrixBase<T> &m) { utility::swap_rows(m, ir, br, ic, C); });
    both("swap_cols(i)", [&](MatrixBase<T> &m) { utility::swap_cols(m, bc, ic); });
    both("swap_cols(j)", [&](MatrixBase<T> &m) { utility::swap_cols(m, ic, bc); });
    both("swap_cols(both)", [&](MatrixBase<T> &m) { utility::swap_cols(m, bc, bc); });
    both("swap_cols(range)", [&](MatrixBase<T> &m) { utility::swap_cols(m, ic, bc, ir, R); });
    refused("remove_row", x, [&] { utility::remove_row(M, br); });
    check_eq(M, a, "changed", "remove_row " + x);
    refused("remove_column", x, [&] { utility::remove_column(M, bc); });
    check_eq(M, a, "changed", "remove_column " + x);
    if (vf::st().samples.size() < 3) vf::sample(x);
}
// Ranges that end beyond the object stop with it; ranges that start beyond it are empty.
template <typename T>
void ranges(Rng &r)
{
    size_t R = dim(r, false, 10), C = dim(r, false, 10);
    auto a = imod<T>(r, R, C);
    size_t br = beyond(r, R), bc = beyond(r, C);
    size_t i = r.below(R), j = r.below(R), k = r.below(C), l = r.below(C);
    size_t sr = r.below(R), sc = r.below(C);
    std::string x = show(a) + " to " + str(br, bc) + " from " + str(sr, sc) + " of " + str(i, j) + " " + str(k, l);
    vf::note(a.hash() * 5 + br * 7 + bc);
    // The exchanged part of a row or a column.
    Framed<T> F(r, a);
    auto M = mat(a);
    auto want = a;
    auto both = [&](const char *what, auto f, auto put) {
        vf::op(what);
        f(static_cast<MatrixBase<T> &>(M));
        check_eq(M, want, what, x);
        auto v = F.view();
        f(static_cast<MatrixBase<T> &>(v));
        for (size_t p = 0; p < R; ++p) for (size_t q = 0; q < C; ++q) F.store(F.r0 + p, F.c0 + q) = want(p, q);
        F.check(std::string(what) + " window of " + x);
        put();
    };
    for (size_t q = sc; q < C; ++q) std::swap(want(i, q), want(j, q));
    both("swap_rows-clamped", [&](MatrixBase<T> &m) { utility::swap_rows(m, i, j, sc, bc); }, [] {});
    both("swap_rows-nothing", [&](MatrixBase<T> &m) { utility::swap_rows(m, i, j, bc); utility::swap_rows(m, i, j, bc, static_cast<size_t>(-1)); utility::swap_rows(m, i, j, sc, sc); utility::swap_rows(m, i, j, sc, sc ? sc - 1 : 0); }, [] {});
    for (size_t p = sr; p < R; ++p) std::swap(want(p, k), want(p, l));
    both("swap_cols-clamped", [&](MatrixBase<T> &m) { utility::swap_cols(m, k, l, sr, br); }, [] {});
    both("swap_cols-nothing", [&](MatrixBase<T> &m) { utility::swap_cols(m, k, l, br); utility::swap_cols(m, k, l, br, static_cast<size_t>(-1)); utility::swap_cols(m, k, l, sr, sr); utility::swap_cols(m, k, l, sr, sr ? sr - 1 : 0); }, [] {});
    // Reading.
    Operand<T> A(r, a);
    auto &P = A.get();
    auto part = [&](size_t r0, size_t r1, size_t c0, size_t c1) { Mod<T> m(r1 - r0, c1 - c0); for (size_t p = r0; p < r1; ++p) for (size_t q = c0; q < c1; ++q) m(p - r0, q - c0) = a(p, q); return m; };
    vf::op("extract");
    check_eq(utility::extract(P, sr, br, sc, bc), part(sr, R, sc, C), "extract-clamped", x);
    check_eq(utility::extract_row(P, sr, sc, bc), part(sr, sr + 1, sc, C).d, "extract_row-clamped", x);
    check_eq(utility::extract_column(P, sc, sr, br), part(sr, R, sc, sc + 1).d, "extract_column-clamped", x);
    if constexpr (!std::is_integral_v<T>) {
        auto full = malg::vector_length(P, sc, sr, R), clamped = malg::vector_length(P, sc, sr, br);
        VF_CHECK(same_val(full, clamped), "vector_length-clamped", clamped << " want " << full << " " << x);
        auto none = malg::vector_length(P, sc, br, static_cast<size_t>(-1)), none2 = malg::vector_length(P, sc, sr, sr);
        VF_CHECK(none == 0 && none2 == 0, "vector_length-nothing", none << " " << none2 << " " << x);
    }
    PURE(A);
}
// Views whose window ends or starts beyond the matrix, used as operands.
template <typename T>
void windows(Rng &r)
{
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    auto a = imod<T>(r, R, C);
    auto M = mat(a);
    const auto &K = M;
    auto pick = [&](size_t n, size_t &s, size_t &e) {
        switch (r.range(0, 4)) {
        case 0: s = beyond(r, n); e = s + 1 + r.below(5); if (e <= s) { s = static_cast<size_t>(-2); e = static_cast<size_t>(-1); } break; // begins beyond
        case 1: s = n; e = static_cast<size_t>(-1); break;
        case 2: s = 0; e = n + 1; break;
        case 3: s = n ? r.below(n) : 0; e = std::max(beyond(r, n), s + 1); break;
        default: s = n ? r.below(n) : 0; e = s + 1 + (n ? r.below(n - s) : 0);
        }
    };
    size_t r0, r1, c0, c1;
    pick(R, r0, r1);
    pick(C, c0, c1);
    auto cl = [](size_t v, size_t n) { return std::min(v, n); };
    Mod<T> w(cl(r1, R) - cl(r0, cl(r1, R)), cl(c1, C) - cl(c0, cl(c1, C)));
    for (size_t p = 0; p < w.R; ++p) for (size_t q = 0; q < w.C; ++q) w(p, q) = a(r0 + p, c0 + q);
    std::string x = "[" + str(r0, r1) + ")x[" + str(c0, c1) + ") of " + show(a);
    vf::note(a.hash() * 7 + r0 + r1 * 3 + c0 * 5 + c1 * 7);
    vf::hit(w.R && w.C ? "window.some" : w.R || w.C ? "window.no-rows-or-columns" : "window.nothing");
    auto use = [&](auto &v, const Mod<T> &w, const char *kind) {
        vf::op(kind);
        VF_CHECK(v.rows() == w.R && v.cols() == w.C && v.size() == w.size() && v.empty() == (w.size() == 0), std::string(kind) + "-shape", x << " is " << v.rows() << "x" << v.cols() << ", " << v.size() << " elements");
        if (v.rows() != w.R || v.cols() != w.C) return;
        check_eq(v, w, (std::string(kind) + "-read").c_str(), x);
        Matrix<T> N(v);
        check_eq(N, w, (std::string(kind) + "-copy").c_str(), x);
        if (w.R && w.C) {
            auto S = v + v;
            auto s = w;
            for (auto &e : s.d) e = e + e;
            check_eq(S, s, (std::string(kind) + "-sum").c_str(), x);
            auto t = linalg::transpose(v);
            check_eq(t, mtrans(w), (std::string(kind) + "-transpose").c_str(), x);
        }
        std::ostringstream o;
        o << v;
        if (!w.size()) VF_CHECK(o.str().find_first_of("0123456789") == std::string::npos, std::string(kind) + "-print", o.str() << " " << x);
    };
    View<Matrix<T>> v(&M, Range{ r0, r1 }, Range{ c0, c1 });
    use(v, w, "view");
    auto cv = K(Range{ r0, r1 }, Range{ c0, c1 });
    use(cv, w, "const-view");
    auto uv = utility::view(M, r0, r1, c0, c1);
    use(uv, w, "utility-view");
    View<View<Matrix<T>>> nested(&v, Range::all(), Range::all());
    use(nested, w, "nested-view");
    size_t n0 = r.below(3), n1 = n0 + 1 + r.below(3), m0 = r.below(3), m1 = m0 + 1 + r.below(3);
    View<View<Matrix<T>>> inner(&v, n0, n1, m0, m1);
    Mod<T> u(cl(n1, w.R) - cl(n0, cl(n1, w.R)), cl(m1, w.C) - cl(m0, cl(m1, w.C)));
    for (size_t p = 0; p < u.R; ++p) for (size_t q = 0; q < u.C; ++q) u(p, q) = w(n0 + p, m0 + q);
    use(inner, u, "inner-view");
    CofactorView<View<Matrix<T>>> cf(&v, 0, 0);
    Mod<T> f(w.R ? w.R - 1 : 0, w.C ? w.C - 1 : 0);
    for (size_t p = 0; p < f.R; ++p) for (size_t q = 0; q < f.C; ++q) f(p, q) = w(p + 1, q + 1);
    use(cf, f, "cofactor-view");
    size_t row = beyond(r, R), col = beyond(r, C);
    if (row != static_cast<size_t>(-1)) { auto rv = utility::row(M, row, c0, c1); use(rv, Mod<T>(0, w.C), "row-view"); }
    if (col != static_cast<size_t>(-1)) { auto kv = utility::col(M, col, r0, r1); use(kv, Mod<T>(w.R, 0), "column-view"); }
    // Writing through the window changes what is left of it and nothing else.
    auto q = imod<T>(r, w.R, w.C, -99, 99);
    v = mat(q);
    for (size_t p = 0; p < w.R; ++p) for (size_t k = 0; k < w.C; ++k) a(r0 + p, c0 + k) = q(p, k);
    check_eq(M, a, "window-write", x);
    if (w.size() == 0) {
        static_cast<MatrixBase<T> &>(v) += T(1);
        static_cast<MatrixBase<T> &>(v) *= T(3);
        check_eq(M, a, "nothing-written", x);
    }
}
SCENARIO(positions, 4) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { positions<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<float>(), Ty<cd>()); }
SCENARIO(ranges, 3) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { ranges<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<float>(), Ty<cd>()); }
SCENARIO(windows, 3) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { windows<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<float>(), Ty<cd>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
