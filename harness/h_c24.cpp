// C24: polynomials.
#include "ref.hpp"
using namespace malg;

// Expands the product of (x - root).
template <typename W, typename T> std::vector<W> expand(const std::vector<T> &roots)
{
    std::vector<W> c{ W(1) };
    for (auto &x : roots) {
        std::vector<W> d(c.size() + 1, W(0));
        for (size_t i = 0; i < c.size(); ++i) { d[i] += c[i]; d[i + 1] -= c[i] * conv<W>(x); }
        c = d;
    }
    return c;
}
template <typename T> void roots(Rng &r)
{
    size_t n = r.chance(1, 10) ? 0 : static_cast<size_t>(r.range(1, 8));
    std::vector<T> v = ivec<T>(r, n, -6, 6);
    if constexpr (std::is_unsigned_v<T>) if (r.chance(1, 2)) for (auto &x : v) x = static_cast<T>(r.next()); // modulo 2^64
    if (n && r.chance(1, 4)) v[r.below(n)] = T(0);
    if (n > 1 && r.chance(1, 4)) v[0] = v[n - 1];
    auto w = expand<T>(v);
    vf::note(vhash(v));
    if (vf::st().samples.size() < 2) vf::sample("roots " + show(v) + " -> " + show(w));
    const Vector<T> V = vec(v);
    vf::op("poly of a vector");
    check_eq(control::poly(V), w, "vector", show(v));
    check_eq(V, v, "vector-modified");
    if (n == 0) { vf::hit("no-roots"); return; }
    Mod<T> row(1, n), col(n, 1);
    row.d = v;
    col.d = v;
    Operand<T> R(r, row), C(r, col);
    vf::op("poly of a row");
    check_eq(control::poly(R.get()), w, "row", std::string(R.kname()) + show(v));
    vf::op("poly of a column");
    check_eq(control::poly(C.get()), w, "column", std::string(C.kname()) + show(v));
    PURE(R);
    PURE(C);
}
// The exponent of a unit that keeps all the coefficients in range.
static int unit(Rng &r, size_t n) { const int e = r.chance(1, 2) ? 0 : static_cast<int>(r.range(-900, 900)) / static_cast<int>(n); if (e) vf::hit(e < 0 ? "unit.small" : "unit.large"); return e; }
template <typename T> void roots_real(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 7));
    std::vector<T> v = rvec<T>(r, n, -2, 2);
    vf::note(vhash(v));
    auto w = expand<CL>(v);
    LD s = 1;
    for (auto &x : v) s *= 1 + std::abs(conv<CL>(x));
    // The same roots in another unit: the i-th coefficient scales with the i-th power.
    const int e2 = unit(r, n);
    auto u = v;
    for (auto &x : u) x = x * static_cast<malg::is_complex_t<T>>(std::ldexp(1.0, e2));
    auto g = control::poly(vec(u));
    for (size_t i = 0; i < g.size() && i <= n; ++i) g[i] = g[i] * static_cast<malg::is_complex_t<T>>(std::ldexp(1.0, -e2 * static_cast<int>(i)));
    double e = 0;
    VF_CHECK(g.size() == n + 1, "real-size", show(v));
    for (size_t i = 0; i < g.size() && i <= n; ++i) e = worse(e, static_cast<double>(std::abs(conv<CL>(g[i]) - w[i])));
    VF_CHECK(e <= static_cast<double>(64.0L * static_cast<LD>(n) * 2.3e-16L * s), "real-roots", "error " << e << " on " << show(v));
    // Each root is a root.
    for (auto &x : v) {
        CL p(0);
        for (size_t i = 0; i < g.size(); ++i) p = p * conv<CL>(x) + conv<CL>(g[i]);
        LD b = 0;
        for (size_t i = 0; i < g.size(); ++i) b = b * std::abs(conv<CL>(x)) + std::abs(conv<CL>(g[i]));
        VF_CHECK(std::abs(p) <= 1e-12L * (b + s), "not-a-root", x << " of " << show(v));
    }
}
// Characteristic polynomial, exactly: Faddeev-LeVerrier over 128-bit integers.
template <typename T> std::vector<__int128> charpoly(const Mod<T> &m)
{
    const size_t n = m.R;
    std::vector<std::vector<__int128>> A(n, std::vector<__int128>(n)), M(n, std::vector<__int128>(n, 0));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A[i][j] = static_cast<__int128>(m(i, j));
    std::vector<__int128> c(n + 1, 0);
    c[0] = 1;
    for (size_t k = 1; k <= n; ++k) {
        // M = A*M + c[k-1] I ; c[k] = -tr(A*M)/k
        std::vector<std::vector<__int128>> X(n, std::vector<__int128>(n, 0));
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { for (size_t q = 0; q < n; ++q) X[i][j] += A[i][q] * M[q][j]; if (i == j) X[i][j] += c[k - 1]; }
        M = X;
        __int128 t = 0;
        for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < n; ++q) t += A[i][q] * M[q][i];
        c[k] = -t / static_cast<__int128>(k);
    }
    return c;
}
template <typename T> void characteristic(Rng &r)
{
    size_t n = static_cast<size_t>(r.chance(1, 4) ? r.range(7, 13) : r.range(1, 6));
    Mod<T> m = n > 6 ? imod<T>(r, n, n, -1, 1) : imod<T>(r, n, n, -4, 4);
    if (n > 6) { // sparse, so that everything stays exact
        for (auto &x : m.d) if (r.chance(1, 2)) x = T(0);
        if (r.chance(1, 3)) { m = Mod<T>(n, n); for (size_t i = 0; i < n; ++i) m(i, i) = T(r.range(-2, 2)); }
        if (r.chance(1, 3)) { m = Mod<T>(n, n); for (size_t i = 0; i + 1 < n; ++i) m(i, i + 1) = T(1); for (size_t j = 0; j < n; ++j) m(n - 1, j) = T(r.range(-3, 3)); vf::hit("companion"); }
    }
    if (r.chance(1, 4)) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = T(0);
    Operand<T> A(r, m);
    vf::note(m.hash() * 3 + static_cast<u64>(A.kind));
    auto w = charpoly(m);
    vf::op("poly of a matrix");
    auto g = control::poly(A.get());
    bool ok = g.size() == n + 1;
    for (size_t i = 0; ok && i <= n; ++i) {
        LD d = std::fabs(static_cast<LD>(g[i]) - static_cast<LD>(w[i]));
        ok = std::is_integral_v<T> ? d == 0 : d <= 1e-9L * (1 + std::fabs(static_cast<LD>(w[i]))) + 1e-8L * 0;
    }
    VF_CHECK(ok, "characteristic", "got " << show(g) << " on " << A.kname() << " " << show(m));
    if (vf::st().samples.size() < 4) vf::sample(show(m) + " -> " + show(g));
    // The matrix satisfies its polynomial.
    if (ok) {
        Mod<LD> P(n, n), I = meye<LD>(n), X = cmod<LD>(m);
        LD s = 1;
        for (size_t i = 0; i <= n; ++i) { P = mmul<LD>(P, X); for (size_t k = 0; k < P.d.size(); ++k) P.d[k] += static_cast<LD>(g[i]) * I.d[k]; s *= 1 + static_cast<LD>(maxabs(m)) * static_cast<LD>(n); }
        VF_CHECK(maxabs(P) <= 1e-9 * static_cast<double>(s), "cayley-hamilton", show(P) << " on " << show(m));
    }
    PURE(A);
    vf::hit("characteristic." + std::to_string(n));
}
template <typename T> void characteristic_real(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(2, 5));
    Mod<T> m = rmod<T>(r, n, n, -2, 2);
    const int e2 = unit(r, n);
    Mod<T> scaled = m;
    for (auto &x : scaled.d) x = x * static_cast<malg::is_complex_t<T>>(std::ldexp(1.0, e2));
    Operand<T> A(r, scaled);
    vf::note(m.hash() * 5);
    // Wide Faddeev-LeVerrier.
    ML X = wide(m), M(n, n);
    std::vector<CL> c(n + 1, CL(0));
    c[0] = 1;
    for (size_t k = 1; k <= n; ++k) {
        M = mmul<CL>(X, M);
        for (size_t i = 0; i < n; ++i) M(i, i) += c[k - 1];
        ML Y = mmul<CL>(X, M);
        CL t(0);
        for (size_t i = 0; i < n; ++i) t += Y(i, i);
        c[k] = -t / static_cast<LD>(k);
    }
    vf::op("poly of a matrix");
    auto g = control::poly(A.get());
    for (size_t i = 0; i < g.size() && i <= n; ++i) g[i] = g[i] * static_cast<malg::is_complex_t<T>>(std::ldexp(1.0, -e2 * static_cast<int>(i)));
    LD s = std::pow(1 + mnorm(X), static_cast<LD>(n));
    bool ok = g.size() == n + 1;
    for (size_t i = 0; ok && i <= n; ++i) ok = std::abs(conv<CL>(g[i]) - c[i]) <= 1e-12L * s;
    VF_CHECK(ok, "characteristic-real", "got " << show(g) << " want " << show(c) << " on " << A.kname() << " " << show(m));
    // Similarity to the determinant: constant coefficient is (-1)^n det.
    PURE(A);
}
template <typename T> void reduce(Rng &r)
{
    size_t z = r.below(5), n = z + r.below(6);
    if (r.chance(1, 40)) { vf::hit("long-polynomial"); z = r.chance(1, 2) ? z : 250 + r.below(200); n = z + r.below(400); if (r.chance(1, 8)) { z += 65536 * r.below(2); n += 65536; } }
    std::vector<T> v = ivec<T>(r, n, -3, 3);
    for (size_t i = 0; i < z && i < n; ++i) v[i] = T(0);
    if constexpr (std::is_floating_point_v<T>) if (n && r.chance(1, 4)) v[r.below(n)] = static_cast<T>(1e-300);
    std::vector<T> w;
    size_t j = 0;
    while (j < n && v[j] == T(0)) ++j;
    w.assign(v.begin() + static_cast<long>(j), v.end());
    if (w.empty()) w.push_back(T(0));
    vf::note(vhash(v) * 7);
    const Vector<T> V = vec(v);
    vf::op("polyreduce");
    check_eq(control::polyreduce(V), w, "polyreduce", show(v));
    check_eq(V, v, "polyreduce-modified");
    if (j == n) vf::hit("null-polynomial");
    else if (j) vf::hit("leading-zeros");
}
SCENARIO(edge, 1)
{
    vf::note(r.next());
    Matrix<double> E;
    auto c = control::poly(E);
    check_eq(c, std::vector<double>{ 1 }, "empty-matrix");
    size_t R = static_cast<size_t>(r.range(2, 8)), C = static_cast<size_t>(r.range(2, 8));
    if (R == C) ++C;
    Mod<double> m = imod<double>(r, R, C);
    Operand<double> A(r, m);
    bool threw = false;
    vf::op("poly of a non-square matrix");
    try { auto p = control::poly(A.get()); (void)p; } catch (const std::exception &) { threw = true; }
    VF_CHECK(threw, "non-square", show(m));
    PURE(A);
}
SCENARIO(with_roots, 4) { pick_type(r, [&](auto t) { roots<TYPE_OF(t)>(r); }, Ty<double>(), Ty<long>(), Ty<cd>(), Ty<unsigned long>()); }
SCENARIO(with_real_roots, 2) { if (r.chance(1, 2)) roots_real<double>(r); else roots_real<cd>(r); }
SCENARIO(characteristic_exact, 4) { if (r.chance(1, 2)) characteristic<double>(r); else characteristic<long>(r); }
SCENARIO(characteristic_reals, 2) { if (r.chance(1, 2)) characteristic_real<double>(r); else characteristic_real<cd>(r); }
SCENARIO(reductions, 2) { pick_type(r, [&](auto t) { reduce<TYPE_OF(t)>(r); }, Ty<double>(), Ty<int>(), Ty<float>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
