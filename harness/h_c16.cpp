// C16: cofactor, adjoint, inverse and division.
#include "ref.hpp"
using namespace malg;

template <typename T> double tol_for(const Mod<T> &m, const ML &inv)
{
    using R = std::conditional_t<std::is_integral_v<malg::is_complex_t<T>>, double, malg::is_complex_t<T>>;
    // Adjoint over determinant: relative error of the determinant plus absolute error of the minors.
    LD amp = row_prod(m) / std::abs(rdet(wide(m)));
    return static_cast<double>(256.0L * static_cast<LD>(m.R * m.R) * std::numeric_limits<R>::epsilon() * (1 + amp) * std::max<LD>(maxabs(inv), 1e-300L));
}
template <typename T> Mod<T> good(Rng &r, size_t n)
{
    Mod<T> m = dominant<T>(r, n);
    using R = malg::is_complex_t<T>;
    if (r.chance(1, 3)) { R s = static_cast<R>(std::pow(10.0, r.real(-5, 5) / (sizeof(R) == 4 ? 4 : 1))); for (auto &x : m.d) x = x * s; vf::hit("scaled"); }
    if (r.chance(2, 3)) m = perm_rows(r, m);
    return m;
}
template <typename T> void inverses(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 60) ? 13 : r.chance(1, 4) ? 8 : 5));
    Mod<T> m = good<T>(r, n);
    Operand<T> A(r, m);
    vf::note(m.hash() + static_cast<u64>(A.kind));
    vf::hit("size." + std::to_string(n));
    std::string ctx = std::string(A.kname()) + " " + show(m);
    if (vf::st().samples.size() < 3) vf::sample(ctx);
    ML w;
    if (!rinv(wide(m), w)) throw vf::harness_error("singular reference");
    double tol = tol_for(m, w);
    auto run = [&](const auto &X, const char *key) {
        vf::op("inverse");
        auto inv = linalg::inverse(X);
        auto g = mod_of(inv);
        double e = maxdiff(g, w);
        VF_CHECK(e <= tol, key, "error " << e << " tol " << tol << " got " << show(g) << " on " << ctx);
        // The defining identity, in wide arithmetic.
        double s = static_cast<double>(n) * maxabs(m);
        if (g.R == n && g.C == n) {
            VF_CHECK(maxdiff(mmul<CL>(m, g), meye<CL>(n)) <= tol * s, "right-inverse", show(g) << " on " << ctx);
            VF_CHECK(maxdiff(mmul<CL>(g, m), meye<CL>(n)) <= tol * s, "left-inverse", show(g) << " on " << ctx);
        }
    };
    run(A.get(), "inverse");
    if (A.has_const()) run(A.cget(), "inverse-const");
    PURE(A);
    // Division.
    size_t R = dim(r, false, 10);
    Mod<T> b = r.chance(1, 2) ? imod<T>(r, R, n) : rmod<T>(r, R, n, -2, 2);
    Operand<T> B(r, b);
    vf::op("div");
    auto q = linalg::div(B.get(), A.get());
    ML wq = mmul<CL>(b, w);
    VF_CHECK(maxdiff(mod_of(q), wq) <= 4 * tol * static_cast<double>(n) * std::max(1.0, maxabs(b)), "div", show(q) << " want " << show(wq) << " on " << show(b) << " / " << ctx);
    PURE(A);
    PURE(B);
}
// Adjoint: exact on small integers.
template <typename T> void adjoints(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 5));
    Mod<T> m = imod<T>(r, n, n, -6, 6);
    if (r.chance(1, 4)) for (auto &x : m.d) if (r.chance(1, 2)) x = T(0);
    if (n > 1 && r.chance(1, 4)) for (size_t c = 0; c < n; ++c) m(0, c) = m(n - 1, c);
    Operand<T> A(r, m);
    vf::note(m.hash() * 3 + static_cast<u64>(A.kind));
    std::string ctx = std::string(A.kname()) + " " + show(m);
    vf::op("adjoint");
    auto adj = mod_of(linalg::adjoint(A.get()));
    bool ok = adj.R == n && adj.C == n;
    for (size_t i = 0; ok && i < n; ++i)
        for (size_t j = 0; ok && j < n; ++j) {
            if (n == 1) { ok = adj(0, 0) == T(1); continue; }
            Mod<long> s(n - 1, n - 1);
            for (size_t a = 0; a + 1 < n; ++a) for (size_t b = 0; b + 1 < n; ++b) s(a, b) = static_cast<long>(m(a + (a >= i), b + (b >= j)));
            __int128 d = idet(s) * ((i + j) % 2 ? -1 : 1);
            ok = static_cast<LD>(adj(j, i)) == static_cast<LD>(d);
        }
    VF_CHECK(ok, "adjoint", "got " << show(adj) << " on " << ctx);
    // A * adj(A) = det(A) I, exactly.
    if (adj.R == n && adj.C == n) {
        Mod<LD> p = mmul<LD>(m, adj), want(n, n);
        LD d = static_cast<LD>(idet(cmod<long>(m)));
        for (size_t i = 0; i < n; ++i) want(i, i) = d;
        VF_CHECK(p == want, "adjoint-identity", show(adj) << " on " << ctx);
    }
    PURE(A);
}
template <typename T> void adjoints_real(Rng &r)
{
    using R = malg::is_complex_t<T>;
    size_t n = static_cast<size_t>(r.range(2, 7));
    Mod<T> m = rmod<T>(r, n, n, -1, 1);
    if (is_cx<T> && r.chance(1, 4)) on_axes(r, m);
    Operand<T> A(r, m);
    vf::note(m.hash() * 5);
    vf::op("adjoint");
    auto adj = mod_of(linalg::adjoint(A.get()));
    ML want(n, n);
    CL d = rdet(wide(m));
    for (size_t i = 0; i < n; ++i) want(i, i) = d;
    LD s = 1;
    for (size_t i = 0; i < n; ++i) { LD t = 0; for (size_t j = 0; j < n; ++j) t += std::abs(conv<CL>(m(i, j))); s *= std::max<LD>(t, 0.1L); }
    double tol = static_cast<double>(640.0L * static_cast<LD>(n * n * n) * std::numeric_limits<R>::epsilon() * s) * 10;
    double e = adj.R == n && adj.C == n ? maxdiff(mmul<CL>(m, adj), want) : 1e300;
    VF_CHECK(e <= tol, "adjoint-residual", "error " << e << " tol " << tol << " " << A.kname() << " " << show(m));
    PURE(A);
}
// Cofactor: removes exactly one row and one column.
template <typename T> void cofactors(Rng &r)
{
    size_t R = dim(r, false, 12), C = dim(r, false, 12);
    Mod<T> m = imod<T>(r, R, C, -99, 99);
    size_t p = r.below(R), q = r.below(C);
    Mod<T> w(R - 1, C - 1);
    for (size_t i = 0; i + 1 < R; ++i) for (size_t j = 0; j + 1 < C; ++j) w(i, j) = m(i + (i >= p), j + (j >= q));
    Operand<T> A(r, m);
    vf::note(m.hash() * 7 + p * 16 + q);
    vf::op("cofactor");
    auto g = mod_of(linalg::cofactor(A.get(), p, q));
    VF_CHECK(g.R == R - 1 && g.C == C - 1 && g.d == w.d, "cofactor", "(" << p << "," << q << ") got " << show(g) << " on " << A.kname() << " " << show(m));
    PURE(A);
}
// Integers up to 4x4.
template <typename T> void integer_inverse(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    Mod<T> m = imod<T>(r, n, n, -9, 9);
    Operand<T> A(r, m);
    vf::note(m.hash() * 11);
    __int128 d = idet(m);
    vf::op("inverse of integers");
    auto inv = linalg::inverse(A.get());
    if (d == 0) {
        vf::hit("integer-singular");
        VF_CHECK(inv.empty(), "singular-integer", "got " << show(inv) << " on " << show(m));
    } else {
        ML w;
        if (!rinv(wide(m), w)) return;
        VF_CHECK(maxdiff(mod_of(inv), w) <= 1e-12 * std::max(1.0, maxabs(w)), "integer-inverse", "got " << show(inv) << " want " << show(w) << " on " << A.kname() << " " << show(m));
        size_t R = dim(r, false, 5);
        Mod<T> b = imod<T>(r, R, n);
        auto q = linalg::div(mat(b), A.get());
        VF_CHECK(maxdiff(mod_of(q), mmul<CL>(b, w)) <= 1e-10 * std::max(1.0, maxabs(w)), "integer-div", show(q) << " on " << show(b) << " / " << show(m));
    }
    PURE(A);
}
// Exactly singular, in floating point: zero lines, and small integer values where the closed forms are exact.
template <typename T> void singular(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 7)), i = r.below(n);
    Mod<T> m = rmod<T>(r, n, n, -2, 2);
    if (n >= 2 && n <= 4 && r.chance(1, 2)) { m = imod<T>(r, n, n, -9, 9); size_t j = (i + 1 + r.below(n - 1)) % n; bool t = r.chance(1, 2); for (size_t c = 0; c < n; ++c) { if (t) m(i, c) = m(j, c); else m(c, i) = m(c, j); } vf::hit("dependent"); }
    else if (is_cx<T> && n >= 2 && n <= 4 && r.chance(1, 3)) { // a row that is i times another one
        m = imod<T>(r, n, n, -9, 9);
        size_t j = (i + 1 + r.below(n - 1)) % n;
        if constexpr (is_cx<T>) for (size_t c = 0; c < n; ++c) m(i, c) = m(j, c) * T(0, 1);
        vf::hit("turned-row");
    }
    else if (r.chance(1, 2)) { for (size_t c = 0; c < n; ++c) m(i, c) = T(0); vf::hit("zero-row"); }
    else { for (size_t c = 0; c < n; ++c) m(c, i) = T(0); vf::hit("zero-column"); }
    Operand<T> A(r, m);
    vf::note(m.hash() * 13);
    vf::op("inverse of singular");
    auto inv = linalg::inverse(A.get());
    VF_CHECK(inv.empty() && inv.rows() * inv.cols() == 0, "singular", "got " << show(inv) << " on " << A.kname() << " " << show(m));
    PURE(A);
}
// Small determinants are not zero.
SCENARIO(small_determinant, 2)
{
    size_t n = static_cast<size_t>(r.range(1, 6));
    Mod<double> m = dominant<double>(r, n);
    double s = std::pow(10.0, r.real(-40, -6));
    for (auto &x : m.d) x *= s;
    vf::note(m.hash());
    Matrix<double> A = mat(m);
    auto inv = linalg::inverse(A);
    ML w;
    if (!rinv(wide(m), w)) return;
    VF_CHECK(maxdiff(mod_of(inv), w) <= tol_for(m, w), "small-determinant", show(inv) << " on " << show(m));
}
// Any power of two on the whole matrix goes to the inverse, whatever the magnitude of the determinant.
template <typename T> void scaled(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 6));
    Mod<T> m = dominant<T>(r, n);
    if (r.chance(2, 3)) m = perm_rows(r, m);
    ML w;
    if (!rinv(wide(m), w)) return;
    const int N = static_cast<int>(n);
    const int total = static_cast<int>(r.chance(1, 3) ? r.range(-1026, -990) : r.chance(1, 2) ? r.range(-1026, 1000) : r.chance(1, 2) ? r.range(900, 1000) : r.range(-1000, -500));
    int e = std::max(total / N, -1000); // the inverse itself must not overflow
    // Neither must the determinant, nor its reciprocal.
    const int own = static_cast<int>(std::lround(std::log2(std::abs(rdet(wide(m))))));
    while (e * N + own < -1015) ++e;
    while (e * N + own > 1015) --e;
    Mod<T> s(m);
    for (auto &x : s.d) { if constexpr (is_cx<T>) x = T(std::ldexp(x.real(), e), std::ldexp(x.imag(), e)); else x = std::ldexp(x, e); }
    Operand<T> A(r, s);
    vf::note(s.hash() * 17);
    vf::op("inverse");
    auto g = mod_of(linalg::inverse(A.get()));
    double err = 1e300;
    if (g.R == n && g.C == n) { ML u = wide(g); u = mscale(u, CL(std::ldexp(1.0L, e))); err = maxdiff(u, w); }
    double tol = tol_for(m, w) + (e * N < -900 ? 1e-8 : 0) * maxabs(w);
    VF_CHECK(err <= tol, "scaled", "error " << err << " tol " << tol << " got " << show(g) << " on " << A.kname() << " " << show(m) << " times 2^" << e);
    PURE(A);
    vf::hit(total < -970 ? "scaled.tiny" : total > 500 ? "scaled.huge" : "scaled");
    Mod<T> b = imod<T>(r, 2, n, -3, 3);
    auto q = mod_of(linalg::div(mat(b), A.get()));
    ML wq = mmul<CL>(b, w);
    err = 1e300;
    if (q.R == 2 && q.C == n) { ML u = wide(q); u = mscale(u, CL(std::ldexp(1.0L, e))); err = maxdiff(u, wq); }
    VF_CHECK(err <= 16 * tol * static_cast<double>(n), "scaled-div", "error " << err << " got " << show(q) << " on " << show(b) << " / " << show(m) << " times 2^" << e);
}
SCENARIO(scaled_inverses, 2) { if (r.chance(1, 2)) scaled<double>(r); else scaled<cd>(r); }
SCENARIO(integer_probe, 1)
{
    (void)r;
    Matrix<int> A(5, 5, 0);
    for (size_t i = 0; i < 5; ++i) { A(i, i) = 2; if (i) A(i, i - 1) = A(i - 1, i) = 1; }
    auto inv = linalg::inverse(A);
    vf::note(inv.size());
    // The inverse has 5/6 in its corner.
    double c = inv.size() ? inv(0, 0) : 0;
    std::ostringstream o;
    o << c;
    VF_CHECK(std::fabs(c - 5.0 / 6.0) < 1e-9, "inverse-of-tridiagonal-1-2-1-of-order-5-starts-with-" + o.str(), "5/6 expected");
}
#define REALS Ty<double>(), Ty<double>(), Ty<cd>(), Ty<float>()
SCENARIO(inverse_and_div, 6) { pick_type(r, [&](auto t) { inverses<TYPE_OF(t)>(r); }, Ty<double>(), Ty<double>(), Ty<cd>()); }
SCENARIO(adjoint_exact, 3) { pick_type(r, [&](auto t) { adjoints<TYPE_OF(t)>(r); }, Ty<double>(), Ty<int>(), Ty<long>()); }
SCENARIO(adjoint_real, 2) { pick_type(r, [&](auto t) { adjoints_real<TYPE_OF(t)>(r); }, Ty<double>(), Ty<cd>()); }
SCENARIO(cofactor_matrix, 2) { Grained grained(r.chance(1, 2) ? FULL : WHOLE); pick_type(r, [&](auto t) { cofactors<TYPE_OF(t)>(r); }, Ty<double>(), Ty<int>(), Ty<cd>(), Ty<long>()); }
SCENARIO(integers, 2) { pick_type(r, [&](auto t) { integer_inverse<TYPE_OF(t)>(r); }, Ty<int>(), Ty<long>()); }
SCENARIO(singular_matrices, 2) { pick_type(r, [&](auto t) { singular<TYPE_OF(t)>(r); }, Ty<double>(), Ty<cd>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
