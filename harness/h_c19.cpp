// C19: solve.
#include "ref.hpp"
using namespace malg;

static ML col(const std::vector<double> &v) { ML m(v.size(), 1); for (size_t i = 0; i < v.size(); ++i) m.d[i] = v[i]; return m; }
template <typename T> ML colc(const std::vector<T> &v) { ML m(v.size(), 1); for (size_t i = 0; i < v.size(); ++i) m.d[i] = conv<CL>(v[i]); return m; }

template <typename T> void run(Rng &r, const Mod<T> &m, const std::vector<T> &b, const ML &want, double tol, const char *key)
{
    (void)r;
    const Matrix<T> A = mat(m);
    const Vector<T> B = vec(b);
    vf::note(m.hash() * 3 + vhash(b));
    std::string ctx = show(m) + " x = " + show(b);
    if (vf::st().samples.size() < 4) vf::sample(ctx);
    vf::op("solve");
    auto x = linalg::solve(A, B);
    VF_CHECK(x.size() == m.C, "size", x.size() << " on " << ctx);
    VF_CHECK(mod_of(A) == m && vec_of(B) == b, "operand-modified", ctx);
    if (x.size() != m.C) return;
    double e = 0;
    for (size_t i = 0; i < m.C; ++i) { double d = static_cast<double>(std::abs(conv<CL>(x[i]) - want.d[i])); e = worse(e, d); }
    VF_CHECK(e <= tol, key, "error " << e << " tol " << tol << " got " << show(x) << " want " << show(want) << " on " << ctx);
}
template <typename T> void square(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 60) ? 13 : r.chance(1, 4) ? 8 : 5));
    Mod<T> m = perm_rows(r, dominant<T>(r, n));
    using R = malg::is_complex_t<T>;
    R s = r.chance(1, 3) ? static_cast<R>(std::pow(10.0, r.real(-6, 6))) : R(1);
    for (auto &x : m.d) x = x * s;
    std::vector<T> b = r.chance(1, 10) ? std::vector<T>(n, T(0)) : r.chance(1, 3) ? ivec<T>(r, n) : rvec<T>(r, n, -3, 3);
    ML w;
    if (!rsolve(wide(m), colc(b), w)) throw vf::harness_error("singular");
    ML inv;
    rinv(wide(m), inv);
    double amp = static_cast<double>(row_prod(m) / std::abs(rdet(wide(m))));
    double tol = 256.0 * static_cast<double>(n * n * n) * std::numeric_limits<R>::epsilon() * (1 + amp) * maxabs(inv) * (maxabs(colc(b)) + 1e-300);
    LD xs;
    rescale<T>(r, m, b, static_cast<int>(n), xs);
    run<T>(r, m, b, mscale(w, CL(xs)), tol * static_cast<double>(xs), "square");
    vf::hit("square");
}
// The same system in other units: a power of two on the matrix and another on the right-hand side, exact both ways.
// `weight` is the largest power of the matrix that the computation forms.
template <typename T> void rescale(Rng &r, Mod<T> &m, std::vector<T> &b, int weight, LD &xs)
{
    using R = malg::is_complex_t<T>;
    xs = 1;
    if (!r.chance(1, 2)) return;
    const int lim = sizeof(R) == 4 ? 20 : std::max(1, std::min(200, 900 / std::max(1, weight) - 24));
    const int e = static_cast<int>(r.range(-lim, lim)), f = static_cast<int>(r.range(sizeof(R) == 4 ? -20 : -200, sizeof(R) == 4 ? 20 : 200));
    for (auto &x : m.d) x = x * static_cast<R>(std::ldexp(1.0, e));
    for (auto &x : b) x = x * static_cast<R>(std::ldexp(1.0, f));
    xs = std::ldexp(1.0L, f - e);
    vf::hit("rescaled");
}
// Well-conditioned rectangular matrix: rotations of a rectangular diagonal.
static Mod<double> tall(Rng &r, size_t R, size_t C)
{
    Mod<double> m(R, C);
    for (size_t j = 0; j < C; ++j) m(j, j) = r.real(0.5, 2) * (r.chance(1, 2) ? 1 : -1);
    for (size_t k = 0; k < 3 * R; ++k) {
        double t = r.real(0, 6.28), c = std::cos(t), s = std::sin(t);
        if (R > 1) { size_t i = r.below(R), j = (i + 1 + r.below(R - 1)) % R; for (size_t q = 0; q < C; ++q) { double x = m(i, q), y = m(j, q); m(i, q) = c * x - s * y; m(j, q) = s * x + c * y; } }
        if (C > 1) { size_t i = r.below(C), j = (i + 1 + r.below(C - 1)) % C; for (size_t q = 0; q < R; ++q) { double x = m(q, i), y = m(q, j); m(q, i) = c * x - s * y; m(q, j) = s * x + c * y; } }
    }
    return m;
}
SCENARIO(overdetermined, 4)
{
    size_t C = static_cast<size_t>(r.range(1, r.chance(1, 40) ? 11 : 6)), R = C + static_cast<size_t>(r.range(1, r.chance(1, 30) ? 40 : 6));
    Mod<double> m = tall(r, R, C);
    if (r.chance(1, 4)) { // small integers, well-conditioned by dominance
        for (auto &x : m.d) x = static_cast<double>(r.range(-1, 1));
        for (size_t j = 0; j < C; ++j) m(j, j) = static_cast<double>(R + 2);
        vf::hit("integer-valued");
    }
    std::vector<double> b = rvec<double>(r, R, -3, 3);
    if (r.chance(1, 4)) { // consistent
        std::vector<double> x = rvec<double>(r, C, -2, 2);
        for (size_t i = 0; i < R; ++i) { b[i] = 0; for (size_t j = 0; j < C; ++j) b[i] += m(i, j) * x[j]; }
        vf::hit("consistent");
    }
    ML W = wide(m), w;
    if (!rsolve(mmul<CL>(mtrans(W), W), mmul<CL>(mtrans(W), col(b)), w)) throw vf::harness_error("singular");
    const double tol = 1e-9 * (1 + maxabs(col(b)));
    LD xs;
    rescale<double>(r, m, b, static_cast<int>(C), xs);
    run<double>(r, m, b, mscale(w, CL(xs)), tol * static_cast<double>(xs), "least-squares");
    vf::hit("overdetermined");
}
SCENARIO(underdetermined, 4)
{
    size_t R = static_cast<size_t>(r.range(1, r.chance(1, 40) ? 11 : 6)), C = R + static_cast<size_t>(r.range(1, r.chance(1, 30) ? 40 : 6));
    Mod<double> m = mtrans(tall(r, C, R));
    std::vector<double> b = rvec<double>(r, R, -3, 3);
    ML W = wide(m), y;
    if (!rsolve(mmul<CL>(W, mtrans(W)), col(b), y)) throw vf::harness_error("singular");
    ML w = mmul<CL>(mtrans(W), y);
    const double tol = 1e-9 * (1 + maxabs(col(b)));
    LD xs;
    rescale<double>(r, m, b, 2 * static_cast<int>(R), xs);
    run<double>(r, m, b, mscale(w, CL(xs)), tol * static_cast<double>(xs), "minimum-norm");
    vf::hit("underdetermined");
}
SCENARIO(singular, 2)
{
    size_t n = static_cast<size_t>(r.range(1, 6)), i = r.below(n);
    Mod<double> m = rmod<double>(r, n, n, -2, 2);
    if (n >= 2 && n <= 4 && r.chance(1, 2)) { m = imod<double>(r, n, n); size_t j = (i + 1) % n; for (size_t c = 0; c < n; ++c) m(i, c) = m(j, c); }
    else if (r.chance(1, 2)) for (size_t c = 0; c < n; ++c) m(i, c) = 0;
    else for (size_t c = 0; c < n; ++c) m(c, i) = 0;
    std::vector<double> b = r.chance(1, 4) ? std::vector<double>(n, 0.0) : rvec<double>(r, n);
    const Matrix<double> A = mat(m);
    const Vector<double> B = vec(b);
    vf::note(m.hash() * 5 + vhash(b));
    vf::op("solve singular");
    auto x = linalg::solve(A, B);
    VF_CHECK(x.empty() && x.size() == 0, "singular-gives-solution", show(x) << " on " << show(m));
    VF_CHECK(mod_of(A) == m && vec_of(B) == b, "operand-modified", show(m));
    vf::hit("singular");
}
SCENARIO(square_real, 3) { square<double>(r); }
SCENARIO(square_integer, 1)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    // Integers: the solution of a small integer system.
    Mod<int> m = imod<int>(r, n, n, -6, 6);
    std::vector<int> b = ivec<int>(r, n, -9, 9);
    if (idet(m) == 0) return;
    ML w;
    if (!rsolve(wide(m), colc(b), w)) return;
    run<int>(r, m, b, w, 1e-10 * (1 + maxabs(w)), "integer");
    vf::hit("integer");
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
