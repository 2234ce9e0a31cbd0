// C20: matrix exponential.
#include "ref.hpp"
using namespace malg;

template <typename T> void check_exp(Rng &r, const Mod<T> &m, double acc, const char *key)
{
    Operand<T> A(r, m);
    vf::note(m.hash() * 3 + hash_of(acc));
    std::string ctx = std::string(A.kname()) + " " + show(m) + " accuracy " + std::to_string(acc);
    if (vf::st().samples.size() < 4) vf::sample(ctx);
    ML w = rexp(wide(m));
    // Growth of the squaring phase, for matrices that are not normal.
    LD M = mnorm(w), n = mnorm(wide(m));
    for (int j = 1; std::ldexp(n, -j + 1) > 1 && j < 12; ++j) M = std::max(M, static_cast<LD>(std::pow(mnorm(rexp(mscale(wide(m), CL(std::ldexp(1.0L, -j))))), std::ldexp(1.0L, j))));
    constexpr bool single = std::is_same_v<T, float> || std::is_same_v<T, cf>;
    LD tol = 3 * acc * M + (single ? 3e-6L : 1e-12L) * static_cast<LD>(m.R) * M * (1 + n);
    auto run = [&](const auto &X) {
        vf::op("expm");
        auto e = linalg::expm(X, acc);
        double d = maxdiff(mod_of(e), w);
        VF_CHECK(d <= static_cast<double>(tol), key, "error " << d << " tol " << static_cast<double>(tol) << " got " << show(e) << " want " << show(w) << " on " << ctx);
    };
    run(A.get());
    PURE(A);
    vf::hit(n > 1 ? "needs-scaling" : "no-scaling");
    if (n > 8) vf::hit("large-norm");
    vf::hit("size." + std::to_string(m.R));
}
static double accuracy(Rng &r) { return r.chance(1, 3) ? 1e-5 : std::pow(10.0, r.real(-10, -3)); }
template <typename T> double accuracy_of(Rng &r) { return sizeof(malg::is_complex_t<T>) == 4 ? (r.chance(1, 3) ? 1e-5 : std::pow(10.0, r.real(-5, -3))) : accuracy(r); }
static double norm_target(Rng &r)
{
    switch (r.range(0, 4)) {
    case 0: return std::pow(10.0, r.real(-8, -1));
    case 1: return r.real(0.5, 1.5);
    case 2: return r.real(1, 4);
    case 3: return r.chance(1, 3) ? r.real(20, 300) : r.real(4, 20);
    default: return r.chance(1, 2) ? 1.0 : std::ldexp(1.0, static_cast<int>(r.range(0, 7))); // on the boundary of the scaling
    }
}
template <typename T> void generic(Rng &r)
{
    size_t n = r.chance(1, 6) ? 1 : static_cast<size_t>(r.range(1, r.chance(1, 20) ? 11 : 5));
    Mod<T> m = r.chance(1, 4) ? imod<T>(r, n, n, -3, 3) : rmod<T>(r, n, n, -1, 1);
    LD s = mnorm(wide(m));
    if (s == 0) s = 1;
    double t = norm_target(r);
    if (sizeof(malg::is_complex_t<T>) == 4) t = std::min(t, 6.0);
    for (auto &x : m.d) x = x * static_cast<malg::is_complex_t<T>>(t / static_cast<double>(s));
    check_exp<T>(r, m, accuracy_of<T>(r), "random");
}
template <typename T> void special(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 11 : 5));
    Mod<T> m(n, n);
    constexpr bool wide_range = sizeof(malg::is_complex_t<T>) == 8;
    const double k = (wide_range && r.chance(1, 8)) ? r.real(10, 150) : r.chance(1, 3) ? r.real(2, 10) : r.real(0.1, 2);
    switch (r.range(0, 6)) {
    case 0: for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) m(i, j) = rval<T>(r, -k, k); vf::hit("nilpotent"); break;
    case 1: for (size_t i = 0; i < n; ++i) m(i, i) = rval<T>(r, -k, k); vf::hit("diagonal"); break;
    case 2: n = 2 * static_cast<size_t>(r.range(1, 2)); m = Mod<T>(n, n); for (size_t i = 0; i + 1 < n; i += 2) { double w = r.real(-k, k) * 2; m(i, i + 1) = T(-w); m(i + 1, i) = T(w); } vf::hit("rotation"); break;
    case 3: for (size_t i = 0; i < n; ++i) { m(i, i) = T(r.real(-k, k)); if (i + 1 < n) m(i, i + 1) = T(1); } vf::hit("jordan"); break;
    case 4: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = rval<T>(r, -k, k); vf::hit("nilpotent"); break;
    case 5: for (size_t i = 0; i < n; ++i) { m(i, i) = rval<T>(r, -k, 0); } vf::hit("decay"); break;
    default: vf::hit("zero"); break;
    }
    check_exp<T>(r, m, accuracy_of<T>(r), "special");
}
// Matrices of rank one, whose powers keep the norm: every term of the series counts.
template <typename T> void rank_one(Rng &r)
{
    const size_t n = static_cast<size_t>(r.range(1, r.chance(1, 10) ? 8 : 4));
    auto u         = rvec<T>(r, n, 0.5, 1.5);
    double s       = 0;
    for (auto x : u) s += std::norm(cd(x));
    double t = r.chance(1, 2) ? std::ldexp(1.0, static_cast<int>(r.range(0, 4))) * r.real(0.9, 1.0) : r.real(0.3, 6);
    if (r.chance(1, 3)) t = -t;
    Mod<T> m(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            if constexpr (is_cx<T>) m(i, j) = u[i] * std::conj(u[j]) * (t / s);
            else m(i, j) = u[i] * u[j] * (t / s);
        }
    check_exp<T>(r, m, std::pow(10.0, r.real(-10, -8)), "rank-one");
    vf::hit("rank-one");
}
SCENARIO(rank_one_real, 3) { rank_one<double>(r); }
SCENARIO(rank_one_complex, 1) { rank_one<cd>(r); }
SCENARIO(zero, 1)
{
    size_t n = static_cast<size_t>(r.range(1, 6));
    Matrix<double> Z(n, n, 0.0);
    vf::note(n);
    auto e = linalg::expm(Z, accuracy(r));
    check_eq(e, meye<double>(n), "exp-of-zero");
    Matrix<cd> Y(n, n, cd(0));
    check_eq(linalg::expm(Y, accuracy(r)), meye<cd>(n), "exp-of-complex-zero");
}
// exp(A) exp(-A) = I
SCENARIO(inverse_pair, 2)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    Mod<double> m = rmod<double>(r, n, n, -1, 1), k = m;
    for (auto &x : k.d) x = -x;
    vf::note(m.hash());
    auto p = mod_of(linalg::expm(mat(m), 1e-9)), q = mod_of(linalg::expm(mat(k), 1e-9));
    double e = maxdiff(mmul<CL>(p, q), meye<CL>(n));
    VF_CHECK(e <= 1e-6 * (1 + maxabs(p)) * (1 + maxabs(q)), "inverse-pair", "error " << e << " on " << show(m));
}
SCENARIO(real_random, 5) { generic<double>(r); }
SCENARIO(complex_random, 3) { generic<cd>(r); }
SCENARIO(real_special, 4) { special<double>(r); }
SCENARIO(single_precision, 2) { if (r.chance(1, 2)) { if (r.chance(1, 2)) generic<float>(r); else special<float>(r); } else { if (r.chance(1, 2)) generic<cf>(r); else special<cf>(r); } }
SCENARIO(complex_special, 2) { special<cd>(r); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
