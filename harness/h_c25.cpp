// C25: pole placement.
#include "ref.hpp"
#include <sys/wait.h>
using namespace malg;

static std::vector<LD> desired(const std::vector<double> &p)
{
    std::vector<LD> c{ 1 };
    for (double x : p) { std::vector<LD> d(c.size() + 1, 0); for (size_t i = 0; i < c.size(); ++i) { d[i] += c[i]; d[i + 1] -= c[i] * x; } c = d; }
    return c;
}
static std::vector<LD> charpoly(const Mod<LD> &X)
{
    const size_t n = X.R;
    Mod<LD> M(n, n);
    std::vector<LD> c(n + 1, 0);
    c[0] = 1;
    for (size_t k = 1; k <= n; ++k) {
        M = mmul<LD>(X, M);
        for (size_t i = 0; i < n; ++i) M(i, i) += c[k - 1];
        Mod<LD> Y = mmul<LD>(X, M);
        LD t = 0;
        for (size_t i = 0; i < n; ++i) t += Y(i, i);
        c[k] = -t / static_cast<LD>(k);
    }
    return c;
}
static Mod<double> krylov(const Mod<double> &A, const Mod<double> &B)
{
    Mod<double> o(A.R, A.R), x = B;
    for (size_t k = 0; k < A.R; ++k) { for (size_t i = 0; i < A.R; ++i) o(i, k) = x(i, 0); x = mmul<double>(A, x); }
    return o;
}
SCENARIO(placement, 6)
{
    size_t n = static_cast<size_t>(r.range(1, 5));
    Mod<double> A, B(n, 1);
    LD cond = 0;
    double scale = 1;
    for (int t = 0; t < 40; ++t) {
        A = r.chance(1, 3) ? imod<double>(r, n, n, -2, 2) : rmod<double>(r, n, n, -1.5, 1.5);
        B = r.chance(1, 3) ? imod<double>(r, n, 1, -2, 2) : rmod<double>(r, n, 1, -2, 2);
        if (t > 20) { // companion form, always controllable
            A = Mod<double>(n, n);
            for (size_t i = 0; i + 1 < n; ++i) A(i, i + 1) = 1;
            for (size_t j = 0; j < n; ++j) A(n - 1, j) = r.real(-2, 2);
            B = Mod<double>(n, 1);
            B(n - 1, 0) = 1;
        }
        // A weak or strong actuator: the gain scales inversely, nothing else changes.
        if (t == 0) scale = r.chance(1, 2) ? std::ldexp(1.0, static_cast<int>(r.range(-14, 10))) : 1.0;
        for (auto &x : B.d) x *= scale;
        Mod<double> K = krylov(A, B);
        ML inv;
        if (!rinv(wide(K), inv)) continue;
        cond = mnorm(wide(K)) * mnorm(inv) * row_prod(K) / std::abs(rdet(wide(K)));
        if (cond < 3e4) break;
        cond = 0;
    }
    if (cond == 0) { vf::hit("ill-conditioned-skipped"); return; }
    std::vector<double> p(n);
    for (auto &x : p) x = r.chance(1, 3) ? static_cast<double>(r.range(-3, 1)) : r.real(-3, 1);
    if (n > 1 && r.chance(1, 5)) p[0] = p[n - 1];
    Mod<double> P(1, n);
    P.d = p;
    // Another unit of time: the system and the poles scale together, the gain with them.
    const double unit = r.chance(1, 3) ? std::ldexp(1.0, static_cast<int>(r.range(-20, 20))) : 1.0;
    const Mod<double> A1 = A;
    for (auto &x : A.d) x *= unit;
    for (auto &x : P.d) x *= unit;
    vf::hit(unit == 1 ? "time.unit" : unit < 1 ? "time.slow" : "time.fast");
    Operand<double> a(r, A), b(r, B), q(r, P);
    vf::note(A.hash() * 3 + B.hash() * 5 + vhash(p));
    vf::hit("order." + std::to_string(n));
    vf::hit(scale == 1 ? "actuator.unit" : scale < 1 ? "actuator.weak" : "actuator.strong");
    std::string ctx = "A=" + show(A) + " B=" + show(B) + " poles " + show(p);
    if (vf::st().samples.size() < 3) vf::sample(ctx);
    vf::op("acker");
    auto K = mod_of(control::acker(a.get(), b.get(), q.get()));
    PURE(a);
    PURE(b);
    PURE(q);
    VF_CHECK(K.R == 1 && K.C == n, "gain-shape", show(K) << " " << ctx);
    if (K.R != 1 || K.C != n) return;
    A = A1;
    for (auto &x : K.d) x /= unit;
    Mod<LD> cl(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) cl(i, j) = static_cast<LD>(A(i, j)) - static_cast<LD>(B(i, 0)) * static_cast<LD>(K(0, j));
    auto g = charpoly(cl), w = desired(p);
    LD big = 1 + static_cast<LD>(maxabs(K)) * maxabs(B), s = 1;
    for (size_t i = 0; i < n; ++i) s *= 1 + maxabs(A) * static_cast<double>(n) + 3;
    LD tol = 1e-13L * cond * s * big * static_cast<LD>(n);
    for (size_t i = 0; i <= n; ++i) VF_CHECK(std::fabs(g[i] - w[i]) <= tol, "poles", "coefficient " << i << " is " << static_cast<double>(g[i]) << " want " << static_cast<double>(w[i]) << " tol " << static_cast<double>(tol) << " K=" << show(K) << " " << ctx);
    if (tol < 1e-4L) vf::hit("sharp");
}
// Exact systems: the gain is known.
SCENARIO(companion, 3)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 10) ? 9 : 6));
    Mod<double> A(n, n), B(n, 1);
    std::vector<double> a(n), p(n);
    for (size_t i = 0; i + 1 < n; ++i) A(i, i + 1) = 1;
    for (size_t j = 0; j < n; ++j) { a[j] = static_cast<double>(r.range(-3, 3)); A(n - 1, j) = -a[j]; p[j] = static_cast<double>(r.range(-2, 2)); }
    const double gain = r.chance(1, 2) ? 1.0 : std::ldexp(1.0, static_cast<int>(r.range(-14, 10)));
    B(n - 1, 0) = gain;
    auto w = desired(p);
    vf::note(A.hash() * 7 + vhash(p));
    vf::op("acker companion");
    Mod<double> P(1, n);
    P.d = p;
    const double unit = r.chance(1, 3) ? std::ldexp(1.0, static_cast<int>(r.range(-12, 12))) : 1.0;
    for (auto &x : A.d) x *= unit;
    for (auto &x : P.d) x *= unit;
    auto K = mod_of(control::acker(mat(A), mat(B), mat(P)));
    VF_CHECK(K.R == 1 && K.C == n, "companion-shape", show(K));
    if (K.R != 1 || K.C != n) return;
    double worst = 0, s = 1;
    for (size_t j = 0; j < n; ++j) { double e = std::fabs(gain * K(0, j) / unit - (static_cast<double>(w[n - j]) - a[j])); worst = worse(worst, e); s *= 8; }
    VF_CHECK(worst <= 1e-10 * s, "companion-gain", "error " << worst << " input gain " << gain << " unit " << unit << " K=" << show(K) << " A=" << show(A) << " poles " << show(p));
}
// Refusals, in a child process: the library ends the process.
template <typename F> void refused(F f, const char *key, const std::string &ctx)
{
    vf::op(key);
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid < 0) throw vf::harness_error("fork");
    if (pid == 0) {
        try { f(); } catch (const std::exception &) { ::_exit(9); }
        ::_exit(77);
    }
    int st = 0;
    ::waitpid(pid, &st, 0);
    VF_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 77, key, (WIFSIGNALED(st) ? "killed by a signal" : "a gain was returned") << " " << ctx);
    vf::hit(std::string("refused.") + key);
}
SCENARIO(refusals, 1)
{
    size_t n = static_cast<size_t>(r.range(2, 4));
    auto sz = [&]() { return static_cast<size_t>(r.range(1, 5)); };
    Mod<double> A = imod<double>(r, n, n, -2, 2), B = imod<double>(r, n, 1, -2, 2), P = imod<double>(r, 1, n, -2, 2);
    const char *key = "";
    switch (r.range(0, 6)) {
    case 0: { size_t c = n + 1 + r.below(2); A = imod<double>(r, r.chance(1, 2) ? n : c, n, -2, 2); if (A.R == n) A = imod<double>(r, n, c, -2, 2); key = "non-square"; break; }
    case 1: B = imod<double>(r, n, 2 + r.below(2), -2, 2); key = "several-inputs"; break;
    case 2: { size_t m = sz(); if (m == n) ++m; B = imod<double>(r, m, 1, -2, 2); key = "wrong-rows"; break; }
    case 3: { size_t m = sz(); if (m == n) ++m; P = imod<double>(r, 1, m, -2, 2); key = "wrong-number-of-poles"; break; }
    case 4: P = imod<double>(r, 2 + r.below(3), n, -2, 2); key = "poles-not-a-row"; break;
    case 5: P = Mod<double>(0, 0); key = "no-poles"; break;
    default: // exactly uncontrollable: a state that neither the input nor the other states reach, or repeated decoupled states
        if (r.chance(1, 2)) { size_t k = r.below(n); for (size_t j = 0; j < n; ++j) if (j != k) A(k, j) = 0; B(k, 0) = 0; }
        else if (r.chance(1, 2)) { B = Mod<double>(n, 1); }
        else { A = meye<double>(n); for (auto &x : A.d) x *= 2; }
        key = "uncontrollable";
        break;
    }
    vf::note(A.hash() * 11 + B.hash() * 3 + P.hash());
    Matrix<double> a = mat(A), b = mat(B), p = mat(P);
    refused([&] { auto K = control::acker(a, b, p); (void)K; }, key, "A=" + show(A) + " B=" + show(B) + " poles " + show(P));
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
