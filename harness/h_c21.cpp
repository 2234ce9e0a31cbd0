// C21: discretisation with zero-order hold.
#include "ref.hpp"
using namespace malg;

template <typename T>
void zoh_of(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 8 : 4)), p = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 6 : 3)), q = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 6 : 3));
    Mod<T> A = perm_rows(r, dominant<T>(r, n));
    const bool fast = r.chance(1, 5); // fast dynamics, sampled fast enough
    const T s = static_cast<T>(fast ? std::pow(10.0, r.real(1, std::is_same_v<T, float> ? 2 : 4)) : r.chance(1, 2) ? r.real(0.5, 3) : 1.0);
    for (auto &x : A.d) x *= s;
    switch (r.range(0, 5)) {
    case 0: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) A(i, j) = 0; for (size_t i = 0; i < n; ++i) A(i, i) = static_cast<T>(-r.real(0.5, 4)); vf::hit("stable-diagonal"); break;
    case 1: if (n == 2) { T w = static_cast<T>(r.real(0.5, 4)); A(0, 0) = A(1, 1) = static_cast<T>(r.chance(1, 2) ? 0 : -0.25); A(0, 1) = -w; A(1, 0) = w; vf::hit("oscillator"); } break;
    default: break;
    }
    Mod<T> B = rmod<T>(r, n, p, -2, 2), C = rmod<T>(r, q, n, -2, 2), D = rmod<T>(r, q, p, -2, 2);
    constexpr bool single = std::is_same_v<T, float>;
    T t;
    switch (r.range(0, 4)) {
    case 0: t = static_cast<T>(std::pow(10.0, r.real(single ? -2 : -4, -1))); vf::hit("short"); break;
    case 1: t = static_cast<T>(r.real(1, single ? 2 : 4)); vf::hit("long"); break;
    default: t = static_cast<T>(r.real(0.05, 1)); break;
    }
    if (fast) { t = static_cast<T>(r.real(0.1, 2) / static_cast<double>(s)); vf::hit("fast"); }
    // Any unit of time: the same dynamics, sampled very slowly or very quickly.
    if (r.chance(1, 4)) { const T k = static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(-12, 12)))); t *= k; for (auto &x : A.d) x /= k; vf::hit("other-time-unit"); }
    if (r.chance(1, 12)) { t = -t; vf::hit("backwards"); } // the way back
    // Systems without input, output, feed-through, or with parts of them only.
    auto thin = [&](Mod<T> &m) {
        switch (r.range(0, 7)) {
        case 0: for (auto &x : m.d) x = T(0); vf::hit("null-part"); break;
        case 1: for (auto &x : m.d) if (r.chance(1, 2)) x = T(0); break;
        default: break;
        }
    };
    thin(B); thin(C); thin(D);
    control::StateSpace<T> sys(mat(A), mat(B), mat(C), mat(D));
    const auto &cs = sys;
    vf::note(A.hash() * 3 + B.hash() + hash_of(t));
    vf::hit(single ? "float" : "double");
    std::ostringstream o;
    o.precision(17);
    o << "A=" << show(A) << " B=" << show(B) << " t=" << t;
    if (vf::st().samples.size() < 4) vf::sample(o.str());
    vf::op("c2d");
    auto d = control::c2d(cs, t);
    VF_CHECK(d.sample_time == t, "sample-time", d.sample_time << " " << o.str());
    check_eq(d.C, C, "C-copied", o.str());
    check_eq(d.D, D, "D-copied", o.str());
    check_eq(sys.A, A, "A-modified");
    check_eq(sys.B, B, "B-modified");
    check_eq(sys.C, C, "C-modified");
    check_eq(sys.D, D, "D-modified");
    // exp([[A,B],[0,0]] t)
    ML big(n + p, n + p);
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) big(i, j) = A(i, j); for (size_t j = 0; j < p; ++j) big(i, n + j) = B(i, j); }
    ML e = rexp(mscale(big, CL(t)));
    ML wa(n, n), wb(n, p), inv;
    for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) wa(i, j) = e(i, j); for (size_t j = 0; j < p; ++j) wb(i, j) = e(i, n + j); }
    rinv(wide(A), inv);
    LD M = mnorm(wa), nn = mnorm(wide(A)) * std::fabs(static_cast<LD>(t));
    for (int j = 1; std::ldexp(nn, -j + 1) > 1 && j < 12; ++j) M = std::max(M, static_cast<LD>(std::pow(mnorm(rexp(mscale(wide(A), CL(t * std::ldexp(1.0L, -j))))), std::ldexp(1.0L, j))));
    double tol = static_cast<double>((4e-5L + (single ? 1e-5L * static_cast<LD>(n) * (1 + nn) : 0)) * M);
    double ea = maxdiff(mod_of(d.A), wa), eb = maxdiff(mod_of(d.B), wb);
    VF_CHECK(ea <= tol, "A-discrete", "error " << ea << " tol " << tol << " got " << show(d.A) << " want " << show(wa) << " on " << o.str());
    // The subtraction of the identity and the product by the inverse round as well.
    double tolb = (tol + (single ? 3e-6 : 1e-13) * static_cast<double>(n)) * static_cast<double>(mnorm(inv)) * maxabs(B) * static_cast<double>(n);
    VF_CHECK(eb <= tolb, "B-discrete", "error " << eb << " tol " << tolb << " got " << show(d.B) << " want " << show(wb) << " on " << o.str());
    if (tolb < 0.1 * maxabs(wb)) vf::hit("sensitive");
    // Discretising twice gives the same model (no hidden state).
    auto d2 = control::c2d(cs, t);
    VF_CHECK(mod_of(d2.A) == mod_of(d.A) && mod_of(d2.B) == mod_of(d.B), "not-deterministic", o.str());
}
SCENARIO(zoh, 3) { zoh_of<double>(r); }
SCENARIO(zoh_single, 1) { zoh_of<float>(r); }
// Two steps of t are one of 2t.
SCENARIO(semigroup, 3)
{
    size_t n = static_cast<size_t>(r.range(1, 4)), p = static_cast<size_t>(r.range(1, 3));
    Mod<double> A = dominant<double>(r, n), B = rmod<double>(r, n, p, -2, 2), C = rmod<double>(r, 1, n, -2, 2), D(1, p);
    double t = r.real(0.1, 0.6);
    vf::note(A.hash() * 7 + B.hash() + hash_of(t));
    control::StateSpace<double> sys(mat(A), mat(B), mat(C), mat(D));
    auto a = control::c2d(sys, t), b = control::c2d(sys, 2 * t);
    Mod<LD> A1 = cmod<LD>(mod_of(a.A)), B1 = cmod<LD>(mod_of(a.B)), A2 = mmul<LD>(A1, A1), B2 = mmul<LD>(A1, B1);
    for (size_t i = 0; i < B2.d.size(); ++i) B2.d[i] += B1.d[i];
    double s = (1 + maxabs(A2)) * (1 + maxabs(A2));
    VF_CHECK(maxdiff(mod_of(b.A), A2) <= 2e-3 * s, "semigroup-A", show(A) << " t=" << t);
    VF_CHECK(maxdiff(mod_of(b.B), B2) <= 2e-3 * s * (1 + maxabs(B)) * 4, "semigroup-B", show(A) << show(B) << " t=" << t);
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
