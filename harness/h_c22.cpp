// C22: simulation.
#include "gen.hpp"
using namespace malg;

template <typename T> std::vector<T> step(const Mod<T> &A, const std::vector<T> &x, const Mod<T> &B, const std::vector<T> &u)
{
    std::vector<T> o(A.R, T(0));
    for (size_t i = 0; i < A.R; ++i) {
        for (size_t j = 0; j < A.C; ++j) o[i] += A(i, j) * x[j];
        for (size_t j = 0; j < B.C; ++j) o[i] += B(i, j) * u[j];
    }
    return o;
}
// Exact: small integer dynamics.
template <typename T> void exact(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 12 : 5)), p = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 8 : 3)), q = static_cast<size_t>(r.range(1, r.chance(1, 20) ? 8 : 4));
    Mod<T> A = imod<T>(r, n, n, -1, 1), B = imod<T>(r, n, p, -2, 2), C = imod<T>(r, q, n, -2, 2), D = imod<T>(r, q, p, -2, 2);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (r.chance(1, 2)) A(i, j) = 0;
    size_t nu = r.chance(1, 12) ? 0 : static_cast<size_t>(r.range(1, 9));
    std::vector<std::vector<T>> u(nu);
    for (auto &v : u) v = ivec<T>(r, p, -3, 3);
    std::vector<T> x0 = ivec<T>(r, n, -3, 3);
    // Dyadic sample times are exact; the others are cut within a step.
    bool dyadic = r.chance(2, 3);
    T ts = dyadic ? static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(-6, 2)))) : static_cast<T>(r.chance(1, 2) ? 0.1 : r.real(0.001, 2));
    size_t k = r.chance(1, 12) ? 0 : static_cast<size_t>(r.range(0, 12));
    // Any part of an unfinished step does not count.
    T part = static_cast<T>(r.range(1, 63)) / T(64);
    T total = dyadic && r.chance(1, 2) ? ts * static_cast<T>(k) : ts * (static_cast<T>(k) + part);
    size_t steps = std::min(nu, k);
    control::DiscreteStateSpace<T> sys(mat(A), mat(B), mat(C), mat(D), ts);
    const auto &cs = sys;
    std::vector<Vector<T>> U;
    for (auto &v : u) U.push_back(vec(v));
    Vector<T> X0 = vec(x0);
    vf::note(A.hash() * 3 + B.hash() * 5 + vhash(x0) + nu * 31 + k);
    std::ostringstream o;
    o.precision(17);
    o << "A=" << show(A) << " B=" << show(B) << " x0=" << show(x0) << " inputs=" << nu << " ts=" << ts << " time=" << total;
    if (vf::st().samples.size() < 3) vf::sample(o.str());
    vf::op("simulate");
    auto res = control::simulate(cs, U, total, X0);
    auto &t = std::get<0>(res);
    auto &x = std::get<1>(res);
    auto &y = std::get<2>(res);
    VF_CHECK(y.size() == steps, "outputs", y.size() << " outputs, want " << steps << " " << o.str());
    VF_CHECK(x.size() == steps + 1, "states", x.size() << " states, want " << steps + 1 << " " << o.str());
    VF_CHECK(t.size() == steps + 1, "stamps", t.size() << " stamps, want " << steps + 1 << " " << o.str());
    if (y.size() != steps || x.size() != steps + 1 || t.size() != steps + 1) return;
    check_eq(x[0], x0, "initial-state", o.str());
    std::vector<T> cur = x0;
    for (size_t i = 0; i < steps; ++i) {
        check_eq(y[i], step(C, cur, D, u[i]), "output", "step " + std::to_string(i) + " " + o.str());
        auto one = control::simulate_step(cs, vec(cur), vec(u[i]));
        check_eq(one.second, step(C, cur, D, u[i]), "single-output", o.str());
        cur = step(A, cur, B, u[i]);
        check_eq(one.first, cur, "single-state", o.str());
        check_eq(x[i + 1], cur, "state", "step " + std::to_string(i) + " " + o.str());
    }
    for (size_t i = 0; i <= steps; ++i) {
        double want = static_cast<double>(ts) * static_cast<double>(i), tol = dyadic ? 0 : 4 * static_cast<double>(steps + 1) * static_cast<double>(std::numeric_limits<T>::epsilon()) * want;
        VF_CHECK(std::fabs(static_cast<double>(t[i]) - want) <= tol, "time", "stamp " << i << " is " << t[i] << " want " << want << " " << o.str());
    }
    check_eq(sys.A, A, "model-modified");
    check_eq(sys.B, B, "model-modified");
    check_eq(sys.C, C, "model-modified");
    check_eq(sys.D, D, "model-modified");
    VF_CHECK(sys.sample_time == ts, "model-modified", o.str());
    check_eq(X0, x0, "state-modified");
    for (size_t i = 0; i < nu; ++i) check_eq(U[i], u[i], "input-modified");
    vf::hit(steps == 0 ? "no-steps" : nu < k ? "limited-by-inputs" : nu > k ? "limited-by-time" : "both");
    auto zi = control::generate_input_zero(cs), zs = control::generate_state_zero(cs);
    check_eq(zi, std::vector<T>(p, T(0)), "zero-input");
    check_eq(zs, std::vector<T>(n, T(0)), "zero-state");
}
// Long runs with real values.
SCENARIO(long_run, 2)
{ Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE);
    size_t n = static_cast<size_t>(r.range(1, 4)), nu = static_cast<size_t>(r.chance(1, 25) ? r.range(1000, 3000) : r.range(50, 200));
    Mod<double> A = rmod<double>(r, n, n, -0.9 / static_cast<double>(n), 0.9 / static_cast<double>(n)), B = rmod<double>(r, n, 1, -1, 1), C = rmod<double>(r, 1, n, -1, 1), D = rmod<double>(r, 1, 1, -1, 1);
    std::vector<Vector<double>> U;
    std::vector<std::vector<double>> u;
    for (size_t i = 0; i < nu; ++i) { u.push_back(rvec<double>(r, 1)); U.push_back(vec(u.back())); }
    std::vector<double> x0 = rvec<double>(r, n);
    double ts = r.chance(1, 2) ? 0.01 : 0.1;
    control::DiscreteStateSpace<double> sys(mat(A), mat(B), mat(C), mat(D), ts);
    vf::note(A.hash() + vhash(x0));
    auto res = control::simulate(sys, U, ts * (static_cast<double>(nu) + r.real(0.02, 0.98)), vec(x0));
    auto &t = std::get<0>(res);
    auto &x = std::get<1>(res);
    auto &y = std::get<2>(res);
    VF_CHECK(y.size() == nu && x.size() == nu + 1 && t.size() == nu + 1, "long-size", y.size());
    if (!(y.size() == nu && x.size() == nu + 1 && t.size() == nu + 1)) return;
    double worst = 0;
    for (size_t i = 0; i < nu; ++i) {
        auto w = step(A, vec_of(x[i]), B, u[i]), z = step(C, vec_of(x[i]), D, u[i]);
        for (size_t k = 0; k < n; ++k) worst = worse(worst, std::fabs(w[k] - x[i + 1][k]));
        worst = worse(worst, std::fabs(z[0] - y[i][0]));
    }
    VF_CHECK(worst <= 1e-13, "long-recurrence", worst << " " << show(A));
    double tw = 0;
    for (size_t i = 0; i <= nu; ++i) tw = worse(tw, std::fabs(t[i] - ts * static_cast<double>(i)));
    VF_CHECK(tw <= 1e-10 + static_cast<double>(nu) * static_cast<double>(nu) * ts * 2.3e-16, "long-time", tw);
    if (nu >= 1000) vf::hit("thousands-of-steps");
}
// Times that are negative, null, tiny, huge or unlimited.
template <typename T> void odd_times(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4)), nu = static_cast<size_t>(r.range(0, 6));
    Mod<T> A = imod<T>(r, n, n, -1, 1), B = imod<T>(r, n, 1, -2, 2), C = imod<T>(r, 1, n, -2, 2), D = imod<T>(r, 1, 1, -2, 2);
    T ts = static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(-10, 4))));
    using L = std::numeric_limits<T>;
    std::vector<Vector<T>> U;
    std::vector<std::vector<T>> u;
    for (size_t i = 0; i < nu; ++i) { u.push_back(ivec<T>(r, 1, -3, 3)); U.push_back(vec(u.back())); }
    auto x0 = ivec<T>(r, n, -3, 3);
    int k = static_cast<int>(r.range(0, 8));
    T frac = static_cast<T>(r.range(1, 63)) / T(64);
    T total = k == 0 ? -ts * static_cast<T>(r.range(1, 9)) : k == 1 ? -ts * frac : k == 2 ? T(0) : k == 3 ? ts * frac : k == 4 ? L::infinity() : k == 5 ? L::max() : k == 6 ? -L::infinity() : k == 7 ? ts * static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(40, 80)))) : -ts * static_cast<T>(std::ldexp(1.0, static_cast<int>(r.range(31, 80))));
    size_t steps = (k == 4 || k == 5 || k == 7) ? nu : 0;
    control::DiscreteStateSpace<T> sys(mat(A), mat(B), mat(C), mat(D), ts);
    vf::note(A.hash() * 7 + vhash(x0) + static_cast<size_t>(k) * 64 + nu);
    vf::hit("odd." + std::to_string(k));
    std::ostringstream o;
    o.precision(17);
    o << "A=" << show(A) << " inputs=" << nu << " ts=" << ts << " time=" << total;
    auto res = control::simulate(sys, U, total, vec(x0));
    auto &t = std::get<0>(res);
    auto &x = std::get<1>(res);
    auto &y = std::get<2>(res);
    VF_CHECK(y.size() == steps && x.size() == steps + 1 && t.size() == steps + 1, "odd-size", y.size() << " outputs, " << x.size() << " states, " << t.size() << " stamps, want " << steps << " steps " << o.str());
    if (y.size() != steps || x.size() != steps + 1 || t.size() != steps + 1) return;
    auto cur = x0;
    check_eq(x[0], x0, "initial-state", o.str());
    for (size_t i = 0; i < steps; ++i) {
        check_eq(y[i], step(C, cur, D, u[i]), "output", o.str());
        cur = step(A, cur, B, u[i]);
        check_eq(x[i + 1], cur, "state", o.str());
    }
    for (size_t i = 0; i <= steps; ++i) VF_CHECK(t[i] == ts * static_cast<T>(i), "time", "stamp " << i << " is " << t[i] << " " << o.str());
}
SCENARIO(odd_times, 1) { if (r.chance(2, 3)) odd_times<double>(r); else odd_times<float>(r); }
SCENARIO(exact_double, 6) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); exact<double>(r); }
SCENARIO(exact_float, 2) { exact<float>(r); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
