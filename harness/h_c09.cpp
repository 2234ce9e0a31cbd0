// C09: linspace and logspace.
#include "gen.hpp"
using namespace malg;

// Bounds that the relative tolerance of the library does not merge.
template <typename T>
void bounds(Rng &r, T &a, T &b, double lo, double hi)
{
    for (;;) {
        double s = r.chance(1, 3) ? std::pow(10.0, r.chance(1, 2) ? r.real(-4, 4) : !std::is_same_v<T, float> && r.chance(1, 4) ? r.real(-150, 150) : r.real(-20, 12)) : 1.0;
        a = static_cast<T>(r.real(lo, hi) * s);
        b = static_cast<T>(r.real(lo, hi) * s);
        if (r.chance(1, 10)) a = 0;
        if (r.chance(1, 10)) b = 0;
        if (r.chance(1, 8)) { a = static_cast<T>(r.range(-9, 9)); b = static_cast<T>(r.range(-9, 9)); }
        double m = std::max(std::fabs(double(a)), std::fabs(double(b)));
        if (a == b || std::fabs(double(a) - double(b)) > 1e-3 * m) return;
    }
}
static unsigned count(Rng &r)
{
    switch (r.range(0, 9)) {
    case 0: return static_cast<unsigned>(r.range(0, 3));
    case 1: return static_cast<unsigned>(r.range(50, 400));
    case 2: return 2;
    default: return static_cast<unsigned>(r.range(2, 30));
    }
}
template <typename T>
void lin(Rng &r)
{
    T a, b;
    bounds(r, a, b, -10, 10);
    if (r.chance(1, 12)) b = a;
    unsigned n = count(r);
    bool def = r.chance(1, 20);
    if (def) n = 100;
    vf::op("linspace");
    auto v = def ? utility::linspace<T>(a, b) : utility::linspace<T>(a, b, n);
    std::ostringstream o;
    o.precision(17);
    o << "linspace(" << a << "," << b << "," << n << ")";
    vf::note(hash_of(a) * 3 + hash_of(b) + n);
    if (vf::st().samples.size() < 2) vf::sample(o.str());
    VF_CHECK(v.size() == n, "size", o.str() << " has " << v.size());
    if (v.size() != n || n == 0) return;
    const double eps = static_cast<double>(std::numeric_limits<T>::epsilon());
    double m = std::max(std::fabs(double(a)), std::fabs(double(b)));
    if (n == 1) { VF_CHECK(v[0] == b, "one-point", o.str() << " = " << v[0]); vf::hit("one"); return; }
    VF_CHECK(v[0] == a, "first", o.str() << " starts at " << v[0]);
    VF_CHECK(std::fabs(double(v[n - 1]) - double(b)) <= 8 * eps * m, "last", o.str() << " ends at " << v[n - 1]);
    double worst = 0;
    for (unsigned i = 0; i < n; ++i) {
        long double w = (long double)a + ((long double)b - (long double)a) * i / (n - 1);
        worst = worse(worst, static_cast<double>(std::fabs(w - (long double)v[i])));
    }
    VF_CHECK(worst <= 8 * eps * m, "spacing", o.str() << " is off by " << worst);
    bool mono = true;
    double step = std::fabs(double(b) - double(a)) / (n - 1);
    if (a == b) { for (unsigned i = 0; i < n; ++i) mono = mono && v[i] == b; vf::hit("constant"); }
    else if (step > 64 * eps * m) { for (unsigned i = 1; i < n; ++i) mono = mono && (a < b ? v[i] > v[i - 1] : v[i] < v[i - 1]); vf::hit(a < b ? "increasing" : "decreasing"); }
    VF_CHECK(mono, "monotone", o.str());
}
template <typename T>
void lin_int(Rng &r)
{
    unsigned n = static_cast<unsigned>(r.range(0, 20));
    T a = static_cast<T>(r.range(-50, 50)), step = static_cast<T>(r.range(-7, 7)), b = static_cast<T>(n > 1 ? a + step * static_cast<T>(n - 1) : r.range(-50, 50));
    auto v = utility::linspace<T>(a, b, n);
    std::ostringstream o;
    o << "linspace<int>(" << a << "," << b << "," << n << ")";
    vf::note(hash_of(a) * 5 + hash_of(b) + n);
    VF_CHECK(v.size() == n, "int-size", o.str());
    if (v.size() != n) return;
    if (n == 1) { VF_CHECK(v[0] == b, "int-one-point", o.str()); return; }
    for (unsigned i = 0; i < n; ++i) VF_CHECK(v[i] == a + step * static_cast<T>(i), "int-value", o.str() << " [" << i << "] = " << v[i]);
}
template <typename T>
void logs(Rng &r)
{
    T a, b;
    for (;;) {
        a = static_cast<T>(r.real(-6, 6)); b = static_cast<T>(r.real(-6, 6));
        if (r.chance(1, 4)) { a = static_cast<T>(r.range(-5, 5)); b = static_cast<T>(r.range(-5, 5)); }
        double m = std::max(std::fabs(double(a)), std::fabs(double(b)));
        if (a == b || std::fabs(double(a) - double(b)) > 1e-3 * m) break;
    }
    if (r.chance(1, 12)) b = a;
    static const double BASES[] = { 10, 2, 2.718281828459045, 1.5, 0.5, 3 };
    T base = static_cast<T>(BASES[r.below(6)]);
    size_t n = count(r);
    int def = static_cast<int>(r.range(0, 19));
    if (def == 0) { n = 50; base = 10; }
    if (def == 1) base = 10;
    vf::op("logspace");
    auto v = def == 0 ? utility::logspace<T>(a, b) : def == 1 ? utility::logspace<T>(a, b, n) : utility::logspace<T>(a, b, n, base);
    std::ostringstream o;
    o.precision(17);
    o << "logspace(" << a << "," << b << "," << n << "," << base << ")";
    vf::note(hash_of(a) * 7 + hash_of(b) + n + hash_of(base));
    VF_CHECK(v.size() == n, "log-size", o.str() << " has " << v.size());
    if (v.size() != n || n == 0) return;
    const double eps = static_cast<double>(std::numeric_limits<T>::epsilon());
    auto P = [&](long double e) { return std::pow((long double)base, e); };
    double worst = 0;
    for (size_t i = 0; i < n; ++i) {
        long double e = n == 1 ? (long double)b : (long double)a + ((long double)b - (long double)a) * i / (n - 1);
        long double w = P(e);
        worst = worse(worst, static_cast<double>(std::fabs((long double)v[i] - w) / w));
    }
    VF_CHECK(worst <= 200 * eps, n == 1 ? "log-one-point" : "log-spacing", o.str() << " is off by " << worst);
    bool mono = true;
    double step = std::fabs(double(b) - double(a)) / (n > 1 ? n - 1 : 1) * std::fabs(std::log(double(base)));
    if (n > 1 && a != b && step > 500 * eps) {
        bool up = (a < b) == (base > 1);
        for (size_t i = 1; i < n; ++i) mono = mono && (up ? v[i] > v[i - 1] : v[i] < v[i - 1]);
        vf::hit(a < b ? "log.increasing" : "log.decreasing");
    }
    if (a == b) for (size_t i = 1; i < n; ++i) mono = mono && v[i] == v[0];
    VF_CHECK(mono, "log-monotone", o.str());
}
SCENARIO(lin_double, 4) { lin<double>(r); }
SCENARIO(lin_float, 2) { lin<float>(r); }
SCENARIO(lin_integer, 1) { if (r.chance(1, 2)) lin_int<int>(r); else lin_int<long>(r); }
SCENARIO(log_double, 4) { logs<double>(r); }
SCENARIO(log_float, 2) { logs<float>(r); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
