// C10: random matrices and vectors.
#include "gen.hpp"
using namespace malg;
static const Long long_cases(40, 65537, 8);

template <typename T, typename R> bool inside(const T &x, R lo, R hi)
{
    if constexpr (is_cx<T>) return inside(x.real(), lo, hi) && inside(x.imag(), lo, hi);
    else return x >= lo && x <= hi;
}
template <typename T, typename B>
void draw(Rng &r, B lo, B hi)
{
    using R = malg::is_complex_t<T>;
    size_t rows = dim(r, true, 30), cols = dim(r, true, 30), n = dim(r, true, 200);
    const R rlo = static_cast<R>(lo), rhi = static_cast<R>(hi);
    const double dlo = static_cast<double>(rlo), dhi = static_cast<double>(rhi);
    vf::note(hash_of(lo) * 3 + hash_of(hi) + rows * 64 + cols + n * 4096);
    vf::op("rand");
    auto M = utility::rand_matrix<T>(rows, cols, lo, hi);
    auto V = utility::rand_vector<T>(n, lo, hi);
    static_assert(std::is_same_v<decltype(M), Matrix<T>> && std::is_same_v<decltype(V), Vector<T>>);
    std::ostringstream o;
    o.precision(17);
    o << tname<T>() << " " << rows << "x" << cols << " / " << n << " in [" << dlo << "," << dhi << "]";
    VF_CHECK(M.rows() == rows && M.cols() == cols && M.size() == rows * cols, "matrix-shape", o.str() << " is " << M.rows() << "x" << M.cols());
    VF_CHECK(V.size() == n, "vector-size", o.str() << " is " << V.size());
    auto scan = [&](const auto &c, size_t k, const char *key) {
        std::set<R> vals;
        for (size_t i = 0; i < k; ++i) {
            VF_CHECK(inside(c[i], rlo, rhi), std::string(key) + "-out-of-range", o.str() << " contains " << c[i]);
            if constexpr (is_cx<T>) { vals.insert(c[i].real()); vals.insert(c[i].imag()); } else vals.insert(c[i]);
            if (rlo == rhi) {
                if constexpr (is_cx<T>) VF_CHECK(c[i] == T(R(lo), R(lo)), std::string(key) + "-degenerate", o.str());
                else VF_CHECK(c[i] == T(lo), std::string(key) + "-degenerate", o.str());
            }
        }
        vf::hit("draws", k);
        // 2^-40 or less when the draws are random.
        if (rhi > rlo && k >= 40) {
            VF_CHECK(vals.size() > 1, std::string(key) + "-constant", o.str());
            vf::hit("spread.checked");
            if constexpr (!std::is_integral_v<R>) VF_CHECK(vals.size() > k / 4, std::string(key) + "-few-values", o.str() << " " << vals.size());
            // The values spread over the range: half of it is never missed by so many draws.
            if constexpr (!std::is_integral_v<R>) {
                const double mid = dlo + (dhi - dlo) / 2;
                VF_CHECK(static_cast<double>(*vals.begin()) < mid && static_cast<double>(*vals.rbegin()) > mid, std::string(key) + "-half-range", o.str());
            }
            // Doubles hardly ever repeat, nor do the parts of a complex number coincide.
            if constexpr (std::is_same_v<R, double>) if (dhi - dlo >= 0.004 * std::max(std::fabs(dlo), std::fabs(dhi))) {
                const size_t total = is_cx<T> ? 2 * k : k;
                VF_CHECK(vals.size() + 2 + total / 256 >= total, std::string(key) + "-repeated-values", o.str() << " " << vals.size() << " different values among " << total);
                if constexpr (is_cx<T>) {
                    size_t same = 0;
                    for (size_t i = 0; i < k; ++i) same += c[i].real() == c[i].imag();
                    VF_CHECK(same <= 2, std::string(key) + "-some-parts-equal", o.str() << " " << same << " of " << k);
                }
                vf::hit("distinct.checked");
            }
            if constexpr (is_cx<T>) {
                bool same = true;
                for (size_t i = 0; i < k; ++i) same = same && c[i].real() == c[i].imag();
                VF_CHECK(!same, std::string(key) + "-parts-equal", o.str());
                std::set<double> re, im;
                for (size_t i = 0; i < k; ++i) { re.insert(static_cast<double>(c[i].real())); im.insert(static_cast<double>(c[i].imag())); }
                VF_CHECK(re.size() > 1 && im.size() > 1, std::string(key) + "-part-constant", o.str());
            }
        }
    };
    scan(M, M.size(), "matrix");
    scan(V, V.size(), "vector");
}
template <typename T>
void real_range(Rng &r)
{
    double s = std::pow(10.0, r.real(-3, 6));
    if (r.chance(1, 6)) { constexpr bool single = std::is_same_v<malg::is_complex_t<T>, float>; s = std::pow(10.0, single ? r.real(-30, 30) : r.real(-290, 290)); vf::hit("far-magnitudes"); }
    double a = r.real(-1, 1) * s, b = a + r.real(0.01, 2) * s;
    if (r.chance(1, 10)) b = a;
    if (r.chance(1, 4)) draw<T, int>(r, static_cast<int>(r.range(-9, 0)), static_cast<int>(r.range(1, 9)));
    else { using R = malg::is_complex_t<T>; draw<T, R>(r, static_cast<R>(a), static_cast<R>(b)); }
}
template <typename T>
void int_range(Rng &r)
{
    long a = r.range(std::is_unsigned_v<T> ? 0 : -1000, 1000), b = a + (r.chance(1, 2) ? r.range(0, 4) : r.range(0, 2000));
    if (r.chance(1, 3)) {
        // Anywhere in the type, up to the whole of it.
        using L = std::numeric_limits<T>;
        auto any = [&] { const int k = static_cast<int>(r.range(0, L::digits - 1)); u64 v = (u64(1) << k) + (r.next() & ((u64(1) << k) - 1)); T x = static_cast<T>(v); if (std::is_signed_v<T> && r.chance(1, 2)) x = static_cast<T>(-x); return x; };
        T x = any(), y = any();
        if (r.chance(1, 8)) x = L::min();
        if (r.chance(1, 8)) y = L::max();
        if (r.chance(1, 3)) { x = std::min(x, static_cast<T>(L::max() - 10)); y = static_cast<T>(x + static_cast<T>(r.below(6))); }
        if (y < x) std::swap(x, y);
        vf::hit("whole-type");
        draw<T, T>(r, x, y);
        return;
    }
    draw<T, T>(r, static_cast<T>(a), static_cast<T>(b));
}
// Both ends of a small integer range are reached (missing one has probability below 1e-40).
template <typename T>
void ends(Rng &r)
{
    T a = static_cast<T>(r.range(-5, 5)), b = static_cast<T>(a + r.range(0, 3));
    vf::note(hash_of(a) * 5 + hash_of(b) + r.below(1u << 30));
    auto M = utility::rand_matrix<T>(20, 20, a, b);
    auto V = utility::rand_vector<T>(400, a, b);
    auto go = [&](const auto &c, size_t k, const char *key) {
        std::set<long> s;
        for (size_t i = 0; i < k; ++i) s.insert(static_cast<long>(c[i]));
        for (long x = static_cast<long>(a); x <= static_cast<long>(b); ++x) VF_CHECK(s.count(x), key, x << " never drawn in [" << a << "," << b << "]");
        VF_CHECK(s.size() == static_cast<size_t>(b - a + 1), std::string(key) + "-extra", s.size() << " values in [" << a << "," << b << "]");
    };
    go(M, 400, "matrix-misses-value");
    go(V, 400, "vector-misses-value");
}
// Successive calls give different contents (three equal draws in a row have probability 2^-64).
SCENARIO(successive, 1)
{
    vf::note(r.below(1u << 30));
    auto a = mod_of(utility::rand_matrix<double>(5, 5, -1.0, 1.0)), b = mod_of(utility::rand_matrix<double>(5, 5, -1.0, 1.0)), c = mod_of(utility::rand_matrix<double>(5, 5, -1.0, 1.0));
    VF_CHECK(!(a == b && b == c), "matrix-repeats", show(a));
    auto x = vec_of(utility::rand_vector<double>(25, -1.0, 1.0)), y = vec_of(utility::rand_vector<double>(25, -1.0, 1.0)), z = vec_of(utility::rand_vector<double>(25, -1.0, 1.0));
    VF_CHECK(!(x == y && y == z), "vector-repeats", show(x));
}
SCENARIO(reals, 4) { pick_type(r, [&](auto t) { real_range<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<cd>(), Ty<cf>()); }
SCENARIO(integers, 3) { pick_type(r, [&](auto t) { int_range<TYPE_OF(t)>(r); }, Ty<int>(), Ty<long>(), Ty<short>(), Ty<unsigned long>()); }
SCENARIO(reach_ends, 1) { pick_type(r, [&](auto t) { ends<TYPE_OF(t)>(r); }, Ty<int>(), Ty<long>(), Ty<short>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
