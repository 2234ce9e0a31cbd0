// C12: reductions and norms.
#include "gen.hpp"
using namespace malg;
static const Large large(1100);
static const Long long_cases(80, 65537);

template <typename T> using rt = malg::is_complex_t<T>;
template <typename T> constexpr double eps_of() {
    if constexpr (std::is_floating_point_v<rt<T>>) return static_cast<double>(std::numeric_limits<rt<T>>::epsilon());
    else return 0;
}
template <typename T> Mod<T> any_mod(Rng &r, size_t R, size_t C, bool &exact)
{
    exact = !std::is_floating_point_v<rt<T>> || r.chance(1, 2);
    if (exact) return imod<T>(r, R, C, -9, 9);
    if constexpr (std::is_floating_point_v<rt<T>>) {
        double s = r.chance(1, 3) ? std::pow(10.0, r.real(-6, 6)) : 1.0;
        return rmod<T>(r, R, C, -s, s);
    }
    return imod<T>(r, R, C);
}
// Compares a result with a reference within n roundings relative to scale (exact if n is zero).
template <typename T, typename W>
void near(const T &got, const W &want, double scale, double n, const char *key, const std::string &ctx)
{
    auto d = std::abs(conv<std::complex<long double>>(got) - conv<std::complex<long double>>(want));
    VF_CHECK(static_cast<double>(d) <= n * eps_of<T>() * scale, key, "got " << got << " want " << want << " on " << ctx);
}
using LD = long double;
template <typename T> LD sq(const T &x)
{
    if constexpr (is_cx<T>) return (LD)x.real() * x.real() + (LD)x.imag() * x.imag();
    else return (LD)x * (LD)x;
}
template <typename T> LD ab(const T &x) { return std::sqrt(sq(x)); }
template <typename T> using CLD = std::conditional_t<is_cx<T>, std::complex<LD>, LD>;

template <typename T>
void vectors(Rng &r)
{
    bool exact;
    size_t n = dim(r, true, 60);
    Mod<T> m = any_mod<T>(r, 1, n, exact);
    const Vector<T> v = vec(m.d);
    const std::string ctx = show(m.d);
    vf::note(m.hash() * 3);
    CLD<T> s(0);
    LD q = 0, mx = 0, l1 = 0;
    for (auto &x : m.d) { s += conv<CLD<T>>(x); q += sq(x); mx = std::max(mx, ab(x)); l1 += ab(x); }
    double N = static_cast<double>(n) + 4;
    vf::op("sum");
    near(malg::sum(v), s, static_cast<double>(l1), exact ? 0 : 2 * N, "sum", ctx);
    if constexpr (!std::is_integral_v<T>) {
        vf::op("square_norm");
        near(malg::square_norm(v), std::sqrt(q), static_cast<double>(std::sqrt(q)), N, "vector-square-norm", ctx);
        vf::op("infinity_norm");
        near(malg::infinity_norm(v), mx, static_cast<double>(mx), 4, "vector-infinity-norm", ctx);
    } else if (std::is_signed_v<T>) {
        near(static_cast<double>(malg::infinity_norm(v)), mx, 1, 0, "vector-infinity-norm", ctx);
        LD w = std::sqrt(q);
        VF_CHECK(std::fabs((LD)malg::square_norm(v) - w) <= 1e-9L * w + 1e-300L, "vector-square-norm", "got " << malg::square_norm(v) << " on " << ctx);
    }
    if constexpr (!is_cx<T>) {
        vf::op("min/max");
        auto lo = malg::min(v), hi = malg::max(v);
        size_t il = 0, ih = 0;
        for (size_t i = 1; i < n; ++i) { if (m.d[i] < m.d[il]) il = i; if (m.d[ih] < m.d[i]) ih = i; }
        T wl = n ? m.d[il] : T(0), wh = n ? m.d[ih] : T(0);
        VF_CHECK(lo.first == wl && lo.second == il, "vector-min", "got " << lo.first << "@" << lo.second << " on " << ctx);
        VF_CHECK(hi.first == wh && hi.second == ih, "vector-max", "got " << hi.first << "@" << hi.second << " on " << ctx);
    }
    // Pointer forms.
    std::vector<T> a = m.d, b = exact ? ivec<T>(r, n, -5, 5) : a;
    if (!exact) for (auto &x : b) x = rval<T>(r, -2, 2);
    T init = ival<T>(r, -3, 3);
    CLD<T> ip = conv<CLD<T>>(init), ac = ip;
    LD mag_ip = ab(init), mag_ac = ab(init);
    for (size_t i = 0; i < n; ++i) {
        ip += conv<CLD<T>>(a[i]) * conv<CLD<T>>(b[i]); mag_ip += ab(a[i]) * ab(b[i]);
        ac += conv<CLD<T>>(a[i]); mag_ac += ab(a[i]);
    }
    vf::op("inner_product/accumulate");
    std::vector<T> a0 = a, b0 = b;
    near(utility::inner_product(a.data(), a.data() + n, b.data(), init), ip, static_cast<double>(mag_ip), exact ? 0 : 4 * N, "inner-product", ctx);
    near(utility::accumulate(a.data(), a.data() + n, init), ac, static_cast<double>(mag_ac), exact ? 0 : 2 * N, "accumulate", ctx);
    VF_CHECK(a == a0 && b == b0 && vec_of(v) == m.d, "operand-modified", ctx);
    if (n == 0) vf::hit("empty-vector");
    if (vf::st().samples.size() < 2) vf::sample(ctx);
}
template <typename T>
void matrices(Rng &r)
{
    bool exact;
    size_t R = dim(r, true, 25), C = dim(r, true, 25);
    if (r.chance(1, 2000)) { vf::hit("long-square"); R = 257 + r.below(60); C = r.chance(1, 2) ? R : 257 + r.below(60); }
    Mod<T> m = any_mod<T>(r, R, C, exact);
    if constexpr (std::is_floating_point_v<rt<T>>) if (m.size() && r.chance(1, 10)) {
        // A norm just beside a power of two.
        rt<T> x = std::ldexp(rt<T>(1), static_cast<int>(r.range(-3, 12)));
        if (r.chance(1, 2)) x = std::nextafter(x, r.chance(2, 3) ? rt<T>(1e30) : rt<T>(0));
        else x *= static_cast<rt<T>>(1 + std::pow(10.0, r.real(-6, -2)) * (r.chance(2, 3) ? 1 : -1));
        for (auto &y : m.d) y = T(0);
        m.d[r.below(m.size())] = T(r.chance(1, 2) ? x : -x);
        exact = false;
        vf::hit("beside-power-of-two");
    }
    Operand<T> A(r, m);
    const std::string ctx = std::string(A.kname()) + " " + show(m);
    vf::note(m.hash() * 5 + static_cast<u64>(A.kind));
    vf::hit(std::string("kind.") + A.kname());
    const double N = static_cast<double>(R * C) + 4;
    auto run = [&](const auto &X) {
        CLD<T> tr(0);
        LD q = 0, dl = 0;
        for (size_t i = 0; i < std::min(R, C); ++i) { tr += conv<CLD<T>>(m(i, i)); dl += ab(m(i, i)); }
        for (auto &x : m.d) q += sq(x);
        vf::op("trace");
        near(malg::trace(X), tr, static_cast<double>(dl), exact ? 0 : 2 * N, "trace", ctx);
        LD inf = 0;
        for (size_t i = 0; i < R; ++i) { LD s = 0; for (size_t j = 0; j < C; ++j) s += ab(m(i, j)); inf = std::max(inf, s); }
        vf::op("norms");
        if constexpr (!std::is_integral_v<T>) {
            near(malg::square_norm(X), std::sqrt(q), static_cast<double>(std::sqrt(q)), N, "frobenius", ctx);
            near(malg::infinity_norm(X), inf, static_cast<double>(inf), N, "infinity-norm", ctx);
            if (R == C || m.size() == 0) {
                LD l = 0;
                if (m.size()) for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < i; ++j) l += sq(m(i, j));
                near(malg::sub_norm(X), std::sqrt(l), static_cast<double>(std::sqrt(l)), N, "sub-norm", ctx);
                vf::hit("sub-norm");
            }
            vf::op("log2_ceil");
            auto p = malg::log2_ceil(X);
            rt<T> nrm = malg::infinity_norm(X);
            VF_CHECK(std::ldexp(1.0, -static_cast<int>(p.first)) == static_cast<double>(p.second), "log2-scale", "(" << p.first << "," << p.second << ") " << ctx);
            VF_CHECK(static_cast<double>(nrm) * static_cast<double>(p.second) <= 1.0, "log2-too-small", "(" << p.first << "," << p.second << ") norm " << nrm << " " << ctx);
            VF_CHECK(p.first == 0 || static_cast<double>(nrm) * static_cast<double>(p.second) * 2 > 1.0, "log2-too-large", "(" << p.first << "," << p.second << ") norm " << nrm << " " << ctx);
            if (p.first > 1) vf::hit("scaled");
        } else {
            VF_CHECK((LD)malg::infinity_norm(X) == inf, "infinity-norm", ctx);
            VF_CHECK(std::fabs((LD)malg::square_norm(X) - std::sqrt(q)) <= 1e-9L * std::sqrt(q), "frobenius", ctx);
        }
        vf::op("vector_length");
        for (int t = 0; t < 3 && C > 0; ++t) {
            size_t c = r.below(C), a = r.below(R + 2), b = r.below(R + 3);
            bool open = r.chance(1, 3);
            LD s = 0;
            for (size_t i = a; i < (open ? R : std::min(b, R)); ++i) s += sq(m(i, c));
            s = std::sqrt(s);
            auto g = open ? malg::vector_length(X, c, a) : malg::vector_length(X, c, a, b);
            double tol = std::is_integral_v<T> ? 1e-9 : N * static_cast<double>(std::numeric_limits<std::conditional_t<std::is_integral_v<T>, double, rt<T>>>::epsilon());
            VF_CHECK(std::fabs((LD)g - s) <= tol * s, "vector-length", "column " << c << " [" << a << "," << (open ? R : b) << ") got " << g << " want " << static_cast<double>(s) << " on " << ctx);
        }
    };
    run(A.get());
    if (A.has_const() && r.chance(1, 2)) run(A.cget());
    PURE(A);
    if constexpr (!is_cx<T>) {
        // Per column extremes, on a matrix.
        const Matrix<T> M = mat(m);
        vf::op("matrix min/max");
        auto lo = malg::min(M), hi = malg::max(M);
        std::vector<T> wl, wh;
        if (m.size()) for (size_t j = 0; j < C; ++j) {
            T a = m(0, j), b = m(0, j);
            for (size_t i = 1; i < R; ++i) { a = std::min(a, m(i, j)); b = std::max(b, m(i, j)); }
            wl.push_back(a); wh.push_back(b);
        }
        check_eq(lo, wl, "matrix-min", ctx);
        check_eq(hi, wh, "matrix-max", ctx);
        VF_CHECK(mod_of(M) == m, "operand-modified", ctx);
    }
    if (m.size() == 0) vf::hit("empty-matrix");
}
template <typename T>
void proj(Rng &r)
{
    size_t n = dim(r, false, 20);
    std::vector<T> a = rvec<T>(r, n, -3, 3), b = rvec<T>(r, n, -3, 3);
    LD ab_ = 0, bb = 0, aa = 0;
    for (size_t i = 0; i < n; ++i) { ab_ += (LD)a[i] * b[i]; bb += (LD)b[i] * b[i]; aa += (LD)a[i] * a[i]; }
    if (bb < 1e-3) return;
    const Vector<T> va = vec(a), vb = vec(b);
    vf::op("projection");
    vf::note(vhash(a) * 7 + vhash(b));
    auto p = malg::projection(va, vb);
    VF_CHECK(p.size() == n, "projection-size", p.size());
    double tol = 8 * static_cast<double>(n + 4) * eps_of<T>() * static_cast<double>(std::sqrt(aa));
    for (size_t i = 0; i < n && i < p.size(); ++i) {
        LD w = b[i] * (ab_ / bb);
        VF_CHECK(std::fabs((LD)p[i] - w) <= tol, "projection", "[" << i << "] got " << p[i] << " want " << static_cast<double>(w) << " a=" << show(a) << " b=" << show(b));
    }
    VF_CHECK(vec_of(va) == a && vec_of(vb) == b, "operand-modified", show(a));
}
// One element among many dominates: which one must not matter.
template <typename T>
void spike(Rng &r)
{
    size_t R = dim(r, false, 12), C = dim(r, false, 12);
    Mod<T> m = imod<T>(r, R, C, -2, 2);
    size_t pr = r.below(R), pc = r.below(C);
    T big = static_cast<T>(r.range(50, 90)) * static_cast<T>(r.chance(1, 2) ? 1 : -1);
    m(pr, pc) = big;
    vf::note(m.hash() * 11);
    Operand<T> A(r, m);
    const std::string ctx = std::string(A.kname()) + " " + show(m);
    LD inf = 0;
    for (size_t i = 0; i < R; ++i) { LD s = 0; for (size_t j = 0; j < C; ++j) s += ab(m(i, j)); inf = std::max(inf, s); }
    VF_CHECK((LD)malg::infinity_norm(A.get()) == inf, "spike-infinity-norm", ctx);
    const Vector<T> v = vec(m.d);
    VF_CHECK((LD)malg::infinity_norm(v) == ab(big), "spike-vector-infinity-norm", ctx);
    auto lo = malg::min(v), hi = malg::max(v);
    const size_t pos = pr * C + pc;
    if (big < T(0)) VF_CHECK(lo.first == big && lo.second == pos, "spike-min", ctx);
    else VF_CHECK(hi.first == big && hi.second == pos, "spike-max", ctx);
    const Matrix<T> M = mat(m);
    if (big < T(0)) VF_CHECK(malg::min(M)[pc] == big, "spike-column-min", ctx);
    else VF_CHECK(malg::max(M)[pc] == big, "spike-column-max", ctx);
    PURE(A);
}
// Extreme values: infinities and the ends of the integer types.
template <typename T>
void extremes(Rng &r)
{
    using L = std::numeric_limits<T>;
    size_t R = dim(r, false, 9), C = dim(r, false, 9);
    Mod<T> m = imod<T>(r, R, C, -9, 9);
    auto ext = [&]() -> T {
        if constexpr (std::is_floating_point_v<T>) switch (r.range(0, 5)) { case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::max(); case 3: return L::lowest(); case 4: return L::denorm_min(); default: return -L::denorm_min(); }
        else return r.chance(1, 2) ? L::max() : L::lowest();
    };
    const int how = static_cast<int>(r.range(0, 3));
    if (how == 0) { T x = ext(); for (auto &y : m.d) y = x; }
    else if (how == 1) { T x = ext(); size_t c = r.below(C); for (size_t i = 0; i < R; ++i) m(i, c) = x; }
    else if (how == 2) for (auto &y : m.d) { if (r.chance(1, 3)) y = ext(); }
    else m.d[r.below(m.size())] = ext();
    vf::note(m.hash() * 13);
    const std::string ctx = show(m);
    const Matrix<T> M = mat(m);
    vf::op("extremes");
    std::vector<T> wl, wh;
    for (size_t j = 0; j < C; ++j) {
        T a = m(0, j), b = m(0, j);
        for (size_t i = 1; i < R; ++i) { a = std::min(a, m(i, j)); b = std::max(b, m(i, j)); }
        wl.push_back(a); wh.push_back(b);
    }
    check_eq(malg::min(M), wl, "extreme-column-min", ctx);
    check_eq(malg::max(M), wh, "extreme-column-max", ctx);
    const Vector<T> v = vec(m.d);
    size_t il = 0, ih = 0;
    for (size_t i = 1; i < m.d.size(); ++i) { if (m.d[i] < m.d[il]) il = i; if (m.d[ih] < m.d[i]) ih = i; }
    auto lo = malg::min(v), hi = malg::max(v);
    VF_CHECK(lo.first == m.d[il] && lo.second == il, "extreme-min", "got " << lo.first << "@" << lo.second << " on " << ctx);
    VF_CHECK(hi.first == m.d[ih] && hi.second == ih, "extreme-max", "got " << hi.first << "@" << hi.second << " on " << ctx);
    if constexpr (std::is_floating_point_v<T>) {
        bool inf = false;
        for (auto &x : m.d) inf = inf || std::isinf(x);
        if (inf) {
            Operand<T> A(r, m);
            VF_CHECK(malg::infinity_norm(v) == L::infinity(), "infinite-vector-norm", ctx);
            VF_CHECK(malg::square_norm(v) == L::infinity(), "infinite-vector-square-norm", ctx);
            VF_CHECK(malg::infinity_norm(A.get()) == L::infinity(), "infinite-norm", ctx);
            VF_CHECK(malg::square_norm(A.get()) == L::infinity(), "infinite-square-norm", ctx);
            PURE(A);
            vf::hit("infinite");
        }
    }
}
// Integers of 64 bits: sums and comparisons use all of them.
template <typename T>
void wide_integers(Rng &r)
{
    size_t R = dim(r, false, 12), C = dim(r, false, 12);
    Mod<T> m(R, C);
    const bool near = r.chance(1, 2);
    if (R * C > 100) { R = 9; C = 7; m = Mod<T>(R, C); }
    const T base = static_cast<T>((u64(1) << r.range(53, 56)) + r.below(1000));
    // Next to each other, or of any size.
    for (auto &x : m.d) {
        x = near ? static_cast<T>(base + static_cast<T>(r.below(3))) : static_cast<T>(r.next() >> r.range(8, 60));
        if constexpr (std::is_signed_v<T>) if (!near && r.chance(1, 2)) x = -x;
    }
    if constexpr (std::is_signed_v<T>) if (near && r.chance(1, 2)) for (auto &x : m.d) x = -x;
    vf::note(m.hash() * 19);
    Operand<T> A(r, m);
    const Matrix<T> M = mat(m);
    const Vector<T> v = vec(m.d);
    const std::string ctx = show(m);
    T s(0), tr(0);
    for (auto &x : m.d) s += x;
    VF_CHECK(malg::sum(v) == s, "wide-sum", "got " << malg::sum(v) << " want " << s << " on " << ctx);
    std::vector<T> raw(m.d);
    VF_CHECK(utility::accumulate(raw.data(), raw.data() + raw.size(), T(1)) == static_cast<T>(s + 1), "wide-accumulate", ctx);
    for (size_t i = 0; i < std::min(R, C); ++i) tr += m(i, i);
    if (R == C) VF_CHECK(malg::trace(A.get()) == tr, "wide-trace", "want " << tr << " on " << ctx);
    std::vector<T> wl, wh;
    for (size_t j = 0; j < C; ++j) {
        T a = m(0, j), b = m(0, j);
        for (size_t i = 1; i < R; ++i) { a = std::min(a, m(i, j)); b = std::max(b, m(i, j)); }
        wl.push_back(a); wh.push_back(b);
    }
    check_eq(malg::min(M), wl, "wide-column-min", ctx);
    check_eq(malg::max(M), wh, "wide-column-max", ctx);
    size_t il = 0, ih = 0;
    for (size_t i = 1; i < m.d.size(); ++i) { if (m.d[i] < m.d[il]) il = i; if (m.d[ih] < m.d[i]) ih = i; }
    auto lo = malg::min(v), hi = malg::max(v);
    VF_CHECK(lo.first == m.d[il] && lo.second == il, "wide-min", "got " << lo.first << "@" << lo.second << " on " << ctx);
    VF_CHECK(hi.first == m.d[ih] && hi.second == ih, "wide-max", "got " << hi.first << "@" << hi.second << " on " << ctx);
    // Inner product: 58 bits per term.
    size_t n = static_cast<size_t>(r.range(0, 16));
    const int b = static_cast<int>(r.range(10, 48));
    std::vector<T> x(n), y(n);
    T w(7);
    for (size_t i = 0; i < n; ++i) {
        x[i] = static_cast<T>(r.next() & ((u64(1) << b) - 1)); y[i] = static_cast<T>(r.next() & ((u64(1) << (58 - b)) - 1));
        if constexpr (std::is_signed_v<T>) if (r.chance(1, 2)) x[i] = -x[i];
        w += x[i] * y[i];
    }
    VF_CHECK(utility::inner_product(x.data(), x.data() + n, y.data(), T(7)) == w, "wide-inner-product", "want " << w << " on " << show(x) << " " << show(y));
    PURE(A);
    vf::hit(near ? "wide.neighbours" : "wide");
}
SCENARIO(wide_integer_values, 1) { pick_type(r, [&](auto t) { wide_integers<TYPE_OF(t)>(r); }, Ty<long>(), Ty<long>(), Ty<unsigned long>(), Ty<long double>()); }
SCENARIO(extreme_values, 1) { pick_type(r, [&](auto t) { extremes<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>()); }
SCENARIO(vector_reductions, 4) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { vectors<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>(), Ty<cd>(), Ty<cf>()); }
SCENARIO(matrix_reductions, 5) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { matrices<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<cd>(), Ty<cf>()); }
SCENARIO(projections, 1) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); if (r.chance(1, 2)) proj<double>(r); else proj<float>(r); }
SCENARIO(spikes, 2) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { spike<TYPE_OF(t)>(r); }, Ty<double>(), Ty<int>(), Ty<long>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
