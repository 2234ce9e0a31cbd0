// C07: comparisons, tolerance, aggregations.
#include "gen.hpp"
using namespace malg;
static const Large large(400);
static const Long long_cases(80, 65537);

// Outcome of an element comparison, or "too close to the bound to tell".
enum Tri { NO, YES, DUNNO };
static Tri approx(long double a, long double b, long double tol, long double noise)
{
    if (std::isnan(a) || std::isnan(b)) return NO;
    if (std::isinf(a) || std::isinf(b)) return a == b ? YES : NO;
    long double m = std::max(std::fabs(a), std::fabs(b)), d = std::fabs(a - b);
    if (d == 0) return YES;
    long double bound = tol * m;
    if (d <= bound * 0.9L - noise * m) return YES;
    if (d >= bound * 1.1L + noise * m) return NO;
    return DUNNO;
}
template <typename A, typename B>
Tri expect(const A &a, const B &b, double tol)
{
    constexpr bool fl = std::is_floating_point_v<A> || std::is_floating_point_v<B>;
    if constexpr (is_cx<A> && is_cx<B>) {
        long double n = 4 * std::max<long double>(std::numeric_limits<typename A::value_type>::epsilon(), std::numeric_limits<typename B::value_type>::epsilon());
        Tri r = approx(a.real(), b.real(), tol, n), i = approx(a.imag(), b.imag(), tol, n);
        if (r == NO || i == NO) return NO;
        if (r == DUNNO || i == DUNNO) return DUNNO;
        return YES;
    } else if constexpr (fl) {
        long double n = 0;
        if constexpr (std::is_floating_point_v<A>) n = std::max<long double>(n, std::numeric_limits<A>::epsilon());
        if constexpr (std::is_floating_point_v<B>) n = std::max<long double>(n, std::numeric_limits<B>::epsilon());
        return approx(a, b, tol, 4 * n);
    } else {
        return a == b ? YES : NO;
    }
}
static const double TOLS[] = { 1e-6, 1e-6, 1e-3, 1e-9, 1e-2, 0.0, 1e-12, 0.25 };
struct Tol {
    double v;
    explicit Tol(Rng &r) : v(TOLS[r.below(8)]) { malg::feq::tolerance() = v; }
    ~Tol() { malg::feq::tolerance() = 1e-06; }
};
// A real of any magnitude.
template <typename T> T anyval(Rng &r)
{
    if constexpr (std::is_integral_v<T>) return static_cast<T>(r.range(-9, 9));
    else {
        if (r.chance(1, 12)) return T(0);
        if (r.chance(1, 40)) return std::numeric_limits<T>::infinity() * T(r.chance(1, 2) ? 1 : -1);
        if (r.chance(1, 60)) return std::numeric_limits<T>::quiet_NaN();
        return static_cast<T>((r.chance(1, 2) ? 1 : -1) * std::pow(10.0, r.real(-12, 12)) * r.real(1, 9));
    }
}
// A value related to `a`: the same, within the tolerance, outside of it, or unrelated.
template <typename T, typename S> T partner(Rng &r, const S &a, double tol)
{
    if constexpr (std::is_integral_v<T>) {
        if (std::isnan(static_cast<double>(a)) || std::fabs(static_cast<double>(a)) > 1e6) return T(1);
        return static_cast<T>(static_cast<T>(a) + (r.chance(1, 2) ? 0 : r.range(-1, 1)));
    } else {
        double x = static_cast<double>(a);
        switch (r.range(0, 7)) {
        case 0: case 1: return static_cast<T>(x);
        case 2: case 3: return static_cast<T>(x * (1 + tol * r.real(-0.8, 0.8)));
        case 4: return static_cast<T>(x * (1 + tol * (r.chance(1, 2) ? 1 : -1) * r.real(1.3, 3)));
        case 5: return static_cast<T>(-x);
        case 6: return static_cast<T>(x * (1 + r.real(0.3, 5)));
        default: return anyval<T>(r);
        }
    }
}
template <typename T> struct AnyGen {
    static T any(Rng &r) { return anyval<T>(r); }
    template <typename S> static T like(Rng &r, const S &a, double tol) { return partner<T>(r, a, tol); }
};
template <typename R> struct AnyGen<std::complex<R>> {
    static std::complex<R> any(Rng &r) { R a = anyval<R>(r), b = anyval<R>(r); return { a, b }; }
    template <typename S> static std::complex<R> like(Rng &r, const S &a, double tol)
    {
        R x = partner<R>(r, a.real(), tol), y = r.chance(1, 2) ? static_cast<R>(a.imag()) : partner<R>(r, a.imag(), tol);
        return { x, y };
    }
};
template <typename T> T finite(T x)
{
    if constexpr (is_cx<T>) return T(finite(x.real()), finite(x.imag()));
    else if constexpr (std::is_floating_point_v<T>) return std::isfinite(x) ? x : T(3);
    else return x;
}
static void judge(bool eq, bool ne, Tri want, const char *key, const std::string &ctx)
{
    VF_CHECK(eq != ne, std::string(key) + "-negation", "== gives " << eq << " and != gives " << ne << " for " << ctx);
    if (want != DUNNO) VF_CHECK(eq == (want == YES), std::string(key) + (want == YES ? "-not-equal" : "-equal"), ctx);
    vf::hit(want == YES ? "eq.yes" : want == NO ? "eq.no" : "eq.near-bound");
}
template <typename T1, typename T2>
std::string ctx2(const T1 &a, const T2 &b, double tol)
{
    vf::Pause p;
    std::ostringstream o;
    o.precision(17);
    o << a << " vs " << b << " tol " << tol << " (" << tname<T1>() << "," << tname<T2>() << ")";
    return o.str();
}
template <typename T1, typename T2>
void equality(Rng &r)
{
    Tol tol(r);
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    Mod<T1> a(R, C);
    Mod<T2> b(R, C);
    for (size_t i = 0; i < a.d.size(); ++i) { a.d[i] = AnyGen<T1>::any(r); b.d[i] = AnyGen<T2>::like(r, a.d[i], tol.v); }
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 3 + b.hash());
    auto check = [&](const auto &P, const auto &Q) {
        vf::op("A==B");
        auto e = P == Q;
        auto n = P != Q;
        static_assert(std::is_same_v<decltype(e), Matrix<bool>>);
        VF_CHECK(e.rows() == R && e.cols() == C && n.rows() == R && n.cols() == C, "shape", "shape of the comparison");
        if (e.rows() != R || e.cols() != C || n.rows() != R || n.cols() != C) return;
        for (size_t i = 0; i < R; ++i)
            for (size_t j = 0; j < C; ++j) judge(e(i, j), n(i, j), expect(a(i, j), b(i, j), tol.v), "matrix", ctx2(a(i, j), b(i, j), tol.v));
    };
    check(A.get(), B.get());
    if (A.has_const() && B.has_const()) check(A.cget(), B.cget());
    // Against a scalar.
    if (R * C) {
        T2 s = b.d[r.below(b.d.size())];
        auto e = A.get() == s;
        auto n = A.get() != s;
        VF_CHECK(e.rows() == R && e.cols() == C && n.rows() == R && n.cols() == C, "scalar-shape", "shape");
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) judge(e(i, j), n(i, j), expect(a(i, j), s, tol.v), "matrix-scalar", ctx2(a(i, j), s, tol.v));
    }
    // Vectors.
    auto V = vec(a.d);
    auto U = vec(b.d);
    auto e = V == U;
    auto n = V != U;
    VF_CHECK(e.size() == a.d.size() && n.size() == a.d.size(), "vector-shape", "shape");
    for (size_t i = 0; i < a.d.size(); ++i) judge(e[i], n[i], expect(a.d[i], b.d[i], tol.v), "vector", ctx2(a.d[i], b.d[i], tol.v));
    if (R * C) {
        T2 s = b.d[r.below(b.d.size())];
        auto es = V == s;
        auto ns = V != s;
        VF_CHECK(es.size() == a.d.size() && ns.size() == a.d.size(), "vector-scalar-shape", "shape");
        for (size_t i = 0; i < a.d.size(); ++i) judge(es[i], ns[i], expect(a.d[i], s, tol.v), "vector-scalar", ctx2(a.d[i], s, tol.v));
    }
    PURE(A); PURE(B);
    // Scalars.
    for (size_t i = 0; i < a.d.size() && i < 4; ++i) {
        if constexpr (std::is_floating_point_v<T1> && std::is_floating_point_v<T2>) {
            T1 x = a.d[i];
            T2 y = b.d[i];
            Tri w = expect(x, y, tol.v);
            bool q = malg::feq::approximately_equal(x, y);
            if (w != DUNNO) {
                VF_CHECK(q == (w == YES), "approximately_equal", ctx2(x, y, tol.v));
                VF_CHECK(malg::feq::approximately_equal(y, x) == q, "approximately_equal-symmetric", ctx2(x, y, tol.v));
                VF_CHECK(malg::feq::approximately_lesser_than_equal(x, y) == (x < y || w == YES), "approximately_lesser", ctx2(x, y, tol.v));
                VF_CHECK(malg::feq::approximately_greater_than_equal(x, y) == (x > y || w == YES), "approximately_greater", ctx2(x, y, tol.v));
            }
        }
        if constexpr (std::is_floating_point_v<T1>) if (tol.v < 1) VF_CHECK(malg::feq::approximately_equal_to_zero(a.d[i]) == (a.d[i] == 0), "approximately_zero", ctx2(a.d[i], 0, tol.v));
    }
}
template <typename T1, typename T2>
void order(Rng &r)
{
    Tol tol(r);
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    Mod<T1> a(R, C);
    Mod<T2> b(R, C);
    for (size_t i = 0; i < a.d.size(); ++i) { a.d[i] = AnyGen<T1>::any(r); b.d[i] = AnyGen<T2>::like(r, a.d[i], tol.v); }
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 5 + b.hash());
    T2 s = R * C ? b.d[r.below(b.d.size())] : T2(0);
    auto go = [&](const char *k, const Matrix<bool> &m, auto f) {
        VF_CHECK(m.rows() == R && m.cols() == C, std::string(k) + "-shape", "shape");
        if (m.rows() != R || m.cols() != C) return;
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) VF_CHECK(m(i, j) == f(a(i, j), b(i, j)), k, ctx2(a(i, j), b(i, j), tol.v) << " scalar " << s);
    };
    vf::op("order");
    auto &P = A.get();
    auto &Q = B.get();
    go("less", P < Q, [](T1 x, T2 y) { return x < y; });
    go("less-equal", P <= Q, [](T1 x, T2 y) { return x <= y; });
    go("greater", P > Q, [](T1 x, T2 y) { return x > y; });
    go("greater-equal", P >= Q, [](T1 x, T2 y) { return x >= y; });
    go("less-scalar", P < s, [s](T1 x, T2) { return x < s; });
    go("less-equal-scalar", P <= s, [s](T1 x, T2) { return x <= s; });
    go("greater-scalar", P > s, [s](T1 x, T2) { return x > s; });
    go("greater-equal-scalar", P >= s, [s](T1 x, T2) { return x >= s; });
    if (A.has_const() && B.has_const()) {
        go("less-const", A.cget() < B.cget(), [](T1 x, T2 y) { return x < y; });
        go("greater-equal-const", A.cget() >= B.cget(), [](T1 x, T2 y) { return x >= y; });
    }
    PURE(A); PURE(B);
}
// all, any, all_close, compare.
template <typename T>
void aggregate(Rng &r)
{
    size_t R = dim(r, true, 12), C = dim(r, true, 12);
    auto a = imod<T>(r, R, C, 1, 3);
    size_t N = a.size();
    int zeros = static_cast<int>(r.range(0, 3));
    if (zeros == 0) for (auto &x : a.d) x = T(0);
    if (N) {
        if (zeros == 1) a.d[r.below(N)] = T(0);
        if (zeros == 0 && r.chance(1, 2)) a.d[r.below(N)] = T(1);
        if (zeros == 3) for (size_t i = 0; i < 3; ++i) a.d[r.below(N)] = T(0);
        // Elements that cancel out, or whose product vanishes.
        if (zeros != 3 && r.chance(1, 3)) {
            T x = T(r.range(1, 3));
            if (N > 1) { size_t i = r.below(N), j = (i + 1 + r.below(N - 1)) % N; a.d[i] = x; a.d[j] = -x; vf::hit("cancelling"); }
            if (r.chance(1, 2)) for (auto &y : a.d) if (r.chance(1, 2)) y = -y;
        }
        if constexpr (std::is_floating_point_v<T>) if (r.chance(1, 6)) {
            const T k = std::ldexp(T(1), std::is_same_v<T, float> ? (r.chance(1, 2) ? 100 : -140) : (r.chance(1, 2) ? 1000 : -1060));
            for (auto &y : a.d) y *= k;
            vf::hit("tiny-or-huge");
        }
    }
    bool wall = true, wany = false;
    for (auto &x : a.d) { if (x == T(0)) wall = false; else wany = true; }
    Operand<T> A(r, a);
    auto V = vec(a.d);
    vf::note(a.hash() * 7);
    VF_CHECK(malg::all(A.get()) == wall, "all-matrix", show(a));
    VF_CHECK(malg::any(A.get()) == wany, "any-matrix", show(a));
    VF_CHECK(malg::all(V) == wall, "all-vector", show(a));
    VF_CHECK(malg::any(V) == wany, "any-vector", show(a));
    // First difference, in the linear order of the library.
    auto b = a;
    if (N) for (int i = 0; i < static_cast<int>(r.range(0, 3)); ++i) { auto &y = b.d[r.below(N)]; if constexpr (std::is_floating_point_v<T>) y = r.chance(1, 2) ? y * 2 : -y; else y += T(r.chance(1, 2) ? 1 : -1); }
    Operand<T> B(r, b);
    auto U = vec(b.d);
    int64_t wm = 0, wv = 0;
    for (size_t k = 0; k < N && !wm; ++k) { if (a.linear(k) < b.linear(k)) wm = -static_cast<int64_t>(k + 1); else if (a.linear(k) > b.linear(k)) wm = static_cast<int64_t>(k + 1); }
    for (size_t k = 0; k < N && !wv; ++k) { if (a.d[k] < b.d[k]) wv = -static_cast<int64_t>(k + 1); else if (a.d[k] > b.d[k]) wv = static_cast<int64_t>(k + 1); }
    VF_CHECK(utility::compare(A.get(), B.get()) == wm, "compare-matrix", show(a) << " vs " << show(b) << " gives " << utility::compare(A.get(), B.get()) << " want " << wm);
    VF_CHECK(utility::compare(V, U) == wv, "compare-vector", show(a) << " vs " << show(b) << " gives " << utility::compare(V, U) << " want " << wv);
    VF_CHECK(utility::compare(B.get(), A.get()) == -wm, "compare-antisymmetric", show(a) << " vs " << show(b));
    vf::hit(wm ? "compare.different" : "compare.same");
    PURE(A); PURE(B);
}
template <typename T>
void closeness(Rng &r)
{
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    static const double TS[] = { 0.0001, 1e-8, 0.5, 1e-3, 2.0 };
    double t = TS[r.below(5)];
    bool def = t == 0.0001 && r.chance(1, 2);
    auto a = rmod<T>(r, R, C, -3, 3);
    auto b = a;
    bool want = true, odd = false;
    for (auto &x : b.d) x += T(t * r.real(-0.6, 0.6));
    if (r.chance(2, 3) && a.size()) {
        size_t k = r.below(a.size());
        if (r.chance(1, 4)) b.d[k] = -a.d[k]; // the same magnitude
        else b.d[k] = a.d[k] + T(t * r.real(1.2, 20) * (r.chance(1, 2) ? 1 : -1));
    }
    for (size_t i = 0; i < a.d.size(); ++i) {
        double d = mag(T(a.d[i] - b.d[i]));
        if (d > t) want = false;
        if (std::fabs(d - t) < 0.05 * t + 1e-15) odd = true;
    }
    if (odd) { vf::hit("close.near-bound"); return; }
    Operand<T> A(r, a), B(r, b);
    auto V = vec(a.d), U = vec(b.d);
    vf::note(a.hash() * 11 + b.hash());
    bool m = def ? utility::all_close(A.get(), B.get()) : utility::all_close(A.get(), B.get(), t);
    bool v = def ? utility::all_close(V, U) : utility::all_close(V, U, t);
    VF_CHECK(m == want, "all_close-matrix", show(a) << " vs " << show(b) << " tol " << t);
    VF_CHECK(v == want, "all_close-vector", show(a) << " vs " << show(b) << " tol " << t);
    VF_CHECK((def ? utility::all_close(B.get(), A.get()) : utility::all_close(B.get(), A.get(), t)) == want, "all_close-symmetric", "tol " << t);
    PURE(A); PURE(B);
    vf::hit(want ? "close.yes" : "close.no");
}
// A difference equal to the bound is within it, in exact arithmetic, and a bound of
// zero asks for equality.
template <typename T>
void exact_bound(Rng &r)
{
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    auto a = imod<T>(r, R, C, -9, 9);
    auto b = a;
    const int t = r.chance(1, 3) ? 0 : static_cast<int>(r.range(1, 4));
    bool want = true;
    const bool beyond = r.chance(1, 2);
    for (auto &x : b.d) if (r.chance(1, 2)) x = x + T(static_cast<int>(r.range(-t, t)));
    if (a.size()) {
        auto &x = b.d[r.below(a.size())];
        size_t k = static_cast<size_t>(&x - b.d.data());
        const int d = beyond ? t + 1 : t;
        if constexpr (is_cx<T>) x = a.d[k] + (r.chance(1, 2) ? T(d) : T(0, -d)); else x = a.d[k] + T(r.chance(1, 2) ? d : -d);
        want = !beyond;
    }
    Operand<T> A(r, a), B(r, b);
    vf::note(a.hash() * 13 + b.hash() + t);
    vf::hit(want ? "close.at-bound" : "close.just-beyond");
    VF_CHECK(utility::all_close(A.get(), B.get(), t) == want, "all_close-bound-matrix", show(a) << " vs " << show(b) << " tol " << t);
    VF_CHECK(utility::all_close(vec(a.d), vec(b.d), t) == want, "all_close-bound-vector", show(a) << " vs " << show(b) << " tol " << t);
    VF_CHECK(utility::all_close(B.get(), A.get(), t) == want, "all_close-bound-symmetric", "tol " << t);
    PURE(A); PURE(B);
}
template <int K>
void dispatch(Rng &r)
{
    auto call = [&](auto t1, auto t2) {
        using A = TYPE_OF(t1);
        using B = TYPE_OF(t2);
        vf::hit("types." + tname<A>() + "." + tname<B>());
        if constexpr (K == 0) equality<A, B>(r);
        else order<A, B>(r);
    };
    switch (r.range(0, 6)) {
    case 0: call(Ty<double>(), Ty<double>()); break;
    case 1: call(Ty<int>(), Ty<int>()); break;
    case 2: call(Ty<double>(), Ty<int>()); break;
    case 3: call(Ty<int>(), Ty<double>()); break;
    case 4: call(Ty<float>(), Ty<float>()); break;
    case 5: call(Ty<float>(), Ty<double>()); break;
    default: call(Ty<long>(), Ty<int>()); break;
    }
}
// Integers of 64 bits are told apart down to their last bit.
template <typename T1, typename T2>
void wide_integers(Rng &r)
{
    Tol tol(r);
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    Mod<T1> a(R, C);
    Mod<T2> b(R, C);
    auto value = [&]() -> T1 {
        if constexpr (sizeof(T1) == 8) {
            const int bits = static_cast<int>(r.range(20, 62));
            T1 x = static_cast<T1>((u64(1) << bits) + r.below(3) - 1 + (r.chance(1, 2) ? r.next() & ((u64(1) << bits) - 1) : 0));
            if constexpr (std::is_signed_v<T1>) if (r.chance(1, 3)) x = -x;
            return x;
        } else return static_cast<T1>(r.range(-2000000000, 2000000000));
    };
    auto partner_of = [&](T1 x) -> T2 {
        if constexpr (sizeof(T2) == 8) {
            // Next to it, or the same in its lower half only.
            if (r.chance(1, 6)) return static_cast<T2>(static_cast<T2>(x) ^ (T2(1) << 32));
            return static_cast<T2>(static_cast<T2>(x) + static_cast<T2>(r.below(3)) - 1);
        } else return static_cast<T2>(static_cast<int>(static_cast<u64>(x) & 0x3fffffff) + static_cast<int>(r.range(-1, 1)));
    };
    for (size_t i = 0; i < a.d.size(); ++i) { a.d[i] = value(); b.d[i] = partner_of(a.d[i]); }
    if (!a.d.empty() && r.chance(1, 3)) { T1 x = value(); for (size_t i = 0; i < a.d.size(); ++i) { a.d[i] = x; b.d[i] = partner_of(x); } }
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 17 + b.hash());
    vf::hit("wide." + tname<T1>() + "." + tname<T2>());
    T2 s = R * C ? b.d[r.below(b.d.size())] : T2(0);
    auto go = [&](const char *k, const Matrix<bool> &m, auto f) {
        VF_CHECK(m.rows() == R && m.cols() == C, std::string("wide-") + k + "-shape", "shape");
        if (m.rows() != R || m.cols() != C) return;
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) VF_CHECK(m(i, j) == f(a(i, j), b(i, j)), std::string("wide-") + k, ctx2(a(i, j), b(i, j), tol.v) << " scalar " << s);
    };
    auto gov = [&](const char *k, const auto &m, auto f) {
        VF_CHECK(m.size() == R * C, std::string("wide-vector-") + k + "-shape", "shape");
        for (size_t i = 0; i < R * C && m.size() == R * C; ++i) VF_CHECK(m[i] == f(a.d[i], b.d[i]), std::string("wide-vector-") + k, ctx2(a.d[i], b.d[i], tol.v) << " scalar " << s);
    };
    auto &P = A.get();
    auto &Q = B.get();
    auto V = vec(a.d);
    auto U = vec(b.d);
    go("equal", P == Q, [](T1 x, T2 y) { return x == y; });
    go("not-equal", P != Q, [](T1 x, T2 y) { return x != y; });
    go("equal-scalar", P == s, [s](T1 x, T2) { return x == s; });
    go("not-equal-scalar", P != s, [s](T1 x, T2) { return x != s; });
    gov("equal", V == U, [](T1 x, T2 y) { return x == y; });
    gov("not-equal", V != U, [](T1 x, T2 y) { return x != y; });
    gov("equal-scalar", V == s, [s](T1 x, T2) { return x == s; });
    gov("not-equal-scalar", V != s, [s](T1 x, T2) { return x != s; });
    go("less", P < Q, [](T1 x, T2 y) { return x < y; });
    go("less-equal", P <= Q, [](T1 x, T2 y) { return x <= y; });
    go("greater", P > Q, [](T1 x, T2 y) { return x > y; });
    go("greater-equal", P >= Q, [](T1 x, T2 y) { return x >= y; });
    go("less-scalar", P < s, [s](T1 x, T2) { return x < s; });
    go("less-equal-scalar", P <= s, [s](T1 x, T2) { return x <= s; });
    go("greater-scalar", P > s, [s](T1 x, T2) { return x > s; });
    go("greater-equal-scalar", P >= s, [s](T1 x, T2) { return x >= s; });
    if constexpr (std::is_same_v<T1, T2>) {
        if (r.chance(1, 2)) { size_t upto = R * C ? r.below(R * C) : 0; for (size_t i = 0; i < upto; ++i) b.d[i] = a.d[i]; }
        Operand<T2> D(r, b);
        int64_t wm = 0, wv = 0;
        for (size_t k = 0; k < R * C && !wm; ++k) { if (a.linear(k) < b.linear(k)) wm = -static_cast<int64_t>(k + 1); else if (a.linear(k) > b.linear(k)) wm = static_cast<int64_t>(k + 1); }
        for (size_t k = 0; k < R * C && !wv; ++k) { if (a.d[k] < b.d[k]) wv = -static_cast<int64_t>(k + 1); else if (a.d[k] > b.d[k]) wv = static_cast<int64_t>(k + 1); }
        VF_CHECK(utility::compare(A.get(), D.get()) == wm, "wide-compare-matrix", show(a) << " vs " << show(b) << " want " << wm);
        VF_CHECK(utility::compare(V, vec(b.d)) == wv, "wide-compare-vector", show(a) << " vs " << show(b) << " want " << wv);
        // Differences that a narrower type cannot see are not zeros.
        Mod<T1> z(R, C);
        for (auto &e : z.d) if (r.chance(1, 2)) e = static_cast<T1>(T1(1) << r.range(31, 61));
        bool wall = true, wany = false;
        for (auto &e : z.d) { if (e == T1(0)) wall = false; else wany = true; }
        Operand<T1> Z(r, z);
        VF_CHECK(malg::all(Z.get()) == wall && malg::all(vec(z.d)) == wall, "wide-all", show(z));
        VF_CHECK(malg::any(Z.get()) == wany && malg::any(vec(z.d)) == wany, "wide-any", show(z));
    }
    PURE(A); PURE(B);
}
SCENARIO(wide_integer_values, 1)
{
    switch (r.range(0, 3)) {
    case 0: wide_integers<long, int>(r); break;
    case 1: wide_integers<unsigned long, unsigned long>(r); break;
    default: wide_integers<long, long>(r); break;
    }
}
SCENARIO(equality_real, 6) { dispatch<0>(r); }
SCENARIO(equality_complex, 2) { if (r.chance(1, 2)) equality<cd, cd>(r); else equality<cf, cf>(r); }
SCENARIO(ordering, 3) { dispatch<1>(r); }
SCENARIO(aggregates, 3) { pick_type(r, [&](auto t) { aggregate<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<float>(), Ty<long>()); }
SCENARIO(closeness_bound, 1) { pick_type(r, [&](auto t) { exact_bound<TYPE_OF(t)>(r); }, Ty<double>(), Ty<cd>(), Ty<int>(), Ty<float>(), Ty<long>()); }
SCENARIO(closeness, 2) { pick_type(r, [&](auto t) { closeness<TYPE_OF(t)>(r); }, Ty<double>(), Ty<cd>()); }
// Booleans coming from a comparison can be aggregated: all equal, any different.
SCENARIO(combined, 1)
{
    auto a = imod<double>(r, dim(r), dim(r));
    auto b = a;
    bool same = r.chance(1, 2);
    if (!same) b.d[r.below(b.size())] += 1;
    vf::note(a.hash() * 13 + same);
    Operand<double> A(r, a), B(r, b);
    VF_CHECK(malg::all(A.get() == B.get()) == same, "all-equal", show(a) << " " << show(b));
    VF_CHECK(malg::any(A.get() != B.get()) == !same, "any-different", show(a) << " " << show(b));
    VF_CHECK(malg::any(A.get() < B.get()) == !same, "any-less", show(a) << " " << show(b));
    VF_CHECK(malg::all(A.get() <= B.get()), "all-less-equal", show(a) << " " << show(b));
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
