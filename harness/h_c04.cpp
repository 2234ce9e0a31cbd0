// C04: element-wise arithmetic, scalars, in-place forms, type mixes, operand kinds.
#include "gen.hpp"
using namespace malg;
static const Large large(1100);
static const Long long_cases(80, 65537);

template <typename A, typename B> using CT = extract_common_type_t<A, B>;

// Small unsigned values (a wider signed partner would overflow on the others).
template <typename T> T small(T x) { if constexpr (std::is_unsigned_v<T>) return x > std::numeric_limits<T>::max() / 2 ? static_cast<T>(0 - x) : x; else return x; }
template <typename T> Mod<T> smod(Rng &r, size_t R, size_t C, long lo, long hi) { auto m = imod<T>(r, R, C, lo, hi); for (auto &x : m.d) x = small(x); return m; }
template <typename T> std::vector<T> svec(Rng &r, size_t n, long lo, long hi) { auto v = ivec<T>(r, n, lo, hi); for (auto &x : v) x = small(x); return v; }
enum { ADD, SUB, MUL, DIV };
template <typename W> W apply(int o, const W &a, const W &b)
{
    switch (o) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; }
}
// Divisors are powers of two so that every quotient is exact (and never zero).
// Integers divided by integers truncate: there any divisor will do.
template <typename T, typename T1> T divisor(Rng &r)
{
    static const int p[] = { 1, 2, 4, -1, -2, -4, 8, 3, -3, 5, 7 };
    int a = p[r.below(std::is_integral_v<T> && std::is_integral_v<T1> ? 11 : 7)];
    if (std::is_unsigned_v<T>) a = a < 0 ? -a : a;
    if constexpr (is_cx<T>) {
        using R = typename T::value_type;
        return r.chance(1, 2) ? T(R(a), R(0)) : T(R(0), R(a));
    } else return T(a);
}
// Reference in the common type; integer division truncates in the common type.
template <typename W, typename A, typename B> W ref(int o, const A &a, const B &b) { return apply<W>(o, conv<W>(a), conv<W>(b)); }

// Dividends that every divisor divides exactly, when the common type is integer.
template <typename T> void prep_div(Mod<T> &m) { if constexpr (std::is_integral_v<T>) { (void)m; } }

template <typename T1, typename T2>
void mat_mat(Rng &r)
{
    using W = CT<T1, T2>;
    size_t R = dim(r, true), C = dim(r, true);
    if (r.chance(1, 200)) { R = 130; C = 70; }
    auto a = smod<T1>(r, R, C, -9, 9);
    auto b = smod<T2>(r, R, C, -9, 9);
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::hit(std::string("operands.") + A.kname() + "." + B.kname());
    vf::note(a.hash() * 7 + b.hash());
    if (vf::st().samples.size() < 2) vf::sample(show(a) + " op " + show(b));
    for (int o : { ADD, SUB }) {
        Mod<W> w(R, C);
        for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = ref<W>(o, a.d[i], b.d[i]);
        vf::op(o == ADD ? "A+B" : "A-B");
        auto run = [&](const auto &X, const auto &Y) {
            if (o == ADD) {
                auto q = X + Y;
                static_assert(std::is_same_v<decltype(q), Matrix<W>>, "type of the sum");
                check_eq(q, w, "sum");
            } else {
                auto q = X - Y;
                static_assert(std::is_same_v<decltype(q), Matrix<W>>, "type of the difference");
                check_eq(q, w, "difference");
            }
        };
        run(A.get(), B.get());
        if constexpr (std::is_same_v<T1, T2>) if (A.has_const() && B.has_const()) run(A.cget(), B.cget());
        PURE(A); PURE(B);
    }
}
template <typename T1, typename T2>
void mat_mat_inplace(Rng &r)
{
    size_t R = dim(r, true), C = dim(r, true);
    auto a = smod<T1>(r, R, C, -9, 9);
    auto b = smod<T2>(r, R, C, -9, 9);
    int o = r.chance(1, 2) ? ADD : SUB;
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 11 + b.hash() + o);
    Mod<T1> w(a);
    for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = ref<T1>(o, a.d[i], b.d[i]);
    vf::op(o == ADD ? "A+=B" : "A-=B");
    MatrixBase<T1> *ret = (o == ADD) ? &(A.get() += B.get()) : &(A.get() -= B.get());
    VF_CHECK(ret == &A.get(), "returns-left", "in-place form must return its left operand");
    A.check_window(w, o == ADD ? "in-place-sum" : "in-place-difference");
    PURE(B);
    // Aliased operands.
    Matrix<T1> S = mat(a);
    vf::op("A+=A");
    if (o == ADD) S += S; else S -= S;
    for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = ref<T1>(o, a.d[i], a.d[i]);
    check_eq(S, w, "aliased-in-place");
    auto t = mat(a);
    auto q = t + t;
    for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = a.d[i] + a.d[i];
    check_eq(q, w, "aliased-sum");
}
template <typename T1, typename T2>
void mat_scalar(Rng &r)
{
    using W = CT<T1, T2>;
    size_t R = dim(r, true), C = dim(r, true);
    auto a = smod<T1>(r, R, C, -9, 9);
    Operand<T1> A(r, a);
    T2 s = small(ival<T2>(r, -5, 5)), dv = divisor<T2, T1>(r);
    vf::note(a.hash() * 13 + hash_of(s));
    for (int o : { ADD, SUB, MUL, DIV }) {
        T2 x = o == DIV ? dv : s;
        Mod<W> w(R, C);
        for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = ref<W>(o, a.d[i], x);
        auto run = [&](const auto &X) {
            switch (o) {
            case ADD: { vf::op("A+s"); auto q = X + x; static_assert(std::is_same_v<decltype(q), Matrix<W>>); check_eq(q, w, "matrix+scalar"); break; }
            case SUB: { vf::op("A-s"); auto q = X - x; static_assert(std::is_same_v<decltype(q), Matrix<W>>); check_eq(q, w, "matrix-scalar"); break; }
            case MUL: {
                vf::op("A*s");
                auto q = X * x; static_assert(std::is_same_v<decltype(q), Matrix<W>>); check_eq(q, w, "matrix*scalar");
                auto p = x * X; static_assert(std::is_same_v<decltype(p), Matrix<W>>); check_eq(p, w, "scalar*matrix");
                break;
            }
            default: { vf::op("A/s"); auto q = X / x; static_assert(std::is_same_v<decltype(q), Matrix<W>>); check_eq(q, w, "matrix/scalar"); break; }
            }
        };
        run(A.get());
        if (A.has_const()) run(A.cget());
        PURE(A);
    }
}
template <typename T1, typename T2>
void mat_scalar_inplace(Rng &r)
{
    size_t R = dim(r, true), C = dim(r, true);
    auto a = smod<T1>(r, R, C, -9, 9);
    T2 s = small(ival<T2>(r, -5, 5)), dv = divisor<T2, T1>(r);
    vf::note(a.hash() * 17 + hash_of(s));
    for (int o : { ADD, SUB, MUL, DIV }) {
        Operand<T1> A(r, a);
        T2 x = o == DIV ? dv : s;
        using W = CT<T1, T2>;
        Mod<T1> w(a);
        for (auto &e : w.d) e = conv<T1>(ref<W>(o, e, x));
        MatrixBase<T1> *ret = nullptr;
        vf::op("in-place scalar");
        switch (o) {
        case ADD: ret = &(A.get() += x); break;
        case SUB: ret = &(A.get() -= x); break;
        case MUL: ret = &(A.get() *= x); break;
        default: ret = &(A.get() /= x); break;
        }
        VF_CHECK(ret == &A.get(), "returns-left", "in-place scalar form must return its left operand");
        static const char *k[] = { "matrix+=scalar", "matrix-=scalar", "matrix*=scalar", "matrix/=scalar" };
        A.check_window(w, k[o]);
    }
    // Chaining is possible on the returned reference.
    Matrix<T1> M = mat(a);
    Mod<T1> w(a);
    (M += s) *= s;
    using W = CT<T1, T2>;
    for (auto &e : w.d) e = conv<T1>(ref<W>(MUL, conv<T1>(ref<W>(ADD, e, s)), s));
    check_eq(M, w, "chained-in-place");
}
template <typename T1, typename T2>
void vec_vec(Rng &r)
{
    using W = CT<T1, T2>;
    size_t n = dim(r, true, 90);
    auto a = svec<T1>(r, n, -9, 9);
    auto b = svec<T2>(r, n, -9, 9);
    auto A = vec(a);
    auto B = vec(b);
    vf::note(vhash(a) * 19 + vhash(b));
    for (int o : { ADD, SUB, MUL }) {
        std::vector<W> w(n);
        for (size_t i = 0; i < n; ++i) w[i] = ref<W>(o, a[i], b[i]);
        vf::op("v op v");
        if (o == ADD) { auto q = A + B; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector+vector"); }
        else if (o == SUB) { auto q = A - B; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector-vector"); }
        else { auto q = A * B; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector*vector"); }
        check_eq(A, a, "left-modified");
        check_eq(B, b, "right-modified");
    }
}
template <typename T1, typename T2>
void vec_inplace(Rng &r)
{
    size_t n = dim(r, true, 90);
    auto a = svec<T1>(r, n, -9, 9);
    auto b = svec<T2>(r, n, -9, 9);
    auto B = vec(b);
    using W = CT<T1, T2>;
    T2 s = small(ival<T2>(r, -5, 5)), dv = divisor<T2, T1>(r);
    vf::note(vhash(a) * 23 + vhash(b) + hash_of(s));
    for (int o = 0; o < 6; ++o) {
        auto A = vec(a);
        std::vector<T1> w(a);
        Vector<T1> *ret = nullptr;
        vf::op("vector in-place");
        switch (o) {
        case 0: ret = &(A += B); for (size_t i = 0; i < n; ++i) w[i] = conv<T1>(ref<W>(ADD, a[i], b[i])); break;
        case 1: ret = &(A -= B); for (size_t i = 0; i < n; ++i) w[i] = conv<T1>(ref<W>(SUB, a[i], b[i])); break;
        case 2: ret = &(A += s); for (auto &e : w) e = conv<T1>(ref<W>(ADD, e, s)); break;
        case 3: ret = &(A -= s); for (auto &e : w) e = conv<T1>(ref<W>(SUB, e, s)); break;
        case 4: ret = &(A *= s); for (auto &e : w) e = conv<T1>(ref<W>(MUL, e, s)); break;
        default: ret = &(A /= dv); for (auto &e : w) e = conv<T1>(ref<W>(DIV, e, dv)); break;
        }
        static const char *k[] = { "v+=v", "v-=v", "v+=s", "v-=s", "v*=s", "v/=s" };
        VF_CHECK(ret == &A, "returns-left", k[o]);
        check_eq(A, w, k[o]);
        check_eq(B, b, "right-modified");
    }
    auto A = vec(a);
    A += A;
    std::vector<T1> w(a);
    for (auto &e : w) e = e + e;
    check_eq(A, w, "v+=v aliased");
}
template <typename T1, typename T2>
void vec_scalar(Rng &r)
{
    using W = CT<T1, T2>;
    size_t n = dim(r, true, 90);
    auto a = svec<T1>(r, n, -9, 9);
    auto A = vec(a);
    T2 s = small(ival<T2>(r, -5, 5)), dv = divisor<T2, T1>(r);
    vf::note(vhash(a) * 29 + hash_of(s));
    std::vector<W> w(n);
    auto fill = [&](int o, T2 x) { for (size_t i = 0; i < n; ++i) w[i] = ref<W>(o, a[i], x); };
    vf::op("v op s");
    { fill(ADD, s); auto q = A + s; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector+scalar"); }
    { fill(SUB, s); auto q = A - s; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector-scalar"); }
    { fill(MUL, s); auto q = A * s; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector*scalar"); }
    if constexpr (std::is_arithmetic_v<T2>) { auto q = s * A; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "scalar*vector"); }
    { fill(DIV, dv); auto q = A / dv; static_assert(std::is_same_v<decltype(q), Vector<W>>); check_eq(q, w, "vector/scalar"); }
    check_eq(A, a, "operand-modified");
}
// Real valued data: each element is the correctly rounded result of one operation.
SCENARIO(real_values, 2)
{
    size_t R = dim(r), C = dim(r);
    auto a = rmod<double>(r, R, C, -1e6, 1e6), b = rmod<double>(r, R, C, -1e-3, 1e3);
    for (auto &x : b.d) if (x == 0) x = 1;
    double s = b.d[0];
    vf::note(a.hash() ^ b.hash());
    Operand<double> A(r, a), B(r, b);
    Mod<double> w(R, C);
    auto go = [&](const char *k, auto res, auto f) { for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = f(a.d[i], b.d[i]); check_eq(res, w, k); };
    go("real-sum", A.get() + B.get(), [](double x, double y) { return x + y; });
    go("real-difference", A.get() - B.get(), [](double x, double y) { return x - y; });
    go("real-scale", A.get() * s, [s](double x, double) { return x * s; });
    go("real-divide", A.get() / s, [s](double x, double) { return x / s; });
    go("real-scalar-sum", A.get() + s, [s](double x, double) { return x + s; });
    go("real-scalar-difference", A.get() - s, [s](double x, double) { return x - s; });
    PURE(A); PURE(B);
}
// The operation of the element type, element by element, whatever the neighbours are.
template <typename T>
void specials(Rng &r)
{
    size_t R = dim(r, true), C = dim(r, true);
    Mod<T> a(R, C), b(R, C), n(R, C);
    for (auto &x : a.d) x = any_value<T>(r);
    for (auto &x : b.d) x = any_value<T>(r);
    for (auto &x : n.d) x = any_value<T>(r, true);
    T s = any_value<T>(r), sn = any_value<T>(r, true), dv = any_value<T>(r);
    if (std::is_integral_v<T> && dv == 0) dv = 3;
    vf::note(a.hash() * 31 + b.hash() + hash_of(s));
    vf::hit("specials." + tname<T>());
    Operand<T> A(r, a), B(r, b), N(r, n);
    auto V = vec(a.d), U = vec(b.d), K = vec(n.d);
    auto chk = [&](const char *k, const auto &got, const Mod<T> &x, const Mod<T> &y, auto f) {
        const bool isv = std::is_same_v<std::decay_t<decltype(got)>, Vector<T>>;
        bool ok = got.size() == x.size();
        if constexpr (!isv) ok = ok && got.rows() == R && got.cols() == C;
        std::string bad;
        for (size_t i = 0; ok && i < x.d.size(); ++i) {
            T w = f(x.d[i], y.d[i]), g;
            if constexpr (isv) g = got[i]; else g = got(i / C, i % C);
            if (!bits_same<T>(g, w)) { ok = false; std::ostringstream o; o.precision(20); o << " element " << i << ": " << x.d[i] << ", " << y.d[i] << " gives " << g << " want " << w; bad = o.str(); }
        }
        VF_CHECK(ok, k, show(x) << " and " << show(y) << " scalars " << s << " " << dv << bad);
    };
    auto add = [](T x, T y) { return static_cast<T>(x + y); };
    auto sub = [](T x, T y) { return static_cast<T>(x - y); };
    auto mul = [](T x, T y) { return static_cast<T>(x * y); };
    auto adds = [s](T x, T) { return static_cast<T>(x + s); };
    auto subs = [s](T x, T) { return static_cast<T>(x - s); };
    auto muls = [sn](T x, T) { return static_cast<T>(x * sn); };
    auto divs = [dv](T x, T) { return static_cast<T>(x / dv); };
    vf::op("special values");
    chk("special-sum", A.get() + B.get(), a, b, add);
    chk("special-difference", A.get() - B.get(), a, b, sub);
    chk("special-scalar-sum", A.get() + s, a, a, adds);
    chk("special-scalar-difference", A.get() - s, a, a, subs);
    chk("special-scale", N.get() * sn, n, n, muls);
    chk("special-scale-left", sn * N.get(), n, n, muls);
    chk("special-divide", A.get() / dv, a, a, divs);
    if (A.has_const()) chk("special-const-sum", A.cget() + s, a, a, adds);
    chk("special-vector-sum", V + U, a, b, add);
    chk("special-vector-difference", V - U, a, b, sub);
    chk("special-vector-product", K * K, n, n, mul);
    chk("special-vector-scalar-sum", V + s, a, a, adds);
    chk("special-vector-scalar-difference", V - s, a, a, subs);
    chk("special-vector-scale", K * sn, n, n, muls);
    chk("special-vector-scale-left", sn * K, n, n, muls);
    chk("special-vector-divide", V / dv, a, a, divs);
    PURE(A); PURE(B); PURE(N);
    // In place.
    switch (r.range(0, 5)) {
    case 0: A.get() += B.get(); chk("special-matrix+=", A.get(), a, b, add); V += U; chk("special-vector+=", V, a, b, add); break;
    case 1: A.get() -= B.get(); chk("special-matrix-=", A.get(), a, b, sub); V -= U; chk("special-vector-=", V, a, b, sub); break;
    case 2: A.get() += s; chk("special-matrix+=s", A.get(), a, a, adds); V += s; chk("special-vector+=s", V, a, a, adds); break;
    case 3: A.get() -= s; chk("special-matrix-=s", A.get(), a, a, subs); V -= s; chk("special-vector-=s", V, a, a, subs); break;
    case 4: N.get() *= sn; chk("special-matrix*=s", N.get(), n, n, muls); K *= sn; chk("special-vector*=s", K, n, n, muls); break;
    default: A.get() /= dv; chk("special-matrix/=s", A.get(), a, a, divs); V /= dv; chk("special-vector/=s", V, a, a, divs); break;
    }
}
SCENARIO(special_values, 5)
{
    switch (r.range(0, 6)) {
    case 0: specials<float>(r); break;
    case 1: specials<int>(r); break;
    case 2: specials<long>(r); break;
    case 3: specials<unsigned>(r); break;
    case 4: specials<long double>(r); break;
    default: specials<double>(r); break;
    }
}
// Mixed types over their whole range (64-bit integers, reals that single precision cannot hold):
// each element is the operation of the language in the common type, converted when it is stored.
template <typename T> constexpr int digits_of = std::numeric_limits<T>::digits;
template <typename T> T wide_value(Rng &r, int bits, double hi)
{
    if constexpr (std::is_integral_v<T>) {
        const int b = static_cast<int>(r.range(bits / 2, bits));
        T x = static_cast<T>((u64(1) << b) - (r.chance(1, 2) ? 1 : r.next() & ((u64(1) << (b / 2)) - 1)));
        return std::is_signed_v<T> && r.chance(1, 2) ? static_cast<T>(-x) : x;
    } else {
        T x = static_cast<T>(r.real(-hi, hi));
        return std::abs(x) < T(0.5) ? T(0.75) : x;
    }
}
template <typename T1, typename T2>
void wide_mixed(Rng &r)
{
    using W = CT<T1, T2>;
    constexpr bool ints = std::is_integral_v<T1> && std::is_integral_v<T2>;
    // No operation overflows the common type; in place, none overflows an integer target.
    constexpr int common = ints ? (digits_of<W> - 1) / 2 : 62;
    constexpr int b1 = std::min(common, digits_of<T1> - 1), b2 = std::min(common, digits_of<T2> - 1);
    const size_t R = dim(r, true, 9), C = dim(r, true, 9);
    Mod<T1> a(R, C), c(R, C);
    Mod<T2> b(R, C), d(R, C);
    for (auto &x : a.d) x = wide_value<T1>(r, b1, 1e6);
    for (auto &x : b.d) x = wide_value<T2>(r, b2, 1e6);
    T2 s = wide_value<T2>(r, b2, 1e6);
    if (ints && std::is_unsigned_v<W>) { for (auto &x : a.d) x = small(x); }
    vf::note(a.hash() * 37 + b.hash() + hash_of(s));
    vf::hit("wide." + tname<T1>() + "." + tname<T2>());
    auto bits = [&](const char *k, const auto &got, const auto &want) {
        bool ok = got.size() == want.size();
        size_t i = 0;
        for (; ok && i < want.size(); ++i) if (!bits_same(got[i], want[i])) { ok = false; break; }
        std::ostringstream o;
        o.precision(20);
        if (!ok) o << show(a) << " and " << show(b) << " scalar " << s << " element " << i;
        VF_CHECK(ok, k, o.str());
    };
    auto each = [&](auto f) { std::vector<decltype(f(a.d[0], b.d[0]))> w; for (size_t i = 0; i < a.size(); ++i) w.push_back(f(a.d[i], b.d[i])); return w; };
    auto rows_of = [&](const auto &m) { std::vector<std::decay_t<decltype(m[0])>> w; for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.cols(); ++j) w.push_back(m(i, j)); return w; };
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    const auto V = vec(a.d);
    const auto U = vec(b.d);
    auto add = [](T1 x, T2 y) { return static_cast<W>(W(x) + W(y)); };
    auto sub = [](T1 x, T2 y) { return static_cast<W>(W(x) - W(y)); };
    auto mul = [](T1 x, T2 y) { return static_cast<W>(W(x) * W(y)); };
    auto div = [](T1 x, T2 y) { return static_cast<W>(W(x) / W(y)); };
    vf::op("wide mixed");
    bits("wide-sum", rows_of(A.get() + B.get()), each(add));
    bits("wide-difference", rows_of(A.get() - B.get()), each(sub));
    bits("wide-scalar-sum", rows_of(A.get() + s), each([&](T1 x, T2) { return add(x, s); }));
    bits("wide-scalar-difference", rows_of(A.get() - s), each([&](T1 x, T2) { return sub(x, s); }));
    bits("wide-scale", rows_of(A.get() * s), each([&](T1 x, T2) { return mul(x, s); }));
    bits("wide-scale-left", rows_of(s * A.get()), each([&](T1 x, T2) { return mul(x, s); }));
    bits("wide-divide", rows_of(A.get() / s), each([&](T1 x, T2) { return div(x, s); }));
    bits("wide-vector-sum", V + U, each(add));
    bits("wide-vector-difference", V - U, each(sub));
    bits("wide-vector-product", V * U, each(mul));
    bits("wide-vector-scalar-sum", V + s, each([&](T1 x, T2) { return add(x, s); }));
    bits("wide-vector-scalar-difference", V - s, each([&](T1 x, T2) { return sub(x, s); }));
    bits("wide-vector-scale", V * s, each([&](T1 x, T2) { return mul(x, s); }));
    bits("wide-vector-scale-left", s * V, each([&](T1 x, T2) { return mul(x, s); }));
    bits("wide-vector-divide", V / s, each([&](T1 x, T2) { return div(x, s); }));
    PURE(A); PURE(B);
    // In place: the result is converted to the type of the target.
    if constexpr (std::is_unsigned_v<T1> && !ints) return;
    else {
        constexpr bool narrow = std::is_integral_v<T1> && !ints;
        for (auto &x : c.d) x = wide_value<T1>(r, narrow ? digits_of<T1> - 10 : b1, 1e6);
        for (auto &x : d.d) x = wide_value<T2>(r, b2, narrow ? 100 : 1e6);
        T2 z = wide_value<T2>(r, b2, narrow ? 100 : 1e6);
        auto in = [&](const char *k, const char *kv, auto fm, auto fv, auto f) {
            Operand<T1> X(r, c);
            Operand<T2> Y(r, d);
            auto x = vec(c.d);
            const auto y = vec(d.d);
            std::vector<T1> w;
            for (size_t i = 0; i < c.size(); ++i) w.push_back(static_cast<T1>(f(c.d[i], d.d[i])));
            fm(X.get(), Y.get());
            fv(x, y);
            bits(k, rows_of(X.get()), w);
            bits(kv, x, w);
        };
        switch (r.range(0, 5)) {
        case 0: in("wide-matrix+=", "wide-vector+=", [](auto &x, auto &y) { x += y; }, [](auto &x, auto &y) { x += y; }, add); break;
        case 1: in("wide-matrix-=", "wide-vector-=", [](auto &x, auto &y) { x -= y; }, [](auto &x, auto &y) { x -= y; }, sub); break;
        case 2: in("wide-matrix+=s", "wide-vector+=s", [&](auto &x, auto &) { x += z; }, [&](auto &x, auto &) { x += z; }, [&](T1 x, T2) { return add(x, z); }); break;
        case 3: in("wide-matrix-=s", "wide-vector-=s", [&](auto &x, auto &) { x -= z; }, [&](auto &x, auto &) { x -= z; }, [&](T1 x, T2) { return sub(x, z); }); break;
        case 4: in("wide-matrix*=s", "wide-vector*=s", [&](auto &x, auto &) { x *= z; }, [&](auto &x, auto &) { x *= z; }, [&](T1 x, T2) { return mul(x, z); }); break;
        default: in("wide-matrix/=s", "wide-vector/=s", [&](auto &x, auto &) { x /= z; }, [&](auto &x, auto &) { x /= z; }, [&](T1 x, T2) { return div(x, z); });
        }
    }
}
SCENARIO(wide_mixed_values, 4)
{
    Ty<int> I; Ty<long> L; Ty<float> F; Ty<double> D; Ty<unsigned> U; Ty<short> S; Ty<unsigned long> X; Ty<long double> E;
    auto call = [&](auto t1, auto t2) { wide_mixed<TYPE_OF(t1), TYPE_OF(t2)>(r); };
    switch (r.range(0, 12)) {
    case 0: return call(I, D);
    case 1: return call(L, D);
    case 2: return call(D, I);
    case 3: return call(D, L);
    case 4: return call(L, L);
    case 5: return call(I, L);
    case 6: return call(L, I);
    case 7: return call(F, D);
    case 8: return call(D, F);
    case 9: return call(D, X);
    case 10: return call(L, U);
    case 11: return call(S, F);
    default: return call(E, L);
    }
}
template <int K>
void dispatch(Rng &r)
{
    auto call = [&](auto t1, auto t2) {
        using A = TYPE_OF(t1); using B = TYPE_OF(t2);
        if constexpr (K == 0) mat_mat<A, B>(r);
        else if constexpr (K == 1) mat_scalar<A, B>(r);
        else if constexpr (K == 2) vec_vec<A, B>(r);
        else vec_scalar<A, B>(r);
    };
    Ty<int> I; Ty<long> L; Ty<float> F; Ty<double> D; Ty<cd> Z; Ty<cf> Y; Ty<unsigned> U; Ty<short> S; Ty<unsigned long> W;
    switch (r.range(0, 18)) {
    case 0: return call(I, I);
    case 1: return call(D, D);
    case 2: return call(Z, Z);
    case 3: return call(I, D);
    case 4: return call(D, I);
    case 5: return call(F, D);
    case 6: return call(D, F);
    case 7: return call(Z, D);
    case 8: return call(D, Z);
    case 9: return call(I, L);
    // Unsigned operands: a negated or subtracted scalar must not wrap around.
    case 11: return call(D, U);
    case 12: return call(U, D);
    case 13: return call(U, I);
    case 14: return call(L, U);
    case 15: return call(D, W);
    case 16: return call(S, S);
    case 17: return call(F, U);
    case 10: if constexpr (K == 2) { return call(D, D); } else return call(F, Z);
    default: if constexpr (K == 2) { return call(Z, Z); } else return call(Y, Y);
    }
}
template <int K>
void dispatch_inplace(Rng &r)
{
    auto call = [&](auto t1, auto t2) {
        using A = TYPE_OF(t1); using B = TYPE_OF(t2);
        if constexpr (K == 0) mat_mat_inplace<A, B>(r);
        else if constexpr (K == 1) mat_scalar_inplace<A, B>(r);
        else vec_inplace<A, B>(r);
    };
    Ty<int> I; Ty<double> D; Ty<cd> Z; Ty<float> F; Ty<unsigned> U; Ty<long> L; Ty<unsigned long> W;
    switch (r.range(0, 9)) {
    case 0: return call(I, I);
    case 1: return call(D, D);
    case 2: return call(Z, Z);
    case 3: return call(D, I);
    case 4: return call(Z, D);
    case 5: return call(D, U);
    case 6: return call(L, U);
    case 7: return call(U, U);
    case 8: return call(D, W);
    default: return call(F, F);
    }
}
SCENARIO(matrix_matrix, 6) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch<0>(r); }
SCENARIO(matrix_scalar, 5) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch<1>(r); }
SCENARIO(vector_vector, 4) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch<2>(r); }
SCENARIO(vector_scalar, 4) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch<3>(r); }
// The scalar may be an element of the very object: it is read once, before any change.
template <typename T>
void own_scalar(Rng &r)
{
    size_t R = dim(r, false, 12), C = dim(r, false, 12);
    auto a = imod<T>(r, R, C, -9, 9);
    const size_t i = r.below(a.size());
    T e;
    if constexpr (is_cx<T>) { T c[4] = { T(2), T(0, 1), T(-1), T(0, -2) }; e = c[r.below(4)]; }
    else if constexpr (std::is_integral_v<T>) e = static_cast<T>(r.range(1, 3));
    else e = static_cast<T>(r.chance(1, 2) ? 2 : -0.5);
    a.d[i] = e;
    vf::note(a.hash() * 29 + i);
    for (int o : { ADD, SUB, MUL, DIV }) {
        Operand<T> A(r, a);
        Mod<T> w(a);
        for (auto &x : w.d) x = conv<T>(ref<T>(o, x, e));
        T &s = A.get()(i / C, i % C);
        vf::op("in-place with own element");
        switch (o) { case ADD: A.get() += s; break; case SUB: A.get() -= s; break; case MUL: A.get() *= s; break; default: A.get() /= s; }
        static const char *k[] = { "own-matrix+=", "own-matrix-=", "own-matrix*=", "own-matrix/=" };
        A.check_window(w, k[o]);
        auto V = vec(a.d);
        switch (o) { case ADD: V += V[i]; break; case SUB: V -= V[i]; break; case MUL: V *= V[i]; break; default: V /= V[i]; }
        static const char *kv[] = { "own-vector+=", "own-vector-=", "own-vector*=", "own-vector/=" };
        check_eq(V, w.d, kv[o]);
        // The other forms, with an element of the operand.
        const auto M = mat(a);
        switch (o) {
        case ADD: check_eq(M + M(i / C, i % C), w, "own-sum"); break;
        case SUB: check_eq(M - M(i / C, i % C), w, "own-difference"); break;
        case MUL: check_eq(M(i / C, i % C) * M, w, "own-product"); break;
        default: check_eq(M / M(i / C, i % C), w, "own-quotient");
        }
    }
}
SCENARIO(own_element, 3) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); switch (r.range(0, 3)) { case 0: own_scalar<int>(r); break; case 1: own_scalar<cd>(r); break; case 2: own_scalar<float>(r); break; default: own_scalar<double>(r); } }
SCENARIO(matrix_matrix_in_place, 3) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch_inplace<0>(r); }
SCENARIO(matrix_scalar_in_place, 3) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch_inplace<1>(r); }
SCENARIO(vector_in_place, 3) { Grained g(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch_inplace<2>(r); }

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
