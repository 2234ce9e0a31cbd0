// C05: matrix, matrix-vector and inner products, in-place product, integer powers.
#include "gen.hpp"
using namespace malg;
template <typename A, typename B> using CT = extract_common_type_t<A, B>;

// One to three dimensions, with empty and large ones.
struct Dims { size_t m, k, n; };
static Dims dims3(Rng &r)
{
    if (r.chance(1, 300)) { static const Dims big[] = { { 33, 65, 34 }, { 130, 70, 66 }, { 9, 300, 5 }, { 260, 3, 4 }, { 3, 4, 260 }, { 65, 64, 63 }, { 1, 1100, 1 }, { 2, 70, 130 } }; return big[r.below(8)]; }
    if (r.chance(1, 80)) { size_t d[3] = { 1 + r.below(3), 1 + r.below(3), 1 + r.below(3) }; d[r.below(3)] = 257 + r.below(340); return { d[0], d[1], d[2] }; }
    if (r.chance(1, 60)) return { dim(r, true), r.chance(1, 2) ? 0u : dim(r, true), dim(r, true) };
    return { dim(r, false, 17), dim(r, false, 23), dim(r, false, 17) };
}
template <typename T1, typename T2>
void product(Rng &r)
{
    using W = CT<T1, T2>;
    Dims d = dims3(r);
    auto a = imod<T1>(r, d.m, d.k, -5, 5);
    auto b = imod<T2>(r, d.k, d.n, -5, 5);
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 3 + b.hash());
    vf::hit(std::string("operands.") + A.kname() + "." + B.kname());
    auto w = mmul<W>(a, b);
    vf::op("A*B");
    auto q = A.get() * B.get();
    static_assert(std::is_same_v<decltype(q), Matrix<W>>, "type of the product");
    check_eq(q, w, "product");
    if (A.has_const() && B.has_const()) { auto p = A.cget() * B.cget(); check_eq(p, w, "product-const"); }
    PURE(A); PURE(B);
    // Matrix by vector.
    auto x = ivec<T2>(r, d.k, -5, 5);
    auto X = vec(x);
    std::vector<W> y(d.m, W(0));
    for (size_t i = 0; i < d.m; ++i) for (size_t j = 0; j < d.k; ++j) y[i] += conv<W>(a(i, j)) * conv<W>(x[j]);
    vf::op("A*x");
    auto u = A.get() * X;
    static_assert(std::is_same_v<decltype(u), Vector<W>>, "type of the product");
    check_eq(u, y, "matrix-vector");
    auto v = malg::dot(A.get(), X);
    static_assert(std::is_same_v<decltype(v), Vector<W>>, "type of the product");
    check_eq(v, y, "matrix-dot-vector");
    if (A.has_const()) check_eq(A.cget() * X, y, "matrix-vector-const");
    PURE(A);
    check_eq(X, x, "vector-modified");
    if (vf::st().samples.size() < 2) vf::sample(show(a) + " * " + show(b));
}
template <typename T1, typename T2>
void inner(Rng &r)
{
    using W = CT<T1, T2>;
    size_t n = dim(r, true, 120);
    auto a = ivec<T1>(r, n, -9, 9);
    auto b = ivec<T2>(r, n, -9, 9);
    auto A = vec(a);
    auto B = vec(b);
    W w(0);
    for (size_t i = 0; i < n; ++i) w += conv<W>(a[i]) * conv<W>(b[i]);
    vf::note(vhash(a) * 5 + vhash(b));
    vf::op("dot");
    auto d = malg::dot(A, B);
    static_assert(std::is_same_v<decltype(d), W>, "type of the inner product");
    VF_CHECK(same_val<W>(d, w), "inner-product", show(a) << " . " << show(b) << " = " << d << " want " << w);
    check_eq(A, a, "left-modified");
    check_eq(B, b, "right-modified");
    W s(0);
    for (auto &e : a) s += conv<W>(e) * conv<W>(e);
    VF_CHECK(same_val<W>(conv<W>(malg::dot(A, A)), s), "inner-product-aliased", show(a));
}
template <typename T1, typename T2>
void inplace(Rng &r)
{
    using W = CT<T1, T2>;
    Dims d = dims3(r);
    auto a = imod<T1>(r, d.m, d.k, -5, 5);
    auto b = imod<T2>(r, d.k, d.k, -5, 5);
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 7 + b.hash());
    auto w = cmod<T1>(mmul<W>(a, b));
    vf::op("A*=B");
    MatrixBase<T1> *ret = &(A.get() *= B.get());
    VF_CHECK(ret == &A.get(), "returns-left", "in-place product");
    A.check_window(w, "in-place-product");
    PURE(B);
    if constexpr (std::is_same_v<T1, T2>) {
        size_t n = dim(r, true, 15);
        auto s = imod<T1>(r, n, n, -5, 5);
        Operand<T1> S(r, s);
        vf::op("A*=A");
        S.get() *= S.get();
        S.check_window(mmul<T1>(s, s), "in-place-square");
        auto t = mat(s);
        check_eq(t * t, mmul<T1>(s, s), "square");
        // A view of the matrix times the matrix itself.
        if (n > 1) {
            auto T = mat(s);
            auto V = utility::view(T, 0, n, 0, n);
            V *= T;
            check_eq(T, mmul<T1>(s, s), "in-place-by-own-storage");
        }
    }
}
template <typename T>
void power(Rng &r)
{
    size_t n = 1 + r.below(4), N = r.below(6);
    auto a = imod<T>(r, n, n, -2, 2);
    if (r.chance(1, 20)) { Grained whole(WHOLE); n = 1; a = imod<T>(r, 1, 1, -2, 2); N = r.below(20); }
    // Matrices whose powers stay small allow large exponents.
    if (r.chance(1, 4)) {
        const bool wide = r.chance(1, 12);
        n = wide ? 5 + r.below(20) : 1 + r.below(4);
        a = Mod<T>(n, n);
        N = r.chance(1, 80) ? 65530 + r.below(200) : r.chance(1, 2) ? 200 + r.below(120) : r.below(2000);
        if (wide) { N = r.below(70); vf::hit("power.large-order"); }
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) p[i] = i;
        for (size_t i = n; i-- > 1;) std::swap(p[i], p[r.below(i + 1)]);
        if (n == 2 && r.chance(1, 2)) a.d = { T(1), ival<T>(r, -2, 2), T(0), T(1) }; // [1 k; 0 1]^N = [1 N k; 0 1]
        else for (size_t i = 0; i < n; ++i) a(i, p[i]) = r.chance(1, 8) ? T(0) : T(r.chance(1, 2) ? 1 : -1);
        vf::hit(N > 65000 ? "power.huge-exponent" : "power.large-exponent");
    }
    Operand<T> A(r, a);
    Mod<T> w = meye<T>(n), sq = a;
    for (size_t e = N; e; e >>= 1) { if (e & 1) w = mmul<T>(w, sq); if (e > 1) sq = mmul<T>(sq, sq); }
    vf::note(a.hash() * 11 + N);
    vf::op("powm");
    check_eq(linalg::powm(A.get(), N), w, "power", "N=" + std::to_string(N) + " of " + show(a));
    if (A.has_const()) check_eq(linalg::powm(A.cget(), N), w, "power-const", "N=" + std::to_string(N) + " of " + show(a));
    PURE(A);
}
// Real data, against a long double reference: |error| <= n eps sum |a||b|.
template <typename T>
void real_product(Rng &r)
{
    Dims d = dims3(r);
    double sc = std::pow(10.0, r.real(-3, 3));
    auto a = rmod<T>(r, d.m, d.k, -sc, sc);
    auto b = rmod<T>(r, d.k, d.n, -1, 1);
    Operand<T> A(r, a), B(r, b);
    vf::note(a.hash() * 13 + b.hash());
    auto q = mod_of(A.get() * B.get());
    VF_CHECK(q.R == d.m && q.C == d.n, "real-shape", q.R << "x" << q.C);
    if (!(q.R == d.m && q.C == d.n)) return;
    using R = malg::is_complex_t<T>;
    using WW = std::conditional_t<is_cx<T>, std::complex<long double>, long double>;
    double eps = static_cast<double>(std::numeric_limits<R>::epsilon());
    double worst = 0;
    for (size_t i = 0; i < d.m; ++i)
        for (size_t j = 0; j < d.n; ++j) {
            WW s(0);
            double bnd = 0;
            for (size_t k = 0; k < d.k; ++k) { s += conv<WW>(a(i, k)) * conv<WW>(b(k, j)); bnd += mag(a(i, k)) * mag(b(k, j)); }
            double err = static_cast<double>(std::abs(conv<WW>(q(i, j)) - s)), tol = 4 * eps * static_cast<double>(d.k + 2) * bnd;
            worst = worse(worst, tol > 0 ? err / tol : err);
        }
    VF_CHECK(worst <= 1.0, "real-product", "error " << worst << " times the bound for " << d.m << "x" << d.k << "x" << d.n);
    PURE(A); PURE(B);
}
template <int K>
void dispatch(Rng &r)
{
    auto call = [&](auto t1, auto t2) {
        using A = TYPE_OF(t1);
        using B = TYPE_OF(t2);
        if constexpr (K == 0) product<A, B>(r);
        else inner<A, B>(r);
    };
    switch (r.range(0, 9)) {
    case 0: call(Ty<double>(), Ty<double>()); break;
    case 1: call(Ty<int>(), Ty<int>()); break;
    case 2: call(Ty<int>(), Ty<double>()); break;
    case 3: call(Ty<double>(), Ty<int>()); break;
    case 4: call(Ty<float>(), Ty<double>()); break;
    case 5: call(Ty<cd>(), Ty<cd>()); break;
    case 6: call(Ty<cd>(), Ty<double>()); break;
    case 7: call(Ty<double>(), Ty<cd>()); break;
    case 8: call(Ty<long>(), Ty<int>()); break;
    default: call(Ty<cd>(), Ty<cf>()); break;
    }
}
// Infinities and NaN follow the sums of products; large integers do not lose bits.
template <typename T>
void special_product(Rng &r)
{
    size_t m = dim(r, false, 9), k = dim(r, false, 9), n = dim(r, false, 9);
    Mod<T> a = imod<T>(r, m, k, -3, 3), b = imod<T>(r, k, n, -3, 3);
    std::vector<T> x = ivec<T>(r, k, -3, 3);
    auto put = [&](T &e) {
        if constexpr (std::is_integral_v<T>) e = static_cast<T>(r.range(-1, 1) * (T(1) << (sizeof(T) * 4 - 4)) + r.range(-9, 9));
        else { const T q[] = { std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::ldexp(T(1), 50), std::ldexp(T(-1), -50) }; e = q[r.below(5)]; }
    };
    const size_t times = static_cast<size_t>(r.range(1, 3));
    for (size_t i = 0; i < times; ++i) { if (r.chance(2, 3)) put(a.d[r.below(a.size())]); if (r.chance(2, 3)) put(b.d[r.below(b.size())]); if (r.chance(1, 2)) put(x[r.below(k)]); }
    Operand<T> A(r, a), B(r, b);
    auto X = vec(x);
    vf::note(a.hash() * 3 + b.hash());
    // Which infinity, or NaN, or finite: the same in every order of the additions.
    auto cls = [](T g, long double w) {
        if (std::isnan(w)) return g != g;
        if (std::isinf(w)) return static_cast<long double>(g) == w;
        if constexpr (std::is_integral_v<T>) return static_cast<long double>(g) == w;
        return std::fabs(static_cast<long double>(g) - w) <= std::ldexp(1.0L, 100) * 64 * static_cast<long double>(std::numeric_limits<T>::epsilon());
    };
    auto w = mmul<long double>(a, b);
    auto q = A.get() * B.get();
    bool ok = q.rows() == m && q.cols() == n;
    for (size_t i = 0; ok && i < w.d.size(); ++i) ok = cls(q(i / n, i % n), w.d[i]);
    VF_CHECK(ok, "special-product", "got " << show(q) << " want " << show(w) << " for " << show(a) << " * " << show(b));
    auto u = A.get() * X;
    long double in = 0;
    ok = u.size() == m;
    for (size_t i = 0; ok && i < m; ++i) { long double e = 0; for (size_t j = 0; j < k; ++j) e += static_cast<long double>(a(i, j)) * static_cast<long double>(x[j]); ok = cls(u[i], e); }
    VF_CHECK(ok, "special-matrix-vector", "got " << show(u) << " for " << show(a) << " * " << show(x));
    for (size_t j = 0; j < k; ++j) in += static_cast<long double>(x[j]) * static_cast<long double>(a(0, j));
    std::vector<T> row(k);
    for (size_t j = 0; j < k; ++j) row[j] = a(0, j);
    auto Y = vec(row);
    T d = malg::dot(X, Y);
    VF_CHECK(cls(d, in), "special-inner", "got " << d << " for " << show(x) << " . " << show(row));
    PURE(A); PURE(B);
    vf::hit("special." + tname<T>());
}
// Integers of 64 bits keep all of them: whole-range unsigned ones (modulo 2^64, whatever
// the order of the additions) and signed ones that stay clear of overflow.
template <typename T> T wide(Rng &r, int bits)
{
    if constexpr (std::is_unsigned_v<T>) { (void)bits; return r.chance(1, 4) ? static_cast<T>(r.below(4)) : static_cast<T>(r.next()); }
    else {
        T x = static_cast<T>(r.next() & ((u64(1) << bits) - 1));
        return r.chance(1, 4) ? T(static_cast<T>(r.range(-3, 3))) : r.chance(1, 2) ? static_cast<T>(-x) : x;
    }
}
template <typename T1, typename T2>
void wide_product(Rng &r)
{
    using W = CT<T1, T2>;
    size_t m = dim(r, true, 9), k = dim(r, true, 9), n = dim(r, true, 9);
    // The bits of the products: at most 58 of them for up to 16 terms.
    const int la = std::is_same_v<T1, int> ? 30 : std::is_same_v<T2, int> ? 28 : static_cast<int>(r.range(14, 44)), lb = std::is_same_v<T2, int> ? 30 : 58 - la;
    Mod<T1> a(m, k);
    Mod<T2> b(k, n), q(k, k);
    std::vector<T2> x(k);
    std::vector<T1> v(k);
    k = std::min<size_t>(k, 16);
    if (a.C > 16) return;
    for (auto &e : a.d) e = wide<T1>(r, la);
    for (auto &e : v) e = wide<T1>(r, la);
    for (auto &e : b.d) e = wide<T2>(r, lb);
    for (auto &e : q.d) e = wide<T2>(r, lb);
    for (auto &e : x) e = wide<T2>(r, lb);
    Operand<T1> A(r, a);
    Operand<T2> B(r, b), Q(r, q);
    auto X = vec(x);
    auto V = vec(v);
    vf::note(a.hash() * 31 + b.hash());
    check_eq(A.get() * B.get(), mmul<W>(a, b), "wide-product");
    std::vector<W> y(m, W(0));
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) y[i] += conv<W>(a(i, j)) * conv<W>(x[j]);
    check_eq(A.get() * X, y, "wide-matrix-vector");
    check_eq(malg::dot(A.get(), X), y, "wide-matrix-dot-vector");
    W in(0);
    for (size_t j = 0; j < k; ++j) in += conv<W>(v[j]) * conv<W>(x[j]);
    VF_CHECK(same_val<W>(malg::dot(V, X), in), "wide-inner-product", show(v) << " . " << show(x) << " = " << malg::dot(V, X) << " want " << in);
    PURE(A); PURE(B);
    if constexpr (sizeof(T1) >= sizeof(T2)) {
        A.get() *= Q.get();
        A.check_window(cmod<T1>(mmul<W>(a, q)), "wide-in-place-product");
        PURE(Q);
    }
    if constexpr (std::is_unsigned_v<T1>) {
        if (k == 0) return;
        Operand<T2> P(r, q);
        size_t N = r.below(70);
        Mod<T2> w = meye<T2>(k), sq = q;
        for (size_t e = N; e; e >>= 1) { if (e & 1) w = mmul<T2>(w, sq); if (e > 1) sq = mmul<T2>(sq, sq); }
        check_eq(linalg::powm(P.get(), N), w, "wide-power", "N=" + std::to_string(N) + " of " + show(q));
        PURE(P);
    } else if constexpr (std::is_same_v<T1, long>) {
        // 3^33 .. 3^39 need more than 53 bits.
        const long base = r.chance(1, 2) ? 3 : -3;
        const size_t N = 33 + r.below(7);
        long w = 1;
        for (size_t i = 0; i < N; ++i) w *= base;
        Mod<long> c(2, 2);
        c(0, 0) = base; c(1, 1) = 1;
        Mod<long> e = c;
        e(0, 0) = w;
        if (r.chance(1, 4)) check_eq(linalg::powm(mat(c), N), e, "wide-power", "N=" + std::to_string(N) + " of " + show(c));
    }
    vf::hit("wide." + tname<T1>() + "." + tname<T2>());
}
SCENARIO(wide_integers, 1)
{
    switch (r.range(0, 5)) {
    case 5: wide_product<long double, long double>(r); break;
    case 0: wide_product<long, int>(r); break;
    case 1: wide_product<int, long>(r); break;
    case 2: case 3: wide_product<long, long>(r); break;
    default: wide_product<unsigned long, unsigned long>(r); break;
    }
}
SCENARIO(special_values, 1) { pick_type(r, [&](auto t) { special_product<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>()); }
SCENARIO(products, 6) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch<0>(r); }
SCENARIO(inner_products, 2) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); dispatch<1>(r); }
SCENARIO(in_place, 4)
{ Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE);
    switch (r.range(0, 6)) {
    case 0: inplace<double, double>(r); break;
    case 1: inplace<int, int>(r); break;
    case 2: inplace<double, int>(r); break;
    case 3: inplace<cd, cd>(r); break;
    case 4: inplace<cd, double>(r); break;
    case 5: inplace<float, double>(r); break;
    default: inplace<long, int>(r); break;
    }
}
SCENARIO(powers, 2) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { power<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
SCENARIO(real_products, 2) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { real_product<TYPE_OF(t)>(r); }, Ty<float>(), Ty<double>(), Ty<cd>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
