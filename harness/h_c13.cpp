// C13: element-wise maps.
#include "gen.hpp"
using namespace malg;
static const Large large(1100);
static const Long long_cases(80, 65537);

template <typename T> Mod<T> any_mod(Rng &r, size_t R, size_t C)
{
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T>>) { if (r.chance(1, 2)) return rmod<T>(r, R, C, -20, 20); }
    return imod<T>(r, R, C, -9, 9);
}
template <typename T> Mod<T> row_mod(const std::vector<T> &v) { Mod<T> m(1, v.size()); m.d = v; return m; }
// Applies a scalar function to a model.
template <typename O, typename T, typename F> Mod<O> mmap(const Mod<T> &m, F f)
{
    Mod<O> o(m.R, m.C);
    for (size_t i = 0; i < m.d.size(); ++i) o.d[i] = static_cast<O>(f(m.d[i]));
    return o;
}
// Compares values, whatever the element type of the result.
template <typename T, typename U> void close(const MatrixBase<T> &A, const Mod<U> &m, double tol, const char *key, const std::string &ctx)
{
    auto g = mod_of(A);
    bool ok = g.R == m.R && g.C == m.C;
    for (size_t i = 0; ok && i < m.d.size(); ++i) {
        double w = mag(m.d[i]);
        double d = static_cast<double>(std::abs(conv<std::complex<long double>>(g.d[i]) - conv<std::complex<long double>>(m.d[i])));
        ok = d <= tol * w;
    }
    VF_CHECK(ok, key, "got " << show(g) << " want " << show(m) << " on " << ctx);
}
template <typename T, typename U> void close(const Vector<T> &A, const Mod<U> &m, double tol, const char *key, const std::string &ctx)
{
    Matrix<T> X(1, A.size(), T(0));
    for (size_t i = 0; i < A.size(); ++i) X(0, i) = A[i];
    if (A.size() == 0) { VF_CHECK(m.size() == 0, key, "empty result on " << ctx); return; }
    close(X, m, tol, key, ctx);
}
// The unary maps of the library, on a container and its model.
template <typename T, typename X>
void unary(Rng &r, const X &A, const Mod<T> &m, const std::string &ctx)
{
    long calls = 0;
    std::multiset<u64> seen, want;
    for (auto &x : m.d) want.insert(hash_of(x));
    vf::op("element_wise_function");
    auto count = [&](T x) { ++calls; seen.insert(hash_of(x)); return x + x; };
    auto D = malg::element_wise_function(A, count);
    close(D, mmap<T>(m, [](T x) { return x + x; }), 0, "unary-value", ctx);
    VF_CHECK(calls == static_cast<long>(m.size()), "unary-calls", calls << " calls on " << ctx);
    VF_CHECK(seen == want, "unary-visits", "the visited elements are not those of " << ctx);
    // A function that changes the type.
    auto E = malg::element_wise_function(A, [](T x) -> double { return static_cast<double>(std::abs(x)) + 0.5; });
    close(E, mmap<double>(m, [](T x) { return static_cast<double>(std::abs(x)) + 0.5; }), 0, "unary-type", ctx);
    vf::op("abs");
    if constexpr (!std::is_unsigned_v<T>) close(malg::abs(A), mmap<double>(m, [](T x) { return static_cast<double>(std::abs(x)); }), 0, "abs", ctx);
    vf::op("sign");
    Mod<T> z = m;
    bool zero = false;
    if constexpr (is_cx<T>) {
        for (auto &x : m.d) zero = zero || x.real() == 0 || x.imag() == 0;
        using R = typename T::value_type;
        for (auto &x : z.d) x = T(x.real() > 0 ? R(1) : R(-1), x.imag() > 0 ? R(1) : R(-1));
    } else {
        for (auto &x : m.d) zero = zero || x == T(0);
        for (auto &x : z.d) x = x > T(0) ? T(1) : T(-1);
    }
    if (!zero) { close(malg::sign(A), z, 0, "sign", ctx); vf::hit("sign"); }
    if constexpr (is_cx<T>) {
        vf::op("real/imag");
        close(malg::real(A), mmap<double>(m, [](T x) { return static_cast<double>(x.real()); }), 0, "real", ctx);
        close(malg::imag(A), mmap<double>(m, [](T x) { return static_cast<double>(x.imag()); }), 0, "imag", ctx);
        vf::hit("real-imag");
    }
    (void)r;
}
template <typename T1, typename T2, typename X, typename Y>
void binary(Rng &r, const X &A, const Mod<T1> &a, const Y &B, const Mod<T2> &b, const std::string &ctx)
{
    using CT = malg::extract_common_type_t<T1, T2>;
    (void)r;
    long calls = 0;
    vf::op("element_wise_binary_function");
    auto D = malg::element_wise_binary_function(A, B, [&](T1 x, T2 y) { ++calls; return conv<CT>(x) - conv<CT>(y) - conv<CT>(y); });
    Mod<CT> w(a.R, a.C);
    for (size_t i = 0; i < a.d.size(); ++i) w.d[i] = conv<CT>(a.d[i]) - conv<CT>(b.d[i]) - conv<CT>(b.d[i]);
    close(D, w, 0, "binary-value", ctx);
    VF_CHECK(calls == static_cast<long>(a.size()), "binary-calls", calls << " calls on " << ctx);
}
template <typename T> void unary_case(Rng &r)
{
    size_t R = dim(r, true, 20), C = dim(r, true, 20);
    Mod<T> m = any_mod<T>(r, R, C);
    vf::note(m.hash());
    Operand<T> A(r, m);
    std::string ctx = std::string(A.kname()) + " " + show(m);
    vf::hit(std::string("kind.") + A.kname());
    if (vf::st().samples.size() < 2) vf::sample(ctx);
    unary<T>(r, A.get(), m, ctx);
    PURE(A);
    std::vector<T> v = r.chance(1, 2) ? m.d : any_mod<T>(r, 1, dim(r, true, 30)).d;
    const Vector<T> V = vec(v);
    unary<T>(r, V, row_mod(v), "vector " + show(v));
    VF_CHECK(vec_of(V) == v, "operand-modified", show(v));
    // The exponential of each element.
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T>>) {
        vf::op("exp");
        Mod<T> e = rmod<T>(r, R, C, -5, 5);
        Operand<T> B(r, e);
        close(linalg::exp(B.get()), mmap<T>(e, [](T x) { return std::exp(x); }), 8 * static_cast<double>(std::numeric_limits<malg::is_complex_t<T>>::epsilon()), "exp", std::string(B.kname()) + " " + show(e));
        if (B.has_const()) close(linalg::exp(B.cget()), mmap<T>(e, [](T x) { return std::exp(x); }), 8 * static_cast<double>(std::numeric_limits<malg::is_complex_t<T>>::epsilon()), "exp", show(e));
        PURE(B);
        vf::hit("exp");
    }
}
template <typename T1, typename T2> void binary_case(Rng &r)
{
    using CT = malg::extract_common_type_t<T1, T2>;
    size_t R = dim(r, true, 20), C = dim(r, true, 20);
    Mod<T1> a = imod<T1>(r, R, C, -9, 9);
    Mod<T2> b = imod<T2>(r, R, C, -9, 9);
    // Fractions, exact in every floating point type: a conversion to the wrong type shows.
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T1>>) if (r.chance(1, 2)) for (auto &x : a.d) x = x * T1(0.25);
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T2>>) if (r.chance(1, 2)) for (auto &x : b.d) x = x * T2(0.125);
    // Fractions that no narrower type represents (the maps get them as they are).
    bool odd = false;
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T2>>) if (r.chance(1, 3)) { odd = true; for (auto &x : b.d) x = x * T2(0.1); }
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T1>>) if (r.chance(1, 3)) { odd = true; for (auto &x : a.d) x = x / T1(3); }
    vf::hit(odd ? "binary.rounded" : "binary.exact");
    vf::note(a.hash() * 3 + b.hash());
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    std::string ctx = std::string(A.kname()) + " " + show(a) + " and " + B.kname() + " " + show(b);
    binary<T1, T2>(r, A.get(), a, B.get(), b, ctx);
    vf::op("element_wise_product");
    Mod<CT> p(R, C);
    for (size_t i = 0; i < a.d.size(); ++i) p.d[i] = conv<CT>(a.d[i]) * conv<CT>(b.d[i]);
    close(malg::element_wise_product(A.get(), B.get()), p, 0, "product", ctx);
    vf::op("linear_combination");
    T1 x = ival<T1>(r, -4, 4);
    T2 y = ival<T2>(r, -4, 4);
    Mod<CT> l(R, C);
    for (size_t i = 0; i < a.d.size(); ++i) l.d[i] = conv<CT>(a.d[i]) * conv<CT>(x) + conv<CT>(b.d[i]) * conv<CT>(y);
    if (!odd) close(malg::linear_combination(A.get(), x, B.get(), y), l, 0, "linear-combination", ctx);
    else {
        // Each product may be rounded in the type of its own factors.
        auto g = mod_of(malg::linear_combination(A.get(), x, B.get(), y));
        bool ok = g.R == R && g.C == C;
        const double eps = (std::is_same_v<malg::is_complex_t<T1>, float> || std::is_same_v<malg::is_complex_t<T2>, float>) ? 1.2e-7 : 2.3e-16;
        for (size_t i = 0; ok && i < l.d.size(); ++i) ok = mag(static_cast<CT>(g.d[i] - l.d[i])) <= 8 * eps * (mag(a.d[i]) * mag(x) + mag(b.d[i]) * mag(y));
        VF_CHECK(ok, "linear-combination-rounded", "got " << show(g) << " want " << show(l) << " on " << ctx);
    }
    PURE(A);
    PURE(B);
    std::vector<T1> va = a.d;
    std::vector<T2> vb = b.d;
    const Vector<T1> VA = vec(va);
    const Vector<T2> VB = vec(vb);
    Mod<T1> ra = row_mod(va);
    Mod<T2> rb = row_mod(vb);
    binary<T1, T2>(r, VA, ra, VB, rb, "vectors " + show(va) + " " + show(vb));
    VF_CHECK(vec_of(VA) == va && vec_of(VB) == vb, "operand-modified", ctx);
    // The same object on both sides.
    if (r.chance(1, 5)) {
        Mod<T1> q(R, C);
        for (size_t i = 0; i < a.d.size(); ++i) q.d[i] = a.d[i] * a.d[i];
        close(malg::element_wise_product(A.get(), A.get()), q, 0, "product-with-itself", ctx);
    }
    vf::hit("binary." + tname<T1>() + tname<T2>());
}
// Values of any size.
template <typename T> void special_case(Rng &r)
{
    size_t R = dim(r, true, 12), C = dim(r, true, 12);
    Mod<T> a(R, C), b(R, C);
    auto gen = [&](bool narrow) {
        if constexpr (is_cx<T>) { auto x = any_value<malg::is_complex_t<T>>(r, narrow), y = any_value<malg::is_complex_t<T>>(r, narrow); return T(x, y); }
        else return any_value<T>(r, narrow);
    };
    for (auto &x : a.d) x = gen(true);
    for (auto &x : b.d) x = gen(true);
    vf::note(a.hash() * 5 + b.hash());
    Operand<T> A(r, a), B(r, b);
    std::string ctx = std::string(A.kname()) + " " + show(a) + " and " + B.kname() + " " + show(b);
    auto same = [&](const char *key, const auto &X, auto f) {
        bool ok = X.rows() == R && X.cols() == C;
        for (size_t i = 0; ok && i < a.d.size(); ++i) {
            auto w = f(i);
            using W = decltype(w);
            if constexpr (std::is_arithmetic_v<W>) ok = bits_same<W>(conv<W>(X(i / C, i % C)), w); else ok = same_val<W>(conv<W>(X(i / C, i % C)), w);
        }
        VF_CHECK(ok, key, "got " << show(X) << " on " << ctx);
    };
    vf::op("special values");
    same("special-unary", malg::element_wise_function(A.get(), [](T x) { return -x; }), [&](size_t i) { return static_cast<T>(-a.d[i]); });
    same("special-binary", malg::element_wise_binary_function(A.get(), B.get(), [](T x, T y) { return x - y; }), [&](size_t i) { return static_cast<T>(a.d[i] - b.d[i]); });
    if constexpr (!is_cx<T>) {
        same("special-product", malg::element_wise_product(A.get(), B.get()), [&](size_t i) { return static_cast<T>(a.d[i] * b.d[i]); });
        bool odd = false;
        for (auto &x : a.d) odd = odd || x == T(0) || x != x;
        if (!odd) same("special-sign", malg::sign(A.get()), [&](size_t i) { return a.d[i] > T(0) ? T(1) : T(-1); });
        same("special-abs", malg::abs(A.get()), [&](size_t i) { return static_cast<T>(std::abs(a.d[i])); });
    } else {
        using Q = typename T::value_type;
        auto part = [&](const char *key, const auto &X, auto f) {
            bool ok = X.rows() == R && X.cols() == C;
            for (size_t i = 0; ok && i < a.d.size(); ++i) ok = same_val<Q>(conv<cd>(X(i / C, i % C)).real(), f(a.d[i]));
            VF_CHECK(ok, key, "got " << show(X) << " on " << ctx);
        };
        part("special-real", malg::real(A.get()), [](T x) { return x.real(); });
        part("special-imag", malg::imag(A.get()), [](T x) { return x.imag(); });
    }
    // The same maps on vectors, bit by bit (the sign of a zero included).
    const auto V = vec(a.d);
    auto vsame = [&](const char *key, const auto &X, auto f) {
        bool ok = X.size() == a.d.size();
        for (size_t i = 0; ok && i < a.d.size(); ++i) { auto w = f(a.d[i]); using W = decltype(w); if constexpr (std::is_arithmetic_v<W>) ok = bits_same<W>(conv<W>(X[i]), w); else ok = same_val<W>(conv<W>(X[i]), w); }
        VF_CHECK(ok, key, "vector " << show(a.d));
    };
    vsame("special-vector-unary", malg::element_wise_function(V, [](T x) { return -x; }), [](T x) { return static_cast<T>(-x); });
    if constexpr (!is_cx<T>) vsame("special-vector-abs", malg::abs(V), [](T x) { return static_cast<T>(std::abs(x)); });
    else {
        const auto re = malg::real(V), im = malg::imag(V);
        bool ok = re.size() == a.d.size() && im.size() == a.d.size();
        using Q = typename T::value_type;
        for (size_t i = 0; ok && i < a.d.size(); ++i) ok = same_val<Q>(conv<cd>(re[i]).real(), a.d[i].real()) && same_val<Q>(conv<cd>(im[i]).real(), a.d[i].imag());
        VF_CHECK(ok, "special-vector-parts", "vector " << show(a.d));
    }
    VF_CHECK(vec_of(V) == a.d || a.d != a.d, "special-vector-modified", show(a.d));
    PURE(A);
    PURE(B);
}
// Integers of 64 bits go through the maps with all of them.
template <typename T> void wide_case(Rng &r)
{
    size_t R = dim(r, true, 12), C = dim(r, true, 12);
    Mod<T> a(R, C), b(R, C);
    for (auto *m : { &a, &b }) for (auto &x : m->d) x = static_cast<T>(static_cast<long>(r.next()) >> r.range(3, 50));
    Operand<T> A(r, a), B(r, b);
    const Vector<T> V = vec(a.d), U = vec(b.d);
    const std::string ctx = std::string(A.kname()) + " " + show(a) + " " + show(b);
    vf::note(a.hash() * 3 + b.hash());
    auto one = [&](const auto &X, const auto &Y, const char *what) {
        close(malg::element_wise_function(X, [](T x) { return x + x; }), mmap<T>(a, [](T x) { return x + x; }), 0, "wide-unary", what + ctx);
        Mod<T> w(R, C);
        for (size_t i = 0; i < w.d.size(); ++i) w.d[i] = a.d[i] - b.d[i];
        close(malg::element_wise_binary_function(X, Y, [](T x, T y) { return x - y; }), w, 0, "wide-binary", what + ctx);
        close(malg::abs(X), mmap<T>(a, [](T x) { return x < 0 ? -x : x; }), 0, "wide-abs", what + ctx);
    };
    one(A.get(), B.get(), "");
    Mod<T> f(1, a.d.size()), g(1, a.d.size());
    f.d = a.d; g.d = b.d;
    std::swap(R, f.R); std::swap(C, f.C);
    a = Mod<T>(R, C); b = a;
    a.d = f.d; b.d = g.d;
    one(V, U, "vector ");
    PURE(A); PURE(B);
    vf::hit("wide." + tname<T>());
}
SCENARIO(wide_integers, 1) { if (r.chance(2, 3)) wide_case<long>(r); else wide_case<long double>(r); }
SCENARIO(special_values, 1) { pick_type(r, [&](auto t) { special_case<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>(), Ty<cd>()); }
SCENARIO(maps, 3) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { unary_case<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>(), Ty<cd>(), Ty<cf>()); }
SCENARIO(pairs, 3)
{ Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE);
    switch (r.range(0, 8)) {
    case 0: binary_case<double, double>(r); break;
    case 1: binary_case<int, double>(r); break;
    case 2: binary_case<double, int>(r); break;
    case 3: binary_case<float, double>(r); break;
    case 4: binary_case<cd, cd>(r); break;
    case 5: binary_case<double, cd>(r); break;
    case 6: binary_case<cd, double>(r); break;
    case 7: binary_case<int, long>(r); break;
    default: binary_case<int, int>(r); break;
    }
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
