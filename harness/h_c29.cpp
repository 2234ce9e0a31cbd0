// C29: arithmetic between complex numbers of different precisions and between complex and arithmetic values.
#include "gen.hpp"
#include "malg/complex_math.hpp"
using LD = long double;

// The reference never uses an operator between complex numbers.
struct Z { LD re, im; };
static Z ref(int op, Z a, Z b)
{
    switch (op) {
    case 0: return { a.re + b.re, a.im + b.im };
    case 1: return { a.re - b.re, a.im - b.im };
    case 2: return { a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re };
    default: {
        LD n = b.re * b.re + b.im * b.im;
        return { (a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n };
    }
    }
}
static LD len(Z a) { return std::sqrt(a.re * a.re + a.im * a.im); }
template <typename T> Z zed(const T &x)
{
    if constexpr (is_cx<T>) return { static_cast<LD>(x.real()), static_cast<LD>(x.imag()) };
    else return { static_cast<LD>(x), 0 };
}
template <typename T> struct part { using type = T; };
template <typename T> struct part<std::complex<T>> { using type = T; };
template <typename T> using part_t = typename part<T>::type;

static const char *const NAMES[4] = { "add", "sub", "mul", "div" };

// A component: small integers make every result exact, otherwise reals of the precision of T over a range of magnitudes.
template <typename T> T component(Rng &r, bool small, bool pow2)
{
    if (pow2) { long v = 1L << r.range(0, 3); return static_cast<T>(std::is_signed_v<T> && r.chance(1, 2) ? -v : v); }
    if (r.chance(1, 6)) return T(0);
    if constexpr (std::is_integral_v<T>) {
        if constexpr (std::is_same_v<T, bool>) return true;
        long v = r.range(0, small || sizeof(T) < 4 ? 100 : r.chance(1, 2) ? 30000 : sizeof(T) == 4 ? (1L << 31) - 1 : 1L << r.range(30, 52));
        return static_cast<T>(std::is_signed_v<T> && r.chance(1, 2) ? -v : v);
    } else {
        if (small) return static_cast<T>(r.range(-100, 100)) / static_cast<T>(1 << r.range(0, 3));
        T v = static_cast<T>(r.real(-1, 1));
        if constexpr (std::is_same_v<T, LD>) v += static_cast<T>(r.real(-1, 1)) * 1e-16L;
        else if constexpr (std::is_same_v<T, double>) v += r.real(-1, 1) * 1e-10;
        return std::ldexp(v, static_cast<int>(r.range(-12, 12)));
    }
}
template <typename T> T operand(Rng &r, bool small, bool divisor)
{
    if constexpr (is_cx<T>) {
        using C = typename T::value_type;
        if (divisor && small) {
            C p = component<C>(r, true, true);
            switch (r.range(0, 2)) { case 0: return T(p, 0); case 1: return T(0, p); default: return T(p, r.chance(1, 2) ? p : -p); }
        }
        T v(component<C>(r, small, false), component<C>(r, small, false));
        switch (r.range(0, 7)) { case 0: v = T(v.real(), 0); break; case 1: v = T(0, v.imag()); break; default: break; }
        if (divisor && v == T(0)) v = T(1, -1);
        return v;
    } else {
        if (divisor && small) return component<T>(r, true, true);
        T v = component<T>(r, small, false);
        if (divisor && v == T(0)) v = T(3);
        return v;
    }
}
template <typename A, typename B>
void pair(Rng &r)
{
    using C    = std::common_type_t<part_t<A>, part_t<B>>;
    using Want = std::complex<C>;
    const bool small = r.chance(2, 5);
    for (int op = 0; op < 4; ++op) {
        const A a = operand<A>(r, small, false);
        const B b = operand<B>(r, small, op == 3);
        A a2 = a; B b2 = b;
        vf::note(hash_of(a) * 31 + hash_of(b) + static_cast<u64>(op) * 7919 + sizeof(A) * 131 + sizeof(B));
        vf::op(NAMES[op]);
        Want got;
        switch (op) {
        case 0: static_assert(std::is_same_v<decltype(a + b), Want>, "type of the sum"); got = a + b; break;
        case 1: static_assert(std::is_same_v<decltype(a - b), Want>, "type of the difference"); got = a - b; break;
        case 2: static_assert(std::is_same_v<decltype(a * b), Want>, "type of the product"); got = a * b; break;
        default: static_assert(std::is_same_v<decltype(a / b), Want>, "type of the quotient"); got = a / b;
        }
        Z za = zed(a), zb = zed(b), w = ref(op, za, zb), g = zed(got);
        LD err = worse(std::fabs(g.re - w.re), std::fabs(g.im - w.im));
        if (small) {
            VF_CHECK(err == 0, std::string("exact-") + NAMES[op], NAMES[op] << " of (" << za.re << "," << za.im << ") and (" << zb.re << "," << zb.im << ") gave (" << g.re << "," << g.im << ") want (" << w.re << "," << w.im << ")");
        } else {
            // Rounding of operands to the common type, of the products, and of the result.
            LD scale = op == 0 || op == 1 ? len(za) + len(zb) : op == 2 ? len(za) * len(zb) : len(za) / len(zb);
            LD tol = 16 * static_cast<LD>(std::numeric_limits<C>::epsilon()) * scale;
            VF_CHECK(err <= tol, std::string("value-") + NAMES[op], NAMES[op] << " of (" << za.re << "," << za.im << ") and (" << zb.re << "," << zb.im << ") gave (" << g.re << "," << g.im << ") want (" << w.re << "," << w.im << ") tolerance " << tol);
        }
        // Temporaries and non-constant operands.
        Want again;
        switch (op) { case 0: again = A(a) + b2; break; case 1: again = a2 - B(b); break; case 2: again = A(a) * B(b); break; default: again = a2 / b2; }
        VF_CHECK(again == got, "categories", NAMES[op]);
        VF_CHECK(a2 == a && b2 == b, "operands-modified", NAMES[op]);
        // The real axis is the same whichever way a real number is written.
        if constexpr (!is_cx<B>) {
            Want s;
            std::complex<C> cb(static_cast<C>(b), C(0)), ca(static_cast<C>(a.real()), static_cast<C>(a.imag()));
            switch (op) { case 0: s = ca + cb; break; case 1: s = ca - cb; break; case 2: s = ca * cb; break; default: s = ca / cb; }
            Z q = zed(s);
            LD d = worse(std::fabs(q.re - g.re), std::fabs(q.im - g.im));
            VF_CHECK(small ? d == 0 : d <= 16 * static_cast<LD>(std::numeric_limits<C>::epsilon()) * (len(w) + (op < 2 ? len(za) + len(zb) : 0)), "scalar-as-complex", NAMES[op]);
        }
        vf::hit(small ? "exact" : "rounded");
        if (vf::st().samples.size() < 4) { std::ostringstream o; o << a << ' ' << NAMES[op] << ' ' << b << " = " << got; vf::sample(o.str()); }
    }
}
// Magnitudes far from one: the quotients and products stay well inside the common type, the squares of the components may not.
template <typename T> T wide_part(Rng &r, int e)
{
    return std::ldexp(static_cast<T>(r.real(0.5, 1) * (r.chance(1, 2) ? -1 : 1)), e);
}
template <typename T> T wide_operand(Rng &r, int e)
{
    if constexpr (is_cx<T>) {
        using C = typename T::value_type;
        const int other = r.chance(1, 3) ? e - static_cast<int>(r.range(0, 60)) : e;
        C a = wide_part<C>(r, e), b = r.chance(1, 6) ? C(0) : wide_part<C>(r, other);
        return r.chance(1, 2) ? T(a, b) : T(b, a);
    } else return wide_part<T>(r, e);
}
template <typename T> constexpr int top_exponent() { return std::is_same_v<part_t<T>, float> ? 100 : std::is_same_v<part_t<T>, double> ? 900 : 6000; }
template <typename A, typename B>
void far_apart(Rng &r)
{
    using C    = std::common_type_t<part_t<A>, part_t<B>>;
    using Want = std::complex<C>;
    const int la = top_exponent<A>(), lb = top_exponent<B>(), lc = std::min(1 << 20, top_exponent<C>() - 30);
    int ea = static_cast<int>(r.range(-la, la)), eb = static_cast<int>(r.range(-lb, lb));
    if (r.chance(1, 2)) eb = std::max(-lb, std::min(lb, ea + static_cast<int>(r.range(-40, 40))));
    const A a = wide_operand<A>(r, ea);
    const B b = wide_operand<B>(r, eb);
    // The reference works on operands brought near one, by powers of two.
    auto near_one = [](Z z, int e) { return Z{ std::ldexp(z.re, -e), std::ldexp(z.im, -e) }; };
    Z za = near_one(zed(a), ea), zb = near_one(zed(b), eb);
    const LD eps = static_cast<LD>(std::numeric_limits<C>::epsilon());
    vf::note(hash_of(a) * 37 + hash_of(b) + sizeof(A) * 131 + sizeof(B));
    auto check = [&](int op, Want got, int e) {
        vf::op(NAMES[op]);
        Z g = near_one(zed(got), e), w = ref(op, za, zb);
        LD err = worse(std::fabs(g.re - w.re), std::fabs(g.im - w.im)), tol = 16 * eps * (op == 2 ? len(za) * len(zb) : len(za) / len(zb));
        VF_CHECK(err <= tol, std::string("far-") + NAMES[op], NAMES[op] << " of " << a << " and " << b << " gave " << got << " want (" << w.re << "," << w.im << ") times 2^" << e);
        vf::hit("far");
    };
    if (std::abs(ea - eb) < lc) check(3, a / b, ea - eb);
    if (std::abs(ea + eb) < lc) check(2, a * b, ea + eb);
    // Sums: the small operand may vanish, the large one may not.
    const int em = std::max(ea, eb);
    Z sa = near_one(zed(a), em), sb = near_one(zed(b), em);
    for (int op = 0; op < 2; ++op) {
        const Want got = op == 0 ? a + b : a - b;
        Z g = near_one(zed(got), em), w = ref(op, sa, sb);
        LD err = worse(std::fabs(g.re - w.re), std::fabs(g.im - w.im));
        VF_CHECK(err <= 4 * eps * (len(sa) + len(sb)), std::string("far-") + NAMES[op], NAMES[op] << " of " << a << " and " << b << " gave " << got);
    }
}
SCENARIO(far_magnitudes, 2)
{
    using cld = std::complex<LD>;
    switch (r.range(0, 13)) {
    case 0: far_apart<cf, cf>(r); break;
    case 1: far_apart<cf, cd>(r); break;
    case 2: far_apart<cd, cf>(r); break;
    case 3: far_apart<cd, cd>(r); break;
    case 4: far_apart<cd, cld>(r); break;
    case 5: far_apart<cld, cd>(r); break;
    case 6: far_apart<cld, cld>(r); break;
    case 7: far_apart<cd, double>(r); break;
    case 8: far_apart<double, cd>(r); break;
    case 9: far_apart<float, cd>(r); break;
    case 10: far_apart<cf, double>(r); break;
    case 11: far_apart<double, cf>(r); break;
    case 12: far_apart<cf, float>(r); break;
    default: far_apart<float, cf>(r);
    }
}
using cld = std::complex<LD>;
SCENARIO(complex_complex, 3)
{
    switch (r.range(0, 8)) {
    case 0: pair<cf, cf>(r); break;
    case 1: pair<cf, cd>(r); break;
    case 2: pair<cf, cld>(r); break;
    case 3: pair<cd, cf>(r); break;
    case 4: pair<cd, cd>(r); break;
    case 5: pair<cd, cld>(r); break;
    case 6: pair<cld, cf>(r); break;
    case 7: pair<cld, cd>(r); break;
    default: pair<cld, cld>(r);
    }
}
template <typename X, bool Left, typename U> void mixed(Rng &r) { if constexpr (Left) pair<U, X>(r); else pair<X, U>(r); }
template <typename X, bool Left>
void arith(Rng &r)
{
    switch (r.range(0, 10)) {
    case 0: mixed<X, Left, int>(r); break;
    case 1: mixed<X, Left, long>(r); break;
    case 2: mixed<X, Left, unsigned char>(r); break;
    case 3: mixed<X, Left, short>(r); break;
    case 4: mixed<X, Left, unsigned>(r); break;
    case 5: mixed<X, Left, float>(r); break;
    case 6: mixed<X, Left, double>(r); break;
    case 7: mixed<X, Left, LD>(r); break;
    case 8: mixed<X, Left, unsigned long long>(r); break;
    case 9: mixed<X, Left, signed char>(r); break;
    default: mixed<X, Left, bool>(r);
    }
}
SCENARIO(complex_scalar, 3)
{
    switch (r.range(0, 2)) { case 0: arith<cf, false>(r); break; case 1: arith<cd, false>(r); break; default: arith<cld, false>(r); }
}
SCENARIO(scalar_complex, 3)
{
    switch (r.range(0, 2)) { case 0: arith<cf, true>(r); break; case 1: arith<cd, true>(r); break; default: arith<cld, true>(r); }
}
// Inside expressions, next to containers of complex numbers: the elements see the same operators.
template <typename A, typename B>
void through_containers(Rng &r)
{
    using C = std::complex<std::common_type_t<part_t<A>, part_t<B>>>;
    size_t n = dim(r, false, 12);
    std::vector<A> a(n);
    std::vector<B> b(n);
    for (auto &x : a) x = operand<A>(r, true, false);
    for (auto &x : b) x = operand<B>(r, true, true);
    const malg::Vector<A> va = vec(a);
    const malg::Vector<B> vb = vec(b);
    vf::note(vhash(a) ^ vhash(b));
    auto s = va + vb;
    auto d = va - vb;
    auto p = malg::element_wise_binary_function(va, vb, [](const auto &x, const auto &y) { return x * y; });
    auto q = malg::element_wise_binary_function(va, vb, [](const auto &x, const auto &y) { return x / y; });
    for (size_t i = 0; i < n; ++i) {
        Z x = zed(a[i]), y = zed(b[i]);
        Z w[4] = { ref(0, x, y), ref(1, x, y), ref(2, x, y), ref(3, x, y) };
        Z g[4] = { zed(C(s[i])), zed(C(d[i])), zed(C(p[i])), zed(C(q[i])) };
        for (int k = 0; k < 4; ++k) VF_CHECK(g[k].re == w[k].re && g[k].im == w[k].im, std::string("vector-") + NAMES[k], "(" << x.re << "," << x.im << ") and (" << y.re << "," << y.im << ") gave (" << g[k].re << "," << g[k].im << ")");
    }
}
SCENARIO(vectors, 1)
{
    switch (r.range(0, 4)) {
    case 0: through_containers<cf, cd>(r); break;
    case 1: through_containers<cd, cf>(r); break;
    case 2: through_containers<cd, double>(r); break;
    case 3: through_containers<double, cd>(r); break;
    default: through_containers<cd, cd>(r);
    }
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
