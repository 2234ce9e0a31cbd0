// Generators, abstract models and operand kinds for the malg harnesses.
#pragma once
#include "vf.hpp"

#include "malg/control/control.hpp"
#include "malg/io.hpp"
#include "malg/linalg.hpp"
#include "malg/math.hpp"
#include "malg/matrix.hpp"
#include "malg/utility.hpp"
#include "malg/vector.hpp"
#include "malg/view.hpp"

using vf::Rng;
using vf::u64;
using std::size_t;
using cd = std::complex<double>;
using cf = std::complex<float>;

template <typename T> struct name_of { static std::string get() { return typeid(T).name(); } };
template <typename T> std::string tname() { return name_of<std::remove_const_t<T>>::get(); }

template <typename T> constexpr bool is_cx = malg::is_complex_v<std::remove_const_t<T>>;

// What ival() draws: integers, quarters (a few operations stay exact) or, for data
// that is only moved around, values that use every bit of the type (ANY: also NaN, infinities...).
enum Grain { WHOLE, QUARTERS, FULL, ANY };
inline thread_local Grain grain = WHOLE;
struct Grained {
    Grain old;
    explicit Grained(Grain g) : old(grain) { grain = g; }
    ~Grained() { grain = old; }
};
// Values of any size, also infinite, NaN, denormal.  Integers stay clear of overflow:
// in sums and, when narrow, in products.
template <typename T> T any_value(Rng &r, bool narrow = false)
{
    if constexpr (std::is_integral_v<T>) {
        const int bits = narrow ? static_cast<int>(sizeof(T)) * 4 - 1 : static_cast<int>(sizeof(T)) * 8 - 2;
        const u64 m = (u64(1) << bits) - 1;
        T x = static_cast<T>(r.chance(1, 4) ? (r.next() & 7) : r.chance(1, 4) ? m : (r.next() & m));
        if constexpr (std::is_signed_v<T>) return r.chance(1, 2) ? static_cast<T>(-x) : x; else return x;
    } else {
        using L = std::numeric_limits<T>;
        switch (r.range(0, 15)) {
        case 0: return T(0);
        case 1: return -T(0);
        case 2: return L::infinity();
        case 3: return -L::infinity();
        case 4: return L::quiet_NaN();
        case 5: return L::denorm_min();
        case 6: return L::min();
        case 7: return L::max();
        case 8: return L::lowest();
        case 9: return L::epsilon();
        case 10: case 11: return static_cast<T>(std::ldexp(static_cast<T>(r.real(-1, 1)), static_cast<int>(r.range(L::min_exponent, L::max_exponent))));
        case 12: return static_cast<T>(r.range(-3, 3));
        default: return static_cast<T>(r.real(-100, 100));
        }
    }
}
// Small integer valued element: sums and products of those are exact in every type.
template <typename T>
T ival(Rng &r, long lo, long hi)
{
    if constexpr (is_cx<T>) {
        using R = typename T::value_type;
        R re = ival<R>(r, lo, hi), im = ival<R>(r, lo, hi);
        return T(re, im);
    } else if constexpr (std::is_floating_point_v<T>) {
        if (grain == QUARTERS) return static_cast<T>(r.range(lo * 4, hi * 4)) / 4;
        if constexpr (std::is_same_v<T, long double>) if (grain >= FULL && r.chance(1, 2)) return static_cast<T>(r.real(-1e5, 1e5)) * (1 + static_cast<T>(r.real(-1, 1)) * 0x1p-55L);
        if (grain >= FULL && r.chance(3, 4)) return grain == ANY && r.chance(1, 30) ? any_value<T>(r) : static_cast<T>(r.real(-1e5, 1e5));
        return static_cast<T>(r.range(lo, hi));
    } else {
        if constexpr (sizeof(T) == 8) if (grain >= FULL && r.chance(3, 4)) return static_cast<T>(static_cast<long>(r.next()) >> 4);
        if constexpr (sizeof(T) == 4) if (grain >= FULL && r.chance(3, 4)) return static_cast<T>(static_cast<int>(r.next()) >> 2);
        return static_cast<T>(r.range(lo, hi));
    }
}
// Real valued element.
template <typename T>
T rval(Rng &r, double lo, double hi)
{
    if constexpr (is_cx<T>) {
        using R = typename T::value_type;
        R re = static_cast<R>(r.real(lo, hi)), im = static_cast<R>(r.real(lo, hi));
        return T(re, im);
    } else {
        return static_cast<T>(r.real(lo, hi));
    }
}

// Conversion used by the models: exact on the values we generate.
template <typename To, typename From>
To conv(const From &x)
{
    if constexpr (is_cx<To> && is_cx<From>) {
        using R = typename To::value_type;
        return To(static_cast<R>(x.real()), static_cast<R>(x.imag()));
    } else if constexpr (is_cx<To>) {
        using R = typename To::value_type;
        return To(static_cast<R>(x), R(0));
    } else {
        return static_cast<To>(x);
    }
}
template <typename T> u64 hash_of(const T &x)
{
    if constexpr (is_cx<T>) {
        return vf::mix(hash_of(x.real()) * 31 + hash_of(x.imag()));
    } else {
        double d = static_cast<double>(x);
        u64 b;
        std::memcpy(&b, &d, 8);
        return vf::mix(b);
    }
}
// Bitwise-like equality that considers NaNs equal to themselves.
template <typename T> bool same_val(const T &a, const T &b)
{
    if constexpr (is_cx<T>) {
        return same_val(a.real(), b.real()) && same_val(a.imag(), b.imag());
    } else if constexpr (std::is_floating_point_v<T>) {
        return (a == b) || (std::isnan(a) && std::isnan(b));
    } else {
        return a == b;
    }
}

template <typename T> bool bits_same(T a, T b)
{
    if constexpr (std::is_floating_point_v<T>) return same_val<T>(a, b) && (std::isnan(a) || std::signbit(a) == std::signbit(b));
    else return a == b;
}
// The abstract matrix: always row-major, independent of the library.
template <typename T>
struct Mod {
    size_t R = 0, C = 0;
    std::vector<T> d;
    Mod() {}
    Mod(size_t r, size_t c, T v = T(0)) : R(r), C(c), d(r * c, v) {}
    T &operator()(size_t r, size_t c) { return d[r * C + c]; }
    const T &operator()(size_t r, size_t c) const { return d[r * C + c]; }
    u64 hash() const
    {
        u64 h = R * 1000003 + C;
        for (auto &x : d) h = vf::mix(h ^ hash_of(x));
        return h;
    }
    bool operator==(const Mod &o) const
    {
        if (R != o.R || C != o.C) return false;
        for (size_t i = 0; i < d.size(); ++i) if (!same_val<T>(d[i], o.d[i])) return false;
        return true;
    }
    size_t size() const { return R * C; }
    // Position of the k-th element in the linear order of the library.
    static size_t lin(size_t k, size_t R, size_t C)
    {
#ifdef ROW_MAJOR
        (void)R; (void)C;
        return k;
#else
        return (k % R) * C + (k / R);
#endif
    }
    const T &linear(size_t k) const { return d[lin(k, R, C)]; }
};

template <typename T> std::string show(const Mod<T> &m)
{
    std::ostringstream o;
    o.precision(17);
    o << tname<T>() << " " << m.R << "x" << m.C << " [";
    for (size_t r = 0; r < m.R && r < 12; ++r) {
        if (r) o << "; ";
        for (size_t c = 0; c < m.C && c < 12; ++c) o << (c ? " " : "") << m(r, c);
    }
    o << "]";
    return o.str();
}
template <typename T> std::string show(const std::vector<T> &v)
{
    std::ostringstream o;
    o.precision(17);
    o << tname<T>() << " " << v.size() << " [";
    for (size_t i = 0; i < v.size() && i < 40; ++i) o << (i ? " " : "") << v[i];
    o << "]";
    return o.str();
}

template <typename T>
Mod<std::remove_const_t<T>> mod_of(const malg::MatrixBase<T> &A)
{
    Mod<std::remove_const_t<T>> m(A.rows(), A.cols());
    for (size_t r = 0; r < m.R; ++r) for (size_t c = 0; c < m.C; ++c) m(r, c) = A(r, c);
    return m;
}
template <typename T>
std::vector<T> vec_of(const malg::Vector<T> &v)
{
    std::vector<T> o(v.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = v[i];
    return o;
}
template <typename T>
malg::Matrix<T> mat(const Mod<T> &m)
{
    malg::Matrix<T> A(m.R, m.C, T(0));
    for (size_t r = 0; r < m.R; ++r) for (size_t c = 0; c < m.C; ++c) A(r, c) = m(r, c);
    return A;
}
template <typename T>
malg::Vector<T> vec(const std::vector<T> &v)
{
    malg::Vector<T> o(v.size());
    for (size_t i = 0; i < v.size(); ++i) o[i] = v[i];
    return o;
}
template <typename T>
Mod<T> imod(Rng &r, size_t R, size_t C, long lo = -4, long hi = 4)
{
    Mod<T> m(R, C);
    for (auto &x : m.d) x = ival<T>(r, lo, hi);
    return m;
}
template <typename T>
Mod<T> rmod(Rng &r, size_t R, size_t C, double lo = -1, double hi = 1)
{
    Mod<T> m(R, C);
    for (auto &x : m.d) x = rval<T>(r, lo, hi);
    return m;
}
template <typename T>
std::vector<T> ivec(Rng &r, size_t n, long lo = -4, long hi = 4)
{
    std::vector<T> v(n);
    for (auto &x : v) x = ival<T>(r, lo, hi);
    return v;
}
template <typename T>
std::vector<T> rvec(Rng &r, size_t n, double lo = -1, double hi = 1)
{
    std::vector<T> v(n);
    for (auto &x : v) x = rval<T>(r, lo, hi);
    return v;
}
template <typename To, typename From>
Mod<To> cmod(const Mod<From> &m)
{
    Mod<To> o(m.R, m.C);
    for (size_t i = 0; i < m.d.size(); ++i) o.d[i] = conv<To>(m.d[i]);
    return o;
}
template <typename T> u64 vhash(const std::vector<T> &v)
{
    u64 h = v.size();
    for (auto &x : v) h = vf::mix(h ^ hash_of(x));
    return h;
}

// A dimension: mostly small, sometimes 1, sometimes large, rarely zero.
// Harnesses whose cost is linear in the data may ask for a large dimension now and then.
inline size_t large_dim = 0;
struct Large { explicit Large(size_t n) { large_dim = n; } };
// One case in `every` has a single dimension beyond 256 (or, sometimes beyond `huge`) and small others: the
// indices are wider than a byte and than 16 bits in every operation the harness exercises.
inline size_t long_every = 0, long_huge = 0, huge_one_in = 16;
struct Long { explicit Long(size_t every, size_t huge = 0, size_t one_in = 16) { long_every = every; long_huge = huge; huge_one_in = one_in; } };
inline size_t long_case(Rng &r)
{
    static u64 last = ~u64(0), which = 0;
    static size_t len = 0;
    if (!long_every) return 0;
    if (vf::st().cur != last) {
        last = vf::st().cur;
        u64 h = vf::mix(vf::st().seed * 0x9e3779b9 + last * 31 + 5);
        len = 0;
        if (h % long_every == 0) {
            h = vf::mix(h);
            len = long_huge && h % huge_one_in == 0 ? long_huge + (h >> 8) % 900 : 257 + (h >> 8) % 340;
            which = (h >> 40) % 4;
            vf::hit(len > 4096 ? "huge-dimension" : "long-dimension");
        }
    }
    if (!len) return 0;
    if (which-- == 0) return len;
    return 1 + r.below(3);
}
inline size_t dim(Rng &r, bool zero = false, size_t big = 40)
{
    if (size_t n = long_case(r)) return n;
    if (large_dim && r.chance(1, 300)) { vf::hit("large-dimension"); return static_cast<size_t>(r.range(41, r.chance(1, 3) ? static_cast<long>(large_dim) : 90)); }
    switch (r.range(0, 19)) {
    case 0: return zero ? 0 : 1;
    case 1: case 2: return 1;
    case 3: return static_cast<size_t>(big > 8 ? r.range(8, static_cast<long>(big)) : r.range(1, static_cast<long>(big)));
    default: return static_cast<size_t>(r.range(2, static_cast<long>(std::min<size_t>(7, big))));
    }
}

// Does `A` have exactly the shape and the elements of `m`, also in its linear order?
template <typename T, typename U>
bool equals(const malg::MatrixBase<T> &A, const Mod<U> &m)
{
    if (A.rows() != m.R || A.cols() != m.C || A.size() != m.R * m.C) return false;
    if (A.empty() != (m.R * m.C == 0)) return false;
    using V = std::remove_const_t<T>;
    for (size_t r = 0; r < m.R; ++r)
        for (size_t c = 0; c < m.C; ++c)
            if (!same_val<V>(A(r, c), conv<V>(m(r, c)))) return false;
    for (size_t k = 0; k < m.size(); ++k)
        if (!same_val<V>(A[k], conv<V>(m.linear(k)))) return false;
    return true;
}
template <typename T, typename U>
bool equals(const malg::Vector<T> &v, const std::vector<U> &m)
{
    if (v.size() != m.size() || v.empty() != m.empty()) return false;
    for (size_t i = 0; i < m.size(); ++i) if (!same_val<T>(v[i], conv<T>(m[i]))) return false;
    return true;
}
template <typename T> std::string show(const malg::MatrixBase<T> &A) { return show(mod_of(A)); }
template <typename T> std::string show(const malg::Vector<T> &v) { return show(vec_of(v)); }

template <typename T, typename U>
void check_eq(const malg::MatrixBase<T> &A, const Mod<U> &m, const char *key, const std::string &ctx = "")
{
    VF_CHECK(equals(A, m), key, "got " << show(A) << " want " << show(m) << " " << ctx);
}
template <typename T, typename U>
void check_eq(const malg::Vector<T> &A, const std::vector<U> &m, const char *key, const std::string &ctx = "")
{
    VF_CHECK(equals(A, m), key, "got " << show(A) << " want " << show(m) << " " << ctx);
}

// Magnitude helpers. The larger of the two errors, where not-a-number is the largest.
template <typename T> T worse(T a, T b) { return std::isnan(a) || b <= a ? a : b; }
template <typename T> double mag(const T &x) { return static_cast<double>(std::abs(x)); }
template <typename T> double maxabs(const Mod<T> &m)
{
    double v = 0;
    for (auto &x : m.d) { double a = mag(x); v = worse(v, a); } // NaN propagates
    return v;
}
template <typename A, typename B>
double maxdiff(const Mod<A> &a, const Mod<B> &b)
{
    if (a.R != b.R || a.C != b.C) return std::numeric_limits<double>::infinity();
    double v = 0;
    for (size_t i = 0; i < a.d.size(); ++i) {
        double e = static_cast<double>(std::abs(conv<std::complex<long double>>(a.d[i]) - conv<std::complex<long double>>(b.d[i])));
        if (std::isnan(e)) return e;
        if (e > v) v = e;
    }
    return v;
}
// Product of models in a wide type.
template <typename W, typename A, typename B>
Mod<W> mmul(const Mod<A> &a, const Mod<B> &b)
{
    Mod<W> o(a.R, b.C);
    for (size_t r = 0; r < a.R; ++r)
        for (size_t c = 0; c < b.C; ++c) {
            W s(0);
            for (size_t k = 0; k < a.C; ++k) s += conv<W>(a(r, k)) * conv<W>(b(k, c));
            o(r, c) = s;
        }
    return o;
}
template <typename T> Mod<T> mtrans(const Mod<T> &a)
{
    Mod<T> o(a.C, a.R);
    for (size_t r = 0; r < a.R; ++r) for (size_t c = 0; c < a.C; ++c) o(c, r) = a(r, c);
    return o;
}
template <typename T> Mod<T> mconj(const Mod<T> &a)
{
    Mod<T> o(a);
    if constexpr (is_cx<T>) for (auto &x : o.d) x = std::conj(x);
    return o;
}
template <typename T> Mod<T> meye(size_t n)
{
    Mod<T> o(n, n);
    for (size_t i = 0; i < n; ++i) o(i, i) = T(1);
    return o;
}

// ---------------------------------------------------------------------------
// Operand kinds: the same abstract matrix exposed by a matrix, a view of a
// larger matrix, or a cofactor view.
// ---------------------------------------------------------------------------
template <typename T>
struct Operand {
    malg::Matrix<T> store;
    Mod<T> before; // of the store
    Mod<T> model;  // of the exposed window
    int kind;
    size_t r0 = 0, c0 = 0, xr = 0, xc = 0;
    std::unique_ptr<malg::MatrixBase<T>> v;
    std::unique_ptr<malg::MatrixBase<const T>> cv;

    Operand(Rng &r, const Mod<T> &m, int max_kind = 3) : model(m)
    {
        kind = static_cast<int>(r.range(0, max_kind));
        if (kind > 0 && (m.R == 0 || m.C == 0)) kind = 0;
        if (kind == 1 || kind == 3) {
            size_t pr = r.below(3), pc = r.below(3);
            r0 = r.below(3), c0 = r.below(3);
            Mod<T> big = imod<T>(r, m.R + r0 + pr, m.C + c0 + pc, 5, 9);
            for (size_t i = 0; i < m.R; ++i) for (size_t j = 0; j < m.C; ++j) big(r0 + i, c0 + j) = m(i, j);
            store = mat(big);
            malg::Range rr{ r0, r0 + m.R }, cc{ c0, c0 + m.C };
            if (pr == 0 && r.chance(1, 2)) rr.stop = static_cast<size_t>(-1);
            v.reset(new malg::View<malg::Matrix<T>>(&store, rr, cc));
            cv.reset(new malg::View<const malg::Matrix<T>>(&store, rr, cc));
        } else if (kind == 2) {
            xr = r.below(m.R + 1), xc = r.below(m.C + 1);
            Mod<T> big = imod<T>(r, m.R + 1, m.C + 1, 5, 9);
            for (size_t i = 0; i < m.R; ++i) for (size_t j = 0; j < m.C; ++j) big(i + (i >= xr), j + (j >= xc)) = m(i, j);
            store = mat(big);
            v.reset(new malg::CofactorView<malg::Matrix<T>>(&store, xr, xc));
            cv.reset(new malg::CofactorView<const malg::Matrix<T>>(&store, xr, xc));
        } else {
            store = mat(m);
        }
        before = mod_of(store);
    }
    Operand(const Operand &) = delete;
    malg::MatrixBase<T> &get() { return v ? *v : static_cast<malg::MatrixBase<T> &>(store); }
    // Const access (views of a const matrix), when the operand is a view.
    bool has_const() const { return static_cast<bool>(cv); }
    const malg::MatrixBase<const T> &cget() const { return *cv; }
    bool unchanged() const { return mod_of(store) == before; }
    const char *kname() const { return kind == 0 ? "matrix" : kind == 2 ? "cofactor-view" : "view"; }
    // The model of the store after the window became `m`.
    void check_window(const Mod<T> &m, const char *key) const
    {
        bool ok = true;
        if (v) {
            ok = equals(*v, m);
            // Everything outside of the window must be as before.
            Mod<T> after = mod_of(store);
            if (kind == 2) {
                for (size_t i = 0; i < before.R; ++i)
                    for (size_t j = 0; j < before.C; ++j)
                        if ((i == xr || j == xc) && !same_val<T>(after(i, j), before(i, j))) ok = false;
            } else {
                for (size_t i = 0; i < before.R; ++i)
                    for (size_t j = 0; j < before.C; ++j)
                        if ((i < r0 || i >= r0 + model.R || j < c0 || j >= c0 + model.C) && !same_val<T>(after(i, j), before(i, j))) ok = false;
            }
        } else {
            ok = equals(store, m);
        }
        VF_CHECK(ok, key, kname() << " store " << show(store) << " want window " << show(m) << " before " << show(before));
    }
};

#define PURE(opnd) VF_CHECK((opnd).unchanged(), "operand-modified", show((opnd).store) << " was " << show((opnd).before))

// Calls f with the type list.
template <typename T> struct Ty { using type = T; };
template <typename F, typename... Ts>
void pick_type(Rng &r, F f, Ty<Ts>... ts)
{
    size_t k = r.below(sizeof...(Ts)), i = 0;
    ((i++ == k ? (vf::hit("type." + tname<Ts>()), f(ts), 0) : 0), ...);
}
#define TYPE_OF(x) typename decltype(x)::type
