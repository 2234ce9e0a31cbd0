// Reference numerical algorithms, in long double, independent of the library.
#pragma once
#include "gen.hpp"
using LD = long double;
using CL = std::complex<LD>;
using ML = Mod<CL>;

template <typename T> ML wide(const Mod<T> &m) { return cmod<CL>(m); }
inline ML madd(const ML &a, const ML &b, CL k = CL(1)) { ML o(a); for (size_t i = 0; i < o.d.size(); ++i) o.d[i] += k * b.d[i]; return o; }
inline ML mscale(const ML &a, CL k) { ML o(a); for (auto &x : o.d) x *= k; return o; }
inline LD mnorm(const ML &a) // infinity norm
{
    LD v = 0;
    for (size_t r = 0; r < a.R; ++r) { LD s = 0; for (size_t c = 0; c < a.C; ++c) s += std::abs(a(r, c)); v = std::max(v, s); }
    return v;
}
inline CL rdet(ML a)
{
    CL d(1);
    const size_t n = a.R;
    for (size_t c = 0; c < n; ++c) {
        size_t p = c;
        for (size_t r = c + 1; r < n; ++r) if (std::abs(a(r, c)) > std::abs(a(p, c))) p = r;
        if (a(p, c) == CL(0)) return CL(0);
        if (p != c) { for (size_t k = 0; k < n; ++k) std::swap(a(p, k), a(c, k)); d = -d; }
        d *= a(c, c);
        for (size_t r = c + 1; r < n; ++r) {
            CL f = a(r, c) / a(c, c);
            for (size_t k = c; k < n; ++k) a(r, k) -= f * a(c, k);
        }
    }
    return d;
}
// Solves a*x = b; returns false when a pivot vanishes.
inline bool rsolve(ML a, ML b, ML &x)
{
    const size_t n = a.R;
    for (size_t c = 0; c < n; ++c) {
        size_t p = c;
        for (size_t r = c + 1; r < n; ++r) if (std::abs(a(r, c)) > std::abs(a(p, c))) p = r;
        if (a(p, c) == CL(0)) return false;
        for (size_t k = 0; k < n; ++k) std::swap(a(p, k), a(c, k));
        for (size_t k = 0; k < b.C; ++k) std::swap(b(p, k), b(c, k));
        for (size_t r = 0; r < n; ++r) if (r != c) {
            CL f = a(r, c) / a(c, c);
            for (size_t k = c; k < n; ++k) a(r, k) -= f * a(c, k);
            for (size_t k = 0; k < b.C; ++k) b(r, k) -= f * b(c, k);
        }
    }
    for (size_t r = 0; r < n; ++r) for (size_t k = 0; k < b.C; ++k) b(r, k) /= a(r, r);
    x = b;
    return true;
}
inline bool rinv(const ML &a, ML &x) { return rsolve(a, meye<CL>(a.R), x); }
// Exponential: scaling, Taylor to full precision, squaring.
inline ML rexp(const ML &a)
{
    LD n = mnorm(a);
    int s = 0;
    while (n > 0.25L) { n /= 2; ++s; }
    ML x = mscale(a, CL(std::ldexp(1.0L, -s))), t = meye<CL>(a.R), e = t;
    for (int k = 1; k < 30; ++k) { t = mscale(mmul<CL>(t, x), CL(1.0L / k)); e = madd(e, t); }
    for (int k = 0; k < s; ++k) e = mmul<CL>(e, e);
    return e;
}
// Exact determinant of an integer matrix, by expansion (small) with 128 bits.
template <typename T> __int128 idet(const Mod<T> &m)
{
    const size_t n = m.R;
    // Fraction-free elimination (Bareiss).
    std::vector<std::vector<__int128>> a(n, std::vector<__int128>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a[i][j] = static_cast<__int128>(m(i, j));
    __int128 prev = 1;
    int sign = 1;
    for (size_t k = 0; k + 1 < n; ++k) {
        if (a[k][k] == 0) {
            size_t p = k + 1;
            while (p < n && a[p][k] == 0) ++p;
            if (p == n) return 0;
            std::swap(a[k], a[p]);
            sign = -sign;
        }
        for (size_t i = k + 1; i < n; ++i) for (size_t j = k + 1; j < n; ++j) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
        prev = a[k][k];
    }
    return sign * a[n - 1][n - 1];
}
// Product of the 1-norms of the rows: bounds the determinant and its rounding errors.
template <typename T> LD row_prod(const Mod<T> &m)
{
    LD p = 1;
    for (size_t r = 0; r < m.R; ++r) { LD s = 0; for (size_t c = 0; c < m.C; ++c) s += std::abs(conv<CL>(m(r, c))); p *= s; }
    return p;
}
// A permutation of rows.
template <typename T> Mod<T> perm_rows(Rng &r, const Mod<T> &m)
{
    Mod<T> o(m);
    for (size_t i = m.R; i > 1; --i) { size_t j = r.below(i); for (size_t c = 0; c < m.C; ++c) std::swap(o(i - 1, c), o(j, c)); }
    return o;
}
// Moves every entry of a complex matrix to an axis: rows of reals, each turned by a
// power of i, so determinants, pivots and quotients are exactly real or imaginary.
template <typename T> void on_axes(Rng &r, Mod<T> &m)
{
    if constexpr (is_cx<T>) {
        using R = malg::is_complex_t<T>;
        const int rows = static_cast<int>(r.range(0, 2)); // each row its own turn, one turn for all, a single turned row
        const size_t one = m.R ? r.below(m.R) : 0;
        const int all = static_cast<int>(r.range(0, 3));
        for (size_t i = 0; i < m.R; ++i) {
            const int turn = rows == 0 ? static_cast<int>(r.range(0, 3)) : rows == 1 ? all : i == one ? all : 0;
            for (size_t j = 0; j < m.C; ++j) {
                R a = static_cast<R>(mag(m(i, j)));
                if (r.chance(1, 2)) a = -a;
                m(i, j) = turn == 0 ? T(a, 0) : turn == 1 ? T(0, a) : turn == 2 ? T(-a, 0) : T(0, -a);
            }
        }
        vf::hit("axes");
    } else { (void)r; (void)m; }
}
// Strictly diagonally dominant matrix with diagonal entries of magnitude in [1,2].
template <typename T> Mod<T> dominant(Rng &r, size_t n, double dom = 0.5)
{
    using R = malg::is_complex_t<T>;
    Mod<T> m = rmod<T>(r, n, n, -1, 1);
    for (size_t i = 0; i < n; ++i) {
        double s = 0;
        for (size_t j = 0; j < n; ++j) if (j != i) { if (r.chance(1, 4)) m(i, j) = T(0); s += mag(m(i, j)); }
        double f = s > 0 ? dom * r.unit() / s : 0;
        for (size_t j = 0; j < n; ++j) if (j != i) m(i, j) = m(i, j) * static_cast<R>(f);
        R d = static_cast<R>(r.real(1, 2) * (r.chance(1, 2) ? 1 : -1));
        if constexpr (is_cx<T>) { R ph = static_cast<R>(r.real(0, 6.28)); m(i, i) = T(d * std::cos(ph), d * std::sin(ph)); }
        else m(i, i) = d;
    }
    if (is_cx<T> && r.chance(1, 4)) on_axes(r, m);
    return m;
}
