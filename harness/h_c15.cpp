// C15: determinant.
#include "ref.hpp"
using namespace malg;

template <typename T, typename X> auto det_of(const X &A) { vf::op("determinant"); return linalg::determinant(A); }
template <typename T> void check_det(Rng &r, const Mod<T> &m, const char *key, bool may_swap = true)
{
    using R = malg::is_complex_t<T>;
    constexpr double eps = static_cast<double>(std::numeric_limits<R>::epsilon());
    const size_t n = m.R;
    Operand<T> A(r, m);
    vf::note(m.hash() + static_cast<u64>(A.kind));
    vf::hit("size." + std::to_string(n));
    std::string ctx = std::string(A.kname()) + " " + show(m);
    CL want = rdet(wide(m));
    const LD tol = 64.0L * static_cast<LD>(n * n) * eps * row_prod(m) + std::numeric_limits<R>::min();
    if (std::abs(want) > 100 * tol) vf::hit("significant"); else vf::hit("singular");
    T got = det_of<T>(A.get());
    VF_CHECK(std::abs(conv<CL>(got) - want) <= tol, key, "got " << got << " want " << conv<cd>(want) << " tol " << static_cast<double>(tol) << " " << ctx);
    if (A.has_const()) {
        T g2 = det_of<T>(A.cget());
        VF_CHECK(g2 == got, "const-view", "got " << g2 << " and " << got << " " << ctx);
    }
    PURE(A);
    if (may_swap && n > 1) {
        size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n;
        Mod<T> s(m);
        bool cols = r.chance(1, 2);
        for (size_t k = 0; k < n; ++k) { if (cols) std::swap(s(k, i), s(k, j)); else std::swap(s(i, k), s(j, k)); }
        T g = det_of<T>(mat(s));
        VF_CHECK(std::abs(conv<CL>(g) + want) <= tol + 64.0L * static_cast<LD>(n * n) * eps * row_prod(s), "swap", "got " << g << " want minus " << conv<cd>(want) << " for " << show(s));
        T t = det_of<T>(linalg::transpose(A.get()));
        VF_CHECK(std::abs(conv<CL>(t) - want) <= tol + 64.0L * static_cast<LD>(n * n) * eps * row_prod(mtrans(m)), "transpose", "got " << t << " want " << conv<cd>(want) << " " << ctx);
    }
    if (vf::st().samples.size() < 3) vf::sample(ctx);
}
static size_t size(Rng &r) { return r.chance(1, 2) ? static_cast<size_t>(r.range(5, 9)) : r.chance(1, 10) ? static_cast<size_t>(r.range(10, 16)) : static_cast<size_t>(r.range(1, 5)); }
template <typename T> void generic(Rng &r)
{
    size_t n = size(r);
    Mod<T> m = r.chance(1, 3) ? imod<T>(r, n, n, -3, 3) : rmod<T>(r, n, n, -2, 2);
    using R = malg::is_complex_t<T>;
    if (r.chance(1, 3)) for (size_t i = 0; i < n; ++i) { R s = static_cast<R>(std::pow(10.0, r.real(-2, 2))); for (size_t c = 0; c < n; ++c) m(i, c) = m(i, c) * s; }
    if (r.chance(1, 5)) for (auto &x : m.d) if (r.chance(1, 2)) x = T(0);
    if (is_cx<T> && r.chance(1, 4)) on_axes(r, m);
    check_det<T>(r, m, "value");
}
// Leading elements that are zero or tiny, permutations, triangular shapes.
template <typename T> void pivots(Rng &r)
{
    using R = malg::is_complex_t<T>;
    size_t n = static_cast<size_t>(r.range(2, r.chance(1, 30) ? 24 : 9));
    Mod<T> m = r.chance(1, 2) ? dominant<T>(r, n) : rmod<T>(r, n, n, -1, 1);
    m = perm_rows(r, m);
    const double tiny = std::is_same_v<R, float> ? 1e-9 : std::pow(10.0, r.real(-30, -8));
    switch (r.range(0, 4)) {
    case 0: m(0, 0) = T(0); vf::hit("zero-pivot"); break;
    case 1: m(0, 0) = T(static_cast<R>(tiny)); vf::hit("tiny-pivot"); break;
    case 2: for (size_t i = 0; i < n; ++i) m(i, i) = T(static_cast<R>(r.chance(1, 2) ? tiny : 0)); vf::hit("tiny-diagonal"); break;
    case 3: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = T(0); m = perm_rows(r, m); vf::hit("permuted-triangular"); break;
    default: { // a leading block that becomes singular during the elimination
        size_t k = 1 + r.below(n - 1);
        for (size_t c = 0; c <= k && c < n; ++c) m(k, c) = m(k - 1, c);
        m(k, k) = m(k - 1, k) + T(static_cast<R>(r.chance(1, 2) ? tiny : 0));
        vf::hit("cancelling-pivot");
    }
    }
    check_det<T>(r, m, "pivoting");
}
// Powers of two on the whole matrix, on its rows or on its columns multiply the determinant by their product.
template <typename T> void scaled(Rng &r)
{
    using R = malg::is_complex_t<T>;
    constexpr int top = std::is_same_v<R, float> ? 100 : 900;
    size_t n = static_cast<size_t>(r.range(1, 9));
    Mod<T> m = r.chance(1, 2) ? perm_rows(r, dominant<T>(r, n)) : imod<T>(r, n, n, -3, 3), s;
    std::vector<int> e(n, 0);
    const int lim = top / static_cast<int>(n);
    int how = static_cast<int>(r.range(0, 3));
    if (how == 3 && (n < 5 || !std::is_same_v<T, double>)) how = 2;
    if (how == 1 && n > 4) how = 2; // partial pivoting is not stable for rows of different magnitudes
    if (how == 0) { int k = static_cast<int>(r.range(-lim, lim)); for (auto &x : e) x = k; vf::hit("scaled.all"); }
    else if (how == 3) { // very small and very large columns, in turn
        int sum = 0;
        bool down = r.chance(1, 2);
        if (down && r.chance(1, 2)) m = imod<T>(r, n, n, -3, 3);
        bool ints = true;
        if constexpr (std::is_same_v<T, double>) for (auto &x : m.d) ints = ints && x == std::floor(x);
        for (size_t j = 0; j < n; ++j) {
            const int low = ints && j == 0 ? -1000 : -900;
            e[j] = static_cast<int>(down ? r.range(low, -500) : r.range(500, 950));
            e[j] = std::max(std::min(sum + e[j], 900), low) - sum;
            sum += e[j];
            down = !down;
        }
        vf::hit("scaled.extreme-columns");
    } else for (auto &x : e) x = static_cast<int>(r.range(-lim, lim));
    const LD tol = 64.0L * static_cast<LD>(n * n) * std::numeric_limits<R>::epsilon() * row_prod(m) + 1e-300L;
    s = m;
    int sum = 0;
    for (size_t i = 0; i < n; ++i) { sum += e[i]; for (size_t j = 0; j < n; ++j) { T &x = how == 1 ? s(i, j) : s(j, i); if constexpr (is_cx<T>) x = T(std::ldexp(x.real(), e[i]), std::ldexp(x.imag(), e[i])); else x = std::ldexp(x, e[i]); } }
    if (how == 1) vf::hit("scaled.rows");
    if (how == 2) vf::hit("scaled.columns");
    vf::note(s.hash() * 5);
    Operand<T> A(r, s);
    CL want = rdet(wide(m)), got = conv<CL>(det_of<T>(A.get())) * std::ldexp(1.0L, -sum);
    LD t = tol;
    if (sum < -top + 1) t = std::max(t, 1e-9L * (1 + std::abs(want))); // denormal result
    VF_CHECK(std::abs(got - want) <= t, "scaled", "got " << conv<cd>(got) << " want " << conv<cd>(want) << " on " << show(m) << " scaled by 2^" << show(e) << (how == 1 ? " rows" : " columns"));
    PURE(A);
}
template <typename T> void singular(Rng &r)
{
    using R = malg::is_complex_t<T>;
    size_t n = static_cast<size_t>(r.range(2, 9)), i = r.below(n), j = (i + 1 + r.below(n - 1)) % n;
    Mod<T> m = rmod<T>(r, n, n, -2, 2);
    switch (r.range(0, 5)) {
    case 0: for (size_t c = 0; c < n; ++c) m(i, c) = T(0); break;
    case 1: for (size_t c = 0; c < n; ++c) m(c, i) = T(0); break;
    case 2: for (size_t c = 0; c < n; ++c) m(i, c) = m(j, c); break;
    case 3: for (size_t c = 0; c < n; ++c) m(c, i) = m(c, j); break;
    case 4: { R s = static_cast<R>(r.range(2, 5)); for (size_t c = 0; c < n; ++c) m(i, c) = m(j, c) * s; break; }
    default: for (size_t c = 0; c < n; ++c) { T s(0); for (size_t k = 0; k < n; ++k) if (k != i) s += m(k, c); m(i, c) = s; } break;
    }
    check_det<T>(r, m, "singular");
}
// Identities over the product.
template <typename T> void product(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 7));
    Mod<T> a = dominant<T>(r, n), b = perm_rows(r, dominant<T>(r, n));
    vf::note(a.hash() * 3 + b.hash());
    Matrix<T> A = mat(a), B = mat(b);
    T da = det_of<T>(A), db = det_of<T>(B), dab = det_of<T>(Matrix<T>(A * B));
    VF_CHECK(mag(dab - da * db) <= 1e-9 * mag(da * db), "product", "det(AB)=" << dab << " det(A)det(B)=" << da * db << " " << show(a) << show(b));
}
// Integers: exact.
template <typename T> void integers(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    Mod<T> m = imod<T>(r, n, n, -20, 20);
    if (r.chance(1, 4)) for (auto &x : m.d) if (r.chance(1, 2)) x = T(0);
    if (n > 1 && r.chance(1, 5)) { size_t i = r.below(n), j = (i + 1) % n; for (size_t c = 0; c < n; ++c) m(i, c) = m(j, c) * T(2); vf::hit("int-singular"); }
    Operand<T> A(r, m);
    vf::note(m.hash() * 7);
    __int128 w = idet(m);
    T g = det_of<T>(A.get());
    VF_CHECK(static_cast<__int128>(g) == w, "integer", "got " << g << " want " << static_cast<long>(w) << " " << A.kname() << " " << show(m));
    PURE(A);
    if (n > 1) {
        size_t i = r.below(n), j = (i + 1 + r.below(n - 1)) % n;
        Mod<T> s(m);
        for (size_t k = 0; k < n; ++k) std::swap(s(i, k), s(j, k));
        VF_CHECK(static_cast<__int128>(det_of<T>(mat(s))) == -w, "integer-swap", show(s));
    }
}
// Integers whose products need all the bits: the determinant is exact as long as it fits.
template <typename T> void integers_wide(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    Mod<T> m(n, n);
    // The bits of the rows: 57 altogether.
    int left = 57;
    const bool two = r.chance(2, 3); // two rows have nearly all
    for (size_t i = 0; i < n; ++i) {
        const int rest = static_cast<int>(n - 1 - i);
        const int b = rest == 0 ? left : two ? (rest >= 2 ? 1 : left / 2) : std::min(left - 3 * rest, static_cast<int>(r.range(1, 40)));
        left -= b;
        for (size_t j = 0; j < n; ++j) { m(i, j) = static_cast<T>(r.next() & ((u64(1) << b) - 1)); if (r.chance(1, 2)) m(i, j) = -m(i, j); if (r.chance(1, 6)) m(i, j) = static_cast<T>(r.below(2)); }
    }
    m = perm_rows(r, m);
    Operand<T> A(r, m);
    vf::note(m.hash() * 23);
    // Expansion over the permutations.
    T w(0);
    std::vector<size_t> p(n);
    for (size_t i = 0; i < n; ++i) p[i] = i;
    do {
        T t(1);
        bool odd = false;
        for (size_t i = 0; i < n; ++i) { t = static_cast<T>(t * m(i, p[i])); for (size_t j = 0; j < i; ++j) odd = odd != (p[j] > p[i]); }
        w = odd ? static_cast<T>(w - t) : static_cast<T>(w + t);
    } while (std::next_permutation(p.begin(), p.end()));
    T g = det_of<T>(A.get());
    VF_CHECK(g == w, "wide-integer", "got " << g << " want " << w << " " << A.kname() << " " << show(m));
    PURE(A);
}
// Integer-valued floating point, closed forms: exact too.
template <typename T> void exact_real(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    Mod<T> m = imod<T>(r, n, n, -9, 9);
    Operand<T> A(r, m);
    vf::note(m.hash() * 17);
    T g = det_of<T>(A.get());
    __int128 w = idet(m);
    VF_CHECK(static_cast<LD>(g) == static_cast<LD>(w), "exact-real", "got " << g << " want " << static_cast<long>(w) << " " << show(m));
    PURE(A);
}
// Gaussian integers: the determinant is one too.
template <typename T> void exact_complex(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    Mod<T> m = imod<T>(r, n, n, -6, 6);
    if (r.chance(1, 3)) on_axes(r, m);
    for (auto &x : m.d) x = T(std::round(x.real()), std::round(x.imag()));
    if (n > 1 && r.chance(1, 4)) { size_t i = r.below(n), j = (i + 1) % n; for (size_t c = 0; c < n; ++c) m(i, c) = m(j, c) * T(0, 1); vf::hit("complex-singular"); }
    Operand<T> A(r, m);
    vf::note(m.hash() * 29);
    T g = det_of<T>(A.get());
    CL w = rdet(wide(m));
    T want(static_cast<malg::is_complex_t<T>>(std::round(w.real())), static_cast<malg::is_complex_t<T>>(std::round(w.imag())));
    VF_CHECK(g == want, "exact-complex", "got " << g << " want " << want << " " << A.kname() << " " << show(m));
    PURE(A);
}
// Larger integer matrices whose elimination is exact.
template <typename T> void exact_elimination(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(5, 9));
    Mod<T> L(n, n), U(n, n);
    auto nz = [&]() { return static_cast<T>(r.range(1, 3) * (r.chance(1, 2) ? 1 : -1)); };
    for (size_t i = 0; i < n; ++i) { L(i, i) = 1; U(i, i) = nz(); for (size_t j = 0; j < i; ++j) { L(i, j) = static_cast<T>(r.range(-2, 2)); U(j, i) = static_cast<T>(r.range(-2, 2)); } }
    Mod<T> m = U;
    switch (r.range(0, 3)) {
    case 0: m = mmul<T>(L, U); vf::hit("int-LU"); break;
    case 1: m = perm_rows(r, U); vf::hit("int-permuted"); break;
    case 2: { size_t k = r.below(n); m = mmul<T>(L, U); for (size_t i = 0; i < n; ++i) m(i, k) = 0; vf::hit("int-zero-column"); break; }
    default: { size_t k = r.below(n); m(k, k) = 0; vf::hit("int-zero-pivot"); break; }
    }
    // A null column may make the elimination inexact before it is met: only its determinant is known.
    Operand<T> A(r, m);
    vf::note(m.hash() * 19);
    __int128 w = idet(m);
    bool exact = true;
    { // Replays the elimination to be sure that every division is exact.
        Mod<T> a(m);
        for (size_t c = 0; c < n && exact; ++c) {
            size_t p = c;
            while (p < n && a(p, c) == 0) ++p;
            if (p == n) break;
            if (p != c) for (size_t k = 0; k < n; ++k) std::swap(a(p, k), a(c, k));
            for (size_t i = c + 1; i < n; ++i) {
                if (a(i, c) % a(c, c) != 0) { exact = false; break; }
                T f = a(i, c) / a(c, c);
                for (size_t k = c; k < n; ++k) a(i, k) -= f * a(c, k);
            }
        }
    }
    if (!exact) { vf::hit("int-skipped"); return; }
    T g = det_of<T>(A.get());
    VF_CHECK(static_cast<__int128>(g) == w, "exact-elimination", "got " << g << " want " << static_cast<long>(w) << " " << A.kname() << " " << show(m));
    PURE(A);
}
// Fixed integer matrices that need inexact divisions.
SCENARIO(integer_probe, 1)
{
    (void)r;
    Matrix<int> A(5, 5, 0);
    for (size_t i = 0; i < 5; ++i) { A(i, i) = 2; if (i) A(i, i - 1) = A(i - 1, i) = 1; }
    int g = linalg::determinant(A);
    vf::note(static_cast<u64>(g));
    VF_CHECK(g == 6, "tridiagonal-1-2-1-of-order-5-gives-" + std::to_string(g), "the determinant is 6");
}
// Works inside other matrices: determinant of each minor through a cofactor view.
template <typename T> void minors(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(2, 7));
    Mod<T> m = rmod<T>(r, n, n, -2, 2);
    Matrix<T> A = mat(m);
    vf::note(m.hash() * 23);
    using R = malg::is_complex_t<T>;
    size_t k = r.below(n);
    T sum(0);
    for (size_t j = 0; j < n; ++j) {
        CofactorView<Matrix<T>> V(&A, k, j);
        T d = det_of<T>(V);
        Mod<T> s(n - 1, n - 1);
        for (size_t a = 0; a + 1 < n; ++a) for (size_t b = 0; b + 1 < n; ++b) s(a, b) = m(a + (a >= k), b + (b >= j));
        VF_CHECK(std::abs(conv<CL>(d) - rdet(wide(s))) <= 64.0L * static_cast<LD>(n * n) * std::numeric_limits<R>::epsilon() * row_prod(s), "minor", "row " << k << " column " << j << " of " << show(m) << " gives " << d);
        sum += ((k + j) % 2 ? -d : d) * m(k, j);
    }
    VF_CHECK(std::abs(conv<CL>(sum) - rdet(wide(m))) <= 512.0L * static_cast<LD>(n * n) * std::numeric_limits<R>::epsilon() * row_prod(m), "expansion", show(m));
    VF_CHECK(mod_of(A) == m, "operand-modified", show(m));
}
#define REALS Ty<double>(), Ty<double>(), Ty<cd>(), Ty<float>(), Ty<cf>()
SCENARIO(general, 5) { pick_type(r, [&](auto t) { generic<TYPE_OF(t)>(r); }, REALS); }
SCENARIO(pivoting, 6) { pick_type(r, [&](auto t) { pivots<TYPE_OF(t)>(r); }, REALS); }
SCENARIO(singular_matrices, 3) { pick_type(r, [&](auto t) { singular<TYPE_OF(t)>(r); }, REALS); }
SCENARIO(scaled_matrices, 4) { pick_type(r, [&](auto t) { scaled<TYPE_OF(t)>(r); }, REALS); }
SCENARIO(products, 2) { if (r.chance(1, 2)) product<double>(r); else product<cd>(r); }
SCENARIO(integer_small, 4) { pick_type(r, [&](auto t) { integers<TYPE_OF(t)>(r); }, Ty<int>(), Ty<long>()); }
SCENARIO(integer_wide, 2) { integers_wide<long>(r); }
SCENARIO(integer_elimination, 3) { pick_type(r, [&](auto t) { exact_elimination<TYPE_OF(t)>(r); }, Ty<int>(), Ty<long>()); }
SCENARIO(closed_forms, 2) { if (r.chance(1, 2)) exact_real<double>(r); else exact_real<float>(r); }
SCENARIO(closed_forms_complex, 2) { if (r.chance(1, 2)) exact_complex<cd>(r); else exact_complex<cf>(r); }
SCENARIO(minor_views, 3) { pick_type(r, [&](auto t) { minors<TYPE_OF(t)>(r); }, Ty<double>(), Ty<cd>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
