// C30: eigen decompositions.
#include "ref.hpp"
#include "malg/eigen.hpp"
using namespace malg;

struct Quiet { // the library prints its warnings on the standard output
    std::ostringstream o;
    std::streambuf *b;
    Quiet() : b(std::cout.rdbuf(o.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(b); }
    bool warned() const { return o.str().find("WARNING") != std::string::npos; }
};
template <typename T> constexpr LD eps_of() { return sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L; }
template <typename T> ML back(const Matrix<std::complex<T>> &m)
{
    ML o(m.rows(), m.cols());
    for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.cols(); ++j) o(i, j) = CL(m(i, j).real(), m(i, j).imag());
    return o;
}
template <typename T> Matrix<std::complex<T>> fore(const ML &m)
{
    Matrix<std::complex<T>> o(m.R, m.C);
    for (size_t i = 0; i < m.R; ++i) for (size_t j = 0; j < m.C; ++j) o(i, j) = std::complex<T>(static_cast<T>(m(i, j).real()), static_cast<T>(m(i, j).imag()));
    return o;
}
static ML herm(const ML &m) { ML o(m.C, m.R); for (size_t i = 0; i < m.R; ++i) for (size_t j = 0; j < m.C; ++j) o(j, i) = std::conj(m(i, j)); return o; }
static LD big(const ML &m) { LD v = 0; for (auto &x : m.d) { LD a = std::abs(x); v = worse(v, a); } return v; }
static LD gap(const ML &a, const ML &b) { return big(madd(a, b, CL(-1))); }
static CL rnd(Rng &r, bool real) { return CL(r.real(-1, 1), real ? 0 : r.real(-1, 1)); }
static ML random_m(Rng &r, size_t n, bool real) { ML m(n, n); for (auto &x : m.d) x = rnd(r, real); return m; }
// A unitary matrix by Gram-Schmidt (twice).
static ML unitary(Rng &r, size_t n, bool real)
{
    for (;;) {
        ML m = random_m(r, n, real);
        bool ok = true;
        for (size_t j = 0; j < n && ok; ++j) {
            for (int twice = 0; twice < 2; ++twice)
                for (size_t k = 0; k < j; ++k) {
                    CL d(0);
                    for (size_t i = 0; i < n; ++i) d += std::conj(m(i, k)) * m(i, j);
                    for (size_t i = 0; i < n; ++i) m(i, j) -= d * m(i, k);
                }
            LD l = 0;
            for (size_t i = 0; i < n; ++i) l += std::norm(m(i, j));
            l  = std::sqrt(l);
            ok = l > 0.05L;
            for (size_t i = 0; i < n && ok; ++i) m(i, j) /= l;
        }
        if (ok) return m;
    }
}
static LD frob(const ML &m) { LD s = 0; for (auto &x : m.d) s += std::norm(x); return std::sqrt(s); }
// Structured square matrices of all kinds.
static ML any_square(Rng &r, size_t n, const char *&kind)
{
    bool real = r.chance(1, 2);
    ML m = random_m(r, n, real);
    auto rank = [&](size_t k) { ML o(n, n); for (auto &x : o.d) x = 0; for (size_t t = 0; t < k; ++t) { std::vector<CL> u(n), v(n); for (auto &x : u) x = rnd(r, real); for (auto &x : v) x = rnd(r, real); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) o(i, j) += u[i] * v[j]; } return o; };
    switch (r.range(0, 13)) {
    case 0: kind = "zero"; for (auto &x : m.d) x = 0; break;
    case 1: kind = "identity"; m = meye<CL>(n); break;
    case 2: kind = "upper"; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) = 0; break;
    case 3: kind = "lower"; for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) m(i, j) = 0; break;
    case 4: kind = "hermitian"; m = mscale(madd(m, herm(m)), CL(0.5L)); break;
    case 5: kind = "rank-1"; m = rank(1); break;
    case 6: kind = "rank-2"; m = rank(2); break;
    case 7: kind = "permutation"; { std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]); for (auto &x : m.d) x = 0; for (size_t i = 0; i < n; ++i) m(i, p[i]) = 1; } break;
    case 8: kind = "nearly-upper"; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) m(i, j) *= std::pow(10.0L, static_cast<LD>(-r.range(8, 18))); break;
    case 9: kind = "integer"; for (auto &x : m.d) x = CL(r.range(-3, 3), real ? 0 : r.range(-3, 3)); break;
    case 10: kind = "sparse"; for (auto &x : m.d) if (r.chance(2, 3)) x = 0; break;
    case 11: kind = "ones"; for (auto &x : m.d) x = 1; break;
    case 12: kind = "null-column"; { size_t c = r.below(n); for (size_t i = 0; i < n; ++i) m(i, c) = 0; } break;
    default: kind = "dense";
    }
    return m;
}
template <typename T>
void hess(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 6) ? 16 : 7));
    const char *kind = "";
    ML m = any_square(r, n, kind);
    if (r.chance(1, 4)) m = mscale(m, CL(std::ldexp(1.0L, static_cast<int>(sizeof(T) > 4 && r.chance(1, 3) ? r.range(-400, 400) : r.range(-50, 50)))));
    const auto A = fore<T>(m);
    m = back<T>(A);
    vf::note(vhash(mod_of(A).d) + n);
    vf::hit(std::string("kind-") + kind);
    vf::op("hessenberg");
    auto [P, H] = eigen::hessenberg(A);
    VF_CHECK(P.rows() == n && P.cols() == n && H.rows() == n && H.cols() == n, "hess-shape", P.rows() << "x" << P.cols() << " " << H.rows() << "x" << H.cols());
    VF_CHECK(gap(back<T>(A), m) == 0, "hess-input", kind);
    if (P.rows() != n || H.rows() != n || P.cols() != n || H.cols() != n) return;
    ML p = back<T>(P), h = back<T>(H);
    const LD nrm = frob(m), tol = 60 * eps_of<T>() * static_cast<LD>(n * n), at = tol * nrm;
    LD u = gap(mmul<CL>(herm(p), p), meye<CL>(n));
    VF_CHECK(u <= tol, "hess-unitary", kind << " n=" << n << " error " << u << " for " << show(mod_of(A)));
    LD s = gap(mmul<CL>(mmul<CL>(p, h), herm(p)), m);
    VF_CHECK(s <= at, "hess-similar", kind << " n=" << n << " error " << s << " norm " << nrm << " for " << show(mod_of(A)));
    LD b = 0;
    for (size_t i = 2; i < n; ++i) for (size_t j = 0; j + 1 < i; ++j) b = worse(b, std::abs(h(i, j)));
    VF_CHECK(b <= at, "hess-structure", kind << " n=" << n << " below the subdiagonal " << b << " for " << show(mod_of(A)));
    vf::hit("hessenberg");
    if (vf::st().samples.size() < 2) { std::ostringstream o; o << kind << ' ' << n << " unitarity error " << static_cast<double>(u); vf::sample(o.str()); }
}
template <typename T>
void givens(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 6) ? 14 : 6));
    const char *kind = "";
    ML m = any_square(r, n, kind);
    for (size_t i = 2; i < n; ++i) for (size_t j = 0; j + 1 < i; ++j) m(i, j) = 0;
    if (r.chance(1, 3)) m = mscale(m, CL(std::ldexp(1.0L, static_cast<int>(r.range(-6, r.chance(1, 2) ? 50 : 8)))));
    if (n > 1 && r.chance(1, 3)) m(r.below(n), 0) = 0;
    if (n > 1 && r.chance(1, 4)) { size_t k = 1 + r.below(n - 1); m(k, k - 1) = 0; }
    if (r.chance(1, 4)) { size_t k = r.below(n); m(k, k) = 0; }
    const auto A = fore<T>(m);
    m = back<T>(A);
    vf::note(vhash(mod_of(A).d) * 3 + n);
    vf::op("qr_factorise_givens");
    auto [Q, R] = eigen::qr_factorise_givens(A);
    VF_CHECK(gap(back<T>(A), m) == 0, "givens-input", kind);
    VF_CHECK(Q.rows() == n && Q.cols() == n && R.rows() == n && R.cols() == n, "givens-shape", kind);
    if (Q.rows() != n || R.rows() != n || Q.cols() != n || R.cols() != n) return;
    ML q = back<T>(Q), t = back<T>(R);
    const LD nrm = frob(m), tol = 60 * eps_of<T>() * static_cast<LD>(n), at = tol * nrm + 2 * eps_of<T>();
    LD u = gap(mmul<CL>(herm(q), q), meye<CL>(n));
    VF_CHECK(u <= tol, "givens-unitary", kind << " error " << u << " for " << show(mod_of(A)));
    LD s = gap(mmul<CL>(q, t), m);
    VF_CHECK(s <= at, "givens-product", kind << " error " << s << " for " << show(mod_of(A)));
    LD b = 0;
    for (size_t i = 1; i < n; ++i) for (size_t j = 0; j < i; ++j) b = worse(b, std::abs(t(i, j)));
    VF_CHECK(b <= at, "givens-upper", kind << " below the diagonal " << b << " for " << show(mod_of(A)));
    vf::hit("givens");
}
template <typename T>
void shift(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 6));
    const char *kind = "";
    ML m = any_square(r, n, kind);
    if (r.chance(1, 4)) m = mscale(m, CL(std::ldexp(1.0L, static_cast<int>(r.range(0, 40)))));
    const auto A = fore<T>(m);
    m = back<T>(A);
    vf::note(vhash(mod_of(A).d) * 5 + n);
    std::complex<T> s_ = eigen::wilkinson_shift(A);
    CL s(s_.real(), s_.imag());
    if (n == 1) { VF_CHECK(s == CL(0), "shift-single", s); return; }
    CL a = m(n - 2, n - 2), b = m(n - 2, n - 1), c = m(n - 1, n - 2), d = m(n - 1, n - 1);
    CL tr = a + d, det = a * d - b * c, disc = std::sqrt((a - d) * (a - d) + CL(4) * b * c);
    CL s1 = (tr + disc) / CL(2), s2 = (tr - disc) / CL(2);
    LD d1 = std::abs(s1 - d), d2 = std::abs(s2 - d), tol = 100 * std::sqrt(eps_of<T>()) * (1 + big(m));
    // An eigenvalue of the trailing block (residual of its characteristic polynomial), the closest to the last element.
    LD res = std::abs(s * s - tr * s + det);
    VF_CHECK(res <= 100 * eps_of<T>() * (1 + big(m)) * (1 + big(m)), "shift-eigenvalue", kind << " residual " << res);
    if (std::fabs(d1 - d2) > tol) VF_CHECK(std::abs(s - (d1 < d2 ? s1 : s2)) <= tol, "shift-closest", kind << " got " << s << " candidates " << s1 << s2 << " last " << d);
}
// A spectrum for which the shifted QR iteration separates every pair at a geometric rate,
// whichever eigenvalue the shift settles on.
static std::vector<CL> spectrum(Rng &r, size_t n, bool real)
{
    for (;;) {
        std::vector<CL> l(n);
        for (auto &x : l) { do x = rnd(r, real); while (std::abs(x) < 0.1L || std::abs(x) > 1); }
        bool ok = true;
        for (size_t i = 0; i < n && ok; ++i) for (size_t k = i + 1; k < n && ok; ++k) {
            ok = std::abs(l[i] - l[k]) > 0.15L;
            for (size_t j = 0; j < n && ok; ++j) if (j != i && j != k) {
                LD q = std::abs(l[i] - l[j]) / std::abs(l[k] - l[j]);
                ok = q < 0.8L || q > 1.25L;
            }
        }
        if (ok) return l;
    }
}
template <typename T>
void schur_checks(const ML &m, const Matrix<std::complex<T>> &U, const Matrix<std::complex<T>> &S, LD tol, const char *kind)
{
    const size_t n = m.R;
    VF_CHECK(U.rows() == n && U.cols() == n && S.rows() == n && S.cols() == n, "schur-shape", kind);
    if (U.rows() != n || S.rows() != n || U.cols() != n || S.cols() != n) return;
    ML u = back<T>(U), t = back<T>(S);
    LD e = gap(mmul<CL>(herm(u), u), meye<CL>(n));
    VF_CHECK(e <= tol, "schur-unitary", kind << " error " << e << " for " << show(cmod<cd>(m)));
    LD s = gap(mmul<CL>(mmul<CL>(u, t), herm(u)), m);
    VF_CHECK(s <= tol * (frob(m) + 1e-20L), "schur-similar", kind << " error " << s << " for " << show(cmod<cd>(m)));
}
template <typename T>
void schur(Rng &r)
{
    const LD e  = eps_of<T>();
    size_t n    = static_cast<size_t>(r.range(1, 4));
    bool real   = r.chance(1, 3), hermitian = r.chance(1, 4);
    auto l      = spectrum(r, n, real || hermitian);
    ML t(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t(i, j) = i == j ? l[i] : i < j && !hermitian ? rnd(r, real) * 0.5L : CL(0);
    ML q = unitary(r, n, real);
    if (r.chance(1, 8)) q = meye<CL>(n);
    ML m = mmul<CL>(mmul<CL>(q, t), herm(q));
    const auto A = fore<T>(m);
    m = back<T>(A);
    vf::note(vhash(mod_of(A).d) * 7 + n);
    vf::op("QRHessenberg");
    Quiet quiet;
    auto [U, S] = eigen::QRHessenberg(A);
    VF_CHECK(gap(back<T>(A), m) == 0, "schur-input", "modified");
    const LD acc = sizeof(T) == 4 ? 0.02L : 1e-9L;
    schur_checks<T>(m, U, S, acc, "separated");
    if (S.rows() != n || S.cols() != n) return;
    ML s = back<T>(S);
    LD b = 0;
    for (size_t i = 1; i < n; ++i) for (size_t j = 0; j < i; ++j) b = worse(b, std::abs(s(i, j)));
    const LD st = sizeof(T) == 4 ? 1e-3L : 1e-9L;
    VF_CHECK(b <= st, "schur-triangular", "below the diagonal " << b << " for " << show(cmod<cd>(m)));
    // The diagonal is the spectrum: every eigenvalue is met once.
    std::vector<bool> used(n, false);
    const LD lt = sizeof(T) == 4 ? 0.05L : 1e-6L;
    for (size_t i = 0; i < n; ++i) {
        size_t best = n;
        for (size_t k = 0; k < n; ++k) if (!used[k] && (best == n || std::abs(s(i, i) - l[k]) < std::abs(s(i, i) - l[best]))) best = k;
        VF_CHECK(std::abs(s(i, i) - l[best]) <= lt, "schur-eigenvalue", "diagonal " << s(i, i) << " closest eigenvalue " << l[best] << " for " << show(cmod<cd>(m)));
        used[best] = true;
    }
    if (hermitian) {
        LD o = 0;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) o = worse(o, std::abs(s(i, j)));
        VF_CHECK(o <= st * 10, "schur-hermitian-diagonal", "off the diagonal " << o);
        vf::hit("hermitian");
    }
    // Together with the eigenvectors of the triangular factor: eigenpairs of the matrix.
    auto [E, full] = eigen::eigenvectorUpper(S);
    VF_CHECK(full, "schur-fullset", "distinct eigenvalues");
    ML v = mmul<CL>(back<T>(U), back<T>(E)), av = mmul<CL>(m, v);
    for (size_t k = 0; k < n; ++k) {
        LD d = 0, len = 0;
        for (size_t i = 0; i < n; ++i) { d = worse(d, std::abs(av(i, k) - s(k, k) * v(i, k))); len += std::norm(v(i, k)); }
        VF_CHECK(d <= (sizeof(T) == 4 ? 0.1L : 1e-6L), "eigenpair", "column " << k << " error " << d << " for " << show(cmod<cd>(m)));
        VF_CHECK(std::fabs(len - 1) <= (sizeof(T) == 4 ? 0.05L : 1e-8L), "eigenpair-norm", "column " << k << " squared norm " << len);
    }
    VF_CHECK(e > 0 && (n > 1 || b == 0), "single", "");
    vf::hit("schur");
}
// Whatever the spectrum, the transform stays a unitary similarity.
template <typename T>
void schur_any(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 4));
    const char *kind = "";
    ML m = any_square(r, n, kind);
    const auto A = fore<T>(m);
    m = back<T>(A);
    vf::note(vhash(mod_of(A).d) * 11 + n);
    vf::op("QRHessenberg");
    Quiet quiet;
    auto [U, S] = eigen::QRHessenberg(A);
    VF_CHECK(gap(back<T>(A), m) == 0, "schur-input", "modified");
    schur_checks<T>(m, U, S, sizeof(T) == 4 ? 0.05L : 1e-9L, kind);
    // When no warning is given the factor is triangular.
    if (!quiet.warned() && S.rows() == n) {
        ML s = back<T>(S);
        LD b = 0;
        for (size_t i = 1; i < n; ++i) for (size_t j = 0; j < i; ++j) b = worse(b, std::abs(s(i, j)));
        VF_CHECK(b <= 1e-6L, "schur-silent", kind << " below the diagonal " << b << " for " << show(cmod<cd>(m)));
        vf::hit("converged");
    }
    vf::hit("schur-any");
}
template <typename T>
void vectors_of_upper(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, 7));
    bool real = r.chance(1, 2), repeated = n > 1 && r.chance(1, 3), ints = repeated || r.chance(1, 4);
    ML m(n, n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) m(i, j) = j < i ? CL(0) : ints ? CL(r.range(-2, 2), real ? 0 : r.range(-2, 2)) : rnd(r, real);
    // Diagonal: distinct, at least 0.2 apart.
    for (size_t i = 0; i < n; ++i) {
        if (ints) m(i, i) = CL(repeated ? r.range(0, 2) : static_cast<long>(i) - 3, 0);
        else m(i, i) = CL((static_cast<LD>(i) - 3) * 0.4L + r.real(-0.1, 0.1), real ? 0 : r.real(-1, 1));
    }
    if (!ints) for (size_t i = n; i > 1; --i) { size_t k = r.below(i); std::swap(m(i - 1, i - 1), m(k, k)); }
    // Two eigenvalues next to each other are still two.
    if (n > 1 && !repeated && r.chance(1, 4)) {
        const size_t i = r.below(n), k = (i + 1 + r.below(n - 1)) % n;
        m(k, k) = m(i, i) + CL(std::pow(10.0L, r.real(std::is_same_v<T, float> ? -3.5 : -10, -1.5)));
        vf::hit("close-pair");
    }
    if (r.chance(1, 4)) m = mscale(m, CL(std::ldexp(1.0L, static_cast<int>(r.range(0, 40)))));
    const auto A = fore<T>(m);
    m = back<T>(A);
    vf::note(vhash(mod_of(A).d) * 13 + n);
    vf::op("eigenvectorUpper");
    Quiet quiet;
    auto [E, full] = eigen::eigenvectorUpper(A);
    VF_CHECK(gap(back<T>(A), m) == 0, "vectors-input", "modified");
    VF_CHECK(E.rows() == n && E.cols() == n, "vectors-shape", E.rows() << "x" << E.cols());
    if (E.rows() != n || E.cols() != n) return;
    ML v = back<T>(E), av = mmul<CL>(m, v);
    bool distinct = true, zero_any = false;
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < i; ++k) if (m(i, i) == m(k, k)) distinct = false;
    for (size_t k = 0; k < n; ++k) {
        LD len = 0, d = 0;
        for (size_t i = 0; i < n; ++i) { len += std::norm(v(i, k)); d = worse(d, std::abs(av(i, k) - m(k, k) * v(i, k))); if (i > k) VF_CHECK(v(i, k) == CL(0), "vectors-upper", show(mod_of(E))); }
        if (!distinct && len == 0) { zero_any = true; continue; }
        VF_CHECK(std::fabs(std::sqrt(len) - 1) <= 100 * eps_of<T>(), "vectors-norm", "column " << k << " norm " << std::sqrt(len) << " for " << show(mod_of(A)));
        VF_CHECK(d <= 400 * eps_of<T>() * (1 + frob(m)), "vectors-equation", "column " << k << " error " << d << " for " << show(mod_of(A)));
    }
    VF_CHECK(full == !zero_any, "vectors-fullset", full << " for " << show(mod_of(A)));
    if (distinct) VF_CHECK(full && !quiet.warned(), "vectors-all", "distinct eigenvalues");
    else VF_CHECK(quiet.warned() == !full, "vectors-warning", full);
    // An eigenvalue met for the first time always has its vector.
    for (size_t k = 0; k < n; ++k) {
        bool first = true;
        for (size_t i = 0; i < k; ++i) if (m(i, i) == m(k, k)) first = false;
        LD len = 0;
        for (size_t i = 0; i < n; ++i) len += std::norm(v(i, k));
        if (first) VF_CHECK(len > 0.5L, "vectors-missing", "column " << k << " for " << show(mod_of(A)));
    }
    vf::hit(distinct ? "distinct" : "repeated");
}
#define KINDS(f) switch (r.range(0, 4)) { case 0: f<float>(r); break; case 1: f<long double>(r); break; default: f<double>(r); }
SCENARIO(hessenberg_form, 60) { KINDS(hess) }
SCENARIO(givens_factor, 40) { KINDS(givens) }
SCENARIO(wilkinson, 20) { KINDS(shift) }
SCENARIO(schur_separated, 12) { schur<double>(r); }
SCENARIO(schur_general, 1) { schur_any<double>(r); }
SCENARIO(schur_float, 1) { if (r.chance(1, 2)) schur<float>(r); else schur_any<float>(r); }
SCENARIO(upper_vectors, 40) { KINDS(vectors_of_upper) }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
