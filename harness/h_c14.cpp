// C14: transposes and structural predicates.
#include "gen.hpp"
using namespace malg;
static const Large large(300);
static const Long long_cases(80);

template <typename T> T nonzero(Rng &r)
{
    for (;;) { T x = ival<T>(r, -9, 9); if (x != T(0)) return x; }
}
template <typename T> void transposes(Rng &r)
{
    size_t R = dim(r, true, 30), C = dim(r, true, 30);
    Mod<T> m = imod<T>(r, R, C, -99, 99);
    if constexpr (std::is_floating_point_v<malg::is_complex_t<T>>) if (r.chance(1, 3)) m = rmod<T>(r, R, C, -1e3, 1e3);
    if (r.chance(1, 8)) { Grained full(ANY); m = imod<T>(r, R, C, -99, 99); }
    Operand<T> A(r, m);
    vf::note(m.hash() + static_cast<u64>(A.kind));
    std::string ctx = std::string(A.kname());
    vf::hit("kind." + ctx);
    if (vf::st().samples.size() < 2) vf::sample(ctx + " " + show(m));
    auto run = [&](const auto &X) {
        vf::op("transpose");
        auto t = linalg::transpose(X);
        check_eq(t, mtrans(m), "transpose", ctx);
        check_eq(linalg::transpose(t), m, "transpose-twice", ctx);
    };
    run(A.get());
    if (A.has_const()) run(A.cget());
    if constexpr (is_cx<T>) {
        auto H = mconj(mtrans(m));
        vf::op("hermitian_transpose");
        auto h = linalg::hermitian_transpose(A.get());
        check_eq(h, H, "hermitian", ctx);
        check_eq(linalg::hermitian_transpose(h), m, "hermitian-twice", ctx);
        vf::op("conjugate_transpose");
        auto c = linalg::conjugate_transpose(A.get());
        check_eq(c, H, "conjugate", ctx);
        check_eq(linalg::conjugate_transpose(c), m, "conjugate-twice", ctx);
        vf::hit("hermitian");
    }
    PURE(A);
}
// Builds a matrix with a structure, and perhaps breaks one element of it.
template <typename T> void predicates(Rng &r)
{
    constexpr bool real = !is_cx<T>;
    size_t n = dim(r, true, 20);
    int kind = static_cast<int>(r.range(0, 9));
    Mod<T> m(n, n);
    auto rnd = [&]() { return r.chance(1, 5) ? T(0) : nonzero<T>(r); };
    switch (kind) {
    case 0: for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) m(i, j) = m(j, i) = rnd(); break;
    case 1: { const bool null = r.chance(3, 4); for (size_t i = 0; i < n; ++i) { m(i, i) = null ? T(0) : rnd(); for (size_t j = i + 1; j < n; ++j) { m(i, j) = rnd(); m(j, i) = -m(i, j); } } break; }
    case 2: for (size_t i = 0; i < n; ++i) m(i, i) = rnd(); break;
    case 3: break;
    case 4: { T v = rnd(); for (auto &x : m.d) x = v; break; }
    case 5: m = meye<T>(n); break;
    case 6: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) m(i, j) = rnd(); break;
    case 7: for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) m(i, j) = rnd(); break;
    case 8: m = imod<T>(r, n, n); break;
    default: m = imod<T>(r, dim(r, false, 12), dim(r, false, 12), 0, 1); break;
    }
    if (r.chance(1, 12)) { Mod<T> z(m.R, m.C + 1); for (size_t i = 0; i < m.R; ++i) for (size_t j = 0; j < m.C; ++j) z(i, j) = m(i, j); m = z; }
    if (m.size() && r.chance(2, 3)) {
        size_t p = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : m.size() - 1) : r.below(m.size());
        T old = m.d[p];
        while (m.d[p] == old) m.d[p] = r.chance(1, 4) ? old + T(1) : ival<T>(r, -9, 9);
        if constexpr (is_cx<T>) if (r.chance(1, 2)) { using R = typename T::value_type; m.d[p] = T(old.real(), old.imag() + R(1)); vf::hit("imaginary-break"); }
        vf::hit("broken");
    } else if (m.size() && r.chance(1, 2)) {
        // By very little.
        size_t p = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : m.size() - 1) : r.below(m.size());
        if constexpr (std::is_floating_point_v<T>) {
            T &x = m.d[p];
            if (x == T(0)) x = r.chance(1, 2) ? std::numeric_limits<T>::denorm_min() : static_cast<T>(std::pow(10.0, r.real(-30, -3)));
            else if (r.chance(1, 2)) x = std::nextafter(x, r.chance(1, 2) ? T(0) : T(1e9));
            else x = x * static_cast<T>(1 + std::pow(10.0, std::is_same_v<T, float> ? -6.8 : r.real(-14, -6.8)));
            vf::hit("barely-broken");
        } else if constexpr (std::is_integral_v<T>) {
            // One unit at the far end of the type.
            const T big = static_cast<T>((T(1) << (sizeof(T) * 8 - 3)) + static_cast<T>(r.below(64)));
            if (kind == 0 || kind == 1 || kind == 4) {
                for (auto &x : m.d) if (x != T(0) || kind == 4) x = kind == 4 ? big : x < T(0) ? static_cast<T>(x - big) : static_cast<T>(x + big);
                if (r.chance(2, 3)) m.d[p] = static_cast<T>(m.d[p] + (r.chance(1, 2) ? 1 : -1));
            } else {
                m.d[p] = static_cast<T>(T(1) << r.range(0, sizeof(T) * 8 - 3));
            }
            vf::hit("barely-broken");
        } else if constexpr (is_cx<T>) {
            using R = typename T::value_type;
            R re = m.d[p].real(), im = m.d[p].imag();
            R &x = r.chance(1, 2) ? re : im;
            if (x == R(0)) x = r.chance(1, 2) ? std::numeric_limits<R>::denorm_min() : static_cast<R>(1e-9);
            else x = std::nextafter(x, R(1e9));
            m.d[p] = T(re, im);
            vf::hit("barely-broken");
        }
    }
    // The structures, but for the identity, do not depend on the scale.
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, cd>) if (r.chance(1, 6)) {
        const double k = std::ldexp(1.0, static_cast<int>(r.range(-200, 200)));
        for (auto &x : m.d) x *= k;
        vf::hit("scaled");
    }
    Operand<T> A(r, m);
    vf::note(m.hash() * 3 + static_cast<u64>(A.kind));
    std::string ctx = std::string(A.kname()) + " " + show(m);
    bool sq = m.R == m.C, sym = sq, skew = sq, dia = sq, zero = true, cst = true, idn = sq, lo = sq, up = sq;
    for (auto &x : m.d) { zero = zero && x == T(0); cst = cst && x == m.d[0]; }
    if (sq) for (size_t i = 0; i < m.R; ++i) for (size_t j = 0; j < m.C; ++j) {
        sym = sym && m(i, j) == m(j, i);
        skew = skew && m(i, j) == -m(j, i);
        if (i != j) { dia = dia && m(i, j) == T(0); }
        idn = idn && (i == j ? std::fabs(mag(T(m(i, j) - T(1)))) <= 3e-7 : m(i, j) == T(0)); // the library compares with a tolerance of 1e-6
        if (j > i) lo = lo && m(i, j) == T(0);
        if (j < i) up = up && m(i, j) == T(0);
    }
    vf::op("predicates");
    auto run = [&](const auto &X) {
        using namespace malg::utility;
        auto ck = [&](bool got, bool want, const char *key) { VF_CHECK(got == want, key, "got " << got << " on " << ctx); if (want) vf::hit(std::string("true.") + key); else vf::hit(std::string("false.") + key); };
        ck(is_square(X), sq, "is_square");
        ck(is_row_vector(X), m.R == 1, "is_row_vector");
        ck(is_column_vector(X), m.C == 1, "is_column_vector");
        ck(is_symmetric(X), sym, "is_symmetric");
        if (m.size()) {
            ck(is_zero(X), zero, "is_zero");
            ck(is_constant(X), cst, "is_constant");
        }
        if constexpr (real) {
            ck(is_skew_symmetric(X), skew, "is_skew_symmetric");
            ck(is_diagonal(X), dia, "is_diagonal");
            ck(is_lower_triangular(X), lo, "is_lower_triangular");
            ck(is_upper_triangular(X), up, "is_upper_triangular");
        }
        ck(is_identity(X), idn, "is_identity");
    };
    run(A.get());
    PURE(A);
}
SCENARIO(transposition, 3) { Grained grained(r.chance(1, 3) ? FULL : r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { transposes<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>(), Ty<cd>(), Ty<cf>(), Ty<long double>()); }
SCENARIO(structure, 5) { Grained grained(r.chance(2, 3) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { predicates<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>(), Ty<cd>(), Ty<double>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
