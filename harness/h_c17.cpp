// C17: LU decomposition.
#include "ref.hpp"
using namespace malg;

template <typename T> void check_lu(Rng &r, const Mod<T> &m, const char *key)
{
    using DT = std::remove_const_t<malg::extract_common_type_t<T, double>>;
    const size_t n = m.R;
    Operand<T> A(r, m);
    vf::note(m.hash() + static_cast<u64>(A.kind));
    vf::hit("size." + std::to_string(std::min<size_t>(n, 12)));
    std::string ctx = std::string(A.kname()) + " " + show(m);
    if (vf::st().samples.size() < 3) vf::sample(ctx);
    auto run = [&](const auto &X) {
        vf::op("lu_decomposition");
        auto lu = linalg::lu_decomposition(X);
        Mod<DT> L = mod_of(lu.first), U = mod_of(lu.second);
        VF_CHECK(L.R == n && L.C == n && U.R == n && U.C == n, "shape", ctx);
        if (L.R != n || L.C != n || U.R != n || U.C != n) return;
        bool lower = true, upper = true, unit = true;
        for (size_t i = 0; i < n; ++i) {
            unit = unit && U(i, i) == DT(1);
            for (size_t j = 0; j < n; ++j) { if (j > i) lower = lower && L(i, j) == DT(0); if (j < i) upper = upper && U(i, j) == DT(0); }
        }
        VF_CHECK(lower, "L-not-lower", show(L) << " on " << ctx);
        VF_CHECK(upper, "U-not-upper", show(U) << " on " << ctx);
        VF_CHECK(unit, "U-not-unit", show(U) << " on " << ctx);
        // Backward error bound of the elimination: |A - LU| <= c eps |L||U|.
        double worst = 0, bound = 0;
        bool ok = true;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                CL s(0);
                LD a = 0;
                for (size_t k = 0; k < n; ++k) { s += conv<CL>(L(i, k)) * conv<CL>(U(k, j)); a += std::abs(conv<CL>(L(i, k))) * std::abs(conv<CL>(U(k, j))); }
                LD e = std::abs(s - conv<CL>(m(i, j))), b = 16.0L * static_cast<LD>(n + 2) * std::numeric_limits<double>::epsilon() * (a + std::abs(conv<CL>(m(i, j))));
                if (!(e <= b)) { ok = false; worst = static_cast<double>(e); bound = static_cast<double>(b); }
            }
        VF_CHECK(ok, key, "residual " << worst << " bound " << bound << " L=" << show(L) << " U=" << show(U) << " on " << ctx);
    };
    run(A.get());
    if (A.has_const()) run(A.cget());
    PURE(A);
}
// Non-zero leading minors by construction.
template <typename T> void dominants(Rng &r)
{
    using R = malg::is_complex_t<T>;
    Mod<T> m = dominant<T>(r, dim(r, false, 20), r.chance(1, 2) ? 0.9 : 0.5);
    if (r.chance(1, 3)) { R s = static_cast<R>(std::pow(10.0, r.real(-12, 12) / (sizeof(R) == 4 ? 3 : 1))); for (auto &x : m.d) x = x * s; }
    check_lu<T>(r, m, "residual");
}
template <typename T> void factors(Rng &r)
{
    using R = malg::is_complex_t<T>;
    size_t n = dim(r, false, r.chance(1, 10) ? 45 : 14);
    Mod<T> L(n, n), U(n, n);
    for (size_t i = 0; i < n; ++i) {
        L(i, i) = T(static_cast<R>(r.real(0.5, 2) * (r.chance(1, 2) ? 1 : -1)));
        U(i, i) = T(1);
        for (size_t j = 0; j < i; ++j) { L(i, j) = rval<T>(r, -1, 1); U(j, i) = rval<T>(r, -1, 1); }
    }
    check_lu<T>(r, mmul<T>(L, U), "factors-residual");
}
// Integers with a unit determinant structure: the division by an integer pivot must not truncate.
template <typename T> void integers(Rng &r)
{
    size_t n = dim(r, false, 10);
    Mod<T> m(n, n);
    for (auto &x : m.d) x = static_cast<T>(r.range(-3, 3));
    for (size_t i = 0; i < n; ++i) { long s = 0; for (size_t j = 0; j < n; ++j) if (j != i) s += std::labs(static_cast<long>(m(i, j))); m(i, i) = static_cast<T>((s + r.range(1, 3)) * (r.chance(1, 2) ? 1 : -1)); }
    check_lu<T>(r, m, "integer-residual");
}
// Any matrix whose leading minors are not null, with its own scale for every row and column: the elimination is
// judged by its own factors, so that no pivot, however small beside the others, may be skipped or perturbed.
template <typename T> void unbalanced(Rng &r)
{
    using R = malg::is_complex_t<T>;
    const size_t n = dim(r, false, 10);
    Mod<T> m = r.chance(1, 2) ? rmod<T>(r, n, n, -1, 1) : dominant<T>(r, n, 0.9);
    const int top = sizeof(R) == 4 ? 10 : r.chance(1, 4) ? 200 : 30;
    auto p2 = [&](bool on) { return on ? static_cast<R>(std::ldexp(1.0, static_cast<int>(r.range(-top, top)))) : R(1); };
    const bool rows = r.chance(2, 3), cols = r.chance(2, 3);
    for (size_t i = 0; i < n; ++i) { R s = p2(rows), t = p2(cols); for (size_t j = 0; j < n; ++j) { m(i, j) = m(i, j) * s; m(j, i) = m(j, i) * t; } }
    if (r.chance(1, 3)) { R s = p2(true); for (auto &x : m.d) x = x * s; }
    if (r.chance(1, 3)) { size_t i = r.below(n); m(i, i) = m(i, i) * static_cast<R>(std::ldexp(1.0, -static_cast<int>(r.range(20, sizeof(R) == 4 ? 40 : 60)))); vf::hit("tiny-pivot"); }
    // Only where rounding cannot turn a pivot into a zero: what every pivot loses to cancellation, all together.
    ML w = wide(m), size = wide(m);
    for (auto &x : size.d) x = std::abs(x);
    LD lost = 1, small = 1;
    for (size_t k = 0; k < n; ++k) {
        const LD d = std::abs(w(k, k));
        lost *= d > 0 ? std::abs(size(k, k)) / d : 1e30L;
        if (!(lost < 1e11L)) { vf::hit("unbalanced.skipped"); return; }
        for (size_t i = k; i < n; ++i) small = std::min(small, std::abs(w(i, k)) > 0 ? d / std::abs(w(i, k)) : 1);
        for (size_t i = k + 1; i < n; ++i) { CL f = w(i, k) / w(k, k); for (size_t j = k; j < n; ++j) { w(i, j) -= f * w(k, j); size(i, j) += std::abs(f * w(k, j)); } }
    }
    vf::hit(small < 1e-8L ? "unbalanced.small-pivots" : "unbalanced.fair-pivots");
    check_lu<T>(r, m, "unbalanced-residual");
}
SCENARIO(unbalanced_matrices, 3) { pick_type(r, [&](auto t) { unbalanced<TYPE_OF(t)>(r); }, Ty<double>(), Ty<double>(), Ty<float>(), Ty<cd>()); }
SCENARIO(diagonally_dominant, 4) { pick_type(r, [&](auto t) { dominants<TYPE_OF(t)>(r); }, Ty<double>(), Ty<double>(), Ty<float>(), Ty<cd>()); }
SCENARIO(products, 3) { pick_type(r, [&](auto t) { factors<TYPE_OF(t)>(r); }, Ty<double>(), Ty<cd>()); }
SCENARIO(integer_matrices, 2) { pick_type(r, [&](auto t) { integers<TYPE_OF(t)>(r); }, Ty<int>(), Ty<long>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
