// C18: QR decomposition.
#include "ref.hpp"
using namespace malg;

template <typename T> void check_qr(Rng &r, const Mod<T> &m, const char *key)
{
    (void)r;
    const Matrix<T> A = mat(m);
    vf::note(m.hash());
    std::string ctx = show(m);
    if (vf::st().samples.size() < 4) vf::sample(ctx);
    vf::op("qr_decomposition");
    auto qr = linalg::qr_decomposition(A);
    auto Q = mod_of(qr.first), R = mod_of(qr.second);
    VF_CHECK(Q.R == m.R && Q.C == m.R && R.R == m.R && R.C == m.C, "shape", show(Q) << show(R) << " on " << ctx);
    if (Q.R != m.R || Q.C != m.R || R.R != m.R || R.C != m.C) return;
    bool tri = true;
    for (size_t i = 0; i < R.R; ++i) for (size_t j = 0; j < std::min(i, R.C); ++j) tri = tri && R(i, j) == 0;
    VF_CHECK(tri, "not-triangular", show(R) << " on " << ctx);
    const double n = static_cast<double>(std::max(m.R, m.C)), eps = std::numeric_limits<double>::epsilon();
    double e = maxdiff(mmul<CL>(mtrans(Q), Q), meye<CL>(m.R));
    VF_CHECK(e <= 64 * n * n * eps, "not-orthogonal", "error " << e << " Q=" << show(Q) << " on " << ctx);
    // Column by column, so that a small column counts as much as a large one.
    ML P = mmul<CL>(Q, R);
    for (size_t j = 0; j < m.C; ++j) {
        LD s = 0, d = 0;
        for (size_t i = 0; i < m.R; ++i) { s = std::max(s, std::abs(conv<CL>(m(i, j)))); LD x = std::abs(P(i, j) - conv<CL>(m(i, j))); d = worse(d, x); }
        VF_CHECK(d <= 64 * n * n * eps * s, key, "column " << j << " error " << static_cast<double>(d) << " Q=" << show(Q) << " R=" << show(R) << " on " << ctx);
    }
    VF_CHECK(mod_of(A) == m, "operand-modified", ctx);
    vf::hit(m.R == m.C ? "square" : m.R > m.C ? "tall" : "wide");
}
template <typename T> Mod<T> draw(Rng &r, size_t R, size_t C)
{
    if constexpr (std::is_integral_v<T>) return imod<T>(r, R, C, -5, 5);
    else return r.chance(1, 4) ? imod<T>(r, R, C, -2, 2) : rmod<T>(r, R, C, -2, 2);
}
static void shape(Rng &r, size_t &R, size_t &C) { R = dim(r, false, 14); C = dim(r, false, 14); if (r.chance(1, 3)) C = R; }
template <typename T> void generic(Rng &r)
{
    size_t R, C;
    shape(r, R, C);
    Mod<T> m = draw<T>(r, R, C);
    if constexpr (!std::is_integral_v<T>) {
        double lim = sizeof(T) == 4 ? 8 : r.chance(1, 3) ? 140 : 60;
        if (r.chance(1, 4)) { T s = static_cast<T>(std::pow(10.0, r.real(-lim, lim))); for (auto &x : m.d) x *= s; vf::hit("scaled"); }
        const double each = sizeof(T) == 4 || r.chance(1, 2) ? 5 : 60;
        if (lim < 100 && r.chance(1, 3)) for (size_t j = 0; j < C; ++j) { T s = static_cast<T>(std::pow(10.0, r.real(-each, each))); for (size_t i = 0; i < R; ++i) m(i, j) *= s; }
    }
    check_qr<T>(r, m, "residual");
}
template <typename T> void deficient(Rng &r)
{
    size_t R, C;
    shape(r, R, C);
    Mod<T> m = draw<T>(r, R, C);
    int n = static_cast<int>(r.range(1, 3));
    while (n--) {
        size_t j = r.below(C), k = r.below(C);
        switch (r.range(0, 5)) {
        case 0: for (size_t i = 0; i < R; ++i) m(i, j) = 0; vf::hit("null-column"); break;
        case 1: for (size_t i = 0; i < R; ++i) m(i, j) = m(i, k); vf::hit("repeated-column"); break;
        case 2: for (size_t i = 0; i < R; ++i) m(i, j) = m(i, k) * T(2); vf::hit("scaled-column"); break;
        case 3: { size_t i = r.below(R); for (size_t c = 0; c < C; ++c) m(i, c) = 0; vf::hit("null-row"); break; }
        case 4: for (size_t i = 0; i < R; ++i) for (size_t c = 0; c < std::min(i, C); ++c) m(i, c) = 0; vf::hit("already-triangular"); break;
        default: for (size_t i = 0; i < R; ++i) m(i, j) = i == k ? T(1) : T(0); vf::hit("unit-column"); break;
        }
    }
    if (r.chance(1, 15)) for (auto &x : m.d) x = 0;
    if (r.chance(1, 8)) { // negative or zero leading elements
        for (size_t c = 0; c < std::min(R, C); ++c) m(c, c) = r.chance(1, 2) ? T(0) : T(-1);
    }
    check_qr<T>(r, m, "deficient-residual");
}
SCENARIO(generic_matrices, 4) { pick_type(r, [&](auto t) { generic<TYPE_OF(t)>(r); }, Ty<double>(), Ty<double>(), Ty<int>(), Ty<float>()); }
SCENARIO(deficient_matrices, 4) { pick_type(r, [&](auto t) { deficient<TYPE_OF(t)>(r); }, Ty<double>(), Ty<double>(), Ty<int>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
