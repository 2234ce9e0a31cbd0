// C23: controllability and observability matrices.
#include "gen.hpp"
using namespace malg;

template <typename T> Mod<T> mpow(const Mod<T> &A, size_t k) { Mod<T> o = meye<T>(A.R); while (k--) o = mmul<T>(o, A); return o; }
template <typename T> void go(Rng &r)
{
    size_t n = static_cast<size_t>(r.range(1, r.chance(1, 5) ? 9 : 6)), q = static_cast<size_t>(r.range(1, 4));
    Mod<T> A = n > 6 ? imod<T>(r, n, n, -1, 1) : imod<T>(r, n, n, -3, 3), B = imod<T>(r, n, q, -5, 5), C = imod<T>(r, q, n, -5, 5);
    if (n > 6) for (auto &x : A.d) if (r.chance(1, 2)) x = T(0);
    if (r.chance(1, 8)) { for (auto &x : A.d) x = T(0); for (size_t i = 0; i + 1 < n; ++i) A(i, i + 1) = T(1); vf::hit("shift"); }
    Operand<T> a(r, A), b(r, B), c(r, C);
    vf::note(A.hash() * 3 + B.hash() * 5 + C.hash());
    vf::hit("order." + std::to_string(n));
    std::string ctx = std::string(a.kname()) + " A=" + show(A);
    if (vf::st().samples.size() < 3) vf::sample(ctx);
    Mod<T> wc(n, n * q), wo(n * q, n);
    for (size_t k = 0; k < n; ++k) {
        Mod<T> P = mpow(A, k), x = mmul<T>(P, B), y = mmul<T>(C, P);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < q; ++j) { wc(i, k * q + j) = x(i, j); wo(k * q + j, i) = y(j, i); }
    }
    vf::op("ctrb");
    auto ct = control::ctrb(a.get(), b.get());
    check_eq(ct, wc, "ctrb", ctx + " B=" + show(B));
    vf::op("obsv");
    auto ob = control::obsv(a.get(), c.get());
    check_eq(ob, wo, "obsv", ctx + " C=" + show(C));
    PURE(a);
    PURE(b);
    PURE(c);
    // Duality.
    vf::op("duality");
    auto At = linalg::transpose(a.get());
    auto d = control::obsv(At, linalg::transpose(b.get()));
    check_eq(linalg::transpose(d), wc, "duality", ctx);
}
SCENARIO(matrices, 1) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { go<TYPE_OF(t)>(r); }, Ty<double>(), Ty<long>(), Ty<cd>(), Ty<unsigned long>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
