// C06: operands of incompatible shape are refused with a standard exception and without side effects.
#include "gen.hpp"
#include "malg/eigen.hpp"
using namespace malg;
static const Large large(300);

template <typename F>
void refused(const char *what, const std::string &ctx, F f)
{
    vf::op(what);
    vf::hit(std::string("refused.") + what);
    bool thrown = false;
    try { f(); } catch (const std::exception &) { thrown = true; }
    VF_CHECK(thrown, std::string("accepted:") + what, ctx);
}
struct Sh { size_t a, b; };
// Two different numbers.
static Sh different(Rng &r, bool zero)
{
    size_t a = dim(r, zero, 14), b = dim(r, zero, 14);
    if (r.chance(1, 4)) b = a + 1;
    if (r.chance(1, 8) && a > 1) b = a - 1;
    while (a == b) b = dim(r, zero, 14);
    return { a, b };
}
template <typename T1, typename T2>
void element_wise(Rng &r)
{
    size_t R = dim(r, true, 14), C = dim(r, true, 14), R2 = R, C2 = C;
    switch (r.range(0, 3)) {
    case 0: { auto d = different(r, true); R = d.a; R2 = d.b; break; }
    case 1: { auto d = different(r, true); C = d.a; C2 = d.b; break; }
    case 2: { auto d = different(r, true); R = C2 = d.a; C = R2 = d.b; break; } // same number of elements
    default: { auto d = different(r, true), e = different(r, true); R = d.a; R2 = d.b; C = e.a; C2 = e.b; }
    }
    auto a = imod<T1>(r, R, C);
    auto b = imod<T2>(r, R2, C2);
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    vf::note(a.hash() * 3 + b.hash());
    std::string x = show(a) + " with " + show(b);
    auto &P = A.get();
    auto &Q = B.get();
    refused("A+B", x, [&] { auto q = P + Q; });
    refused("A-B", x, [&] { auto q = P - Q; });
    refused("A+=B", x, [&] { P += Q; });
    refused("A-=B", x, [&] { P -= Q; });
    refused("A==B", x, [&] { auto q = P == Q; });
    refused("A!=B", x, [&] { auto q = P != Q; });
    if constexpr (!is_cx<T1> && !is_cx<T2>) {
        refused("A<B", x, [&] { auto q = P < Q; });
        refused("A<=B", x, [&] { auto q = P <= Q; });
        refused("A>B", x, [&] { auto q = P > Q; });
        refused("A>=B", x, [&] { auto q = P >= Q; });
    }
    refused("element_wise_product", x, [&] { auto q = malg::element_wise_product(P, Q); });
    refused("linear_combination", x, [&] { auto q = malg::linear_combination(P, T1(1), Q, T2(2)); });
    size_t calls = 0;
    refused("element_wise_binary_function", x, [&] { auto q = malg::element_wise_binary_function(P, Q, [&](T1 u, T2) { ++calls; return u; }); });
    VF_CHECK(calls == 0, "called-anyway", calls << " calls " << x);
    if constexpr (std::is_same_v<T1, T2>) {
        refused("all_close", x, [&] { utility::all_close(P, Q); });
        if constexpr (!is_cx<T1>) if (a.size() != b.size()) refused("compare", x, [&] { utility::compare(P, Q); });
    }
    PURE(A); PURE(B);
}
template <typename T1, typename T2>
void vectors(Rng &r)
{
    auto d = different(r, true);
    auto a = ivec<T1>(r, d.a);
    auto b = ivec<T2>(r, d.b);
    auto A = vec(a);
    auto B = vec(b);
    vf::note(vhash(a) * 5 + vhash(b));
    std::string x = show(a) + " with " + show(b);
    refused("a+b", x, [&] { auto q = A + B; });
    refused("a-b", x, [&] { auto q = A - B; });
    refused("a*b", x, [&] { auto q = A * B; });
    refused("a+=b", x, [&] { A += B; });
    refused("a-=b", x, [&] { A -= B; });
    refused("a==b", x, [&] { auto q = A == B; });
    refused("a!=b", x, [&] { auto q = A != B; });
    refused("dot(a,b)", x, [&] { auto q = malg::dot(A, B); });
    refused("projection", x, [&] { auto q = malg::projection(A, B); });
    size_t calls = 0;
    refused("element_wise_binary_function(v)", x, [&] { auto q = malg::element_wise_binary_function(A, B, [&](T1 u, T2) { ++calls; return u; }); });
    VF_CHECK(calls == 0, "called-anyway", calls << " calls " << x);
    if constexpr (std::is_same_v<T1, T2>) {
        refused("all_close(v)", x, [&] { utility::all_close(A, B); });
        if constexpr (!is_cx<T1>) refused("compare(v)", x, [&] { utility::compare(A, B); });
    }
    check_eq(A, a, "left-modified");
    check_eq(B, b, "right-modified");
}
template <typename T1, typename T2>
void products(Rng &r)
{
    auto d = different(r, true);
    auto a = imod<T1>(r, dim(r, true, 14), d.a);
    auto b = imod<T2>(r, d.b, dim(r, true, 14));
    Operand<T1> A(r, a);
    Operand<T2> B(r, b);
    std::string x = show(a) + " with " + show(b);
    vf::note(a.hash() * 7 + b.hash());
    refused("A*B", x, [&] { auto q = A.get() * B.get(); });
    refused("A*=B", x, [&] { A.get() *= B.get(); });
    PURE(A); PURE(B);
    // Conforming inner dimension, but the result does not fit in place.
    auto e = different(r, true);
    auto c = imod<T2>(r, d.a, e.b == d.a ? e.a : e.b);
    Operand<T2> N(r, c);
    refused("A*=nonsquare", show(a) + " with " + show(c), [&] { A.get() *= N.get(); });
    PURE(A); PURE(N);
    auto v = ivec<T2>(r, d.b);
    auto V = vec(v);
    refused("A*v", show(a) + " with " + show(v), [&] { auto q = A.get() * V; });
    refused("dot(A,v)", show(a) + " with " + show(v), [&] { auto q = malg::dot(A.get(), V); });
    check_eq(V, v, "vector-modified");
    PURE(A);
}
template <typename T>
void stacking(Rng &r)
{
    auto d = different(r, true);
    size_t n = dim(r, true, 10), m = dim(r, true, 10);
    auto a = imod<T>(r, n, d.a), b = imod<T>(r, m, d.b);
    Operand<T> A(r, a), B(r, b);
    vf::note(a.hash() * 9 + b.hash());
    refused("vstack", show(a) + " with " + show(b), [&] { auto q = utility::vstack(A.get(), B.get()); });
    auto at = imod<T>(r, d.a, n), bt = imod<T>(r, d.b, m);
    Operand<T> At(r, at), Bt(r, bt);
    refused("hstack", show(at) + " with " + show(bt), [&] { auto q = utility::hstack(At.get(), Bt.get()); });
    auto v = ivec<T>(r, d.b);
    auto V = vec(v);
    refused("vstack(v)", show(a) + " with " + show(v), [&] { auto q = utility::vstack(A.get(), V); });
    refused("hstack(v)", show(at) + " with " + show(v), [&] { auto q = utility::hstack(At.get(), V); });
    PURE(A); PURE(B); PURE(At); PURE(Bt);
    check_eq(V, v, "vector-modified");
}
template <typename T>
void ranges(Rng &r)
{
    size_t R = dim(r, true, 9), C = dim(r, true, 9);
    auto a = imod<T>(r, R, C);
    Operand<T> A(r, a);
    auto &P = A.get();
    size_t out_r = R + r.below(4), out_c = C + r.below(4), far = static_cast<size_t>(-1) - r.below(2);
    if (r.chance(1, 5)) out_r = out_c = far;
    std::string x = show(a) + " at " + std::to_string(out_r) + "," + std::to_string(out_c);
    vf::note(a.hash() * 11 + out_r * 16 + out_c);
    refused("extract(start row)", x, [&] { auto q = utility::extract(P, out_r); });
    refused("extract(start row,end)", x, [&] { auto q = utility::extract(P, out_r, out_r + 2, 0, C); });
    refused("extract(start col)", x, [&] { auto q = utility::extract(P, 0, R, out_c); });
    refused("extract_row", x, [&] { auto q = utility::extract_row(P, out_r); });
    refused("extract_row(range)", x, [&] { auto q = utility::extract_row(P, r.below(R ? R : 1), out_c, out_c + 1); });
    refused("extract_column", x, [&] { auto q = utility::extract_column(P, out_c); });
    refused("extract_column(range)", x, [&] { auto q = utility::extract_column(P, r.below(C ? C : 1), out_r, out_r + 1); });
    if (R && C) {
        size_t s = r.below(R), e = r.below(s + 1), s2 = r.below(C), e2 = r.below(s2 + 1);
        refused("extract(inverted rows)", x, [&] { auto q = utility::extract(P, s, e, 0, C); });
        refused("extract(inverted cols)", x, [&] { auto q = utility::extract(P, 0, R, s2, e2); });
        refused("extract_row(inverted)", x, [&] { auto q = utility::extract_row(P, r.below(R), s2, e2); });
        refused("extract_column(inverted)", x, [&] { auto q = utility::extract_column(P, r.below(C), s, e); });
    }
    auto M = mat(a);
    refused("remove_row", x, [&] { utility::remove_row(M, out_r); });
    check_eq(M, a, "remove_row-changed");
    refused("remove_column", x, [&] { utility::remove_column(M, out_c); });
    check_eq(M, a, "remove_column-changed");
    size_t nr = dim(r, true, 9), nc = dim(r, true, 9);
    if (nr * nc != R * C) {
        refused("reshape", x + " to " + std::to_string(nr) + "x" + std::to_string(nc), [&] { M.reshape(nr, nc); });
        refused("utility::reshape", x, [&] { utility::reshape(M, nr, nc); });
    }
    // Products that overflow to the right number of elements.
    if (R * C == 0) refused("reshape(overflow)", x, [&] { M.reshape(size_t(1) << 63, 2); });
    refused("resize(overflow)", x, [&] { M.resize(size_t(1) << 33, size_t(1) << 33); });
    refused("construct(overflow)", x, [&] { Matrix<T> Z((size_t(1) << 62) + 1, 4); });
    check_eq(M, a, "reshape-changed");
    PURE(A);
}
template <typename T>
void init(Rng &r)
{
    auto q = imod<T>(r, 4, 4);
    vf::note(q.hash() * 13);
    auto m0 = imod<T>(r, dim(r, true, 6), dim(r, true, 6));
    auto M = mat(m0);
    refused("ragged construct", "", [&] { Matrix<T> Z({ { q(0, 0), q(0, 1) }, { q(1, 0) } }); });
    refused("ragged construct long", "", [&] { Matrix<T> Z({ { q(0, 0), q(0, 1) }, { q(1, 0), q(1, 1), q(1, 2) } }); });
    refused("ragged construct last", "", [&] { Matrix<T> Z({ { q(0, 0), q(0, 1), q(0, 2) }, { q(1, 0), q(1, 1), q(1, 2) }, { q(2, 0) } }); });
    refused("ragged assign", "", [&] { M = { { q(0, 0), q(0, 1) }, { q(1, 0) } }; });
    refused("ragged assign long", "", [&] { M = { { q(0, 0), q(0, 1) }, { q(1, 0), q(1, 1), q(1, 2) }, { q(2, 0), q(2, 1) } }; });
    check_eq(M, m0, "assign-changed");
    refused("empty construct", "", [&] { std::initializer_list<std::initializer_list<T>> l; Matrix<T> Z(l); });
    refused("short list", "", [&] { Matrix<T> Z(2, 2, { q(0, 0), q(0, 1), q(0, 2) }); });
    refused("short list 3x3", "", [&] { Matrix<T> Z(3, 3, { q(0, 0), q(0, 1), q(0, 2), q(1, 0) }); });
    size_t R = dim(r), C = dim(r), n = r.below(R * C);
    std::vector<T> sv(n, T(1));
    refused("short std::vector", std::to_string(R) + "x" + std::to_string(C) + " from " + std::to_string(n), [&] { Matrix<T> Z(R, C, sv); });
}
template <typename T>
void square_only(Rng &r)
{
    auto d = different(r, false);
    auto a = imod<T>(r, d.a, d.b);
    Operand<T> A(r, a);
    auto &P = A.get();
    std::string x = show(a);
    vf::note(a.hash() * 17);
    refused("determinant", x, [&] { linalg::determinant(P); });
    refused("adjoint", x, [&] { auto q = linalg::adjoint(P); });
    refused("inverse", x, [&] { auto q = linalg::inverse(P); });
    refused("lu_decomposition", x, [&] { auto q = linalg::lu_decomposition(P); });
    if constexpr (!std::is_integral_v<T>) refused("sub_norm", x, [&] { malg::sub_norm(P); });
    refused("powm", x, [&] { auto q = linalg::powm(P, 1 + r.below(3)); });
    if constexpr (std::is_same_v<T, double> || is_cx<T>) refused("expm", x, [&] { auto q = linalg::expm(P, 1e-5); });
    if constexpr (std::is_same_v<T, double>) {
        if (d.a > 1 && d.b > 1) refused("poly", x, [&] { auto q = control::poly(P); });
        auto b = imod<T>(r, d.a, 1 + r.below(3)), c = imod<T>(r, 1 + r.below(3), d.b);
        Operand<T> B(r, b), C(r, c);
        refused("ctrb(nonsquare)", x, [&] { auto q = control::ctrb(P, B.get()); });
        refused("obsv(nonsquare)", x, [&] { auto q = control::obsv(P, C.get()); });
        control::StateSpace<double> sys(mat(a), mat(b), mat(c), Matrix<double>(c.R, b.C));
        refused("c2d(nonsquare)", x, [&] { auto q = control::c2d(sys, 0.1); });
        // A square system with an input or output matrix of another order.
        size_t k = 1 + r.below(4), wrong = r.chance(1, 2) ? k + 1 + r.below(3) : k - 1;
        auto reg = imod<T>(r, k, k, -1, 1);
        for (size_t i = 0; i < k; ++i) reg(i, i) = -9;
        size_t p = 1 + r.below(3), o = 1 + r.below(3);
        auto gb = imod<T>(r, k, p), gc = imod<T>(r, o, k), wb2 = imod<T>(r, wrong, p), wc2 = imod<T>(r, o, wrong);
        control::StateSpace<double> s1(mat(reg), mat(wb2), mat(gc), Matrix<double>(o, p)), s2(mat(reg), mat(gb), mat(wc2), Matrix<double>(o, p));
        refused("c2d(input)", show(reg) + " with " + show(wb2), [&] { auto q = control::c2d(s1, 0.1); });
        refused("c2d(output)", show(reg) + " with " + show(wc2), [&] { auto q = control::c2d(s2, 0.1); });
        check_eq(s2.A, reg, "system-changed");
        // Square matrix with the wrong companion.
        size_t n = 1 + r.below(6);
        auto s = imod<T>(r, n, n);
        Operand<T> S(r, s);
        size_t m = 1 + r.below(7);
        if (m == n) m = n + 1;
        auto wb = imod<T>(r, m, 1 + r.below(3)), wc = imod<T>(r, 1 + r.below(3), m);
        Operand<T> WB(r, wb), WC(r, wc);
        refused("ctrb", show(s) + " with " + show(wb), [&] { auto q = control::ctrb(S.get(), WB.get()); });
        refused("obsv", show(s) + " with " + show(wc), [&] { auto q = control::obsv(S.get(), WC.get()); });
        PURE(S); PURE(WB); PURE(WC); PURE(B); PURE(C);
        check_eq(sys.A, a, "system-changed");
    }
    PURE(A);
    // Division and systems.
    auto e = different(r, false);
    auto L = imod<double>(r, dim(r, false, 5), e.a > 5 ? 5 : e.a);
    size_t n = (e.b > 5) ? 4 : e.b;
    if (n == L.C) n = L.C == 1 ? 2 : L.C - 1;
    auto D = imod<double>(r, n, n, -1, 1);
    for (size_t i = 0; i < n; ++i) D(i, i) = 9;
    Operand<double> OL(r, L), OD(r, D);
    refused("div", show(L) + " by " + show(D), [&] { auto q = linalg::div(OL.get(), OD.get()); });
    auto ns = imod<double>(r, L.C, L.C + 1);
    Operand<double> ON(r, ns);
    refused("div(nonsquare)", show(L) + " by " + show(ns), [&] { auto q = linalg::div(OL.get(), ON.get()); });
    PURE(OL); PURE(OD); PURE(ON);
    // solve with the wrong number of known terms.
    size_t sr = 1 + r.below(5), sc = 1 + r.below(5);
    auto sm = rmod<double>(r, sr, sc, -1, 1);
    for (size_t i = 0; i < std::min(sr, sc); ++i) sm(i, i) += 4;
    auto SM = mat(sm);
    size_t bn = r.below(7);
    if (bn == sr) bn = sr + 1;
    auto bv = rvec<double>(r, bn);
    auto BV = vec(bv);
    refused("solve", show(sm) + " with " + show(bv), [&] { auto q = linalg::solve(SM, BV); });
    check_eq(SM, sm, "solve-changed");
    check_eq(BV, bv, "solve-changed");
}
// Assigning to a window a matrix, a view or a cofactor view of another shape.
template <typename T, typename T2>
void windows(Rng &r)
{
    size_t R = 1 + r.below(9), C = 1 + r.below(9);
    auto a = imod<T>(r, R, C);
    auto M = mat(a);
    size_t r0 = r.below(R), r1 = r0 + 1 + r.below(R - r0), c0 = r.below(C), c1 = c0 + 1 + r.below(C - c0);
    bool cofactor = r.chance(1, 3);
    size_t h = cofactor ? R - 1 : r1 - r0, w = cofactor ? C - 1 : c1 - c0, h2 = h, w2 = w;
    switch (r.range(0, 4)) {
    case 0: h2 = h + 1 + r.below(3); break;
    case 1: w2 = w + 1 + r.below(3); break;
    case 2: if (h) h2 = r.below(h); else h2 = 1; break;
    case 3: if (w) w2 = r.below(w); else w2 = 1; break;
    default: if (h != w) { h2 = w; w2 = h; } else { h2 = h * w + (h * w == h); w2 = 1; } // same number of elements
    }
    auto b = imod<T2>(r, h2, w2);
    auto bt = imod<T>(r, h2, w2);
    std::string x = (cofactor ? "cofactor view" : "view") + std::string(" of ") + std::to_string(h) + "x" + std::to_string(w) + " in " + show(a) + " := " + show(b);
    vf::note(a.hash() * 19 + b.hash() + cofactor);
    auto assign = [&](auto &&v, const char *kind) {
        Operand<T2> B(r, b);
        refused((std::string(kind) + " = matrix").c_str(), x, [&] { v = B.get(); });
        check_eq(M, a, "window-changed", x);
        PURE(B);
        Operand<T> BT(r, bt);
        refused((std::string(kind) + " = matrix of its type").c_str(), x, [&] { v = BT.get(); });
        PURE(BT);
        auto O = mat(b);
        refused((std::string(kind) + " = view of another type").c_str(), x, [&] { v = View<Matrix<T2>>(&O, Range::all()); });
        refused((std::string(kind) + " = const view").c_str(), x, [&] { v = View<const Matrix<T2>>(&O, Range::all()); });
        check_eq(O, b, "source-changed", x);
        check_eq(M, a, "window-changed", x);
    };
    // The same type of view, of a larger matrix.
    auto big = imod<T>(r, h2 + 2, w2 + 2);
    auto G = mat(big);
    if (cofactor) {
        CofactorView<Matrix<T>> v(&M, r.below(R), r.below(C));
        assign(v, "cofactor view");
        auto g1 = imod<T>(r, h2 + 1, w2 + 1);
        auto G1 = mat(g1);
        CofactorView<Matrix<T>> o(&G1, r.below(h2 + 1), r.below(w2 + 1));
        refused("cofactor view = cofactor view", x, [&] { v = o; });
        check_eq(G1, g1, "source-changed", x);
    } else {
        View<Matrix<T>> v(&M, Range{ r0, r1 }, Range{ c0, c1 });
        assign(v, "view");
        if (h2 && w2) {
            View<Matrix<T>> o(&G, Range{ 1, 1 + h2 }, Range{ 1, 1 + w2 });
            refused("view = view", x, [&] { v = o; });
            // Onto a window of the same matrix.
            if (h != R || w != C) { View<Matrix<T>> whole(&M, Range::all()); refused("view = whole", x, [&] { v = whole; }); refused("whole = view", x, [&] { whole = v; }); }
        }
        View<View<Matrix<T>>> n(&v, Range::all());
        Operand<T2> B(r, b);
        refused("view of view = matrix", x, [&] { n = B.get(); });
        PURE(B);
    }
    check_eq(G, big, "source-changed", x);
    check_eq(M, a, "window-changed", x);
}
// Initialising a vector of a size with another number of values.
template <typename T>
void vector_list(Rng &r)
{
    auto q = ivec<T>(r, 5);
    size_t n = r.chance(1, 8) ? static_cast<size_t>(1) << r.range(8, 20) : r.below(9);
    vf::note(vhash(q) * 23 + n);
    std::string x = std::to_string(n);
    auto go = [&](std::initializer_list<T> l) {
        if (l.size() == n) { // the right number is accepted
            Vector<T> Z(n, l);
            check_eq(Z, std::vector<T>(l), "list-contents", x);
            return;
        }
        refused("vector of another size than its list", x + " from " + std::to_string(l.size()), [&] { Vector<T> Z(n, l); });
    };
    go({});
    go({ q[0] });
    go({ q[0], q[1] });
    go({ q[0], q[1], q[2] });
    go({ q[0], q[1], q[2], q[3], q[4] });
}
// Decompositions of matrices that are not square.
template <typename T>
void eigen_only(Rng &r)
{
    using C = std::complex<T>;
    auto d = different(r, true);
    auto a = imod<C>(r, d.a, d.b);
    auto A = mat(a);
    const auto &P = A;
    std::string x = show(a);
    vf::note(a.hash() * 29);
    refused("hessenberg", x, [&] { auto q = eigen::hessenberg(P); });
    refused("qr_factorise_givens", x, [&] { auto q = eigen::qr_factorise_givens(P); });
    refused("QRHessenberg", x, [&] { auto q = eigen::QRHessenberg(P); });
    refused("eigenvectorUpper", x, [&] { auto q = eigen::eigenvectorUpper(P); });
    refused("wilkinson_shift", x, [&] { auto q = eigen::wilkinson_shift(P); });
    if (d.a && d.b) refused("sub_norm", x, [&] { auto q = malg::sub_norm(P); });
    check_eq(A, a, "decomposed-changed", x);
}
SCENARIO(windows, 3)
{ Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE);
    switch (r.range(0, 4)) {
    case 0: windows<double, double>(r); break;
    case 1: windows<int, int>(r); break;
    case 2: windows<double, int>(r); break;
    case 3: windows<cd, cd>(r); break;
    default: windows<double, float>(r);
    }
}
// Lists without rows or without columns: refused, or without effect, or emptying the object.
template <typename T> void empty_lists(Rng &r)
{
    auto a = imod<T>(r, 1 + r.below(4), 1 + r.below(4));
    vf::note(a.hash());
    refused("Matrix({{}})", show(a), [&] { std::initializer_list<std::initializer_list<T>> l = { {} }; Matrix<T> m(l); });
    refused("Matrix({})", show(a), [&] { std::initializer_list<std::initializer_list<T>> l = {}; Matrix<T> m(l); });
    for (int k = 0; k < 3; ++k) {
        Matrix<T> m = mat(a), big = mat(a);
        View<Matrix<T>> v(&big, Range{ 0, a.R }, Range{ 0, a.C });
        vf::op(k == 0 ? "={}" : k == 1 ? "={{}}" : "={{},{}}");
        auto assign = [&](auto &x) {
            std::initializer_list<std::initializer_list<T>> none = {}, one = { {} }, two = { {}, {} };
            try { if (k == 0) x = none; else if (k == 1) x = one; else x = two; } catch (const std::exception &) {}
        };
        assign(m), assign(v);
        check_eq(big, a, "empty-list-view");
        if (m.size() != 0) check_eq(m, a, "empty-list-matrix");
        else VF_CHECK(m.rows() * m.cols() == 0, "empty-list-shape", m.rows() << "x" << m.cols());
    }
}
SCENARIO(empty_lists, 1) { pick_type(r, [&](auto t) { empty_lists<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
SCENARIO(vector_list, 1) { pick_type(r, [&](auto t) { vector_list<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
SCENARIO(eigen_only, 1) { if (r.chance(1, 2)) eigen_only<double>(r); else eigen_only<float>(r); }
SCENARIO(simulation, 1)
{ Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE);
    size_t n = 1 + r.below(4), m = 1 + r.below(3), p = 1 + r.below(3);
    control::DiscreteStateSpace<double> sys(mat(imod<double>(r, n, n)), mat(imod<double>(r, n, m)), mat(imod<double>(r, p, n)), mat(imod<double>(r, p, m)), 0.5);
    size_t bn = r.chance(1, 2) ? n + 1 : n - 1, bm = r.chance(1, 2) ? m + 1 : m - 1;
    vf::note(n * 64 + m * 8 + p + bn * 512 + bm * 4096 + r.below(1000) * 65536);
    Vector<double> x(n), u(m), bx(bn), bu(bm);
    refused("simulate_step(state)", "", [&] { auto q = control::simulate_step(sys, bx, u); });
    refused("simulate_step(input)", "", [&] { auto q = control::simulate_step(sys, x, bu); });
    std::vector<Vector<double>> us(3, u);
    refused("simulate(state)", "", [&] { auto q = control::simulate(sys, us, 10.0, bx); });
    us[r.below(3)] = bu;
    refused("simulate(input)", "", [&] { auto q = control::simulate(sys, us, 10.0, x); });
}
SCENARIO(builders, 1)
{ Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE);
    size_t n = r.below(6);
    vf::note(n + r.below(100000) * 16);
    auto go = [&](auto t) {
        using T = TYPE_OF(t);
        refused("eye(0,n)", "", [&] { auto q = utility::eye<T>(0, n, T(1)); });
        refused("eye(n,0)", "", [&] { auto q = utility::eye<T>(n, 0, T(1)); });
        refused("identity(0)", "", [&] { auto q = utility::identity<T>(0); });
        refused("zeros(0,n)", "", [&] { auto q = utility::zeros<T>(0, n); });
        refused("zeros(n,0)", "", [&] { auto q = utility::zeros<T>(n, 0); });
        refused("zeros(0)", "", [&] { auto q = utility::zeros<T>(0); });
        refused("ones(0,n)", "", [&] { auto q = utility::ones<T>(0, n); });
        refused("ones(n,0)", "", [&] { auto q = utility::ones<T>(n, 0); });
        refused("ones(0)", "", [&] { auto q = utility::ones<T>(0); });
    };
    pick_type(r, go, Ty<int>(), Ty<double>(), Ty<cd>());
}
template <int K>
void dispatch(Rng &r)
{
    auto call = [&](auto t1, auto t2) {
        using A = TYPE_OF(t1);
        using B = TYPE_OF(t2);
        if constexpr (K == 0) element_wise<A, B>(r);
        else if constexpr (K == 1) vectors<A, B>(r);
        else products<A, B>(r);
    };
    switch (r.range(0, 4)) {
    case 0: call(Ty<double>(), Ty<double>()); break;
    case 1: call(Ty<int>(), Ty<int>()); break;
    case 2: call(Ty<double>(), Ty<int>()); break;
    case 3: call(Ty<cd>(), Ty<cd>()); break;
    default: call(Ty<float>(), Ty<double>()); break;
    }
}
SCENARIO(element_wise, 4) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); dispatch<0>(r); }
SCENARIO(vectors, 2) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); dispatch<1>(r); }
SCENARIO(products, 3) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); dispatch<2>(r); }
SCENARIO(stacking, 2) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { stacking<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
SCENARIO(ranges, 2) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { ranges<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
SCENARIO(initialisation, 1) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { init<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
SCENARIO(square_only, 2) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); pick_type(r, [&](auto t) { square_only<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
