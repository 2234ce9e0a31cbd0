// A table of read-only operations of the library over shared inputs, used by the
// monitors that quantify over "every operation" (C01, C31, C32, C33).
#pragma once
#include "ref.hpp"
#include "malg/eigen.hpp"

// Collects results.
struct Sink {
    u64 bits = 0;               // everything, bit by bit
    u64 exact_h = 0;            // what must be identical in every build
    std::vector<double> approx_v; // what must agree up to rounding
    bool keep = false;          // record approx_v
    bool inconsistent = false;
    template <typename T> static u64 one(const T &x)
    {
        if constexpr (is_cx<T>) return vf::mix(one(x.real()) * 31 + one(x.imag()));
        else if constexpr (std::is_floating_point_v<T>) { double d = static_cast<double>(x); if (d == 0) d = 0; u64 b; std::memcpy(&b, &d, 8); return vf::mix(b); }
        else return vf::mix(static_cast<u64>(x));
    }
    template <typename T> void val(const T &x, bool ex)
    {
        u64 h = one(x);
        bits = vf::mix(bits ^ h);
        if (ex) exact_h = vf::mix(exact_h ^ h);
        else if (keep) { if constexpr (is_cx<T>) { approx_v.push_back(static_cast<double>(x.real())); approx_v.push_back(static_cast<double>(x.imag())); } else approx_v.push_back(static_cast<double>(x)); }
    }
    void dims(size_t r, size_t c) { val(r, true); val(c, true); }
    template <typename T> void put(const malg::MatrixBase<T> &A, bool ex)
    {
        vf::Pause p;
        if (A.size() != A.rows() * A.cols() || A.empty() != (A.size() == 0)) inconsistent = true;
        dims(A.rows(), A.cols());
        for (size_t r = 0; r < A.rows(); ++r) for (size_t c = 0; c < A.cols(); ++c) val<std::remove_const_t<T>>(A(r, c), ex);
    }
    template <typename T> void put(const malg::Vector<T> &v, bool ex)
    {
        vf::Pause p;
        dims(v.size(), 1);
        for (size_t i = 0; i < v.size(); ++i) val(v[i], ex);
    }
    void put(const std::string &s, bool) { vf::Pause p; for (char c : s) val(static_cast<int>(c), true); val(s.size(), true); }
    template <typename T> std::enable_if_t<std::is_arithmetic_v<T> || is_cx<T>> put(const T &x, bool ex) { vf::Pause p; val(x, ex); }
    template <typename T> void put(const std::vector<T> &v, bool ex) { vf::Pause p; dims(v.size(), 2); for (auto &x : v) put(x, ex); }
    template <typename A, typename B> void put(const std::pair<A, B> &v, bool ex) { put(v.first, ex); put(v.second, ex); }
    template <typename T> void exact(const T &x) { put(x, true); }
    template <typename T> void approx(const T &x) { put(x, false); }
};

template <typename T>
struct Inputs {
    malg::Matrix<T> A, B;  // n x n; A is well conditioned
    malg::Matrix<T> C, D;  // r x c
    malg::Matrix<int> AI;  // n x n
    malg::Matrix<T> col;   // n x 1
    malg::Matrix<T> tall;  // tall full rank
    malg::Matrix<T> wide;  // its counterpart with more columns than rows
    malg::Vector<T> v, w;  // n
    malg::Vector<T> vc, vr; // c, r
    malg::Vector<T> rt;    // tall rows
    malg::Matrix<T> tri;   // upper triangular, distinct diagonal
    malg::Matrix<T> hes;   // upper Hessenberg
    malg::Matrix<T> poles; // 1 x n
    malg::control::StateSpace<T> sys;
    malg::control::DiscreteStateSpace<T> dsys;
    std::vector<malg::Vector<T>> u;
    malg::Vector<T> x0;
    T s = T(2);
    size_t n = 0, R = 0, Cn = 0;
    Inputs(Rng &r, size_t nn, size_t rr, size_t cc) : n(nn), R(rr), Cn(cc)
    {
        auto dom = [&](size_t k) { auto m = imod<T>(r, k, k, -3, 3); for (size_t i = 0; i < k; ++i) m(i, i) = T(static_cast<int>(3 * k + 2 + i)); return m; };
        A = mat(dom(n));
        B = mat(imod<T>(r, n, n, -4, 4));
        C = mat(imod<T>(r, R, Cn, -4, 4));
        D = mat(imod<T>(r, R, Cn, -4, 4));
        AI = mat(imod<int>(r, n, n, -4, 4));
        v = vec(ivec<T>(r, n, 1, 5));
        w = vec(ivec<T>(r, n, -5, 5));
        w[0] = T(3);
        vc = vec(ivec<T>(r, Cn));
        vr = vec(ivec<T>(r, R));
        auto t = imod<T>(r, n + 2, n, -2, 2);
        for (size_t i = 0; i < n; ++i) t(i, i) = T(static_cast<int>(3 * n + 3));
        tall = mat(t);
        rt = vec(ivec<T>(r, n + 2));
        auto wd = imod<T>(r, n, n + 2, -2, 2);
        for (size_t i = 0; i < n; ++i) wd(i, i) = T(static_cast<int>(3 * n + 3));
        wide = mat(wd);
        Mod<T> u0(n, n), h0(n, n);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                if (i <= j) u0(i, j) = i == j ? T(static_cast<int>(i * 2 + 1)) : ival<T>(r, -2, 2);
                if (i <= j + 1) h0(i, j) = i == j ? T(static_cast<int>(4 + i)) : i == j + 1 ? T(1) : ival<T>(r, -2, 2);
            }
        tri = mat(u0);
        hes = mat(h0);
        Mod<T> ctrl(n, 1);
        for (auto &x : ctrl.d) x = T(static_cast<int>(r.range(1, 3)));
        col = mat(ctrl);
        Mod<T> pl(1, n);
        for (size_t i = 0; i < n; ++i) pl(0, i) = T(-static_cast<int>(i) - 1);
        poles = mat(pl);
        size_t in = 1 + r.below(2), out = 1 + r.below(2);
        sys = malg::control::StateSpace<T>(A, mat(imod<T>(r, n, in)), mat(imod<T>(r, out, n)), mat(imod<T>(r, out, in)));
        auto small = imod<T>(r, n, n, -1, 1);
        dsys = malg::control::DiscreteStateSpace<T>(mat(small), sys.B, sys.C, sys.D, T(1));
        for (int k = 0; k < 4; ++k) u.push_back(vec(ivec<T>(r, in)));
        x0 = vec(ivec<T>(r, n));
    }
    // Fingerprint of all the inputs.
    u64 print() const
    {
        Sink k;
        k.exact(A); k.exact(B); k.exact(C); k.exact(D); k.exact(AI); k.exact(col); k.exact(tall); k.exact(wide); k.exact(v); k.exact(w); k.exact(vc); k.exact(vr); k.exact(rt);
        k.exact(tri); k.exact(hes); k.exact(poles); k.exact(sys.A); k.exact(sys.B); k.exact(sys.C); k.exact(sys.D); k.exact(dsys.A); k.exact(dsys.B); k.exact(dsys.C); k.exact(dsys.D);
        k.exact(dsys.sample_time); for (auto &x : u) k.exact(x); k.exact(x0); k.exact(s);
        return k.bits;
    }
};

enum { LINEAR = 1, IO = 2, RANDOM = 4, HEAVY = 8 };
template <typename T> struct OpDef { const char *name; int flags; void (*fn)(const Inputs<T> &, Sink &); };

template <typename T>
const std::vector<OpDef<T>> &ops()
{
    using namespace malg;
    using I = const Inputs<T> &;
    using S = Sink &;
    static const std::vector<OpDef<T>> table = [] {
        std::vector<OpDef<T>> o;
        auto op = [&](const char *n, int f, void (*fn)(I, S)) { o.push_back({ n, f, fn }); };
        constexpr bool cx = is_cx<T>, fl = std::is_floating_point_v<T>, in = std::is_integral_v<T>;
        op("copy", 0, [](I i, S s) { Matrix<T> X(i.C); s.exact(X); Vector<T> y(i.v); s.exact(y); Matrix<T> Z; Z = i.A; s.exact(Z); });
        op("convert", 0, [](I i, S s) { Matrix<T> X(i.AI); s.exact(X); Matrix<T> Y; Y = i.AI; s.exact(Y); });
        op("add", 0, [](I i, S s) { s.exact(i.A + i.B); s.exact(i.A + i.AI); s.exact(i.C + i.s); s.exact(i.C + i.D); s.exact(i.v + i.w); s.exact(i.v + i.s); });
        op("sub", 0, [](I i, S s) { s.exact(i.A - i.B); s.exact(i.AI - i.A); s.exact(i.C - i.s); s.exact(i.C - i.D); s.exact(i.v - i.w); s.exact(i.v - i.s); });
        op("mul-scalar", 0, [](I i, S s) { s.exact(i.A * i.s); s.exact(i.s * i.C); s.exact(i.v * i.s); });
        op("div-scalar", 0, [](I i, S s) { s.exact(i.A / i.s); s.exact(i.v / i.s); s.exact(i.C / i.s); });
        op("vector-product", 0, [](I i, S s) { s.exact(i.v * i.w); s.exact(dot(i.v, i.w)); });
        op("product", 0, [](I i, S s) { s.exact(i.A * i.B); s.exact(i.A * i.AI); s.exact(i.A * i.col); s.exact(linalg::transpose(i.C) * i.D); s.exact(i.C * linalg::transpose(i.D)); });
        op("matrix-vector", 0, [](I i, S s) { s.exact(i.C * i.vc); s.exact(dot(i.C, i.vc)); });
        op("compare", LINEAR, [](I i, S s) { s.exact(i.A == i.B); s.exact(i.A != i.A); s.exact(i.v == i.w); s.exact(i.v != i.w);
            if constexpr (!is_cx<T>) { s.exact(utility::compare(i.A, i.B)); s.exact(utility::compare(i.v, i.w)); } });
        op("equality", 0, [](I i, S s) { s.exact(i.C == i.D); s.exact(i.C != i.D); s.exact(i.C == T(1)); s.exact(i.C != T(0)); s.exact(i.v == i.v[0]); s.exact(i.v != T(2)); });
        // Comparisons that depend on the tolerance in force.
        if constexpr (!in) op("nearly-equal", 0, [](I i, S s) { using Q = malg::is_complex_t<T>; auto N = i.C * static_cast<Q>(1 + 5e-7), M = i.C * static_cast<Q>(1 + 1e-4); auto w = i.v * static_cast<Q>(1 - 5e-7); s.exact(all(i.C == N)); s.exact(any(i.C != N)); s.exact(i.C == M); s.exact(all(i.v == w)); });
        if constexpr (!cx) op("order", 0, [](I i, S s) { s.exact(all(i.A > i.B)); s.exact(i.C > i.D); s.exact(i.C >= i.D); s.exact(i.C < i.D); s.exact(i.C <= i.D); s.exact(i.A >= i.B); s.exact(i.C < T(1)); s.exact(i.C <= T(1)); s.exact(any(i.A < i.B)); s.exact(all(i.v)); s.exact(any(i.v)); });
        op("transpose", 0, [](I i, S s) { s.exact(linalg::transpose(i.C)); s.exact(linalg::transpose(i.A)); });
        if constexpr (cx) op("hermitian", 0, [](I i, S s) { s.exact(linalg::hermitian_transpose(i.C)); s.exact(linalg::conjugate_transpose(i.A)); });
        op("powm", 0, [](I i, S s) { s.exact(linalg::powm(i.B, 3)); s.exact(linalg::powm(i.B, 0)); });
        op("cofactor", 0, [](I i, S s) { s.exact(linalg::cofactor(i.A, i.n / 2, 0)); s.exact(linalg::cofactor(i.A, 0, i.n - 1)); s.exact(linalg::cofactor(i.C, i.R / 2, i.Cn / 2)); });
        op("determinant", 0, [](I i, S s) { if (std::is_integral_v<T> && i.n > 4) return; if constexpr (std::is_integral_v<T>) s.exact(linalg::determinant(i.A)); else s.approx(linalg::determinant(i.A)); });
        op("adjoint", HEAVY, [](I i, S s) { if constexpr (std::is_integral_v<T>) s.exact(linalg::adjoint(i.A)); else s.approx(linalg::adjoint(i.A)); });
        if constexpr (fl || cx) op("inverse", HEAVY, [](I i, S s) { s.approx(linalg::inverse(i.A)); });
        if constexpr (fl || cx) op("divide", HEAVY, [](I i, S s) { s.approx(linalg::div(i.B, i.A)); });
        op("lu", 0, [](I i, S s) { auto p = linalg::lu_decomposition(i.A); s.approx(p.first); s.approx(p.second); });
        if constexpr (fl) op("qr", HEAVY, [](I i, S s) { auto p = linalg::qr_decomposition(i.A); s.approx(p.first); s.approx(p.second); auto q = linalg::qr_decomposition(i.tall); s.approx(q.first); s.approx(q.second); });
        if constexpr (fl) op("solve", HEAVY, [](I i, S s) { s.approx(linalg::solve(i.A, i.v)); });
        if constexpr (fl) op("solve-tall", HEAVY, [](I i, S s) { s.approx(linalg::solve(i.tall, i.rt)); });
        if constexpr (fl) op("solve-wide", HEAVY, [](I i, S s) { s.approx(linalg::solve(i.wide, i.v)); });
        if constexpr (fl) op("exp", 0, [](I i, S s) { s.approx(linalg::exp(i.B)); s.approx(linalg::exp(i.C)); });
        if constexpr (fl || cx) op("expm", HEAVY, [](I i, S s) { s.approx(linalg::expm(i.B / T(16), 1e-6)); });
        op("edit", 0, [](I i, S s) { Matrix<T> X(i.C); utility::swap_rows(X, 0, i.R - 1); s.exact(X); utility::swap_cols(X, 0, i.Cn - 1, i.R / 2); s.exact(X); if (i.R > 1) utility::remove_row(X, i.R / 2); s.exact(X); if (i.Cn > 1) utility::remove_column(X, 0); s.exact(X); X.resize(i.R + 1, i.Cn + 2); s.exact(X); X += T(1); X *= i.s; s.exact(X); X = i.D; X -= i.C; s.exact(X); });
        op("builders", 0, [](I i, S s) { s.exact(utility::eye<T>(i.R, i.Cn, i.s)); s.exact(utility::identity<T>(i.n)); s.exact(utility::zeros<T>(i.R, i.Cn)); s.exact(utility::ones<T>(i.R, i.Cn)); s.exact(utility::zeros<T>(i.n)); s.exact(utility::ones<T>(i.n)); });
        op("diag", 0, [](I i, S s) { s.exact(utility::diag(i.A)); s.exact(utility::diag(i.C)); s.exact(utility::diag(i.v)); });
        op("to_matrix", 0, [](I i, S s) { s.exact(utility::to_matrix(i.v, true)); s.exact(utility::to_matrix(i.v, false)); s.exact(utility::to_vector(i.col)); });
        op("ravel", LINEAR, [](I i, S s) { s.exact(utility::ravel(i.C)); });
        op("vstack", 0, [](I i, S s) { s.exact(utility::vstack(i.A, i.B)); s.exact(utility::vstack(i.A, i.AI)); s.exact(utility::vstack(i.A, i.v)); s.exact(utility::vstack(i.C, i.D)); s.exact(utility::vstack(i.C, i.vc)); });
        op("hstack", 0, [](I i, S s) { s.exact(utility::hstack(i.A, i.B)); s.exact(utility::hstack(i.C, i.D)); s.exact(utility::hstack(i.A, i.v)); s.exact(utility::hstack(i.C, i.vr)); });
        op("concatenate", 0, [](I i, S s) { s.exact(utility::concatenate(i.v, i.w)); s.exact(utility::concatenate(i.v, i.vc)); });
        op("extract", 0, [](I i, S s) { s.exact(utility::extract(i.A, 0, i.n - 1, 0, i.n)); s.exact(utility::extract_row(i.C, i.R - 1)); s.exact(utility::extract_column(i.C, i.Cn - 1)); s.exact(utility::extract(i.C, i.R / 2, i.R, i.Cn / 2, i.Cn)); s.exact(utility::extract_row(i.C, 0, i.Cn / 2)); s.exact(utility::extract_column(i.C, 0, i.R / 2)); });
        op("structure", 0, [](I i, S s) { s.exact(static_cast<int>(utility::is_square(i.C))); s.exact(static_cast<int>(utility::is_symmetric(i.A))); s.exact(static_cast<int>(utility::is_skew_symmetric(i.A)));
            s.exact(static_cast<int>(utility::is_zero(i.B))); s.exact(static_cast<int>(utility::is_constant(i.B))); s.exact(static_cast<int>(utility::is_zero(i.C))); s.exact(static_cast<int>(utility::is_constant(i.D))); s.exact(static_cast<int>(utility::is_identity(i.B))); s.exact(static_cast<int>(utility::is_column_vector(i.col))); s.exact(static_cast<int>(utility::is_row_vector(i.col)));
            if constexpr (!is_cx<T>) { s.exact(static_cast<int>(utility::is_diagonal(i.A))); s.exact(static_cast<int>(utility::is_lower_triangular(i.A))); s.exact(static_cast<int>(utility::is_upper_triangular(i.tri))); } });
        op("all_close", 0, [](I i, S s) { s.exact(static_cast<int>(utility::all_close(i.A, i.B))); s.exact(static_cast<int>(utility::all_close(i.A, i.A))); s.exact(static_cast<int>(utility::all_close(i.v, i.w))); s.exact(static_cast<int>(utility::all_close(i.C, i.D, 4.))); });
        if constexpr (!cx) op("find", LINEAR, [](I i, S s) { s.exact(utility::flatnonzero(i.C)); s.exact(utility::find(i.C)); s.exact(utility::find(i.C, 2, false)); });
        op("view", 0, [](I i, S s) { auto x = i.C({ 0, i.R }, { i.Cn / 2, i.Cn }); s.exact(x); auto y = i.A({ i.n / 2, static_cast<size_t>(-1) }, { 0, 1 }); s.exact(y); Matrix<T> Z(y); s.exact(Z); s.exact(x + T(1)); });
        op("row-col-view", 0, [](I i, S s) { auto x = utility::row(i.C, 0); s.exact(x); auto y = utility::col(i.C, i.Cn - 1); s.exact(y); s.exact(x + x); s.exact(linalg::transpose(y)); });
        op("cofactor-view", 0, [](I i, S s) { CofactorView<const Matrix<T>> x(&i.A, 0, i.n - 1); s.exact(x); Matrix<T> Z(x); s.exact(Z); s.exact(x * T(2)); CofactorView<const Matrix<T>> y(&i.C, i.R - 1, 0); s.exact(y); Matrix<T> Y(y); s.exact(Y); });
        if constexpr (!in) op("element-wise", 0, [](I i, S s) { s.exact(element_wise_function(i.C, [](T x) { return x + x; })); s.exact(element_wise_function(i.v, [](T x) { return x * x; })); s.exact(element_wise_binary_function(i.C, i.D, [](T x, T y) { return x * y; })); s.exact(element_wise_binary_function(i.v, i.w, [](T x, T y) { return x - y; })); });
        op("element-wise-product", 0, [](I i, S s) { s.exact(element_wise_product(i.C, i.D)); s.exact(linear_combination(i.C, i.s, i.D, T(3))); });
        if constexpr (cx) op("parts", 0, [](I i, S s) { s.exact(real(i.C)); s.exact(imag(i.v)); s.approx(malg::abs(i.C)); });
        if constexpr (!cx) op("abs-sign", 0, [](I i, S s) { s.exact(malg::abs(i.C)); s.exact(malg::abs(i.w)); s.exact(sign(i.A + T(100))); s.exact(sign(i.C + T(50))); });
        op("sums", 0, [](I i, S s) { s.exact(malg::sum(i.v)); s.exact(malg::trace(i.A)); s.exact(malg::trace(i.C)); });
        if constexpr (!cx) op("min-max", 0, [](I i, S s) { auto a = malg::min(i.w); s.exact(a.first); s.exact(a.second); auto b = malg::max(i.w); s.exact(b.first); s.exact(b.second); s.exact(malg::min(i.C)); s.exact(malg::max(i.C)); });
        if constexpr (!in) op("norms", 0, [](I i, S s) { s.approx(malg::square_norm(i.C)); s.approx(malg::square_norm(i.v)); s.approx(malg::infinity_norm(i.C)); s.approx(malg::infinity_norm(i.w)); s.approx(malg::sub_norm(i.A)); s.exact(malg::log2_ceil(i.A)); s.approx(malg::vector_length(i.A, 0, 1)); s.approx(malg::vector_length(i.C, i.Cn - 1, 0, i.R)); });
        if constexpr (fl) op("projection", 0, [](I i, S s) { s.approx(malg::projection(i.v, i.w)); });
        op("accumulate", 0, [](I i, S s) { Vector<T> a(i.v), b(i.w); s.exact(utility::accumulate(a.data(), a.data() + a.size(), T(1))); s.exact(utility::inner_product(a.data(), a.data() + a.size(), b.data(), T(0))); });
        op("print", IO, [](I i, S s) { std::ostringstream q; q << i.A << i.v; q.precision(12); q << i.C << "|" << i.sys; s.exact(q.str()); });
        op("dump", IO, [](I i, S s) { s.exact(dump_matrix("a", i.C)); s.exact(dump_vector("b", i.v)); s.exact(to_matlab("c", i.C)); s.exact(to_matlab("d", i.v)); s.exact(to_cpp("e", "t", i.C)); s.exact(to_cpp("f", "t", i.v)); });
        if constexpr (fl) op("c2d", HEAVY, [](I i, S s) { auto d = control::c2d(i.sys, T(0.01)); s.approx(d.A); s.approx(d.B); s.exact(d.C); s.exact(d.D); });
        if constexpr (fl) op("simulate", 0, [](I i, S s) { auto q = control::simulate(i.dsys, i.u, T(3.5), i.x0); (void)q; auto st = control::simulate_step(i.dsys, i.x0, i.u[0]); s.exact(st.first); s.exact(st.second); for (auto &x : std::get<0>(q)) s.exact(x); for (auto &x : std::get<1>(q)) s.exact(x); for (auto &x : std::get<2>(q)) s.exact(x); });
        op("ctrb-obsv", HEAVY, [](I i, S s) { s.exact(control::ctrb(i.B, i.col)); s.exact(control::obsv(i.B, utility::to_matrix(i.v, true))); });
        op("poly", HEAVY, [](I i, S s) { s.exact(control::poly(i.v)); if constexpr (!std::is_integral_v<T>) s.approx(control::poly(i.B)); else s.exact(control::poly(i.B)); });
        if constexpr (!cx) op("polyreduce", 0, [](I i, S s) { s.exact(control::polyreduce(i.w)); });
        if constexpr (fl) op("acker", HEAVY, [](I i, S s) { Matrix<T> b(i.n, 1, T(0)); b(i.n - 1, 0) = T(1); Matrix<T> a(i.n, i.n, T(0)); for (size_t k = 0; k < i.n; ++k) { if (k + 1 < i.n) a(k, k + 1) = T(1); a(i.n - 1, k) = i.B(0, k); } s.approx(control::acker(a, b, i.poles)); });
        if constexpr (cx) op("hessenberg", HEAVY, [](I i, S s) { auto p = eigen::hessenberg(i.A); s.approx(p.first); s.approx(p.second); });
        if constexpr (cx) op("givens", HEAVY, [](I i, S s) { auto p = eigen::qr_factorise_givens(i.hes); s.approx(p.first); s.approx(p.second); });
        if constexpr (cx) op("schur", HEAVY, [](I i, S s) { auto p = eigen::QRHessenberg(i.tri / T(64)); s.approx(p.first * p.second * linalg::hermitian_transpose(p.first)); });
        if constexpr (cx) op("eigenvectors", HEAVY, [](I i, S s) { auto p = eigen::eigenvectorUpper(i.tri); s.approx(p.first); s.exact(static_cast<int>(p.second)); });
        if constexpr (fl) op("linspace", 0, [](I i, S s) { s.exact(utility::linspace<T>(T(0), T(8), 9)); s.approx(utility::logspace<T>(T(0), T(2), 5)); (void)i; });
        if constexpr (!cx) op("rand", RANDOM, [](I i, S s) { auto M = utility::rand_matrix<T>(i.R, i.Cn, T(2), T(5)); s.exact(M.size()); for (size_t k = 0; k < M.size(); ++k) if (M[k] < T(2) || M[k] > T(5)) s.inconsistent = true; auto V = utility::rand_vector<T>(i.n, T(2), T(5)); s.exact(V.size()); });
        return o;
    }();
    return table;
}
