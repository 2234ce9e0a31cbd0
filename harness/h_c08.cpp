// C08: builders, stacking, extraction, row and column edits.
#include "gen.hpp"
using namespace malg;
static const Large large(300);
static const Long long_cases(80);
template <typename A, typename B> using CT = extract_common_type_t<A, B>;
static const size_t END = std::numeric_limits<size_t>::max();

template <typename T>
void builders(Rng &r)
{
    size_t R = dim(r, false, 30), C = dim(r, false, 30);
    T v = ival<T>(r, -9, 9);
    vf::note(R * 64 + C + hash_of(v));
    Mod<T> w(R, C);
    for (size_t i = 0; i < std::min(R, C); ++i) w(i, i) = v;
    check_eq(utility::eye<T>(R, C, v), w, "eye");
    check_eq(utility::identity<T>(R), meye<T>(R), "identity");
    Mod<T> wi(R, R);
    for (size_t i = 0; i < R; ++i) wi(i, i) = v;
    check_eq(utility::identity<T>(R, v), wi, "identity-value");
    check_eq(utility::zeros<T>(R, C), Mod<T>(R, C), "zeros");
    check_eq(utility::ones<T>(R, C), Mod<T>(R, C, T(1)), "ones");
    check_eq(utility::zeros<T>(R), std::vector<T>(R, T(0)), "zeros-vector");
    check_eq(utility::ones<T>(R), std::vector<T>(R, T(1)), "ones-vector");
    // Diagonal matrices and vectors.
    auto d = ivec<T>(r, dim(r, true, 20));
    auto D = vec(d);
    Mod<T> wd(d.size(), d.size());
    for (size_t i = 0; i < d.size(); ++i) wd(i, i) = d[i];
    check_eq(utility::diag(D), wd, "diag-build");
    check_eq(D, d, "vector-modified");
    auto a = imod<T>(r, R, C);
    Operand<T> A(r, a);
    std::vector<T> wv(std::min(R, C));
    for (size_t i = 0; i < wv.size(); ++i) wv[i] = a(i, i);
    check_eq(utility::diag(A.get()), wv, "diag-extract");
    if (A.has_const()) check_eq(utility::diag(A.cget()), wv, "diag-extract-const");
    // Conversions.
    Mod<T> wr(1, d.size()), wc(d.size(), 1);
    wr.d = d; wc.d = d;
    check_eq(utility::to_matrix(D, true), wr, "to_matrix-row");
    check_eq(utility::to_matrix(D, false), wc, "to_matrix-column");
    auto M = mat(a);
    std::vector<T> lin(a.size());
    for (size_t k = 0; k < lin.size(); ++k) lin[k] = a.linear(k);
    check_eq(utility::to_vector(M), lin, "to_vector");
    check_eq(utility::ravel(A.get()), lin, "ravel");
    if (A.has_const()) check_eq(utility::ravel(A.cget()), lin, "ravel-const");
    check_eq(M, a, "matrix-modified");
    PURE(A);
}
template <typename T1, typename T2>
void stacking(Rng &r)
{
    using W = CT<T1, T2>;
    size_t R = dim(r, true, 12), C = dim(r, true, 12), k = dim(r, true, 12);
    auto a = imod<T1>(r, R, C);
    auto b = imod<T2>(r, k, C);
    auto c = imod<T2>(r, R, k);
    Operand<T1> A(r, a);
    Operand<T2> B(r, b), D(r, c);
    vf::note(a.hash() * 3 + b.hash() + c.hash() * 5);
    Mod<W> wv(R + k, C), wh(R, C + k);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) wv(i, j) = wh(i, j) = conv<W>(a(i, j));
    for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < C; ++j) wv(R + i, j) = conv<W>(b(i, j));
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < k; ++j) wh(i, C + j) = conv<W>(c(i, j));
    auto q = utility::vstack(A.get(), B.get());
    static_assert(std::is_same_v<decltype(q), Matrix<W>>);
    check_eq(q, wv, "vstack");
    auto h = utility::hstack(A.get(), D.get());
    static_assert(std::is_same_v<decltype(h), Matrix<W>>);
    check_eq(h, wh, "hstack");
    // The same operand twice.
    if constexpr (std::is_same_v<T1, T2>) {
        Mod<W> ww(R + R, C);
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) ww(i, j) = ww(R + i, j) = a(i, j);
        check_eq(utility::vstack(A.get(), A.get()), ww, "vstack-aliased");
    }
    // Vectors.
    auto x = ivec<T2>(r, C), y = ivec<T2>(r, R);
    auto X = vec(x), Y = vec(y);
    Mod<W> wx(R + 1, C), wy(R, C + 1);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) wx(i, j) = wy(i, j) = conv<W>(a(i, j));
    for (size_t j = 0; j < C; ++j) wx(R, j) = conv<W>(x[j]);
    for (size_t i = 0; i < R; ++i) wy(i, C) = conv<W>(y[i]);
    check_eq(utility::vstack(A.get(), X), wx, "vstack-vector");
    check_eq(utility::hstack(A.get(), Y), wy, "hstack-vector");
    check_eq(X, x, "vector-modified");
    check_eq(Y, y, "vector-modified");
    PURE(A); PURE(B); PURE(D);
    auto u = ivec<T1>(r, dim(r, true, 20));
    auto U = vec(u);
    std::vector<W> wc;
    for (auto &e : u) wc.push_back(conv<W>(e));
    for (auto &e : x) wc.push_back(conv<W>(e));
    check_eq(utility::concatenate(U, X), wc, "concatenate");
    check_eq(U, u, "vector-modified");
}
template <typename T>
void extraction(Rng &r)
{
    size_t R = dim(r, false, 14), C = dim(r, false, 14);
    auto a = imod<T>(r, R, C);
    Operand<T> A(r, a);
    size_t r0 = r.below(R), r1 = r0 + 1 + r.below(R - r0), c0 = r.below(C), c1 = c0 + 1 + r.below(C - c0);
    size_t e1 = r1, f1 = c1; // as passed: possibly beyond the end
    if (r.chance(1, 5)) { r1 = R; e1 = r.chance(1, 2) ? END : R + r.below(4); }
    if (r.chance(1, 5)) { c1 = C; f1 = r.chance(1, 2) ? END : C + r.below(4); }
    vf::note(a.hash() * 7 + r0 + r1 * 16 + c0 * 256 + c1 * 4096);
    std::ostringstream o;
    o << "[" << r0 << "," << e1 << ")x[" << c0 << "," << f1 << ") of " << show(a);
    Mod<T> w(r1 - r0, c1 - c0);
    for (size_t i = 0; i < w.R; ++i) for (size_t j = 0; j < w.C; ++j) w(i, j) = a(r0 + i, c0 + j);
    check_eq(utility::extract(A.get(), r0, e1, c0, f1), w, "extract", o.str());
    if (A.has_const()) check_eq(utility::extract(A.cget(), r0, e1, c0, f1), w, "extract-const", o.str());
    check_eq(utility::extract(A.get()), a, "extract-all");
    // The bounds left out are those of the matrix.
    auto part = [&](size_t a0, size_t a1, size_t b0) { Mod<T> q(a1 - a0, C - b0); for (size_t i = 0; i < q.R; ++i) for (size_t j = 0; j < q.C; ++j) q(i, j) = a(a0 + i, b0 + j); return q; };
    switch (r.range(0, 2)) {
    case 0: check_eq(utility::extract(A.get(), r0), part(r0, R, 0), "extract-from-row", o.str()); break;
    case 1: check_eq(utility::extract(A.get(), r0, e1), part(r0, r1, 0), "extract-rows", o.str()); break;
    default: check_eq(utility::extract(A.get(), r0, e1, c0), part(r0, r1, c0), "extract-from-column", o.str());
    }
    size_t col = r.below(C), row = r.below(R);
    std::vector<T> wc, wr, wca, wra;
    for (size_t i = r0; i < r1; ++i) wc.push_back(a(i, col));
    for (size_t j = c0; j < c1; ++j) wr.push_back(a(row, j));
    for (size_t i = 0; i < R; ++i) wca.push_back(a(i, col));
    for (size_t j = 0; j < C; ++j) wra.push_back(a(row, j));
    check_eq(utility::extract_column(A.get(), col, r0, e1), wc, "extract_column", o.str());
    check_eq(utility::extract_row(A.get(), row, c0, f1), wr, "extract_row", o.str());
    check_eq(utility::extract_column(A.get(), col, r0), std::vector<T>(wca.begin() + static_cast<long>(r0), wca.end()), "extract_column-from", o.str());
    check_eq(utility::extract_row(A.get(), row, c0), std::vector<T>(wra.begin() + static_cast<long>(c0), wra.end()), "extract_row-from", o.str());
    check_eq(utility::extract_column(A.get(), col), wca, "extract_column-all", o.str());
    check_eq(utility::extract_row(A.get(), row), wra, "extract_row-all", o.str());
    if (A.has_const()) { check_eq(utility::extract_column(A.cget(), col), wca, "extract_column-const", o.str()); check_eq(utility::extract_row(A.cget(), row), wra, "extract_row-const", o.str()); }
    PURE(A);
    if (vf::st().samples.size() < 2) vf::sample(o.str());
}
template <typename T>
void edits(Rng &r)
{
    size_t R = dim(r, false, 12), C = dim(r, false, 12);
    auto a = imod<T>(r, R, C, -99, 99);
    vf::note(a.hash() * 11);
    { // Swaps, also on a sub-range and through a view.
        Operand<T> A(r, a);
        auto w = a;
        for (int k = 0; k < 3; ++k) {
            size_t i = r.below(R), j = r.below(R), c0 = 0, c1 = END;
            if (r.chance(1, 2)) { c0 = r.below(C + 1); c1 = r.chance(1, 3) ? END : r.chance(1, 4) ? C + r.below(5) : c0 + r.below(C - c0 + 1); }
            if (c0 == 0 && c1 == END) utility::swap_rows(A.get(), i, j);
            else if (c1 == END) utility::swap_rows(A.get(), i, j, c0);
            else utility::swap_rows(A.get(), i, j, c0, c1);
            for (size_t c = c0; c < std::min(c1, C); ++c) std::swap(w(i, c), w(j, c));
            A.check_window(w, "swap_rows");
            i = r.below(C); j = r.below(C);
            size_t r0 = 0, r1 = END;
            if (r.chance(1, 2)) { r0 = r.below(R + 1); r1 = r.chance(1, 3) ? END : r.chance(1, 4) ? R + r.below(5) : r0 + r.below(R - r0 + 1); }
            if (r0 == 0 && r1 == END) utility::swap_cols(A.get(), i, j);
            else if (r1 == END) utility::swap_cols(A.get(), i, j, r0);
            else utility::swap_cols(A.get(), i, j, r0, r1);
            for (size_t q = r0; q < std::min(r1, R); ++q) std::swap(w(q, i), w(q, j));
            A.check_window(w, "swap_cols");
        }
    }
    { // Removal, down to nothing.
        auto M = mat(a);
        auto w = a;
        int steps = static_cast<int>(r.range(1, 4));
        for (int k = 0; k < steps; ++k) {
            if (r.chance(1, 2)) {
                if (w.R == 0) break;
                size_t i = r.chance(1, 3) ? w.R - 1 : r.below(w.R);
                Matrix<T> *ret = &utility::remove_row(M, i);
                VF_CHECK(ret == &M, "remove-returns", "remove_row");
                Mod<T> n(w.R - 1, w.C);
                for (size_t y = 0; y < n.R; ++y) for (size_t z = 0; z < n.C; ++z) n(y, z) = w(y + (y >= i), z);
                check_eq(M, n, "remove_row", "row " + std::to_string(i) + " of " + show(w));
                w = n;
            } else {
                if (w.C == 0) break;
                size_t j = r.chance(1, 3) ? w.C - 1 : r.below(w.C);
                Matrix<T> *ret = &utility::remove_column(M, j);
                VF_CHECK(ret == &M, "remove-returns", "remove_column");
                Mod<T> n(w.R, w.C - 1);
                for (size_t y = 0; y < n.R; ++y) for (size_t z = 0; z < n.C; ++z) n(y, z) = w(y, z + (z >= j));
                check_eq(M, n, "remove_column", "column " + std::to_string(j) + " of " + show(w));
                w = n;
            }
        }
    }
}
SCENARIO(builders, 2) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); pick_type(r, [&](auto t) { builders<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>(), Ty<float>(), Ty<long>(), Ty<long double>()); }
SCENARIO(stacking, 4)
{ Grained grained(r.chance(2, 3) ? ANY : WHOLE);
    switch (r.range(0, 7)) {
    case 6: if (r.chance(1, 2)) stacking<long, long>(r); else stacking<long double, long double>(r); break;
    case 7: if (r.chance(1, 2)) stacking<long, int>(r); else stacking<int, long>(r); break;
    case 0: stacking<int, int>(r); break;
    case 1: stacking<double, double>(r); break;
    case 2: stacking<int, double>(r); break;
    case 3: stacking<double, int>(r); break;
    case 4: stacking<cd, cd>(r); break;
    default: stacking<double, cd>(r); break;
    }
}
SCENARIO(extraction, 4) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); pick_type(r, [&](auto t) { extraction<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>(), Ty<long>(), Ty<long double>()); }
SCENARIO(edits, 4) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); pick_type(r, [&](auto t) { edits<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>(), Ty<long>(), Ty<long double>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
