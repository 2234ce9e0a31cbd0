// C02: value semantics of Matrix and Vector over histories, against an abstract model.
#include "gen.hpp"
using namespace malg;
static const Large large(300);
static const Long long_cases(80);

// Abstract resize/reshape.
template <typename T> Mod<T> m_resize(const Mod<T> &m, size_t R, size_t C)
{
    Mod<T> o(R, C);
    for (size_t r = 0; r < std::min(R, m.R); ++r) for (size_t c = 0; c < std::min(C, m.C); ++c) o(r, c) = m(r, c);
    return o;
}
template <typename T> Mod<T> m_reshape(const Mod<T> &m, size_t R, size_t C)
{
    Mod<T> o(R, C);
    for (size_t k = 0; k < o.size(); ++k) o.d[Mod<T>::lin(k, R, C)] = m.d[Mod<T>::lin(k, m.R, m.C)];
    return o;
}
template <typename T>
struct Pool {
    std::vector<std::unique_ptr<Matrix<T>>> m;
    std::vector<Mod<T>> w;
    std::vector<std::unique_ptr<Vector<T>>> v;
    std::vector<std::vector<T>> x;
    std::string hist;
    u64 h = 0;
    void log(const std::string &s) { hist += s + "; "; vf::op(s.c_str()); }
    void check(const char *step)
    {
        std::set<const void *> seen;
        for (size_t i = 0; i < m.size(); ++i) {
            VF_CHECK(equals(*m[i], w[i]), step, "matrix " << i << " is " << show(*m[i]) << " want " << show(w[i]) << " after " << hist);
            if (m[i]->size()) {
                VF_CHECK(m[i]->data() != nullptr && seen.insert(m[i]->data()).second, "shared-storage", "matrix " << i << " shares its storage after " << hist);
                VF_CHECK(static_cast<size_t>(m[i]->end() - m[i]->begin()) == m[i]->size(), "iterators", "matrix " << i << " after " << hist);
                VF_CHECK(&(*m[i])[0] == m[i]->data() && &*m[i]->begin() == m[i]->data(), "data-pointer", "matrix " << i << " after " << hist);
            }
        }
        for (size_t i = 0; i < v.size(); ++i) {
            VF_CHECK(equals(*v[i], x[i]), step, "vector " << i << " is " << show(*v[i]) << " want " << show(x[i]) << " after " << hist);
            if (v[i]->size()) {
                VF_CHECK(v[i]->data() != nullptr && seen.insert(v[i]->data()).second, "shared-storage", "vector " << i << " shares its storage after " << hist);
                VF_CHECK(static_cast<size_t>(v[i]->end() - v[i]->begin()) == v[i]->size() && static_cast<size_t>(v[i]->cend() - v[i]->cbegin()) == v[i]->size(), "iterators", "vector " << i << " after " << hist);
            }
        }
    }
};

template <typename T, typename U>
void history(Rng &r)
{
    Pool<T> p;
    auto dm = [&]() -> size_t { if (size_t n = long_case(r)) return n; return r.chance(1, 40) ? static_cast<size_t>(r.range(9, 40)) : static_cast<size_t>(r.chance(1, 8) ? 0 : r.range(1, 5)); };
    auto add_m = [&](Matrix<T> *q, const Mod<T> &w) { p.m.emplace_back(q); p.w.push_back(w); };
    auto add_v = [&](Vector<T> *q, const std::vector<T> &w) { p.v.emplace_back(q); p.x.push_back(w); };
    auto fresh_m = [&] { auto w = imod<T>(r, dm(), dm()); add_m(new Matrix<T>(mat(w)), w); };
    auto fresh_v = [&] { auto w = ivec<T>(r, dm()); add_v(new Vector<T>(vec(w)), w); };
    for (int i = 0; i < 3; ++i) { fresh_m(); fresh_v(); }
    p.check("initial");
    int steps = static_cast<int>(r.range(6, 24));
    for (int s = 0; s < steps; ++s) {
        size_t i = r.below(p.m.size()), j = r.below(p.m.size());
        size_t a = r.below(p.v.size()), b = r.below(p.v.size());
        Matrix<T> &M = *p.m[i], &N = *p.m[j];
        Vector<T> &V = *p.v[a], &W = *p.v[b];
        Mod<T> &mw = p.w[i], &nw = p.w[j];
        std::vector<T> &vw = p.x[a], &ww = p.x[b];
        std::string ij = std::to_string(i) + "," + std::to_string(j), ab = std::to_string(a) + "," + std::to_string(b);
        int o = static_cast<int>(r.range(0, 43));
        p.h = vf::mix(p.h ^ (static_cast<u64>(o) * 131 + i * 7 + j + (a << 9) + (b << 12)));
        vf::hit("op." + std::to_string(o));
        const char *step = "history";
        switch (o) {
        case 0: p.log("M=N " + ij); step = "copy-assign"; M = N; mw = Mod<T>(nw); break;
        case 1: p.log("M(N) " + ij); step = "copy-construct"; add_m(new Matrix<T>(N), Mod<T>(nw)); break;
        case 2: { p.log("M=move(N) " + ij); step = "move-assign"; Mod<T> t = nw; M = std::move(N); if (i != j) { mw = t; p.w[j] = Mod<T>(); } break; }
        case 3: { p.log("M(move(N)) " + ij); step = "move-construct"; Mod<T> t = nw; add_m(new Matrix<T>(std::move(N)), t); p.w[j] = Mod<T>(); break; }
        case 4: { p.log("M=Matrix<U>"); step = "convert-assign"; auto q = imod<U>(r, dm(), dm()); auto Q = mat(q); M = Q; mw = cmod<T>(q); VF_CHECK(equals(Q, q), "source-modified", "convert"); break; }
        case 5: { p.log("M(Matrix<U>)"); step = "convert-construct"; auto q = imod<U>(r, dm(), dm()); auto Q = mat(q); add_m(new Matrix<T>(Q), cmod<T>(q)); VF_CHECK(equals(Q, q), "source-modified", "convert"); break; }
        case 6: { p.log("M=Matrix<U>()"); step = "convert-assign-rvalue"; auto q = imod<U>(r, dm(), dm()); M = mat(q); mw = cmod<T>(q); break; }
        case 7: p.log("M=Matrix()"); step = "assign-empty"; M = Matrix<T>(); mw = Mod<T>(); break;
        case 8: case 9: {
            size_t R = dm(), C = dm(); p.log("resize " + std::to_string(i) + " " + std::to_string(R) + "x" + std::to_string(C)); step = "resize";
            Matrix<T> *ret = (o == 8) ? &M.resize(R, C) : &utility::resize(M, R, C);
            VF_CHECK(ret == &M, "returns-self", "resize"); mw = m_resize(mw, R, C); break; }
        case 10: case 11: case 12: {
            // A valid reshape.
            size_t n = mw.size(), R = 1;
            if (n) { std::vector<size_t> dv; for (size_t k = 1; k <= n; ++k) if (n % k == 0) dv.push_back(k); R = dv[r.below(dv.size())]; p.log("reshape " + std::to_string(R)); M.reshape(R, n / R); mw = m_reshape(mw, R, n / R); }
            else { R = dm(); p.log("reshape 0x" + std::to_string(R)); utility::reshape(M, 0, R); mw = Mod<T>(0, R); }
            step = "reshape"; break; }
        case 13: {
            size_t R = dm(), C = dm(); if (R * C == mw.size()) break; p.log("bad reshape"); step = "bad-reshape";
            bool thrown = false; try { M.reshape(R, C); } catch (const std::invalid_argument &) { thrown = true; }
            VF_CHECK(thrown, "bad-reshape-accepted", "reshape of " << show(mw) << " to " << R << "x" << C); break; }
        case 14: case 15: case 16: if (mw.size()) {
            size_t R = r.below(mw.R), C = r.below(mw.C); T val = ival<T>(r, -50, 50); p.log("write " + std::to_string(i)); step = "element-write";
            if (o == 14) M(R, C) = val; else if (o == 15) M.at(R, C) = val;
            else {
                size_t k = 0; while (Mod<T>::lin(k, mw.R, mw.C) != R * mw.C + C) ++k;
                if (r.chance(1, 3)) *(M.begin() + static_cast<long>(k)) = val; else if (r.chance(1, 2)) M.data()[k] = val; else M[k] = val;
            }
            mw(R, C) = val; } break;
        case 17: if (mw.size()) {
            // Assign a window of the matrix to itself (or to another one).
            size_t r0 = r.below(mw.R), c0 = r.below(mw.C), r1 = r0 + 1 + r.below(mw.R - r0), c1 = c0 + 1 + r.below(mw.C - c0);
            Mod<T> t(r1 - r0, c1 - c0); for (size_t y = 0; y < t.R; ++y) for (size_t z = 0; z < t.C; ++z) t(y, z) = mw(r0 + y, c0 + z);
            int k = static_cast<int>(r.range(0, 4)); p.log("view-assign kind " + std::to_string(k) + " " + ij); step = "assign-view";
            const Matrix<T> &cM = M;
            switch (k) {
            case 0: M = M({ r0, r1 }, { c0, c1 }); mw = t; break;
            case 1: M = cM({ r0, r1 }, { c0, c1 }); mw = t; break;
            case 2: N = M({ r0, r1 }, { c0, c1 }); p.w[j] = t; break;
            case 3: add_m(new Matrix<T>(cM({ r0, r1 }, { c0, c1 })), t); break;
            default: { Matrix<U> Q; Q = M({ r0, r1 }, { c0, c1 }); VF_CHECK(equals(Q, cmod<U>(t)), "convert-view", show(Q)); Matrix<U> Q2(cM({ r0, r1 }, { c0, c1 })); VF_CHECK(equals(Q2, cmod<U>(t)), "convert-const-view", show(Q2)); }
            } } break;
        case 18: if (mw.R > 1 && mw.C > 1) {
            size_t er = r.below(mw.R), ec = r.below(mw.C); Mod<T> t(mw.R - 1, mw.C - 1);
            for (size_t y = 0; y < t.R; ++y) for (size_t z = 0; z < t.C; ++z) t(y, z) = mw(y + (y >= er), z + (z >= ec));
            p.log("M=cofactor view of M"); step = "assign-cofactor-view"; M = CofactorView<Matrix<T>>(&M, er, ec); mw = t; } break;
        case 19: { p.log("list 2x3"); step = "list-assign"; auto q = imod<T>(r, 2, 3); M = { { q(0, 0), q(0, 1), q(0, 2) }, { q(1, 0), q(1, 1), q(1, 2) } }; mw = q; break; }
        case 20: { p.log("list ctor"); step = "list-construct"; auto q = imod<T>(r, 3, 2); add_m(new Matrix<T>({ { q(0, 0), q(0, 1) }, { q(1, 0), q(1, 1) }, { q(2, 0), q(2, 1) } }), q); break; }
        case 21: { p.log("sized list ctor"); step = "sized-list-construct"; auto q = imod<T>(r, 2, 2); add_m(new Matrix<T>(2, 2, { q(0, 0), q(0, 1), q(1, 0), q(1, 1) }), q); break; }
        case 22: { p.log("std::vector ctor"); step = "std-vector-construct"; auto q = imod<T>(r, dm(), dm()); add_m(new Matrix<T>(q.R, q.C, q.d), q); break; }
        case 23: { T val = ival<T>(r, -9, 9); size_t R = dm(), C = dm(); p.log("filled ctor"); step = "fill-construct"; add_m(new Matrix<T>(R, C, val), Mod<T>(R, C, val)); break; }
        case 24: { size_t R = dm(), C = dm(); p.log("zero ctor"); step = "zero-construct"; add_m(new Matrix<T>(R, C), Mod<T>(R, C)); break; }
        case 25: p.log("swap " + ij); step = "swap"; if (i != j) { std::swap(M, N); std::swap(p.w[i], p.w[j]); } break;
        case 26: { p.log("self " + ij); step = "self-assign"; Matrix<T> &al = M; M = al; if (r.chance(1, 2)) { const MatrixBase<T> &bb = M; M = bb; } break; }
        case 27: { p.log("M=base N " + ij); step = "base-assign"; const MatrixBase<T> &bb = N; Mod<T> t = nw; M = bb; mw = t; break; }
        // Vectors.
        case 28: p.log("V=W " + ab); step = "vector-copy-assign"; V = W; { auto t = ww; vw = t; } break;
        case 29: p.log("V(W) " + ab); step = "vector-copy-construct"; { auto t = ww; add_v(new Vector<T>(W), t); } break;
        case 30: { p.log("V=move(W) " + ab); step = "vector-move-assign"; auto t = ww; V = std::move(W); if (a != b) { p.x[a] = t; p.x[b].clear(); } break; }
        case 31: { p.log("V(move(W)) " + ab); step = "vector-move-construct"; auto t = ww; add_v(new Vector<T>(std::move(W)), t); p.x[b].clear(); break; }
        case 32: case 33: case 34: { size_t n = dm(); p.log("v.resize " + std::to_string(n)); step = "vector-resize"; Vector<T> *ret = &V.resize(n); VF_CHECK(ret == &V, "returns-self", "vector resize"); vw.resize(n, T(0)); break; }
        case 35: { p.log("v.resize(w) " + ab); step = "vector-resize-like"; size_t n = ww.size(); V.resize(W); p.x[a].resize(n, T(0)); break; }
        case 36: case 37: if (vw.size()) { size_t k = r.below(vw.size()); T val = ival<T>(r, -50, 50); p.log("v[k]"); step = "vector-write"; if (o == 36) V[k] = val; else *(V.begin() + static_cast<long>(k)) = val; vw[k] = val; } break;
        case 38: { p.log("V=Vector<U>"); step = "vector-convert"; auto q = ivec<U>(r, dm()); auto Q = vec(q); if (r.chance(1, 2)) V = Q; else V = vec(q); vw.assign(q.size(), T(0)); for (size_t k = 0; k < q.size(); ++k) vw[k] = conv<T>(q[k]);
            std::vector<T> t = vw; add_v(r.chance(1, 2) ? new Vector<T>(Q) : new Vector<T>(vec(q)), t); VF_CHECK(equals(Q, q), "source-modified", "vector convert"); break; }
        case 39: { p.log("V{list}"); step = "vector-list"; auto q = ivec<T>(r, 3); add_v(new Vector<T>({ q[0], q[1], q[2] }), q); V = Vector<T>(2, { q[0], q[1] }); p.x[a] = { q[0], q[1] }; break; }
        case 40: { size_t n = dm(); T val = ival<T>(r, -9, 9); p.log("V(n,val)"); step = "vector-fill"; add_v(new Vector<T>(n, val), std::vector<T>(n, val)); V = Vector<T>(n); p.x[a].assign(n, T(0)); break; }
        case 41: p.log("V=V / swap " + ab); step = "vector-self"; { Vector<T> &al = V; V = al; if (a != b) { std::swap(V, W); std::swap(p.x[a], p.x[b]); } } break;
        case 42: p.log("V=Vector()"); step = "vector-empty"; V = Vector<T>(); vw.clear(); break;
        case 43: // Destroy one object: nobody else may notice.
            if (p.m.size() > 3) { p.log("destroy M " + std::to_string(i)); p.m.erase(p.m.begin() + static_cast<long>(i)); p.w.erase(p.w.begin() + static_cast<long>(i)); }
            if (p.v.size() > 3) { p.log("destroy V " + std::to_string(a)); p.v.erase(p.v.begin() + static_cast<long>(a)); p.x.erase(p.x.begin() + static_cast<long>(a)); }
            step = "destroy"; break;
        }
        p.check(step);
        while (p.m.size() > 8) { p.m.erase(p.m.begin()); p.w.erase(p.w.begin()); }
        while (p.v.size() > 8) { p.v.erase(p.v.begin()); p.x.erase(p.x.begin()); }
    }
    for (auto &w : p.w) p.h = vf::mix(p.h ^ w.hash());
    vf::note(p.h);
    if (vf::st().samples.size() < 3) vf::sample(p.hist);
    vf::hit("history.steps", static_cast<u64>(steps));
}
SCENARIO(history_double, 3) { Grained grained(r.chance(2, 3) ? FULL : WHOLE); history<double, int>(r); }
SCENARIO(history_int, 2) { Grained grained(r.chance(2, 3) ? FULL : WHOLE); history<int, long>(r); }
SCENARIO(history_long, 1) { Grained grained(r.chance(2, 3) ? FULL : WHOLE); history<long, int>(r); }
SCENARIO(history_float, 1) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); history<float, double>(r); }
template <> struct name_of<cd> { static std::string get() { return "cd"; } };

// Grow and shrink repeatedly: kept elements survive, new ones are zero, whatever was there before.
template <typename T>
void grow(Rng &r)
{
    std::vector<T> w;
    Vector<T> V;
    u64 h = 3;
    for (int i = 0; i < 12; ++i) {
        size_t n = r.chance(1, 5) ? static_cast<size_t>(r.range(0, r.chance(1, 6) ? 6000 : 500)) : static_cast<size_t>(r.range(0, 12));
        V.resize(n);
        w.resize(n, T(0));
        check_eq(V, w, "vector-regrow");
        for (size_t k = 0; k < n; ++k) V[k] = w[k] = ival<T>(r, 1, 9);
        h = vf::mix(h + n);
    }
    vf::note(h);
    Matrix<T> M;
    Mod<T> m;
    for (int i = 0; i < 8; ++i) {
        size_t R = static_cast<size_t>(r.range(0, 9)), C = r.chance(1, 3) ? m.C : static_cast<size_t>(r.range(0, 9));
        if (r.chance(1, 3)) R = m.R;
        if (r.chance(1, 10)) { R = 65; C = 3; }
        if (r.chance(1, 100)) { R = static_cast<size_t>(r.range(20, 90)); C = static_cast<size_t>(r.range(20, 90)); vf::hit("grow.large-matrix"); }
        M.resize(R, C);
        m = m_resize(m, R, C);
        check_eq(M, m, "matrix-regrow");
        for (size_t y = 0; y < R; ++y) for (size_t z = 0; z < C; ++z) M(y, z) = m(y, z) = ival<T>(r, 1, 9);
    }
}
SCENARIO(grow_shrink, 2) { Grained grained(r.chance(2, 3) ? ANY : WHOLE); pick_type(r, [&](auto t) { grow<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>(), Ty<float>(), Ty<long>(), Ty<long double>()); }

// Complex element type: copy/move/convert from real.
SCENARIO(complex_values, 1)
{ Grained grained(r.chance(2, 3) ? FULL : WHOLE);
    auto w = imod<cd>(r, dim(r), dim(r));
    auto x = imod<double>(r, w.R, w.C);
    Matrix<cd> A = mat(w), B(A), C(std::move(A));
    vf::note(w.hash());
    check_eq(B, w, "complex-copy");
    check_eq(C, w, "complex-move");
    VF_CHECK(A.size() == 0 && A.rows() == 0 && A.cols() == 0, "complex-moved-from", A.rows() << "x" << A.cols());
    Matrix<double> D = mat(x);
    C = D;
    check_eq(C, cmod<cd>(x), "complex-from-real");
    Matrix<cd> E(D);
    check_eq(E, cmod<cd>(x), "complex-construct-from-real");
    Vector<cd> v = vec(w.d);
    check_eq(v, w.d, "complex-vector");
    Vector<cd> u(vec(x.d));
    check_eq(u, cmod<cd>(x).d, "complex-vector-from-real");
    B = B({ 0, w.R }, { 0, w.C });
    check_eq(B, w, "complex-self-view");
}
// Lists of more elements than a byte counts.
#define E4(k) e(k), e(k + 1), e(k + 2), e(k + 3)
#define E16(k) E4(k), E4(k + 4), E4(k + 8), E4(k + 12)
#define E64(k) E16(k), E16(k + 16), E16(k + 32), E16(k + 48)
#define E300(k) E64(k), E64(k + 64), E64(k + 128), E64(k + 192), E16(k + 256), E16(k + 272), E4(k + 288), E4(k + 292), E4(k + 296)
#define R4(k) { e(k) }, { e(k + 1) }, { e(k + 2) }, { e(k + 3) }
#define R16(k) R4(k), R4(k + 4), R4(k + 8), R4(k + 12)
#define R64(k) R16(k), R16(k + 16), R16(k + 32), R16(k + 48)
template <typename T>
void long_lists(Rng &r)
{
    auto q = ivec<T>(r, 600);
    auto e = [&](size_t k) { return q[k]; };
    vf::note(vhash(q));
    auto shaped = [&](size_t R, size_t C) { Mod<T> m(R, C); for (size_t i = 0; i < R * C; ++i) m.d[i] = q[i]; return m; };
    vf::op("long lists");
    std::initializer_list<T> l = { E300(0) };
    std::initializer_list<T> l6 = { E300(0), E300(300) };
    check_eq(Vector<T>(l), std::vector<T>(q.begin(), q.begin() + 300), "long-vector-list");
    check_eq(Vector<T>(300, l), std::vector<T>(q.begin(), q.begin() + 300), "long-sized-vector-list");
    Vector<T> v(r.below(9));
    v = l6;
    check_eq(v, q, "long-vector-assign");
    size_t d[] = { 300, 100, 1, 60, 3, 20, 150 };
    size_t R = d[r.below(7)], C = 300 / R;
    check_eq(Matrix<T>(R, C, l), shaped(R, C), "long-sized-list");
    check_eq(Matrix<T>(2 * R, C, l6), shaped(2 * R, C), "long-sized-list");
    check_eq(Matrix<T>(R, 2 * C, l6), shaped(R, 2 * C), "long-sized-list");
    if (r.chance(1, 2)) {
        Matrix<T> w({ { E300(0) }, { E300(300) } });
        check_eq(w, shaped(2, 300), "long-rows-list");
        Matrix<T> t({ R64(0), R64(64), R64(128), R64(192), R16(256) });
        check_eq(t, shaped(272, 1), "many-rows-list");
        std::initializer_list<std::initializer_list<T>> many = { R64(0), R64(64), R64(128), R64(192), R16(256) };
        std::initializer_list<std::initializer_list<T>> wide = { { E300(300) }, { E300(0) } };
        w = many;
        check_eq(w, shaped(272, 1), "many-rows-assign");
        auto back = shaped(2, 300);
        for (size_t k = 0; k < 300; ++k) { back(0, k) = q[300 + k]; back(1, k) = q[k]; }
        w = wide;
        check_eq(w, back, "long-rows-assign");
    }
}
SCENARIO(long_lists, 1) { if (!r.chance(1, 8)) { vf::note(0); return; } pick_type(r, [&](auto t) { long_lists<TYPE_OF(t)>(r); }, Ty<int>(), Ty<double>(), Ty<cd>(), Ty<long>(), Ty<long double>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
