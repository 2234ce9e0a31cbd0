// C01: memory discipline over random histories of the whole interface. The allocator is
// intercepted: every storage must be a live block of its own and large enough, and every
// block must be returned; ASan/UBSan/valgrind watch each access.
#ifndef VF_LEDGER
#define VF_LEDGER
#endif
#include "ops.hpp"
#include "ledger.inc"
using namespace malg;

template <typename T>
struct World {
    std::vector<std::unique_ptr<Matrix<T>>> m;
    std::vector<std::unique_ptr<Vector<T>>> v;
    std::vector<Matrix<T>> vm; // moved around by the growth of the container
    std::string hist;
    u64 h = 0;
    volatile double sum = 0;
    void log(const std::string &s) { hist += s + "; "; if (hist.size() > 1200) hist.erase(0, 400); vf::op(s.c_str()); h = vf::mix(h ^ vf::mix(std::hash<std::string>()(s))); }
    std::set<const void *> seen;
    void look(const T *b, const T *e, const T *d, size_t n)
    {
        VF_CHECK(b == d && static_cast<size_t>(e - b) == n, "iterators", "size " << n << " after " << hist);
        if (!n) return;
        VF_CHECK(vf::led_block(d) >= n * sizeof(T), "storage-not-owned", "storage of " << n << " elements is a block of " << vf::led_block(d) << " bytes after " << hist);
        VF_CHECK(seen.insert(d).second, "storage-shared", hist);
        for (const T *x = b; x != e; ++x) { double a = mag(*x); if (a > 0) sum = sum + a; } // a branch on every element
    }
    void check(size_t extra_blocks, size_t base)
    {
        vf::Pause p;
        seen.clear();
        size_t owners = 0;
        auto one = [&](const Matrix<T> &M) {
            VF_CHECK(M.size() == M.rows() * M.cols(), "shape-storage", M.rows() << "x" << M.cols() << " over " << M.size() << " after " << hist);
            look(M.begin(), M.end(), M.data(), M.size());
            for (size_t r = 0; r < M.rows(); ++r) for (size_t c = 0; c < M.cols(); ++c) if (mag(M(r, c)) > 1e6) sum = 0;
            owners += M.size() > 0;
        };
        for (auto &x : m) one(*x);
        for (auto &x : vm) one(x);
        for (auto &x : v) { look(x->begin(), x->end(), x->data(), x->size()); owners += x->size() > 0; }
        // Every non-empty object owns one block; whether an empty one keeps a block is its business.
        const size_t held = vf::ledger.live - base - extra_blocks;
        VF_CHECK(held >= owners && held <= m.size() + vm.size() + v.size(), "blocks", vf::ledger.live - base << " live blocks for " << owners << " non-empty objects (+" << extra_blocks << ") after " << hist);
    }
};

struct callback_error : std::runtime_error { using std::runtime_error::runtime_error; };

template <typename T, typename U>
void history(Rng &r)
{
    size_t live = vf::ledger.live, bytes = vf::ledger.bytes;
    {
        World<T> p;
        // The harness allocates outside of the ledger, the library inside.
        auto dm = [&] { return r.chance(1, 30) ? static_cast<size_t>(r.range(9, 30)) : static_cast<size_t>(r.chance(1, 10) ? 0 : r.range(1, 5)); };
        auto IN = [&](auto fn) { vf::Track t; fn(); };
        auto add_m = [&] { auto w = imod<T>(r, dm(), dm(), -2, 2); p.m.emplace_back(new Matrix<T>()); IN([&] { *p.m.back() = mat(w); }); };
        auto add_v = [&] { auto w = ivec<T>(r, dm()); p.v.emplace_back(new Vector<T>()); IN([&] { *p.v.back() = vec(w); }); };
        for (int i = 0; i < 3; ++i) { add_m(); add_v(); }
        p.vm.reserve(64);
        p.check(0, live);
        int steps = static_cast<int>(r.range(8, 40));
        for (int s = 0; s < steps; ++s) {
            size_t i = r.below(p.m.size()), j = r.below(p.m.size()), a = r.below(p.v.size()), b = r.below(p.v.size());
            Matrix<T> &M = *p.m[i], &N = *p.m[j];
            Vector<T> &V = *p.v[a], &W = *p.v[b];
            size_t R = M.rows(), C = M.cols(), r1 = dm(), c1 = dm(), r0 = r.below(R ? R : 1), c0 = r.below(C ? C : 1);
            size_t re = r0 + 1 + r.below(R > r0 ? R - r0 : 1), ce = c0 + 1 + r.below(C > c0 ? C - c0 : 1);
            auto wl = imod<U>(r, r1, c1);
            auto wt = imod<T>(r, r1, c1);
            auto wv = ivec<U>(r, r1);
            int o = static_cast<int>(r.range(0, 47));
            p.log(std::to_string(o) + "(" + std::to_string(i) + "," + std::to_string(j) + ":" + std::to_string(R) + "x" + std::to_string(C) + ")");
            vf::hit("op." + std::to_string(o));
            vf::Track on;
            bool nz = R && C;
            try {
                switch (o) {
                case 0: M = N; break;
                case 1: M = std::move(N); break;
                case 2: { Matrix<T> X(M), Y(std::move(X)); N = std::move(Y); break; }
                case 3: M = mat(wl); break;
                case 4: { Matrix<T> X(mat(wl)); std::swap(X, M); break; }
                case 5: M.resize(r1, c1); break;
                case 6: if (M.size()) M.reshape(M.size(), 1); break;
                case 7: M.reshape(r1, c1); break;
                case 8: M += N; break;
                case 9: M = M + N; break;
                case 10: M *= N; break;
                case 11: M = M * N; break;
                case 12: M = N * M; break;
                case 13: M -= T(1); break;
                case 14: utility::remove_row(M, r.below(R + 1)); break;
                case 15: utility::remove_column(M, r.below(C + 1)); break;
                case 16: M = utility::vstack(M, N); break;
                case 17: M = utility::hstack(M, N); break;
                case 18: M = linalg::transpose(M); break;
                case 19: if (nz) M = M({ r0, re }, { c0, ce }); break;
                case 20: if (nz) { auto x = M({ r0, re }, { c0, ce }); x += T(1); auto y = utility::view(x, 0, 1, 0, 1); y *= T(0); N = y; } break;
                case 21: if (nz) { auto x = M({ r0, re }, { c0, ce }); const Matrix<T> Q = mat(imod<T>(r, re - r0, ce - c0)); x = Q; } break;
                case 22: if (R > 1 && C > 1) { CofactorView<Matrix<T>> x(&M, r0, c0); x -= T(1); if (i != j) N = x; M = x; } break;
                case 23: if (nz && i != j) { const Matrix<T> &cM = M; auto x = cM({ r0, re }, { c0, ce }); N = x * T(2); Matrix<T> Z(x); M = Z; } break;
                case 24: if (nz) { utility::swap_rows(M, r0, re - 1); utility::swap_cols(M, c0, ce - 1); } break;
                case 25: M = { { T(1), T(2), T(3) }, { T(4), T(5), T(6) } }; break;
                case 26: { Matrix<T> X({ { T(1), T(2) }, { T(3) } }); break; }
                case 27: { vf::Pause z; std::vector<T> d(static_cast<size_t>(r.range(0, 8)), T(1)); vf::Track y; Matrix<T> X(2, 3, d); M = X; break; }
                case 28: V = W; break;
                case 29: V = std::move(W); break;
                case 30: { Vector<T> x(V), y(std::move(x)); W = std::move(y); break; }
                case 31: V.resize(r1); break;
                case 32: V = vec(wv); break;
                case 33: V += W; break;
                case 34: V = V * T(2); break;
                case 35: M = utility::diag(V); break;
                case 36: V = utility::diag(M); break;
                case 37: V = utility::concatenate(V, W); if (V.size() > 60) V.resize(3); break;
                case 38: M = utility::to_matrix(V, r.chance(1, 2)); break;
                case 39: V = M * V; break;
                case 40: M = utility::extract(M, r0, re + r.below(2), c0, ce); break;
                case 41: { // the callback throws in the middle
                    size_t n = 0, at = r.below(M.size() + 1);
                    M = element_wise_function(M, [&](const T &x) { if (n++ == at) throw callback_error("callback"); return x; });
                    break; }
                case 42: { size_t n = 0, at = r.below(V.size() + 1); V = element_wise_function(V, [&](const T &x) { if (n++ == at) throw callback_error("callback"); return x; }); break; }
                case 43: { vf::Pause z; if (p.vm.size() < 20) { vf::Track y; Matrix<T> X(M); { vf::Pause q; p.vm.emplace_back(std::move(X)); } } break; }
                case 44: if (p.vm.size() > 1) { Matrix<T> X(std::move(p.vm.back())); vf::Pause z; p.vm.pop_back(); vf::Track y; p.vm.front() = std::move(X); } break;
                case 45: { Matrix<T> *q = &M; M = *q; M = std::move(*q); Vector<T> *w = &V; V = *w; V = std::move(*w); break; }
                case 46: M = linalg::powm(M, r.below(4)); break;
                default: M = utility::eye<T>(r1 + 1, c1 + 1, T(2)); V = utility::ones<T>(r1 + 1); break;
                }
            } catch (const callback_error &) {
                vf::hit("callback-exceptions");
            } catch (const std::exception &) {
                vf::hit("refusals");
            }
            vf::Pause off;
            // Keep the numbers and the sizes small.
            for (auto &q : p.m) {
                for (size_t k = 0; k < q->size(); ++k) if (!(mag((*q)[k]) < 1e3)) (*q)[k] = T(1);
                if (q->size() > 900) { vf::Track z; q->resize(3, 4); }
            }
            for (auto &q : p.v) for (size_t k = 0; k < q->size(); ++k) if (!(mag((*q)[k]) < 1e3)) (*q)[k] = T(1);
            p.check(0, live);
            if (r.chance(1, 12) && p.m.size() > 2) { vf::Track z; p.m.erase(p.m.begin() + static_cast<long>(r.below(p.m.size()))); }
            if (r.chance(1, 12)) add_m();
            if (r.chance(1, 16) && p.v.size() > 2) { p.v.erase(p.v.begin() + static_cast<long>(r.below(p.v.size()))); }
            if (r.chance(1, 16)) add_v();
        }
        p.check(0, live);
        vf::note(p.h);
        if (vf::st().samples.size() < 3) vf::sample(p.hist.substr(0, 400));
    }
    VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, "leak", vf::ledger.live - live << " blocks, " << vf::ledger.bytes - bytes << " bytes are never returned");
}

// Every read-only operation of the table, on operands of any supported size.
template <typename T>
void table_op(Rng &r)
{
    const auto &table = ops<T>();
    size_t q = r.below(table.size());
    const auto &o = table[q];
    { vf::Pause z; Rng k(1); const Inputs<T> warm(k, 2, 2, 2); Sink s; o.fn(warm, s); } // function statics, locale caches
    size_t live = vf::ledger.live, bytes = vf::ledger.bytes;
    {
        const Inputs<T> in(r, static_cast<size_t>(r.range(2, (o.flags & HEAVY) ? 6 : 12)), dim(r, false, 16), dim(r, false, 16));
        const u64 before = in.print();
        vf::op(o.name);
        Sink s;
        { vf::Track t; o.fn(in, s); }
        VF_CHECK(!s.inconsistent, std::string("inconsistent-") + o.name, "n=" << in.n);
        VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, std::string("leak-") + o.name, vf::ledger.live - live << " blocks n=" << in.n);
        VF_CHECK(in.print() == before, std::string("inputs-modified-") + o.name, "n=" << in.n);
        // The value computed must not depend on the contents of fresh memory: some branch on every bit.
        if (s.bits == 42) vf::hit("unlikely");
        vf::hit(std::string("table.") + o.name);
        vf::note(before ^ (static_cast<u64>(q) << 48));
    }
    VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, std::string("leak-") + o.name, "at the end");
}

// Range arguments that reach beyond the object: clipped or refused, never accessed.
template <typename T>
void ranges(Rng &r)
{
    const size_t R = dim(r, true, 8), C = dim(r, true, 8);
    const auto a = imod<T>(r, R, C);
    size_t live = vf::ledger.live, bytes = vf::ledger.bytes;
    {
        std::unique_ptr<Matrix<T>> M(new Matrix<T>());
        { vf::Track t; *M = mat(a); }
        auto idx = [&](size_t n) { switch (r.range(0, 5)) { case 0: return static_cast<size_t>(-1); case 1: return n + r.below(4); case 2: return n; case 3: return static_cast<size_t>(-1) - r.below(3); case 4: return static_cast<size_t>(1) << r.range(20, 62); default: return r.below(n + 1); } };
        const size_t r0 = idx(R), r1 = idx(R), c0 = idx(C), c1 = idx(C), row = r.below(R ? R : 1), col = r.below(C ? C : 1), row2 = r.below(R ? R : 1), col2 = r.below(C ? C : 1);
        const size_t far_row = idx(R), far_col = idx(C), n = idx(a.size());
        const std::string at = "[" + std::to_string(r0) + "," + std::to_string(r1) + ")x[" + std::to_string(c0) + "," + std::to_string(c1) + ") of " + std::to_string(R) + "x" + std::to_string(C);
        volatile double sum = 0;
        auto eat = [&](const auto &X) { for (size_t k = 0; k < X.size(); ++k) sum = sum + mag(X[k]); return X.size(); };
        const size_t lr = std::min(r1, R), lc = std::min(c1, C), wr = lr > r0 ? lr - r0 : 0, wc = lc > c0 ? lc - c0 : 0;
        const int o = static_cast<int>(r.range(0, 12));
        static const char *names[] = { "extract", "extract_row", "extract_column", "swap_rows", "swap_cols", "vector_length", "view", "row-view", "column-view", "find", "remove_row", "remove_column", "far-row" };
        vf::op(names[o]);
        vf::hit(std::string("range.") + names[o]);
        vf::note(a.hash() ^ (static_cast<u64>(o) << 57) ^ vf::mix(r0 * 3 + r1 * 5 + c0 * 7 + c1));
        vf::Track on;
        Matrix<T> &X = *M;
        const Matrix<T> &K = X;
        bool threw = false;
        size_t got = 0, want = wr * wc;
        try {
            switch (o) {
            case 0: { auto q = utility::extract(K, r0, r1, c0, c1); got = eat(q); break; }
            case 1: want = row < R ? wc : 0; { auto q = utility::extract_row(K, row, c0, c1); got = eat(q); } break;
            case 2: want = col < C ? wr : 0; { auto q = utility::extract_column(K, col, r0, r1); got = eat(q); } break;
            case 3: if (R) utility::swap_rows(X, row, row2, c0, c1); want = 0; break;
            case 4: if (C) utility::swap_cols(X, col, col2, r0, r1); want = 0; break;
            case 5: if (C) { sum = sum + static_cast<double>(std::abs(malg::vector_length(K, col, r0, r1))); } want = 0; break;
            case 6: if (r0 < R && c0 < C && r1 > r0 && c1 > c0) { auto v = utility::view(X, r0, r1, c0, c1); got = eat(v); auto w = K(Range{ r0, r1 }, Range{ c0, c1 }); eat(w); Matrix<T> Z(v); eat(Z); } else want = 0; break;
            case 7: if (R && c0 < C && c1 > c0) { auto v = utility::row(X, row, c0, c1); got = eat(v); want = wc; v += T(1); } else want = 0; break;
            case 8: if (C && r0 < R && r1 > r0) { auto v = utility::col(X, col, r0, r1); got = eat(v); want = wr; v += T(1); } else want = 0; break;
            case 9: want = 0; if constexpr (!is_cx<T>) { auto q = utility::find(K, n, r.chance(1, 2)); for (size_t k = 0; k < q.size(); ++k) { if (q[k] >= K.size()) got = 1; } } break;
            case 10: utility::remove_row(X, far_row); got = X.rows(); want = far_row < R ? R - 1 : R; break;
            case 11: utility::remove_column(X, far_col); got = X.cols(); want = far_col < C ? C - 1 : C; break;
            default: want = far_row < R ? wc : 0; { auto q = utility::extract_row(K, far_row, c0, c1); got = eat(q); } break;
            }
        } catch (const std::exception &) {
            threw = true;
        }
        vf::Pause off;
        VF_CHECK(threw || got == want, std::string("range-") + names[o], got << " elements, want " << want << " " << at);
        if (threw) vf::hit("refusals"); else vf::hit("clipped");
        if (M->size()) VF_CHECK(vf::led_block(M->data()) >= M->size() * sizeof(T), std::string("range-storage-") + names[o], at);
        VF_CHECK(M->size() == M->rows() * M->cols(), std::string("range-shape-") + names[o], at);
        for (auto &x : *M) sum = sum + mag(x);
    }
    VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, "range-leak", vf::ledger.live - live << " blocks");
}

SCENARIO(range_arguments, 3) { switch (r.range(0, 2)) { case 0: ranges<int>(r); break; case 1: ranges<double>(r); break; default: ranges<cd>(r); } }
SCENARIO(histories, 5) { switch (r.range(0, 2)) { case 0: history<int, double>(r); break; case 1: history<double, int>(r); break; default: history<cd, double>(r); } }
SCENARIO(operations, 3) { switch (r.range(0, 4)) { case 0: case 1: table_op<double>(r); break; case 2: table_op<cd>(r); break; case 3: table_op<float>(r); break; default: table_op<int>(r); } }

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
