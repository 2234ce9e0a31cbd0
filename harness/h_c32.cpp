// C32: fails the k-th memory request of an operation, for every k (or a sample of
// them), and checks the exception, the ledger, the operands and the repetition.
#ifndef VF_LEDGER
#define VF_LEDGER
#endif
#include "ops.hpp"
#include "ledger.inc"
using namespace malg;

// Runs `fn` with its k-th request failing. Returns 0 completed, 1 bad_alloc, 2 another exception.
template <typename F>
int with_failure(size_t k, F fn, std::string &what)
{
    vf::ledger.requests = 0;
    vf::ledger.failed = 0;
    vf::ledger.fail_at = k;
    int res = 0;
    vf::Track t;
    try {
        fn();
    } catch (const std::bad_alloc &) {
        res = 1;
    } catch (const std::exception &e) {
        vf::Pause p;
        what = e.what();
        res = 2;
    }
    vf::ledger.fail_at = 0;
    return res;
}
static std::vector<size_t> points(Rng &r, size_t n, size_t cap)
{
    std::vector<size_t> p;
    if (n <= cap) { for (size_t k = 1; k <= n; ++k) p.push_back(k); return p; }
    // The first, the last and a sample of the others.
    std::set<size_t> s;
    for (size_t k = 1; k <= cap / 4; ++k) { s.insert(k); s.insert(n + 1 - k); }
    while (s.size() < cap) s.insert(1 + r.below(n));
    p.assign(s.begin(), s.end());
    return p;
}

template <typename T>
void read_only(Rng &r)
{
    const auto &table = ops<T>();
    size_t q = r.below(table.size());
    while (table[q].flags & (IO | RANDOM)) q = r.below(table.size());
    const auto &o = table[q];
    size_t n = static_cast<size_t>(r.range(2, (o.flags & HEAVY) ? (r.chance(1, 4) ? 6 : 3) : r.chance(1, 4) ? 7 : 5));
    const Inputs<T> in(r, n, dim(r, false, 6), dim(r, false, 6));
    const u64 before = in.print();
    vf::op(o.name);
    std::string what;
    u64 want = 0;
    { vf::Track t; Sink s; o.fn(in, s); want = s.bits; } // also initialises the function statics
    size_t live = vf::ledger.live, bytes = vf::ledger.bytes;
    { Sink s; int res = with_failure(0, [&] { o.fn(in, s); }, what);
      VF_CHECK(res == 0 && s.bits == want, std::string("not-repeatable-") + o.name, "n=" << n << " " << what); }
    VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, std::string("leak-") + o.name, "without failures, n=" << n);
    size_t total = vf::ledger.requests;
    if (total == 0) { vf::hit("operations-without-requests"); return; }
    const auto pts = points(r, total, vf::st().tier ? 200 : 24);
    for (size_t k : pts) {
        Sink s;
        int res = with_failure(k, [&] { o.fn(in, s); }, what);
        std::string ctx = "request " + std::to_string(k) + " of " + std::to_string(total) + ", n=" + std::to_string(n);
        VF_CHECK(vf::ledger.failed == 1, std::string("not-deterministic-") + o.name, ctx);
        VF_CHECK(res == 1, std::string("not-reported-") + o.name, ctx << (res == 2 ? " threw " + what : std::string(" completed")));
        VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, std::string("leak-") + o.name, ctx << ": " << vf::ledger.live - live << " blocks, " << vf::ledger.bytes - bytes << " bytes");
        vf::hit("failures-injected");
    }
    VF_CHECK(in.print() == before, std::string("operand-modified-") + o.name, "n=" << n);
    { Sink s; o.fn(in, s); VF_CHECK(s.bits == want && !s.inconsistent, std::string("repeat-") + o.name, "n=" << n); }
    vf::hit(std::string("op.") + o.name);
    vf::note(before ^ (q << 50) ^ total);
    if (r.chance(1, 60)) vf::sample(std::string(o.name) + ": " + std::to_string(total) + " requests, " + std::to_string(pts.size()) + " failed one by one");
}

template <typename T> bool consistent(const Matrix<T> &M)
{
    if (M.size() != M.rows() * M.cols()) return false;
    if (static_cast<size_t>(M.end() - M.begin()) != M.size()) return false;
    volatile double s = 0;
    for (size_t r = 0; r < M.rows(); ++r) for (size_t c = 0; c < M.cols(); ++c) s = s + mag(M(r, c));
    for (auto &x : M) s = s + mag(x);
    return true;
}
template <typename T> bool consistent(const Vector<T> &M)
{
    if (static_cast<size_t>(M.end() - M.begin()) != M.size()) return false;
    volatile double s = 0;
    for (size_t c = 0; c < M.size(); ++c) s = s + mag(M[c]);
    return true;
}

// Operations that modify their target.
template <typename T, typename U>
void modifying(Rng &r)
{
    size_t R = dim(r, false, 8), C = dim(r, false, 8);
    int o = static_cast<int>(r.range(0, 19));
    if (o == 2 || o == 3 || o == 4) C = R;
    if ((o == 7) && R < 2) R = 2;
    if ((o == 8) && C < 2) C = 2;
    auto m = imod<T>(r, R, C), m2 = imod<T>(r, o == 1 ? dim(r, false, 8) : R, o == 1 ? dim(r, false, 8) : C), m3 = imod<T>(r, dim(r, false, 8), dim(r, false, 8));
    auto mu = imod<U>(r, dim(r, false, 8), dim(r, false, 8));
    auto w = ivec<T>(r, dim(r, false, 9)), w2 = ivec<T>(r, dim(r, false, 9));
    auto w3 = ivec<U>(r, dim(r, false, 9));
    size_t nr = static_cast<size_t>(r.range(0, 9)), nc = static_cast<size_t>(r.range(0, 9)), pick = r.below(C), prow = r.below(R);
    const Matrix<T> S = mat(m2), S3 = mat(m3);
    const Matrix<U> SU = mat(mu);
    const Vector<T> V2 = vec(w2);
    const Vector<U> V3 = vec(w3);
    static const char *names[] = { "resize", "assign", "times", "times-self", "times-mixed", "plus", "minus", "remove_row", "remove_column", "assign-mixed",
                                   "vector-assign", "vector-resize", "vector-assign-mixed", "list", "assign-own-view", "assign-view", "view-assign", "vector-plus", "reshape", "assign-product" };
    std::string name = names[o];
    vf::op(names[o]);
    const Matrix<T> SQ = mat(imod<T>(r, R, R)), SC = mat(imod<T>(r, C, C));
    const Matrix<U> SQU = mat(imod<U>(r, C, C));
    auto run = [&](Matrix<T> &M, Vector<T> &v) {
        switch (o) {
        case 0: M.resize(nr, nc); break;
        case 1: M = S; break;
        case 2: M *= SC; break;
        case 3: M *= M; break;
        case 4: M *= SQU; break;
        case 5: M += S; break;
        case 6: M -= S; break;
        case 7: utility::remove_row(M, prow); break;
        case 8: utility::remove_column(M, pick); break;
        case 9: M = SU; break;
        case 10: v = V2; break;
        case 11: v.resize(nr + nc); break;
        case 12: v = V3; break;
        case 13: M = { { T(1), T(2) }, { T(3), T(4) }, { T(5), T(6) } }; break;
        case 14: M = M({ prow, R }, { pick, C }); break;
        case 15: M = S3({ 0, S3.rows() }, { S3.cols() / 2, S3.cols() }); break;
        case 16: { auto x = M({ 0, R }, { 0, C }); x = S; break; }
        case 17: v += v; break;
        case 18: M.reshape(C, R); break;
        default: M = SQ * M; break;
        }
    };
    std::string what;
    size_t total = 0;
    Mod<T> want;
    std::vector<T> wantv;
    size_t live0 = vf::ledger.live, bytes0 = vf::ledger.bytes;
    {
        vf::Track tr;
        Matrix<T> M = mat(m);
        Vector<T> v = vec(w);
        int res = with_failure(0, [&] { run(M, v); }, what);
        VF_CHECK(res == 0, "unexpected-" + name, what);
        total = vf::ledger.requests;
        vf::Pause p;
        want = mod_of(M);
        wantv = vec_of(v);
    }
    VF_CHECK(vf::ledger.live == live0 && vf::ledger.bytes == bytes0, "leak-" + name, "without failures");
    std::string ctx = " target " + show(m) + " vector " + show(w) + " S=" + show(m2) + " sizes " + std::to_string(nr) + "," + std::to_string(nc);
    for (size_t k : points(r, total, vf::st().tier ? 200 : 24)) {
        {
            vf::Track tr;
            Matrix<T> M = mat(m);
            Vector<T> v = vec(w);
            int res = with_failure(k, [&] { run(M, v); }, what);
            vf::Pause p;
            std::string at = "request " + std::to_string(k) + " of " + std::to_string(total) + ctx;
            VF_CHECK(vf::ledger.failed == 1, "not-deterministic-" + name, at);
            VF_CHECK(res == 1, "not-reported-" + name, at << (res == 2 ? " threw " + what : std::string(" completed")));
            vf::hit("failures-injected");
            // The target is consistent ...
            VF_CHECK(consistent(M) && consistent(v), "inconsistent-" + name, at << " now " << M.rows() << "x" << M.cols() << " over " << M.size() << " elements, vector of " << v.size());
            // ... keeps its value (the new storage is obtained before the old one is touched;
            // removing a row or a column first moves it to the end, and promises less) ...
            if (o != 7 && o != 8) VF_CHECK(equals(M, m) && vec_of(v) == w, "value-lost-" + name, at << " now " << show(M) << " and " << show(v));
            // ... usable ...
            if (r.chance(1, 2)) {
                vf::Track tr2;
                auto ok = [&] { M.resize(R + 1, C + 1); M(R, C) = T(7); v.resize(w.size() + 1); v[w.size()] = T(3); };
                ok();
                vf::Pause p2;
                VF_CHECK(consistent(M) && consistent(v) && M(R, C) == T(7), "unusable-" + name, at);
            }
            // ... and can be given a value and the operation repeated.
            { vf::Track tr2; const Matrix<T> m0 = mat(m); const Vector<T> v0 = vec(w); M = m0; v = v0; run(M, v); }
            check_eq(M, want, ("repeat-" + name).c_str(), at);
            check_eq(v, wantv, ("repeat-" + name).c_str(), at);
        }
        VF_CHECK(vf::ledger.live == live0 && vf::ledger.bytes == bytes0, "leak-" + name, "request " << k << " of " << total << ctx);
    }
    VF_CHECK(equals(S, m2) && equals(S3, m3) && equals(SU, mu) && equals(V2, w2) && equals(V3, w3), "operand-modified-" + name, ctx);
    vf::hit("op." + name);
    vf::note(m.hash() ^ m2.hash() ^ vhash(w) ^ (static_cast<u64>(o) << 52) ^ (nr * 77 + nc));
}

// Construction.
template <typename T>
void construct(Rng &r)
{
    size_t R = dim(r, false, 9), C = dim(r, false, 9);
    auto m = imod<T>(r, R, C);
    const Matrix<T> S = mat(m);
    const Matrix<int> SI = mat(imod<int>(r, R, C));
    const Vector<T> V = vec(ivec<T>(r, R));
    const std::vector<T> d(m.d);
    int o = static_cast<int>(r.range(0, 9));
    auto run = [&] {
        switch (o) {
        case 0: { Matrix<T> M(R, C, T(3)); break; }
        case 1: { Matrix<T> M(S); break; }
        case 2: { Matrix<T> M(SI); break; }
        case 3: { Matrix<T> M({ { T(1), T(2) }, { T(3), T(4) } }); break; }
        case 4: { Matrix<T> M(R, C, d); break; }
        case 5: { Vector<T> v(R); break; }
        case 6: { Vector<T> v(V); break; }
        case 7: { Vector<T> v(R, T(1)); break; }
        case 8: { Matrix<T> M(S({ 0, R }, { 0, C })); break; }
        default: { Vector<T> v{ T(1), T(2) }; Matrix<T> M(S); Matrix<T> N(std::move(M)); break; }
        }
    };
    vf::op("construct");
    std::string what, name = "construct-" + std::to_string(o);
    size_t live = vf::ledger.live, bytes = vf::ledger.bytes;
    VF_CHECK(with_failure(0, run, what) == 0, name, what);
    size_t total = vf::ledger.requests;
    for (size_t k = 1; k <= total; ++k) {
        int res = with_failure(k, run, what);
        VF_CHECK(res == 1, "not-reported-" + name, "request " << k << " of " << total << " " << R << "x" << C);
        VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, "leak-" + name, "request " << k << " of " << total << " " << R << "x" << C);
        vf::hit("failures-injected");
    }
    VF_CHECK(equals(S, m), "operand-modified-" + name, show(m));
    vf::note(m.hash() ^ (static_cast<u64>(o) << 40));
}

static const void *volatile g_sink;
// The allocator itself refuses a huge request.
template <typename T>
void huge(Rng &r)
{
    size_t n = (static_cast<size_t>(1) << r.range(45, 60)) + r.below(1000);
    auto m = imod<T>(r, 3, 2);
    auto w = ivec<T>(r, 5);
    size_t live = vf::ledger.live;
    {
        Matrix<T> M = mat(m);
        Vector<T> v = vec(w);
        int o = static_cast<int>(r.range(0, 3));
        int res = 0;
        std::string what;
        try {
            vf::Track t;
            switch (o) {
            case 0: { Vector<T> x(n); g_sink = &x[0]; break; } // the address escapes: no elision
            case 1: { Matrix<T> X(n, 1); g_sink = &X[0]; break; }
            case 2: v.resize(n); break;
            default: M.resize(1, n); break;
            }
        } catch (const std::exception &e) { vf::Pause p; res = 1; what = e.what(); }
        VF_CHECK(res == 1, "huge-accepted", n << " kind " << o);
        VF_CHECK(consistent(M) && consistent(v), "huge-inconsistent", n << " kind " << o);
        if (o < 2) VF_CHECK(equals(M, m) && equals(v, w), "huge-modified", n);
        vf::note(n);
    }
    VF_CHECK(vf::ledger.live == live, "huge-leak", n);
}

SCENARIO(read_only_op, 6) { switch (r.range(0, 3)) { case 0: case 1: read_only<double>(r); break; case 2: read_only<cd>(r); break; default: read_only<int>(r); } }
SCENARIO(modifying_op, 6) { switch (r.range(0, 2)) { case 0: modifying<double, int>(r); break; case 1: modifying<int, float>(r); break; default: modifying<cd, double>(r); } }
SCENARIO(construction, 1) { if (r.chance(1, 2)) construct<double>(r); else construct<int>(r); }
SCENARIO(huge_request, 1) { if (r.chance(1, 2)) huge<double>(r); else huge<int>(r); }

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
