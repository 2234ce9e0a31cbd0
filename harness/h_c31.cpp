// C31: concurrent read-only use of shared objects under ThreadSanitizer, with a
// comparison of the result of every thread with the single-threaded one.
#include "ops.hpp"
#include <thread>

static std::atomic<int> g_active[8];
static std::atomic<int> g_ready, g_inconsistent;

template <typename T>
void shared(Rng &r, int kind)
{
    const auto &table = ops<T>();
    // One set of shared inputs, or several of different sizes.
    std::vector<std::unique_ptr<const Inputs<T>>> ins;
    const size_t NI = r.chance(1, 2) ? 1 : static_cast<size_t>(r.range(2, 3));
    u64 before = 0;
    auto prints = [&] { u64 h = 0; for (auto &q : ins) h = vf::mix(h ^ q->print()); return h; };
    std::string sizes;
    for (size_t k = 0; k < NI; ++k) { const size_t n = static_cast<size_t>(r.range(2, 5)); ins.emplace_back(new Inputs<T>(r, n, dim(r, false, 6), dim(r, false, 6))); sizes += std::to_string(n) + " "; }
    before = prints();
    const int NT = static_cast<int>(r.range(3, 6));
    // The work of each thread: kind 0 all the threads run the same few operations, 1 random ones.
    struct Job { size_t op, in; bool operator<(const Job &o) const { return op != o.op ? op < o.op : in < o.in; } };
    std::vector<std::vector<Job>> plan(static_cast<size_t>(NT));
    std::vector<size_t> pool;
    for (int k = 0; k < 3; ++k) pool.push_back(r.below(table.size()));
    size_t len = static_cast<size_t>(r.range(6, 14));
    for (auto &p : plan)
        for (size_t k = 0; k < len; ++k) p.push_back({ kind == 0 ? pool[r.below(pool.size())] : r.below(table.size()), r.below(NI) });
    // Reference results, from this thread alone.
    std::map<Job, u64> ref;
    std::string names;
    for (auto &p : plan) for (Job q : p) if (!ref.count(q)) { vf::op(table[q.op].name); Sink s; table[q.op].fn(*ins[q.in], s); ref[q] = s.bits; if (names.size() < 300) names += std::string(table[q.op].name) + " "; VF_CHECK(!s.inconsistent, std::string("inconsistent-") + table[q.op].name, names); }
    vf::op("concurrent");
    struct Bad { size_t op; };
    std::vector<std::vector<Bad>> bad(plan.size());
    std::vector<std::set<u64>> pairs(plan.size());
    for (auto &a : g_active) a.store(-1, std::memory_order_relaxed);
    g_ready.store(0, std::memory_order_relaxed);
    auto work = [&](size_t me) {
        // Start together: relaxed accesses do not order anything.
        g_ready.fetch_add(1, std::memory_order_relaxed);
        while (g_ready.load(std::memory_order_relaxed) < NT) {}
        for (Job job : plan[me]) {
            const size_t q = job.op;
            g_active[me].store(static_cast<int>(q), std::memory_order_relaxed);
            for (size_t o = 0; o < plan.size(); ++o) { int x = g_active[o].load(std::memory_order_relaxed); if (o != me && x >= 0) pairs[me].insert(std::min<u64>(q, static_cast<u64>(x)) * 1000 + std::max<u64>(q, static_cast<u64>(x))); }
            Sink s;
            table[q].fn(*ins[job.in], s);
            if (!(table[q].flags & RANDOM) && s.bits != ref.at(job)) bad[me].push_back({ q });
            if (s.inconsistent) g_inconsistent.fetch_add(1, std::memory_order_relaxed);
            g_active[me].store(-1, std::memory_order_relaxed);
        }
    };
    std::vector<std::thread> th;
    for (size_t k = 0; k < plan.size(); ++k) th.emplace_back(work, k);
    for (auto &t : th) t.join();
    static std::set<u64> seen[2][8];
    auto &sn = seen[0][sizeof(T) % 8];
    for (auto &p : pairs) for (u64 x : p) if (sn.insert(x).second) vf::hit("overlapping-operation-pairs");
    for (auto &b : bad) for (auto &x : b) VF_CHECK(false, std::string("result-") + table[x.op].name, "the result differs from the single-threaded one, n=" << sizes << " threads " << NT << " ops " << names);
    VF_CHECK(g_inconsistent.load(std::memory_order_relaxed) == 0, "inconsistent", names);
    VF_CHECK(prints() == before, "inputs-modified", names);
    u64 ops_run = 0; for (auto &p : plan) ops_run += p.size();
    vf::hit("concurrent-operations", ops_run);
    vf::note(before ^ ops_run ^ (pool[0] << 8));
    if (r.chance(1, 20)) vf::sample(std::to_string(NT) + " threads, n=" + sizes + ": " + names);
}

// Different threads mutate different objects, all copied from one shared constant object.
template <typename T>
void separate(Rng &r)
{
    const size_t n = static_cast<size_t>(r.range(2, 5));
    const Inputs<T> in(r, n, dim(r, false, 5), dim(r, false, 5));
    const u64 before = in.print();
    const int NT = 4;
    u64 seed = r.next();
    auto job = [&](u64 sd) {
        Rng q(sd);
        malg::Matrix<T> M(in.A), N = in.B;
        malg::Vector<T> v(in.v);
        for (int k = 0; k < 12; ++k) {
            switch (q.range(0, 9)) {
            case 0: M += in.B; break;
            case 1: M -= T(1); break;
            case 2: if (M.rows() == in.n && M.cols() == in.n) M *= in.AI; break;
            case 3: M.resize(in.n + q.below(2), in.n); M.resize(in.n, in.n); break;
            case 4: malg::utility::swap_rows(M, 0, in.n - 1); break;
            case 5: malg::utility::swap_cols(M, 0, in.n - 1); break;
            case 6: N = M; break;
            case 7: N = malg::Matrix<T>(M({ 0, in.n }, { 0, in.n })); break;
            case 8: v += in.w; v *= T(2); break;
            default: { auto x = M({ 0, 1 }, { 0, in.n }); x += T(1); M[0] = T(3); } break;
            }
            for (size_t a = 0; a < M.size(); ++a) if (mag(M[a]) > 1e4) M[a] = T(1);
            for (size_t a = 0; a < v.size(); ++a) if (mag(v[a]) > 1e4) v[a] = T(1);
        }
        Sink s;
        s.exact(M); s.exact(N); s.exact(v);
        return s.bits;
    };
    std::vector<u64> want, got(static_cast<size_t>(NT));
    for (int k = 0; k < NT; ++k) want.push_back(job(seed + static_cast<u64>(k)));
    g_ready.store(0, std::memory_order_relaxed);
    std::vector<std::thread> th;
    for (int k = 0; k < NT; ++k) th.emplace_back([&, k] {
        g_ready.fetch_add(1, std::memory_order_relaxed);
        while (g_ready.load(std::memory_order_relaxed) < NT) {}
        got[static_cast<size_t>(k)] = job(seed + static_cast<u64>(k));
    });
    for (auto &t : th) t.join();
    for (int k = 0; k < NT; ++k) VF_CHECK(got[static_cast<size_t>(k)] == want[static_cast<size_t>(k)], "result", "thread " << k << " computed another result than alone, seed " << seed);
    VF_CHECK(in.print() == before, "inputs-modified", "seed " << seed);
    vf::note(seed);
}

SCENARIO(shared_same, 3) { switch (r.range(0, 3)) { case 0: case 1: shared<double>(r, 0); break; case 2: shared<cd>(r, 0); break; default: shared<int>(r, 0); } }
SCENARIO(shared_mixed, 3) { switch (r.range(0, 3)) { case 0: case 1: shared<double>(r, 1); break; case 2: shared<cd>(r, 1); break; default: shared<int>(r, 1); } }
SCENARIO(separate_objects, 1) { if (r.chance(1, 2)) separate<double>(r); else separate<int>(r); }

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
