// C36: the trace of the allocations (MEM_TRACE) read back as a log of events: it must be a
// consistent account of the storage of the objects that exist.
#define MEM_TRACE
#include "gen.hpp"
#include <map>
using namespace malg;

// The log: what the library writes on the standard output while a case runs.
struct Log {
    std::ostringstream o;
    std::streambuf *old;
    std::multiset<unsigned long long> live; // bytes of every block
    std::map<unsigned long long, unsigned long long> at; // address -> bytes, as last reported
    size_t events = 0, grown = 0, shrunk = 0, moved = 0;
    std::string bad;
    Log() : old(std::cout.rdbuf(o.rdbuf())) {}
    ~Log() { std::cout.rdbuf(old); }
    void wrong(const std::string &what, const std::string &line) { if (bad.empty()) bad = what + ": " + line; }
    // Reads the events since the last call.
    void read()
    {
        std::istringstream in(o.str());
        o.str("");
        std::string line;
        while (std::getline(in, line)) {
            std::vector<unsigned long long> n; // the numbers of the line, the address is the last
            for (size_t i = 0; i < line.size();) {
                if (!std::isdigit(static_cast<unsigned char>(line[i]))) { ++i; continue; }
                size_t used = 0;
                const bool hex = line.compare(i, 2, "0x") == 0;
                n.push_back(std::stoull(line.substr(i), &used, hex ? 16 : 10));
                i += used;
            }
            auto gone = [&](unsigned long long bytes) { auto it = live.find(bytes); if (it == live.end()) return false; live.erase(it); return true; };
            ++events;
            if (line.rfind("Re-", 0) == 0 && n.size() == 3) {
                if (!gone(n[0])) wrong("no block of that size to re-allocate", line);
                if (n[0] == n[1]) vf::hit("re-allocated-to-the-same");
                (n[0] < n[1] ? grown : shrunk)++;
                auto it = at.find(n[2]);
                if (it == at.end() || it->second != n[0]) ++moved;
                live.insert(n[1]);
                at[n[2]] = n[1];
            } else if (line.rfind("Alloc", 0) == 0 && n.size() == 2) {
                live.insert(n[0]);
                at[n[1]] = n[0];
            } else if (line.rfind("Dealloc", 0) == 0 && n.size() == 2) {
                if (!gone(n[0])) wrong("no block of that size to release", line);
                auto it = at.find(n[1]);
                if (it == at.end()) wrong("released but never reported", line);
                else { if (it->second != n[0]) wrong("released with another size", line); at.erase(it); }
            } else {
                wrong("not an event", line);
            }
        }
    }
};

template <typename T>
struct Pool {
    std::vector<std::unique_ptr<Matrix<T>>> m;
    std::vector<std::unique_ptr<Vector<T>>> v;
    // The blocks that the objects own.
    template <typename F> void blocks(F f)
    {
        for (auto &x : m) if (x->size()) f(reinterpret_cast<uintptr_t>(x->data()), x->size() * sizeof(T));
        for (auto &x : v) if (x->size()) f(reinterpret_cast<uintptr_t>(x->data()), x->size() * sizeof(T));
    }
};
template <typename T>
bool account(Log &log, Pool<T> &p, const std::string &done)
{
    log.read();
    VF_CHECK(log.bad.empty(), "event", log.bad << " after" << done);
    std::multiset<unsigned long long> want;
    bool known = true;
    p.blocks([&](unsigned long long a, unsigned long long b) { want.insert(b); auto it = log.at.find(a); if (it == log.at.end() || it->second != b) known = false; });
    auto list = [](const std::multiset<unsigned long long> &s) { std::ostringstream o; for (auto x : s) o << x << ' '; return o.str(); };
    VF_CHECK(want == log.live, "balance", "the log has blocks of " << list(log.live) << "bytes, the objects own " << list(want) << "after" << done);
    VF_CHECK(known, "address", "an object has a block that the log does not report, after" << done);
    return log.bad.empty() && want == log.live && known;
}
template <typename T>
void history(Rng &r)
{
    Log log;
    {
        Pool<T> p;
        std::string done;
        u64 h = sizeof(T);
        const int steps = static_cast<int>(r.range(5, 25));
        auto mk = [&] { return mat(imod<T>(r, dim(r, true, 7), dim(r, true, 7))); };
        for (int s = 0; s < steps; ++s) {
            const int k = static_cast<int>(r.range(0, 17));
            const bool mm = !p.m.empty(), vv = !p.v.empty();
            auto M = [&]() -> Matrix<T> & { return *p.m[r.below(p.m.size())]; };
            auto V = [&]() -> Vector<T> & { return *p.v[r.below(p.v.size())]; };
            std::string name;
            switch (k) {
            case 0: p.m.push_back(std::make_unique<Matrix<T>>(mk())); name = "new matrix"; break;
            case 1: p.v.push_back(std::make_unique<Vector<T>>(dim(r, true, 20), T(1))); name = "new vector"; break;
            case 2: if (mm) { auto q = std::make_unique<Matrix<T>>(M()); p.m.push_back(std::move(q)); name = "copy matrix"; } break;
            case 3: if (vv) { auto q = std::make_unique<Vector<T>>(V()); p.v.push_back(std::move(q)); name = "copy vector"; } break;
            case 4: if (mm) { auto q = std::make_unique<Matrix<T>>(std::move(M())); p.m.push_back(std::move(q)); name = "move matrix"; } break;
            case 5: if (vv) { auto q = std::make_unique<Vector<T>>(std::move(V())); p.v.push_back(std::move(q)); name = "move vector"; } break;
            case 6: if (mm) { Matrix<T> &a = M(), &b = M(); a = b; name = "assign matrix"; } break;
            case 7: if (vv) { Vector<T> &a = V(), &b = V(); a = b; name = "assign vector"; } break;
            case 8: if (mm) { Matrix<T> &a = M(), &b = M(); if (&a != &b) a = std::move(b); name = "move-assign matrix"; } break;
            case 9: if (vv) { Vector<T> &a = V(), &b = V(); if (&a != &b) a = std::move(b); name = "move-assign vector"; } break;
            case 10: if (mm) { M().resize(dim(r, true, 8), dim(r, true, 8)); name = "resize matrix"; } break;
            case 11: if (vv) { V().resize(r.chance(1, 5) ? 0 : dim(r, true, 40)); name = "resize vector"; } break;
            case 12: if (mm) { p.m.erase(p.m.begin() + static_cast<long>(r.below(p.m.size()))); name = "destroy matrix"; } break;
            case 13: if (vv) { p.v.erase(p.v.begin() + static_cast<long>(r.below(p.v.size()))); name = "destroy vector"; } break;
            case 14: if (mm) { Matrix<T> &a = M(); if (!a.empty()) { auto q = linalg::transpose(a) * a; M() = q + T(1); for (auto &x : p.m) for (size_t i = 0; i < x->size(); ++i) (*x)[i] = T(1); } name = "arithmetic"; } break;
            case 15: if (mm) { Matrix<T> &a = M(); if (a.rows() > 1) utility::remove_row(a, r.below(a.rows())); else if (a.cols()) a = utility::vstack(a, a); name = "rows"; } break;
            case 16: if (vv) { // A request that is refused.
                bool thrown = false;
                try { V().resize(std::numeric_limits<size_t>::max() / sizeof(T) + 1 + r.below(100)); } catch (const std::exception &) { thrown = true; }
                VF_CHECK(thrown, "refused", done);
                vf::hit("refused");
                name = "refused";
            } break;
            default: if (mm && vv) { M() = utility::to_matrix(V(), r.chance(1, 2)); V() = utility::ravel(M()); name = "convert"; }
            }
            if (name.empty()) continue;
            done += " | " + name;
            h = vf::mix(h + static_cast<u64>(k));
            vf::op(name.c_str());
            if (!account(log, p, done)) return;
        }
        p.blocks([&](unsigned long long, unsigned long long b) { h = vf::mix(h + b); });
        vf::note(h);
        if (vf::st().samples.size() < 2) vf::sample(done);
    }
    Pool<T> none;
    account(log, none, " the end");
    vf::hit("events", log.events);
    vf::hit("grown", log.grown);
    vf::hit("shrunk", log.shrunk);
    vf::hit("moved", log.moved);
}
SCENARIO(histories, 4) { pick_type(r, [&](auto t) { history<TYPE_OF(t)>(r); }, Ty<double>(), Ty<int>(), Ty<cd>(), Ty<float>(), Ty<long>(), Ty<long double>()); }

// The algorithms leave nothing behind either.
SCENARIO(algorithms, 1)
{
    const size_t n = static_cast<size_t>(r.range(2, 6));
    Log log;
    {
        Pool<double> p;
        Mod<double> a(n, n);
        for (auto &x : a.d) x = static_cast<double>(r.range(-9, 9)) / 4;
        for (size_t i = 0; i < n; ++i) a(i, i) += 30;
        vf::note(a.hash() * 5);
        auto keep = [&](Matrix<double> &&x) { p.m.push_back(std::make_unique<Matrix<double>>(std::move(x))); };
        keep(mat(a));
        p.v.push_back(std::make_unique<Vector<double>>(n, 1.0));
        const int k = static_cast<int>(r.range(0, 9));
        auto A = [&]() -> Matrix<double> & { return *p.m[0]; };
        switch (k) {
        case 0: keep(linalg::inverse(A())); break;
        case 1: { auto q = linalg::qr_decomposition(A()); keep(std::move(q.first)); keep(std::move(q.second)); break; }
        case 2: { auto q = linalg::lu_decomposition(A()); keep(std::move(q.first)); keep(std::move(q.second)); break; }
        case 3: p.v.push_back(std::make_unique<Vector<double>>(linalg::solve(A(), *p.v[0]))); break;
        case 4: keep(linalg::powm(A(), r.below(5))); break;
        case 5: keep(linalg::adjoint(A())); break;
        case 6: keep(linalg::expm(A() * 0.01, 1e-6)); break;
        case 7: keep(control::ctrb(A(), Matrix<double>(n, 1, 1.0))); break;
        case 8: p.v.push_back(std::make_unique<Vector<double>>(control::poly(A()))); break;
        default: keep(utility::hstack(A(), linalg::transpose(A())));
        }
        vf::op("algorithm");
        account(log, p, " algorithm " + std::to_string(k) + " of order " + std::to_string(n));
        vf::hit("algorithm." + std::to_string(k));
    }
    Pool<double> none;
    account(log, none, " the end");
    vf::hit("events", log.events);
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
