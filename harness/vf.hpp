// Monitoring library shared by all the harnesses: deterministic case generation,
// crash attribution, oracle bookkeeping, evidence counters and an allocation ledger.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf
{
using u64 = std::uint64_t;

inline u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    // Uniform in [a, b].
    long range(long a, long b) { return a + static_cast<long>(next() % static_cast<u64>(b - a + 1)); }
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
    bool chance(int num, int den) { return static_cast<int>(next() % static_cast<u64>(den)) < num; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
};

// ---------------------------------------------------------------------------
// Status page, shared with the runner: survives a crash.
// ---------------------------------------------------------------------------
struct Status {
    volatile u64 current; // index of the running case
    volatile u64 done;    // number of completed cases
    char scenario[96];
    char op[160];
};
inline Status *&status_ptr() { static Status dummy; static Status *p = &dummy; return p; }
inline void op(const char *label)
{
    std::strncpy(status_ptr()->op, label, sizeof(Status::op) - 1);
}

// ---------------------------------------------------------------------------
// Allocation ledger.
// ---------------------------------------------------------------------------
#ifdef VF_LEDGER
struct Ledger {
    static constexpr std::size_t CAP = 1u << 17;
    void **keys   = nullptr;
    std::size_t *sizes = nullptr;
    std::size_t live = 0, bytes = 0, total = 0, requests = 0, fail_at = 0, failed = 0, badfree = 0, biggest = 0;
    bool on = false;
};
extern Ledger ledger;
extern "C" {
void *__real_malloc(std::size_t);
void *__real_calloc(std::size_t, std::size_t);
void *__real_realloc(void *, std::size_t);
void __real_free(void *);
}
struct Track { // enables tracking in a scope
    bool old;
    explicit Track(bool v = true) : old(ledger.on) { ledger.on = v; }
    ~Track() { ledger.on = old; }
};
struct Pause : Track { Pause() : Track(false) {} };
#else
struct Pause { Pause() {} ~Pause() {} };
#endif

// ---------------------------------------------------------------------------
// Results of the monitors.
// ---------------------------------------------------------------------------
struct State {
    std::string out_path;
    u64 seed = 1, cur = 0;
    std::string scenario;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    std::map<std::string, u64> viol_count;
    u64 checks = 0, nontrivial = 0, cases = 0, violations = 0;
    int tier = 0;
    bool verbose = false;
    std::FILE *out = nullptr;
    std::FILE *digest = nullptr;
    u64 dig = 0;
};
inline State &st() { static State s; return s; }

inline std::string jesc(const std::string &s)
{
    std::string o;
    for (char ch : s) {
        unsigned char c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') { o += '\\'; o += ch; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += ch;
    }
    return o;
}

inline void hit(const std::string &label, u64 n = 1) { Pause p; st().counters[label] += n; }
inline void note(u64 h) { Pause p; st().nontrivial++; if (st().distinct.size() < 4000000) st().distinct.insert(mix(h)); }
inline void sample(const std::string &s) { Pause p; if (st().samples.size() < 6) st().samples.push_back(st().scenario + ": " + s); }

inline void fail(const std::string &key, const std::string &detail)
{
    Pause p;
    State &s = st();
    std::string k = s.scenario + ":" + key;
    u64 n = ++s.viol_count[k];
    s.violations++;
    if (n > 5) return;
    if (s.out) {
        std::fprintf(s.out, "{\"kind\":\"violation\",\"key\":\"%s\",\"case\":%llu,\"scenario\":\"%s\",\"detail\":\"%s\"}\n",
                     jesc(k).c_str(), (unsigned long long)s.cur, jesc(s.scenario).c_str(), jesc(detail.substr(0, 1500)).c_str());
        std::fflush(s.out);
    }
    if (s.verbose) std::fprintf(stderr, "VF-FAIL %s case %llu: %s\n", k.c_str(), (unsigned long long)s.cur, detail.c_str());
}

// Evaluates an oracle: `detail` is a stream expression, only evaluated on failure.
#define VF_CHECK(cond, key, detail)                     \
    do {                                                \
        vf::st().checks++;                              \
        if (!(cond)) {                                  \
            vf::Pause vf_pause_;                        \
            std::ostringstream vf_os_;                  \
            vf_os_.precision(17);                       \
            vf_os_ << detail;                           \
            vf::fail(key, vf_os_.str());                \
        }                                               \
    } while (0)

struct harness_error : std::runtime_error { using std::runtime_error::runtime_error; };

using ScenarioFn = void (*)(Rng &);
struct Scenario { const char *name; int weight; ScenarioFn fn; };
inline std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char *n, int w, ScenarioFn f) { scenarios().push_back({ n, w, f }); } };
#define SCENARIO(name, weight)                               \
    static void vf_scn_##name(vf::Rng &);                    \
    static vf::Reg vf_reg_##name(#name, weight, vf_scn_##name); \
    static void vf_scn_##name([[maybe_unused]] vf::Rng &r)

// Digest of results, for cross-build comparison.
inline void digest_bytes(const void *p, std::size_t n)
{
    const unsigned char *c = static_cast<const unsigned char *>(p);
    u64 h = st().dig;
    for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
    st().dig = mix(h + n);
}

inline int run_main(int argc, char **argv)
{
    u64 from = 0, step = 1, count = 100;
    long only = -1;
    std::string status_file, digest_file;
    State &s = st();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { if (i + 1 >= argc) std::exit(3); return std::string(argv[++i]); };
        if (a == "--seed") s.seed = std::stoull(val());
        else if (a == "--from") from = std::stoull(val());
        else if (a == "--step") step = std::stoull(val());
        else if (a == "--count") count = std::stoull(val()); // exclusive upper bound on the index
        else if (a == "--only") only = std::stol(val());
        else if (a == "--out") s.out_path = val();
        else if (a == "--status") status_file = val();
        else if (a == "--digest") digest_file = val();
        else if (a == "--tier") s.tier = std::stoi(val());
        else if (a == "--verbose") s.verbose = true;
        else return 3;
    }
    if (!status_file.empty()) {
        int fd = ::open(status_file.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ::ftruncate(fd, sizeof(Status)) != 0) return 3;
        void *p = ::mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        if (p == MAP_FAILED) return 3;
        status_ptr() = static_cast<Status *>(p);
    }
    if (!s.out_path.empty()) { s.out = std::fopen(s.out_path.c_str(), "a"); if (!s.out) return 3; }
    if (!digest_file.empty()) { s.digest = std::fopen(digest_file.c_str(), "a"); if (!s.digest) return 3; }
    // The library reports some conditions on the standard streams.
    std::streambuf *olderr = std::cerr.rdbuf(nullptr);
    std::streambuf *oldout = std::cout.rdbuf(nullptr);
    std::vector<const Scenario *> table;
    for (auto &sc : scenarios()) for (int k = 0; k < sc.weight; ++k) table.push_back(&sc);
    // Spread the scenarios, deterministically.
    { Rng sh(12345); for (std::size_t i = table.size(); i > 1; --i) std::swap(table[i - 1], table[sh.below(i)]); }
    if (only >= 0) { from = static_cast<u64>(only); step = 1; count = from + 1; }
    for (auto &sc : scenarios()) hit("scenario." + std::string(sc.name), 0);
    int rc = 0;
    for (u64 i = from; i < count; i += step) {
        // Hashed, so that every shard runs all of them whatever the number of shards.
        const Scenario &sc = *table[mix(i * 0x9e3779b97f4a7c15ULL + 12345) % table.size()];
        s.cur = i;
        s.scenario = sc.name;
        s.dig = 0;
        Status *sp = status_ptr();
        sp->current = i;
        std::strncpy(sp->scenario, sc.name, sizeof(sp->scenario) - 1);
        std::strncpy(sp->op, "-", 2);
        Rng r(mix(s.seed * 0x51ed270b + 77) ^ mix(i * 0x2545f491 + 3));
        std::cerr.clear(); std::cout.clear();
        try {
            sc.fn(r);
        } catch (const harness_error &e) {
            std::fprintf(stderr, "harness error: %s\n", e.what());
            rc = 3;
            break;
        } catch (const std::exception &e) {
            fail(std::string("unexpected-exception:") + typeid(e).name(), std::string(e.what()) + " at " + sp->op);
        }
        s.cases++;
        sp->done++;
        s.counters[std::string("scenario.") + sc.name]++;
        if (s.digest) std::fprintf(s.digest, "%llu %s %016llx\n", (unsigned long long)i, sc.name, (unsigned long long)s.dig);
    }
    std::cerr.rdbuf(olderr);
    std::cout.rdbuf(oldout);
    if (s.out) {
        std::ostringstream o;
        o << "{\"kind\":\"summary\",\"cases\":" << s.cases << ",\"checks\":" << s.checks << ",\"nontrivial\":" << s.nontrivial
          << ",\"violations\":" << s.violations << ",\"counters\":{";
        bool first = true;
        for (auto &c : s.counters) { o << (first ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; first = false; }
        o << "},\"samples\":[";
        first = true;
        for (auto &x : s.samples) { o << (first ? "" : ",") << "\"" << jesc(x.substr(0, 600)) << "\""; first = false; }
        o << "]}\n";
        std::fputs(o.str().c_str(), s.out);
        std::fclose(s.out);
        // Distinct hashes, for the union over shards.
        std::FILE *h = std::fopen((s.out_path + ".hash").c_str(), "ab");
        if (h) { std::vector<u64> v(s.distinct.begin(), s.distinct.end()); std::fwrite(v.data(), 8, v.size(), h); std::fclose(h); }
    }
    if (s.digest) std::fclose(s.digest);
    return rc;
}
} // namespace vf
