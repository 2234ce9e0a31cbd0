// C27: reading malformed files. Bytes are generated by mutating well-formed files or from
// a token grammar; the allocator is capped (see props.py) so that absurd sizes are refused.
#ifndef VF_LEDGER
#define VF_LEDGER
#endif
#include "gen.hpp"
#include "ledger.inc"
using namespace malg;
static const Long long_cases(30, 5000, 3);

static std::string fname() { return "c27." + std::to_string(getpid()) + ".txt"; }
static void put_file(const std::string &n, const std::string &s)
{
    std::FILE *f = std::fopen(n.c_str(), "wb");
    if (!f) throw vf::harness_error("cannot write " + n);
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
}
// An element made of the pattern of fresh memory was never written.
template <typename T> bool fresh_memory(const T &x)
{
    unsigned char b[sizeof(T)];
    std::memcpy(b, &x, sizeof(T));
    size_t n = std::min<size_t>(sizeof(T), is_cx<T> ? sizeof(T) / 2 : sizeof(T));
    if (std::is_same_v<T, long double>) n = 8;
    for (size_t i = 0; i < n; ++i) if (b[i] != 0xA5) return false;
    return true;
}
static std::string esc(const std::string &s) { return vf::jesc(s.substr(0, 300)); }

template <typename T>
void look(const Vector<T> &V, const std::string &s)
{
    VF_CHECK(static_cast<size_t>(V.end() - V.begin()) == V.size(), "inconsistent-vector", esc(s));
    VF_CHECK(V.size() == 0 || vf::led_block(V.data()) >= V.size() * sizeof(T), "storage-too-small", V.size() << " elements, block of " << vf::led_block(V.data()) << " bytes: " << esc(s));
    bool bad = false;
    for (size_t i = 0; i < V.size(); ++i) bad = bad || fresh_memory<T>(V[i]);
    VF_CHECK(!bad, "uninitialised-vector", "size " << V.size() << " " << esc(s));
}
template <typename T>
void look(const Matrix<T> &M, const std::string &s)
{
    VF_CHECK(M.size() == M.rows() * M.cols() && static_cast<size_t>(M.end() - M.begin()) == M.size() && (M.rows() == 0 || M.size() / M.rows() == M.cols()),
             "inconsistent-matrix", M.rows() << "x" << M.cols() << " over " << M.size() << " elements: " << esc(s));
    VF_CHECK(M.size() == 0 || vf::led_block(M.data()) >= M.size() * sizeof(T), "storage-too-small", M.rows() << "x" << M.cols() << ", block of " << vf::led_block(M.data()) << " bytes: " << esc(s));
    bool bad = false;
    for (auto &x : M) bad = bad || fresh_memory<T>(x);
    VF_CHECK(!bad, "uninitialised-matrix", M.rows() << "x" << M.cols() << " " << esc(s));
}

// Reads objects from the bytes until nothing changes.
template <typename T>
void feed(Rng &r, const std::string &s)
{
    size_t live = vf::ledger.live, bytes = vf::ledger.bytes;
    {
        put_file(fname(), s);
        std::ifstream f(fname(), std::ios::binary);
        int n = static_cast<int>(r.range(1, 3));
        for (int k = 0; k < n; ++k) {
            // What the library will see as the type.
            char type = 0;
            std::streampos pos = f.good() ? f.tellg() : std::streampos(-1);
            if (pos != std::streampos(-1)) { if (!(f >> type)) type = 0; f.clear(); f.seekg(pos); }
            bool thrown = false;
            std::string what;
            if (r.chance(1, 2)) {
                auto w = ivec<T>(r, r.chance(1, 3) ? 0 : dim(r, true, 20));
                Vector<T> V;
                { vf::Track t; V = vec(w); }
                vf::op("read vector");
                try { vf::Track t; f >> V; } catch (const std::exception &e) { vf::Pause p; thrown = true; what = e.what(); }
                look(V, s);
                if (type != 'V') {
                    VF_CHECK(equals(V, w), "vector-changed-by-wrong-type", "type letter " << static_cast<int>(type) << " in " << esc(s));
                    vf::hit("wrong-type");
                } else vf::hit(thrown ? "refused" : f.fail() ? "failed-stream" : "accepted");
                // Still usable.
                { vf::Track t; V.resize(3); V[2] = T(1); }
            } else {
                auto w = r.chance(1, 3) ? Mod<T>() : imod<T>(r, dim(r, true, 10), dim(r, true, 10));
                Matrix<T> M;
                { vf::Track t; M = mat(w); }
                vf::op("read matrix");
                try { vf::Track t; f >> M; } catch (const std::exception &e) { vf::Pause p; thrown = true; what = e.what(); }
                look(M, s);
                if (type != 'M') {
                    VF_CHECK(equals(M, w), "matrix-changed-by-wrong-type", "type letter " << static_cast<int>(type) << " in " << esc(s));
                    vf::hit("wrong-type");
                } else vf::hit(thrown ? "refused" : f.fail() ? "failed-stream" : "accepted");
                { vf::Track t; M.resize(3, 2); M(2, 1) = T(1); }
            }
            if (!f.good() && r.chance(1, 2)) break;
            if (r.chance(1, 6)) f.clear();
        }
        vf::note(std::hash<std::string>()(s) ^ sizeof(T));
    }
    VF_CHECK(vf::ledger.live == live && vf::ledger.bytes == bytes, "leak", vf::ledger.live - live << " blocks, reading " << esc(s));
    ::unlink(fname().c_str());
}
static std::string number(Rng &r)
{
    switch (r.range(0, 11)) {
    case 0: return "-" + std::to_string(r.range(1, 5));
    case 1: return "18446744073709551615";
    case 2: return "99999999999999999999999";
    case 3: return std::to_string(static_cast<u64>(1) << r.range(30, 63));
    case 4: return std::to_string((static_cast<u64>(1) << 32) + r.below(3));
    case 5: return "0";
    case 6: return "1e3";
    case 7: return "0x10";
    case 8: return std::to_string(r.range(1, 3)) + ".5";
    default: return std::to_string(r.range(0, 40));
    }
}
static std::string value(Rng &r)
{
    switch (r.range(0, 13)) {
    case 0: return "nan";
    case 1: return "inf";
    case 2: return "(1,2)";
    case 3: return "(1,";
    case 4: return "1e999";
    case 5: return "abc";
    case 6: return "-";
    case 7: return "V";
    default: return std::to_string(r.range(-99, 99));
    }
}
static std::string grammar(Rng &r)
{
    std::string s;
    int objs = static_cast<int>(r.range(1, 2));
    for (int o = 0; o < objs; ++o) {
        bool m = r.chance(1, 2);
        s += r.chance(1, 8) ? std::string(1, "vmMVXN\0 "[r.below(8)]) : m ? "M" : "V";
        s += r.chance(1, 10) ? "" : " ";
        bool mild = r.chance(1, 2);
        auto nb = [&] { return mild ? std::to_string(r.range(0, 9)) : number(r); };
        s += nb();
        if (m && !r.chance(1, 12)) s += " " + nb();
        s += r.chance(1, 10) ? "" : "\n";
        size_t n = r.below(30);
        for (size_t k = 0; k < n; ++k) s += value(r) + (r.chance(1, 5) ? "\n" : " ");
    }
    return s;
}
// A well-formed file, damaged.
static std::string damaged(Rng &r)
{
    std::string s;
    {
        std::ofstream f(fname());
        if (r.chance(1, 2)) f << mat(imod<double>(r, dim(r, true, 8), dim(r, true, 8))); else { size_t k = dim(r, true, 8); f << vec(k > 8 || r.chance(1, 2) ? ivec<double>(r, k) : rvec<double>(r, k)); }
        if (r.chance(1, 3)) f << mat(imod<cd>(r, 2, 2));
    }
    { std::ifstream f(fname()); std::stringstream b; b << f.rdbuf(); s = b.str(); }
    int n = static_cast<int>(r.range(0, 4));
    for (int k = 0; k < n && !s.empty(); ++k) {
        size_t p = r.below(s.size());
        switch (r.range(0, 5)) {
        case 0: s.resize(p); break;
        case 1: s[p] = static_cast<char>(r.below(256)); break;
        case 2: s.erase(p, 1 + r.below(4)); break;
        case 3: s.insert(p, number(r)); break;
        case 4: s[p] = "0123456789-+. \n\t(),eMV"[r.below(22)]; break;
        default: s.insert(p, s.substr(r.below(s.size()), r.below(9))); break;
        }
    }
    return s;
}
static void any_type(Rng &r, const std::string &s)
{
    if (vf::st().samples.size() < 4) vf::sample(s.substr(0, 120));
    switch (r.range(0, 4)) {
    case 0: feed<int>(r, s); break;
    case 1: feed<float>(r, s); break;
    case 2: feed<cd>(r, s); break;
    default: feed<double>(r, s); break;
    }
}
#ifdef VF_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n)
{
    static std::once_flag once;
    std::call_once(once, [] { std::cerr.rdbuf(nullptr); std::cout.rdbuf(nullptr); vf::st().scenario = "fuzz"; });
    if (n < 1) return 0;
    Rng r(d[0]);
    any_type(r, std::string(reinterpret_cast<const char *>(d + 1), n - 1));
    if (vf::st().violations) { std::fprintf(stderr, "VF-MONITOR %s\n", vf::st().viol_count.begin()->first.c_str()); std::abort(); }
    return 0;
}
#else
SCENARIO(token_grammar, 4) { any_type(r, grammar(r)); }
SCENARIO(damaged_file, 4) { any_type(r, damaged(r)); }
SCENARIO(random_bytes, 1)
{
    std::string s = r.chance(1, 2) ? "M" : r.chance(1, 2) ? "V" : "";
    size_t n = r.below(60);
    for (size_t k = 0; k < n; ++k) s += static_cast<char>(r.chance(1, 2) ? r.below(256) : static_cast<size_t>("0123456789 -."[r.below(13)]));
    any_type(r, s);
}
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
#endif
