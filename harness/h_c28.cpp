// C28: text renderings, against an independent renderer.
#include "gen.hpp"
using namespace malg;
static const Long long_cases(80);

template <typename T> std::string tok(const T &x, const std::ios &like)
{
    std::ostringstream o;
    o.precision(like.precision());
    o.flags(like.flags());
    o << x;
    return o.str();
}
static std::string pad(const std::string &s, size_t w, char fill) { return s.size() >= w ? s : std::string(w - s.size(), fill) + s; }
// Rows of right-aligned elements, one blank between the elements, one newline between the rows.
template <typename T> std::string grid(const Mod<T> &m, std::streamsize prec, char fill = ' ')
{
    std::ostringstream like;
    like.precision(prec);
    size_t w = 0;
    for (auto &x : m.d) w = std::max(w, tok(x, like).size());
    std::string s;
    for (size_t r = 0; r < m.R; ++r) {
        if (r) s += "\n";
        for (size_t c = 0; c < m.C; ++c) s += (c ? " " : "") + pad(tok(m(r, c), like), w, fill);
    }
    return s;
}
template <typename T> Mod<T> as_row(const std::vector<T> &v) { Mod<T> m(1, v.size()); m.d = v; if (v.empty()) m.R = 0; return m; }
template <typename T> Mod<T> values(Rng &r, size_t R, size_t C)
{
    Mod<T> m(R, C);
    switch (r.range(0, 11)) {
    case 0: // elements of one character
        for (auto &x : m.d) x = T(static_cast<int>(r.range(0, 9)));
        return m;
    case 1: { // all the same
        T k = T(static_cast<int>(r.range(-1, 9)));
        for (auto &x : m.d) x = k;
        return m;
    }
    default: break;
    }
    auto one = [&]() -> double {
        switch (r.range(0, 7)) {
        case 0: return 0;
        case 1: return std::ldexp(static_cast<double>(r.range(-9, 9)), static_cast<int>(r.range(-40, 40)));
        case 2: return r.real(-1e6, 1e6);
        case 3: return r.real(-1, 1) * 1e-7;
        default: return static_cast<double>(r.range(-999, 999)) / (r.chance(1, 2) ? 1 : 8);
        }
    };
    if constexpr (std::is_integral_v<T>) for (auto &x : m.d) {
        if (r.chance(1, 3)) { x = static_cast<T>(static_cast<T>(r.next()) >> r.below(sizeof(T) * 8 - 4)); vf::hit("many-digits"); } // any number of digits
        else x = static_cast<T>(r.range(-9999, 9999) / (r.chance(1, 2) ? 1 : 1000));
    }
    else if constexpr (is_cx<T>) { for (auto &x : m.d) { auto a = one(), b = one(); x = T(static_cast<typename T::value_type>(a), static_cast<typename T::value_type>(b)); } }
    else { for (auto &x : m.d) x = static_cast<T>(one()); if (!m.d.empty() && r.chance(1, 12)) m.d[r.below(m.d.size())] = std::numeric_limits<T>::infinity(); }
    return m;
}
static void same(const std::string &got, const std::string &want, const char *key)
{
    VF_CHECK(got == want, key, "got [" << got << "] want [" << want << "]");
}
// The flags of the stream are left alone.
struct Flags {
    std::ios::fmtflags f;
    std::streamsize p;
    char fill;
    std::ostream &o;
    explicit Flags(std::ostream &os) : f(os.flags()), p(os.precision()), fill(os.fill()), o(os) {}
    void check(const char *key) const { VF_CHECK(o.flags() == f && o.precision() == p && o.fill() == fill && o.width() == 0 && o.good(), key, "flags " << o.flags() << " were " << f << " precision " << o.precision() << " was " << p << " width " << o.width()); }
};

// Any shape: row, column, square, rectangular, with no rows or no columns.
template <typename T> Mod<T> any_shape(Rng &r, size_t big)
{
    size_t R = dim(r, false, big), C = dim(r, false, big);
    switch (r.range(0, 23)) {
    case 0: return Mod<T>(0, 0);
    case 1: return Mod<T>(0, C);
    case 2: return Mod<T>(R, 0);
    case 3: case 4: R = 1; break;
    case 5: case 6: C = 1; break;
    default: break;
    }
    return values<T>(r, R, C);
}

template <typename T>
void to_stream(Rng &r)
{
    auto m = any_shape<T>(r, 20);
    auto vm = values<T>(r, 1, dim(r, true, 30));
    std::vector<T> v = vm.d;
    Operand<T> A(r, m);
    const Vector<T> V = vec(v);
    std::ostringstream o;
    std::streamsize p = r.chance(1, 3) ? 6 : r.range(1, 20);
    o.precision(p);
    const char fill = r.chance(1, 3) ? "*.0_-"[r.below(5)] : ' ';
    o.fill(fill);
    vf::hit(fill == ' ' ? "fill.default" : "fill.other");
    vf::note(m.hash() ^ vhash(v) ^ (static_cast<u64>(p) << 55));
    Flags fl(o);
    vf::op("print matrix");
    std::ostream &ret = A.has_const() && r.chance(1, 2) ? (o << A.cget()) : (o << A.get());
    VF_CHECK(&ret == &o, "returns-stream", "matrix");
    same(o.str(), grid(m, p, fill), "matrix");
    fl.check("stream-state");
    PURE(A);
    if (vf::st().samples.size() < 4) vf::sample(o.str());
    o.str("");
    vf::op("print vector");
    o << V;
    same(o.str(), grid(as_row(v), p, fill), "vector");
    fl.check("stream-state");
    check_eq(V, v, "vector-modified");
    // Between other things, chained.
    o.str("");
    o << "a" << A.get() << "b" << V << "c";
    same(o.str(), "a" + grid(m, p, fill) + "b" + grid(as_row(v), p, fill) + "c", "chained");
    vf::hit("elements", m.size() + v.size());
}
// With other format flags: every element is rendered with them, in row order.
template <typename T>
void formatted(Rng &r)
{
    auto m = values<T>(r, r.chance(1, 8) ? 1 : dim(r, false, 10), r.chance(1, 8) ? 1 : dim(r, false, 10));
    Operand<T> A(r, m);
    std::ostringstream o;
    o.precision(r.range(1, 12));
    switch (r.range(0, 4)) {
    case 0: o << std::fixed; break;
    case 1: o << std::scientific; break;
    case 2: o << std::showpos; break;
    case 3: o << std::left; break;
    default: o << std::uppercase; break;
    }
    Flags fl(o);
    vf::note(m.hash() ^ static_cast<u64>(o.flags()) << 40);
    o << A.get();
    fl.check("stream-state");
    std::istringstream in(o.str());
    std::string line, t;
    size_t rows = 0;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        size_t c = 0;
        while (l >> t) {
            VF_CHECK(rows < m.R && c < m.C && t == tok(m(rows, c), o), "formatted-element", "at " << rows << "," << c << " got " << t << " in [" << o.str() << "] for " << show(m));
            ++c;
        }
        VF_CHECK(c == m.C, "formatted-row", "row " << rows << " has " << c << " elements in [" << o.str() << "]");
        ++rows;
    }
    VF_CHECK(rows == m.R, "formatted-rows", rows << " rows in [" << o.str() << "]");
}
template <typename T> std::string cx_text(const T &x)
{
    std::ostringstream o;
    if constexpr (is_cx<T>) o << x.real() << std::showpos << x.imag() << "i";
    else o << x;
    return o.str();
}
template <typename T>
void dumps(Rng &r)
{
    auto m = any_shape<T>(r, 12);
    std::vector<T> v = values<T>(r, 1, dim(r, true, 12)).d;
    Operand<T> A(r, m);
    const Vector<T> V = vec(v);
    std::string name = r.chance(1, 2) ? "name" : "A_1";
    const char *ty = r.chance(1, 2) ? "double" : "std::complex<float>";
    vf::note(m.hash() ^ vhash(v));
    std::ostringstream like;
    same(dump_matrix(name.c_str(), A.get()), name + " = \n" + grid(m, 6), "dump_matrix");
    same(dump_vector(name.c_str(), V), name + " = " + grid(as_row(v), 6), "dump_vector");
    std::string ml = name + " = [", cp = std::string("malg::Matrix<") + ty + "> " + name + " = {", mv = name + " = [", cv = std::string("malg::Vector<") + ty + "> " + name + " = {";
    for (size_t i = 0; i < m.R; ++i) {
        ml += "[";
        cp += i ? ",{" : "{";
        for (size_t j = 0; j < m.C; ++j) { ml += (j ? " " : "") + cx_text(m(i, j)); cp += (j ? "," : "") + cx_text(m(i, j)); }
        ml += "];";
        cp += "}";
    }
    ml += "]";
    cp += "}";
    for (size_t j = 0; j < v.size(); ++j) { mv += (j ? " " : "") + tok(v[j], like); cv += (j ? ", " : "") + cx_text(v[j]); }
    mv += "]";
    cv += "}";
    same(to_matlab(name.c_str(), A.get()), ml, "matlab-matrix");
    same(to_cpp(name.c_str(), ty, A.get()), cp, "cpp-matrix");
    if (A.has_const()) {
        if constexpr (!is_cx<T>) same(to_matlab(name.c_str(), A.cget()), ml, "matlab-const-view");
        same(dump_matrix(name.c_str(), A.cget()), name + " = \n" + grid(m, 6), "dump-const-view");
    }
    // The MATLAB rendering of complex vectors uses the rendering of the elements of the vector.
    if constexpr (!is_cx<T>) same(to_matlab(name.c_str(), V), mv, "matlab-vector");
    else {
        std::string alt = name + " = [";
        for (size_t j = 0; j < v.size(); ++j) alt += (j ? " " : "") + cx_text(v[j]);
        alt += "]";
        std::string got = to_matlab(name.c_str(), V);
        VF_CHECK(got == mv || got == alt, "matlab-vector", "got [" << got << "] want [" << mv << "]");
    }
    same(to_cpp(name.c_str(), ty, V), cv, "cpp-vector");
    PURE(A);
    check_eq(V, v, "vector-modified");
}
template <typename T>
void models(Rng &r)
{
    size_t n = dim(r, false, 6), p = dim(r, false, 4), q = dim(r, false, 4);
    auto A = values<T>(r, n, n), B = values<T>(r, n, p), C = values<T>(r, q, n), D = values<T>(r, q, p);
    T ts = static_cast<T>(r.real(0.001, 2));
    const control::StateSpace<T> s(mat(A), mat(B), mat(C), mat(D));
    const control::DiscreteStateSpace<T> d(mat(A), mat(B), mat(C), mat(D), ts);
    std::ostringstream o;
    std::streamsize pr = r.range(1, 15);
    o.precision(pr);
    const char fill = r.chance(1, 3) ? '*' : ' ';
    o.fill(fill);
    Flags fl(o);
    vf::note(A.hash() ^ B.hash() ^ static_cast<u64>(pr));
    std::string body = "A =\n" + grid(A, pr, fill) + "\nB =\n" + grid(B, pr, fill) + "\nC =\n" + grid(C, pr, fill) + "\nD =\n" + grid(D, pr, fill) + "\n";
    o << s;
    same(o.str(), body + "Continuous-time state-space model.\n", "continuous");
    o.str("");
    o << d;
    std::ostringstream t;
    t.precision(pr);
    t << ts;
    same(o.str(), body + "Sample time: " + t.str() + " seconds\nDiscrete-time state-space model.\n", "discrete");
    fl.check("stream-state");
    check_eq(s.A, A, "model-modified");
    check_eq(d.D, D, "model-modified");
}
SCENARIO(ranges, 1)
{
    Range g{ static_cast<size_t>(r.range(0, 1000)), static_cast<size_t>(r.chance(1, 2) ? static_cast<size_t>(r.range(0, 99999)) : static_cast<size_t>(-1)) };
    std::ostringstream o;
    o << g;
    same(o.str(), "[" + std::to_string(g.start) + ", " + std::to_string(g.stop) + "]", "range");
    vf::note(g.start * 77 + g.stop);
}
#define EACH(f) switch (r.range(0, 6)) { case 0: f<int>(r); break; case 1: f<float>(r); break; case 2: case 3: f<cd>(r); break; case 4: f<long>(r); break; default: f<double>(r); }
SCENARIO(streams, 5) { EACH(to_stream) }
SCENARIO(format_flags, 2) { EACH(formatted) }
SCENARIO(named, 4) { EACH(dumps) }
SCENARIO(state_space, 2) { if (r.chance(1, 3)) models<float>(r); else models<double>(r); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
