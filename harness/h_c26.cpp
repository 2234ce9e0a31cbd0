// C26: what is written to a file is read back identically.
#include "gen.hpp"
using namespace malg;
static const Large large(150);
static const Long long_cases(60, 65537, 8);

template <typename T> struct real_of { using type = T; };
template <typename T> struct real_of<std::complex<T>> { using type = T; };

// A value with a wide range of magnitudes; never NaN or infinite.
template <typename R> R wild(Rng &r)
{
    if constexpr (std::is_integral_v<R>) {
        switch (r.range(0, 3)) {
        case 0: return std::numeric_limits<R>::max();
        case 1: return std::numeric_limits<R>::min();
        default: return static_cast<R>(r.range(-100000, 100000));
        }
    } else {
        switch (r.range(0, 10)) {
        case 10: return std::numeric_limits<R>::denorm_min() * static_cast<R>(r.range(1, 5000));
        case 0: return R(0);
        case 1: return -R(0);
        case 2: return std::numeric_limits<R>::max();
        case 3: return std::numeric_limits<R>::min();
        case 4: return std::numeric_limits<R>::lowest();
        case 5: return static_cast<R>(r.range(-9, 9));
        case 6: return static_cast<R>(r.real(-1, 1) * std::pow(10.0, r.real(-30, 30)));
        default: return static_cast<R>(r.real(-1000, 1000));
        }
    }
}
template <typename T> T wild_val(Rng &r)
{
    using R = typename real_of<T>::type;
    if constexpr (is_cx<T>) { R a = wild<R>(r), b = wild<R>(r); return T(a, b); }
    else return wild<R>(r);
}
template <typename T> Mod<T> wmod(Rng &r, size_t R, size_t C)
{
    if (r.chance(1, 3)) return imod<T>(r, R, C, -99, 99);
    Mod<T> m(R, C);
    for (auto &x : m.d) x = wild_val<T>(r);
    return m;
}
// Is `got` the value `want` printed with `prec` significant digits?
template <typename T> bool close_val(const T &got, const T &want, int prec)
{
    if constexpr (is_cx<T>) return close_val(got.real(), want.real(), prec) && close_val(got.imag(), want.imag(), prec);
    else if constexpr (std::is_integral_v<T>) return got == want;
    else {
        if (prec >= std::numeric_limits<T>::max_digits10) return got == want && std::signbit(got) == std::signbit(want);
        long double tol = std::fabs((long double)want) * std::pow(10.0L, 1 - prec) * 0.51L;
        return std::fabs((long double)got - (long double)want) <= tol + std::numeric_limits<T>::denorm_min() + std::fabs((long double)want) * 2 * std::numeric_limits<T>::epsilon();
    }
}
struct Item { bool vec; size_t idx; bool other = false; int value = 0; };

template <typename T>
void round_trip(Rng &r)
{
    using R = typename real_of<T>::type;
    std::string name = "c26." + std::to_string(getpid()) + ".txt";
    const int full = std::is_integral_v<R> ? 6 : std::numeric_limits<R>::max_digits10;
    const bool exact = r.chance(2, 3);
    const int prec = exact ? full : (r.chance(1, 2) ? 6 : static_cast<int>(r.range(2, 9)));
    size_t n = static_cast<size_t>(r.range(1, 6));
    std::vector<Item> items;
    std::vector<Mod<T>> ms;
    std::vector<std::vector<T>> vs;
    u64 h = static_cast<u64>(prec);
    {
        std::ofstream f(name);
        if (!f) throw vf::harness_error("cannot write " + name);
        f.precision(prec);
        // Flags that leave a number readable.
        if (r.chance(1, 5)) f << std::scientific;
        if (r.chance(1, 6)) f << std::uppercase;
        if (r.chance(1, 6)) f << std::showpoint;
        if (r.chance(1, 8)) f << std::showpos;
        if (r.chance(1, 6)) f << std::left;
        const auto flags = f.flags();
        for (size_t k = 0; k < n; ++k) {
            bool zero = r.chance(1, 10);
            // At reduced precision the largest value rounds out of range.
            auto cap = [&](auto &d) { if (prec < full) for (auto &x : d) { if constexpr (!std::is_integral_v<R>) if (!(mag(x) < 1e30)) x = T(1); } };
            if (r.chance(1, 6)) { // Some other value in between, on a line of its own.
                int x = static_cast<int>(r.range(0, 999));
                f << x << "\n";
                items.push_back({ false, 0, true, x });
            } else if (r.chance(1, 3)) {
                auto v = std::vector<T>(zero ? 0 : dim(r, false, 40));
                for (auto &x : v) x = wild_val<T>(r);
                cap(v);
                vf::op("write vector");
                const Vector<T> V = vec(v);
                std::ofstream &ret = (f << V);
                VF_CHECK(&ret == &f && f.good(), "write-stream", "vector");
                items.push_back({ true, vs.size() });
                vs.push_back(v);
                h = vf::mix(h ^ vhash(v));
            } else {
                size_t R = dim(r, false, 20), C = dim(r, false, 20);
                // With no elements the shape is kept all the same.
                if (zero) switch (r.range(0, 2)) { case 0: R = 0; break; case 1: C = 0; break; default: R = C = 0; }
                else if (r.chance(1, 8)) (r.chance(1, 2) ? R : C) = 1;
                auto m = wmod<T>(r, R, C);
                cap(m.d);
                Operand<T> A(r, m);
                vf::op("write matrix");
                if (A.has_const() && r.chance(1, 2)) f << A.cget(); else f << A.get();
                VF_CHECK(f.good(), "write-stream", "matrix");
                PURE(A);
                vf::hit(std::string("written.") + A.kname());
                items.push_back({ false, ms.size() });
                ms.push_back(m);
                h = vf::mix(h ^ m.hash());
            }
        }
        VF_CHECK(f.precision() == prec, "precision-changed", f.precision());
        VF_CHECK(f.flags() == flags, "flags-changed", flags << " to " << f.flags());
    }
    vf::note(h);
    std::string text;
    { std::ifstream f(name); std::stringstream b; b << f.rdbuf(); text = b.str(); }
    if (vf::st().samples.size() < 3) vf::sample(text.substr(0, 200));
    std::ifstream f(name);
    for (size_t k = 0; k < n; ++k) {
        if (items[k].other) {
            int x = -1;
            f >> x;
            VF_CHECK(!f.fail() && x == items[k].value, "value-in-between", "got " << x << " want " << items[k].value << " in: " << text);
            vf::hit("in-between");
            continue;
        }
        if (items[k].vec) {
            const auto &w = vs[items[k].idx];
            // The target has some other content.
            Vector<T> V;
            if (r.chance(2, 3)) V = vec(ivec<T>(r, dim(r, false, 30)));
            vf::op("read vector");
            std::ifstream &ret = (f >> V);
            VF_CHECK(&ret == &f && !f.fail(), "read-stream", "vector " << k << " of " << n << " in: " << text);
            bool ok = V.size() == w.size();
            for (size_t i = 0; ok && i < w.size(); ++i) ok = close_val<T>(V[i], w[i], prec);
            VF_CHECK(ok, "vector", "precision " << prec << " got " << show(V) << " want " << show(w) << " in: " << text);
        } else {
            const auto &w = ms[items[k].idx];
            Matrix<T> M;
            switch (r.range(0, 3)) {
            case 0: break;
            case 1: M = mat(imod<T>(r, w.R, w.C)); break; // the same shape
            default: M = mat(imod<T>(r, dim(r, true, 20), dim(r, true, 20))); break;
            }
            vf::op("read matrix");
            std::ifstream &ret = (f >> M);
            VF_CHECK(&ret == &f && !f.fail(), "read-stream", "matrix " << k << " of " << n << " in: " << text);
            bool ok = M.rows() == w.R && M.cols() == w.C && M.size() == w.size();
            for (size_t a = 0; ok && a < w.R; ++a) for (size_t b = 0; ok && b < w.C; ++b) ok = close_val<T>(M(a, b), w(a, b), prec);
            VF_CHECK(ok, "matrix", "precision " << prec << " got " << show(M) << " want " << show(w) << " in: " << text);
        }
        vf::hit("objects-read");
    }
    // Nothing is left.
    char c;
    VF_CHECK(!(f >> c), "trailing-data", text);
    ::unlink(name.c_str());
}
// Reading into another element type (integer valued).
template <typename T, typename U>
void converted(Rng &r)
{
    std::string name = "c26." + std::to_string(getpid()) + ".txt";
    auto m = imod<T>(r, dim(r), dim(r), -99, 99);
    auto v = ivec<T>(r, dim(r), -99, 99);
    { std::ofstream f(name); f << vec(v) << "\n"; f << mat(m); }
    vf::note(m.hash() ^ vhash(v));
    std::ifstream f(name);
    Vector<U> V;
    Matrix<U> M;
    f >> V >> M;
    check_eq(V, [&] { std::vector<U> w; for (auto &x : v) w.push_back(conv<U>(x)); return w; }(), "vector-converted");
    check_eq(M, cmod<U>(m), "matrix-converted");
    ::unlink(name.c_str());
}
SCENARIO(integers, 2) { if (r.chance(1, 2)) round_trip<int>(r); else round_trip<long>(r); }
SCENARIO(reals, 4) { switch (r.range(0, 3)) { case 0: round_trip<float>(r); break; case 1: round_trip<long double>(r); break; default: round_trip<double>(r); } }
SCENARIO(complexes, 3) { if (r.chance(1, 3)) round_trip<cf>(r); else round_trip<cd>(r); }
SCENARIO(conversion, 1) { switch (r.range(0, 2)) { case 0: converted<int, double>(r); break; case 1: converted<double, cd>(r); break; default: converted<float, int>(r); } }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
