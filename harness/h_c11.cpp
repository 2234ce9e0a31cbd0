// C11: flatnonzero and find.
#include "gen.hpp"
using namespace malg;
static const Large large(1100);
static const Long long_cases(80, 65537);

template <typename T>
bool nz(const T &x)
{
    if constexpr (is_cx<T>) return !(x.real() == 0 && x.imag() == 0);
    else return !(x == T(0)); // NaN is not zero
}
template <typename T>
Mod<T> content(Rng &r, size_t R, size_t C)
{
    Mod<T> m(R, C);
    int den = static_cast<int>(r.range(1, 8));
    for (auto &x : m.d) {
        if (!r.chance(1, den)) { x = T(0); continue; }
        x = ival<T>(r, -3, 3);
        if constexpr (std::is_floating_point_v<T>) {
            switch (r.range(0, 11)) {
            case 0: x = std::numeric_limits<T>::quiet_NaN(); vf::hit("nan"); break;
            case 1: x = r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); break;
            case 2: x = std::numeric_limits<T>::min() * (r.chance(1, 2) ? 1 : -1); vf::hit("tiny"); break;
            case 3: x = std::numeric_limits<T>::denorm_min(); vf::hit("denormal"); break;
            case 4: x = -T(0); vf::hit("negative-zero"); break;
            case 5: x = static_cast<T>(r.real(-1e-12, 1e-12)); break;
            default: break;
            }
        } else if constexpr (is_cx<T>) {
            using R2 = typename T::value_type;
            if (r.chance(1, 4)) x = T(R2(0), x.imag());
            if (r.chance(1, 4)) x = T(x.real(), R2(0));
            if (r.chance(1, 8)) x = T(R2(0), std::numeric_limits<R2>::min());
        }
    }
    if (r.chance(1, 10)) for (auto &x : m.d) x = T(0);
    if (r.chance(1, 10) && !m.d.empty()) { for (auto &x : m.d) x = T(0); m.d[r.chance(1, 2) ? 0 : m.d.size() - 1] = T(1); }
    return m;
}
template <typename T>
void go(Rng &r)
{
    size_t R = dim(r, true, 20), C = dim(r, true, 20);
    if (r.chance(1, 4)) R = 1; else if (r.chance(1, 4)) C = 1;
    Mod<T> m = content<T>(r, R, C);
    const Matrix<T> A = mat(m);
    vf::note(m.hash());
    std::vector<size_t> idx;
    for (size_t k = 0; k < m.size(); ++k) if (nz(m.linear(k))) idx.push_back(k);
    vf::hit(idx.empty() ? "none" : idx.size() == m.size() ? "all" : "some");
    vf::op("flatnonzero");
    auto f = utility::flatnonzero(A);
    VF_CHECK(std::vector<size_t>(f.begin(), f.end()) == idx, "flatnonzero", show(m) << " gives " << show(std::vector<size_t>(f.begin(), f.end())) << " want " << show(idx));
    auto cmp = [&](const auto &got, const std::vector<size_t> &want, bool empty00, const char *key, size_t n) {
        size_t wr = R == 1 ? 1 : want.size(), wc = R == 1 ? want.size() : 1;
        if (empty00) wr = wc = 0;
        bool ok = got.rows() * got.cols() == want.size() && got.size() == want.size();
        // A 1x1 input may be considered a row or a column: the shapes are the same up to the number of results.
        if (!(R == 1 && C == 1)) ok = ok && ((m.size() == 0 && got.rows() * got.cols() == 0) || (got.rows() == wr && got.cols() == wc));
        else ok = ok && (got.rows() <= 1 || got.cols() <= 1);
        for (size_t k = 0; ok && k < want.size(); ++k) ok = got[k] == want[k];
        VF_CHECK(ok, key, "n=" << n << " on " << show(m) << " gives " << show(mod_of(got)) << " want " << show(want));
    };
    vf::op("find all");
    cmp(utility::find(A), idx, false, "find-all", 0);
    for (int q = 0; q < 4; ++q) {
        size_t n = r.chance(1, 4) ? idx.size() + r.below(3) : r.below(idx.size() + 3);
        if (r.chance(1, 12)) n = static_cast<size_t>(-1) - r.below(2);
        size_t k = std::min(n, idx.size());
        vf::op("find first");
        std::vector<size_t> first(idx.begin(), idx.begin() + static_cast<long>(k)), last(idx.end() - static_cast<long>(k), idx.end());
        cmp(utility::find(A, n), first, n == 0, "find-first", n);
        cmp(utility::find(A, n, true), first, n == 0, "find-first", n);
        vf::op("find last");
        cmp(utility::find(A, n, false), last, n == 0, "find-last", n);
        if (k && k < idx.size()) vf::hit("limited");
        if (n == 0) vf::hit("zero");
    }
    VF_CHECK(mod_of(A) == m, "operand-modified", show(m));
    if (vf::st().samples.size() < 3) vf::sample(show(m) + " -> " + show(idx));
}
SCENARIO(all, 1) { pick_type(r, [&](auto t) { go<TYPE_OF(t)>(r); }, Ty<double>(), Ty<float>(), Ty<int>(), Ty<long>(), Ty<unsigned char>(), Ty<cd>(), Ty<size_t>()); }
int main(int argc, char **argv) { return vf::run_main(argc, argv); }
