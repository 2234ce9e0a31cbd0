// C33: records the results of the operations whose definition does not involve the
// linear order of the elements; the runner compares the records of the row-major and
// column-major builds case by case.
#include "ops.hpp"
using namespace malg;
static const Large large(80);

// The record of a case is a line: index, scenario, hash of what must be identical,
// values that must agree up to rounding.
static void record(const Sink &s, const std::string &what)
{
    vf::State &t = vf::st();
    if (t.digest) {
        std::fprintf(t.digest, "%llu %s %016llx %s", (unsigned long long)t.cur, t.scenario.c_str(), (unsigned long long)s.exact_h, what.c_str());
        for (double x : s.approx_v) std::fprintf(t.digest, " %.17g", x);
        std::fputc('\n', t.digest);
    }
    t.checks++;
    vf::note(s.bits);
    vf::hit("recorded-values", s.approx_v.size());
    vf::hit("op." + what);
}

template <typename T>
void op_case(Rng &r)
{
    const auto &table = ops<T>();
    size_t q = r.below(table.size());
    while (table[q].flags & (LINEAR | RANDOM)) q = r.below(table.size());
    const Inputs<T> in(r, static_cast<size_t>(r.range(2, 6)), dim(r, false, 9), dim(r, false, 9));
    vf::op(table[q].name);
    Sink s;
    s.keep = true;
    table[q].fn(in, s);
    VF_CHECK(!s.inconsistent, "inconsistent", table[q].name);
    record(s, std::string(table[q].name) + "/" + tname<T>());
}

// A history of shape-changing and element-changing operations, without reshape.
template <typename T>
void history(Rng &r)
{
    Sink s;
    Matrix<T> M = mat(imod<T>(r, dim(r, false, 6), dim(r, false, 6)));
    int n = static_cast<int>(r.range(3, 14));
    for (int k = 0; k < n; ++k) {
        size_t R = M.rows(), C = M.cols();
        switch (r.range(0, 11)) {
        case 0: M.resize(1 + r.below(7), 1 + r.below(7)); break;
        case 1: M = mat(imod<T>(r, R, C)); break;
        case 2: M = linalg::transpose(M); break;
        case 3: M = utility::vstack(M, mat(imod<T>(r, 1 + r.below(3), C))); break;
        case 4: M = utility::hstack(M, mat(imod<T>(r, R, 1 + r.below(3)))); break;
        case 5: if (R > 1) utility::remove_row(M, r.below(R)); break;
        case 6: if (C > 1) utility::remove_column(M, r.below(C)); break;
        case 7: utility::swap_rows(M, r.below(R), r.below(R)); break;
        case 8: utility::swap_cols(M, r.below(C), r.below(C)); break;
        case 9: { auto v = M({ 0, 1 + r.below(R) }, { C / 2, C }); v += T(1); Matrix<T> X(v); M = X; break; }
        case 10: { auto w = utility::row(M, r.below(R)); w *= T(2); break; }
        default: { CofactorView<Matrix<T>> cv(&M, r.below(R), r.below(C)); if (R > 1 && C > 1) { Matrix<T> X(cv); s.exact(X); } break; }
        }
        for (size_t a = 0; a < M.rows(); ++a) for (size_t b = 0; b < M.cols(); ++b) if (mag(M(a, b)) > 1000) M(a, b) = T(1);
        s.exact(M);
    }
    record(s, "history/" + tname<T>());
}

// Initialisation from row lists and writing to a file.
template <typename T>
void literal_and_file(Rng &r)
{
    Sink s;
    auto m = imod<T>(r, 2, 3);
    Matrix<T> M({ { m(0, 0), m(0, 1), m(0, 2) }, { m(1, 0), m(1, 1), m(1, 2) } });
    s.exact(M);
    Matrix<T> N;
    N = { { m(0, 0), m(0, 1) }, { m(0, 2), m(1, 0) }, { m(1, 1), m(1, 2) } };
    s.exact(N);
    Matrix<T> Z = mat(rmod<T>(r, dim(r, false, 7), dim(r, false, 7), -9, 9));
    std::string name = "c33." + std::to_string(getpid()) + ".txt";
    { std::ofstream f(name); f << Z << M; f << vec(ivec<T>(r, 4)); }
    { std::ifstream f(name, std::ios::binary); std::stringstream b; b << f.rdbuf(); s.exact(b.str()); }
    { std::ifstream f(name); Matrix<T> X, Y; f >> X >> Y; s.exact(X); s.exact(Y); }
    ::unlink(name.c_str());
    record(s, "file/" + tname<T>());
}

SCENARIO(operations, 6) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); switch (r.range(0, 4)) { case 0: case 1: op_case<double>(r); break; case 2: op_case<cd>(r); break; case 3: op_case<float>(r); break; default: op_case<int>(r); } }
SCENARIO(histories, 2) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); switch (r.range(0, 2)) { case 0: history<int>(r); break; case 1: history<double>(r); break; default: history<cd>(r); } }
SCENARIO(files, 1) { Grained grained(r.chance(1, 2) ? QUARTERS : WHOLE); switch (r.range(0, 2)) { case 0: literal_and_file<int>(r); break; case 1: literal_and_file<double>(r); break; default: literal_and_file<cd>(r); } }

int main(int argc, char **argv) { return vf::run_main(argc, argv); }
