#include "hooks.h"
#include "gemm.cpp"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "tracker.cpp"
#undef FAIL
extern "C" {
void vc_dgemm(char, char, int, int, int, double, const double*, int, const double*, int, double, double*, int) {}
void vc_sgemm(char, char, int, int, int, float, const float*, int, const float*, int, float, float*, int) {}
}
namespace BlasBooster {
#define SPARSE(T, MM, CSR) \
    void BlasInterface<IntelMKL, MM>::operator()(const char*, const int*, const int*, const int*, const T*, const char*, const T*, const int*, const int*, const int*, const T*, const int*, const T*, T*, const int*) const {} \
    void BlasInterface<IntelMKL, CSR>::operator()(const char*, const int*, const int*, const int*, const int*, const int*, T*, int*, int*, T*, int*, int*, T*, int*, int*, const int*, int* info) const { *info = 0; }
SPARSE(double, dcsrmm, dcsrmultcsr) SPARSE(float, scsrmm, scsrmultcsr)
}
typedef std::array<size_t, (size_t)TrackerID::size> Counts;
static const size_t N = (size_t)TrackerID::size;
// exactly one more call of id
template <class F> static void once(const char* what, TrackerID id, F f)
{
    CASE("%s", what);
    Counts before; for (size_t i = 0; i < N; ++i) before[i] = TrackerRegister::count[i] = R(0, 1000);
    f();
    for (size_t i = 0; i < N; ++i)
        if (TrackerRegister::count[i] != before[i] + (i == (size_t)id)) FAIL("count %zu changes by %ld", i, (long)(TrackerRegister::count[i] - before[i]));
}
static void names()
{
    EnumParser<TrackerID> p;
    std::set<std::string> all;
    size_t i = 0;
#undef X
#define X(ID) { CASE("name of " #ID); std::string s = p(TrackerID::ID); if (s != #ID) FAIL("name is %s", s.c_str()); \
        if (p(std::string(#ID)) != TrackerID::ID) FAIL("name stands for number %d", (int)p(std::string(#ID))); if (!all.insert(s).second) FAIL("name twice"); ++i; }
    TRACKERS
    if (i != N) FAIL("operations without a name are not covered");
}
// the printed statistics list each called operation with its own count
static void table()
{
    std::map<std::string, size_t> want; std::vector<std::string> nm;
#undef X
#define X(ID) nm.push_back(#ID); { size_t c = R(0, 2) ? R(1, 9999) : 0; TrackerRegister::count[(size_t)TrackerID::ID] = c; TrackerRegister::time[(size_t)TrackerID::ID] = clock::duration(0); if (c) want[#ID] = c; }
    TRACKERS
    CASE("printed table"); for (auto& w : want) ADD(" %s=%zu", w.first.c_str(), w.second);
    std::ostringstream os; TrackerRegister::print(os);
    std::istringstream is(os.str()); std::string line; std::map<std::string, size_t> got; bool body = false;
    while (std::getline(is, line)) {
        if (!body) { body = line.find("-----") != std::string::npos; continue; }
        for (auto& n : nm) { size_t k = line.find(n); if (k != std::string::npos && (k == 0 || line[k - 1] == ' ') && (line[k + n.size()] == ' ' || isdigit(line[k + n.size()]))) {
            // the count is followed immediately by the time, here 0 ns
            std::string rest = line.substr(k + n.size()); size_t e = rest.rfind("0 ns"); if (e == std::string::npos) FAIL("row without time: %s", line.c_str());
            if (!got.emplace(n, strtoul(rest.substr(0, e).c_str(), 0, 10)).second) FAIL("%s twice", n.c_str()); } }
    }
    if (got != want) { for (auto& w : want) if (!got.count(w.first) || got[w.first] != w.second) FAIL("%s: %zu calls", w.first.c_str(), got[w.first]); FAIL("additional rows"); }
}
template <class M> static M dense(size_t r, size_t c) { M m(r, c); for (auto& x : m) x = R(0, 2) ? 0 : R(-9, 9); return m; }
static void ops()
{
    size_t m = R(1, 4), k = R(1, 4), n = R(1, 4);
    MD A = dense<MD>(m, k), B = dense<MD>(k, n), C; MF Af = dense<MF>(m, k), Bf = dense<MF>(k, n), Cf; *A.begin() = *B.begin() = 1; *Af.begin() = *Bf.begin() = 1;
    typedef Matrix<Zero> Z0; typedef Matrix<Sparse, float, PC> SF;
    SD As(A), Bs(B); Z0 Az(m, k), Bz(k, n);
    once("native dense", TrackerID::Native_GeneralDense, [&] { MultiplicationFunctor<Dense,double,PC,Dense,double,PC,Dense,double,PC,Native>()(A, B, C); });
    once("native mixed", TrackerID::Native_GeneralDense, [&] { MultiplicationFunctor<Dense,float,PC,Dense,double,PC,Dense,double,PC,Native>()(Af, B, C); });
    once("native expression", TrackerID::Native_GeneralDense, [&] { C = A * B; });
    once("native sparse", TrackerID::Native_sparse, [&] { SD S; MultiplicationFunctor<Sparse,double,PC,Sparse,double,PC,Sparse,double,PC,Native>()(As, Bs, S); });
    once("native sparse dense", TrackerID::Native_sparse_dense, [&] { MultiplicationFunctor<Sparse,double,PC,Dense,double,PC,Dense,double,PC,Native>()(As, B, C); });
    once("native dense sparse", TrackerID::Native_dense_sparse, [&] { MultiplicationFunctor<Dense,double,PC,Sparse,double,PC,Dense,double,PC,Native>()(A, Bs, C); });
    once("native matrix zero", TrackerID::Native_matrix_zero, [&] { Z0 z; MultiplicationFunctor<Dense,double,PC,Zero,NullType,PC,Zero,NullType,PC,Native>()(A, Bz, z); });
    once("native sparse zero", TrackerID::Native_matrix_zero, [&] { Z0 z; MultiplicationFunctor<Sparse,double,PC,Zero,NullType,PC,Zero,NullType,PC,Native>()(As, Bz, z); });
    once("native zero matrix", TrackerID::Native_zero_matrix, [&] { Z0 z; MultiplicationFunctor<Zero,NullType,PC,Dense,double,PC,Zero,NullType,PC,Native>()(Az, B, z); });
    once("native zero zero", TrackerID::Native_zero_zero, [&] { Z0 z; MultiplicationFunctor<Zero,NullType,PC,Zero,NullType,PC,Zero,NullType,PC,Native>()(Az, Bz, z); });
    once("OpenBLAS dgemm", TrackerID::OpenBLAS_dgemm, [&] { MultiplicationFunctor<Dense,double,PC,Dense,double,PC,Dense,double,PC,OpenBLAS>()(A, B, C); });
    once("OpenBLAS sgemm", TrackerID::OpenBLAS_sgemm, [&] { MultiplicationFunctor<Dense,float,PC,Dense,float,PC,Dense,float,PC,OpenBLAS>()(Af, Bf, Cf); });
    once("IntelMKL dgemm", TrackerID::IntelMKL_dgemm, [&] { MultiplicationFunctor<Dense,double,PC,Dense,double,PC,Dense,double,PC,IntelMKL>()(A, B, C); });
    once("IntelMKL sgemm", TrackerID::IntelMKL_sgemm, [&] { MultiplicationFunctor<Dense,float,PC,Dense,float,PC,Dense,float,PC,IntelMKL>()(Af, Bf, Cf); });
    SF Afs(Af), Bfs(Bf);
    once("IntelMKL dcsrmm", TrackerID::IntelMKL_dcsrmm, [&] { MultiplicationFunctor<Sparse,double,PC,Dense,double,PC,Dense,double,PC,IntelMKL>()(As, B, C); });
    once("IntelMKL scsrmm", TrackerID::IntelMKL_scsrmm, [&] { MultiplicationFunctor<Sparse,float,PC,Dense,float,PC,Dense,float,PC,IntelMKL>()(Afs, Bf, Cf); });
    once("IntelMKL dcsrmultcsr", TrackerID::IntelMKL_dcsrmultcsr, [&] { SD S; MultiplicationFunctor<Sparse,double,PC,Sparse,double,PC,Sparse,double,PC,IntelMKL>()(As, Bs, S); });
    once("IntelMKL scsrmultcsr", TrackerID::IntelMKL_scsrmultcsr, [&] { SF S; MultiplicationFunctor<Sparse,float,PC,Sparse,float,PC,Sparse,float,PC,IntelMKL>()(Afs, Bfs, S); });
    BlockSizeGenerator g(1, 2);
    MD Q = dense<MD>(R(2, 5), 0 ? 1 : 3);
    once("detection arrays", TrackerID::get_detection_arrays, [&] { g.get_detection_arrays(Q); });
    std::vector<double> det(R(2, 6)); for (auto& x : det) x = R(0, 5);
    once("block sizes", TrackerID::get_block_size, [&] { BlockSizeGenerator(1, 2).get_block_size(det); });
}
static void c27()
{
    names();
    for (int round = 0; more() || round < 20; ++round) {
#undef X
#define X(ID) once("add " #ID, TrackerID::ID, [] { vc_trk_add_##ID(R(0, 100)); }); once("scope " #ID, TrackerID::ID, [] { vc_trk_scope_##ID(); });
        TRACKERS
        ops();
        table();
    }
}
int main(int argc, char** argv) { return drv_main(argc, argv, {{"C27", c27}}); }
