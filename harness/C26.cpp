// C26: the library's kernels with really concurrent iterations (stand-in compiled with CXV_THREADS) under the race detector; what they
// compute is checked elsewhere
#include "ops.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#define main notMain
namespace c11 {
#include "C11.cpp"
}
namespace c13 {
#include "C13.cpp"
}
namespace c15 {
#include "C15.cpp"
}
namespace c16 {
#include "C16.cpp"
}
namespace c17 {
#include "C17.cpp"
}
#undef main
template<class T> void linalg(const Executor& e, const UnstructuredMesh& um, const Mesh& m)
{
    c16::Sys<T> s(um, m);
    step("linear system: " + m.str());
    auto x = mk(e, rvec<T>(m.nC));
    if constexpr (std::is_same_v<T, double>) (void)la::spmv(s.s, x);
    auto h = s.s.copyToHost();
    s.s.reset();
}
int main(int argc, char** argv)
{
    H::init(argc, argv);
    do
    {
        begin();
        reseed();
        Executor e = chance(1, 2) ? Executor(CPUExecutor()) : Executor(GPUExecutor());
        Mesh m = rmesh();
        if (m.nC > 1 && m.nF() > 0) ++nontrivial;
        UnstructuredMesh um = build(e, m);
        switch (rnd(20))
        {
        case 0: c15::testDiv<double>(e, um, m); break;
        case 1: c15::testDiv<Vector>(e, um, m); break;
        case 2: c15::testInt<double>(e, um, m); break;
        case 3: c15::testLap<double>(e, um, m); break;
        case 4: c15::testLap<Vector>(e, um, m); break;
        case 5: c15::testGrad(e, um, m); break;
        case 6: c16::testDiv<double>(e, um, m); break;
        case 7: c16::testDiv<Vector>(e, um, m); break;
        case 8: c16::testLap<double>(e, um, m); break;
        case 9: c16::testLap<Vector>(e, um, m); break;
        case 10: c16::testSource<double>(e, um, m); break;
        case 11: c16::testDdt<Vector>(e, um, m); break;
        case 12: c17::testLinear<double>(e, um, m); break;
        case 13: c17::testUpwind<Vector>(e, um, m); break;
        case 14: c17::testGradient<double>(e, um, m); break;
        case 15: c11::caseOf<double>(); break;
        case 16: c11::caseOf<Vector>(); break;
        case 17: c13::caseOf(); break;
        case 18: { fvcc::GeometryScheme g(um); fvcc::SparsityPattern p(um); } break;
        default: linalg<double>(e, um, m);
        }
    } while (!timeUp());
    stats();
}
