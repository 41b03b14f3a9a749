// Quasi-Newton updates along a sequence on one matrix: -DN_ -DSC -DNAME -DKIND 0 fixed size, 1 dynamic size, 2 block of a larger matrix, 3 fixed vectors but a matrix too large for the stack (EIGEN_STACK_ALLOCATION_LIMIT)
#include "common.hpp"
#include "solvers/bfgs.hpp"
#include "solvers/sr1.hpp"
using namespace vf;
namespace {
#if KIND == 0
using M = Eigen::Matrix<SC, N_, N_>; using V = Eigen::Matrix<SC, N_, 1>;
#else
using M = Eigen::Matrix<SC, Eigen::Dynamic, Eigen::Dynamic>; using V = Eigen::Matrix<SC, KIND == 3 ? N_ : Eigen::Dynamic, 1>;
#endif
void run(In& in, std::ostream& out, const std::string& id)
{
    M B(N_, N_);
    for(int i = 0; i < N_; ++i) for(int j = 0; j < N_; ++j) B(i, j) = (SC)in.d();
#if KIND == 2
    M big = M::Constant(N_ + 3, N_ + 3, 7);
    Eigen::Ref<M> T = big.block(1, 2, N_, N_);
    T = B;
#else
    M& T = B;
#endif
    Arr ev;
    for(int k = in.i(); k > 0; --k)
    {
        std::string op = in.tok();
        V s(N_), y(N_);
        for(int i = 0; i < N_; ++i) s(i) = (SC)in.d();
        for(int i = 0; i < N_; ++i) y(i) = (SC)in.d();
        M H0 = T;
        if(op == "bfgs") BFGS_update(T, s, y); else SR1_update(T, s, y);
        ev.add(Obj().str("op", op).v("s", s).v("y", y).m("H0", H0).m("H1", T).end());
    }
    bool around = true;
#if KIND == 2
    for(int i = 0; i < N_ + 3; ++i) for(int j = 0; j < N_ + 3; ++j) if((i < 1 || i > N_ || j < 2 || j >= N_ + 2) && big(i, j) != 7) around = false;
#endif
    emit(out, Obj().str("id", id).b("around", around).n("eps", std::numeric_limits<SC>::epsilon()).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
