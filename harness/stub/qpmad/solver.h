// A stand-in for the parts of qpmad that solvers/qpmad_interface.hpp uses (the library is not installed here).
#ifndef VERIF_STUB_QPMAD_H
#define VERIF_STUB_QPMAD_H
#include <functional>
#include "Eigen/Dense"
namespace qpmad {
using MatrixIndex = Eigen::Index;
using QPVector = Eigen::VectorXd; using QPMatrix = Eigen::MatrixXd;
struct SolverParameters { enum HessianType { HESSIAN_UNDEFINED = 0, HESSIAN_LOWER_TRIANGULAR = 1, HESSIAN_CHOLESKY_FACTOR = 2, HESSIAN_INVERTED_CHOLESKY_FACTOR = 3 };
    HessianType hessian_type_ = HESSIAN_LOWER_TRIANGULAR; double tolerance_ = 1e-12; int max_iter_ = -1; bool return_inverted_cholesky_factor_ = false; };
struct Call { QPMatrix H, A; QPVector x, h, lb, ub, Alb, Aub; SolverParameters p; };
struct Answer { QPVector x; int status; };
inline std::function<Answer(const Call&)>& oracle() { static std::function<Answer(const Call&)> f; return f; }
template<typename S, int N, int B, int M> class SolverTemplate
{
public:
    enum ReturnStatus { OK = 0, UNDEFINED = 1, MAXIMAL_NUMBER_OF_ITERATIONS = 2, INCONSISTENT = 3, INFEASIBLE_EQUALITY = 4, INFEASIBLE_INEQUALITY = 5 };
    // the factorisation is done in place
    ReturnStatus solve(QPVector& x, QPMatrix& H, const QPVector& h, const QPVector& lb, const QPVector& ub, const QPMatrix& A, const QPVector& Alb, const QPVector& Aub, const SolverParameters& p = SolverParameters())
    {
        QPMatrix low = H.triangularView<Eigen::Lower>(); QPMatrix full = low + low.transpose(); full.diagonal() = low.diagonal();
        Answer a = oracle()(Call{full, A, x, h, lb, ub, Alb, Aub, p});
        H.setConstant(-77.0); x = a.x; return (ReturnStatus)a.status;
    }
};
using Solver = SolverTemplate<double, Eigen::Dynamic, 1, Eigen::Dynamic>;
}
#endif
