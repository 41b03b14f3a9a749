// A stand-in for the parts of OSQP and OsqpEigen that solvers/osqp_interface.hpp uses (the libraries are not installed here).
// It keeps OsqpEigen's rules: data that is set cannot be set again before it is cleared, an initialised solver cannot be
// initialised again before it is cleared, updates need an initialised solver, set* of vectors keep pointers, settings count at initialisation.
#ifndef VERIF_STUB_OSQPEIGEN_H
#define VERIF_STUB_OSQPEIGEN_H
#include <functional>
#include <map>
#include <memory>
#include <string>
#include "Eigen/Dense"
#include "Eigen/Sparse"
typedef double c_float; typedef long long c_int;
#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
struct OSQPInfo { c_int iter = 0; char status[32]; c_int status_val = OSQP_UNSOLVED; c_int status_polish = 0; c_float obj_val = 0, pri_res = 0, dua_res = 0; c_int rho_updates = 0; c_float rho_estimate = 0; };
struct OSQPWorkspace { OSQPInfo* info; };
namespace OsqpEigen {
using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd;
class Settings
{
public:
    std::map<std::string, double> v;
#define VERIF_SET(N) void set##N(double x) { v[#N] = x; }
    VERIF_SET(Rho) VERIF_SET(Alpha) VERIF_SET(Sigma) VERIF_SET(Verbosity) VERIF_SET(WarmStart) VERIF_SET(AdaptiveRho) VERIF_SET(MaxIteration) VERIF_SET(CheckTermination)
    VERIF_SET(AbsoluteTolerance) VERIF_SET(RelativeTolerance) VERIF_SET(AdaptiveRhoInterval) VERIF_SET(AdaptiveRhoTolerance) VERIF_SET(Delta) VERIF_SET(Polish) VERIF_SET(Scaling)
    VERIF_SET(TimeLimit) VERIF_SET(PolishRefineIter) VERIF_SET(LinearSystemSolver) VERIF_SET(ScaledTerimination) VERIF_SET(ScaledTermination) VERIF_SET(AdaptiveRhoFraction)
    VERIF_SET(PrimalInfeasibilityTolerance) VERIF_SET(DualInfeasibilityTolerance) VERIF_SET(PrimalInfeasibilityTollerance) VERIF_SET(DualInfeasibilityTollerance)
#undef VERIF_SET
    void resetDefaultSettings() { v.clear(); }
};
inline Mat from_upper(const Mat& m) { Mat u = m.triangularView<Eigen::Upper>(); Mat s = u + u.transpose(); s.diagonal() = u.diagonal(); return s; }
class Data
{
public:
    int n = 0, m = 0; bool hasH = false, hasA = false; Mat H, A; const double *q = nullptr, *l = nullptr, *u = nullptr;
    void setNumberOfVariables(int k) { n = k; }
    void setNumberOfConstraints(int k) { m = k; }
    template<typename D> bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& h) { if(hasH || h.rows() != n || h.cols() != n) return false; H = from_upper(Mat(Eigen::SparseMatrix<double>(h))); return hasH = true; }
    template<typename D> bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a) { if(hasA || a.rows() != m || a.cols() != n) return false; A = Mat(Eigen::SparseMatrix<double>(a)); return hasA = true; }
    bool setGradient(Eigen::Ref<Vec> x) { if(x.size() != n) return false; q = x.data(); return true; }
    bool setLowerBound(Eigen::Ref<Vec> x) { if(x.size() != m) return false; l = x.data(); return true; }
    bool setUpperBound(Eigen::Ref<Vec> x) { if(x.size() != m) return false; u = x.data(); return true; }
    bool setBounds(Eigen::Ref<Vec> a, Eigen::Ref<Vec> b) { return setLowerBound(a) && setUpperBound(b); }
    bool clearHessianMatrix() { bool r = hasH; hasH = false; return r; }
    bool clearLinearConstraintsMatrix() { bool r = hasA; hasA = false; return r; }
    bool isSet() const { return hasH && hasA && q && l && u; }
};
struct Answer { Vec x, y; OSQPInfo info; };
// the problem a run works on, and its answer
struct Run { Mat H, A; Vec q, l, u, wx, wy; bool ready = false, fresh = false, warm = false; std::map<std::string, double> settings; };
inline std::function<Answer(const Run&)>& oracle() { static std::function<Answer(const Run&)> f; return f; }
class Solver
{
    std::unique_ptr<Settings> m_settings{new Settings()}; std::unique_ptr<Data> m_data{new Data()};
    std::unique_ptr<OSQPWorkspace> m_work{new OSQPWorkspace()}; OSQPInfo m_info; Run r; Vec x, y;
public:
    Solver() { m_work->info = &m_info; }
    const std::unique_ptr<Settings>& settings() const { return m_settings; }
    const std::unique_ptr<Data>& data() const { return m_data; }
    const std::unique_ptr<OSQPWorkspace>& workspace() const { return m_work; }
    bool isInitialized() const { return r.ready; }
    void clearSolver() { if(r.ready) r = Run(); }
    bool initSolver()
    {
        if(r.ready || !m_data->isSet()) return false;
        Data& d = *m_data; r = Run(); r.H = d.H; r.A = d.A; r.q = Eigen::Map<const Vec>(d.q, d.n); r.l = Eigen::Map<const Vec>(d.l, d.m); r.u = Eigen::Map<const Vec>(d.u, d.m);
        r.settings = m_settings->v; r.fresh = r.ready = true; return true;
    }
    template<typename D> bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& h) { if(!r.ready) return false; r.H = from_upper(Mat(Eigen::SparseMatrix<double>(h))); return true; }
    template<typename D> bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a) { if(!r.ready) return false; r.A = Mat(Eigen::SparseMatrix<double>(a)); return true; }
    bool updateGradient(const Eigen::Ref<const Vec>& v) { if(!r.ready) return false; r.q = v; return true; }
    bool updateBounds(const Eigen::Ref<const Vec>& a, const Eigen::Ref<const Vec>& b) { if(!r.ready || (a.array() > b.array()).any()) return false; r.l = a; r.u = b; return true; }
    bool updateLowerBound(const Eigen::Ref<const Vec>& a) { if(!r.ready) return false; r.l = a; return true; }
    bool updateUpperBound(const Eigen::Ref<const Vec>& b) { if(!r.ready) return false; r.u = b; return true; }
    template<typename A, typename B> bool setWarmStart(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b) { if(!r.ready) return false; r.wx = a; r.wy = b; r.warm = true; return true; }
    template<typename A> bool setPrimalVariable(const Eigen::MatrixBase<A>& a) { if(!r.ready) return false; r.wx = a; return true; }
    template<typename A> bool setDualVariable(const Eigen::MatrixBase<A>& a) { if(!r.ready) return false; r.wy = a; return true; }
    bool solveProblem() { Answer a = oracle()(r); if(!r.ready) return false; x = a.x; y = a.y; m_info = a.info; m_work->info = &m_info; r.fresh = r.warm = false; return true; }
    bool solve() { return solveProblem(); }
    const Vec& getSolution() const { return x; }
    const Vec& getDualSolution() const { return y; }
};
}
#endif
