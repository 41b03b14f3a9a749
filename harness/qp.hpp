// QP harness: runs ADMM / boxADMM through their public interface on scenarios read from a file.
#ifndef VERIF_QP_HPP
#define VERIF_QP_HPP
#include "common.hpp"
#include "solvers/admm.hpp"
#include "solvers/box_admm.hpp"
#include <memory>

namespace vf {

// What the user-supplied linear solver observed.
struct LinLog { int factorisations = 0; int solves = 0; Eigen::MatrixXd K; Eigen::MatrixXd Kused; };
inline LinLog*& lin_log() { static LinLog* p = nullptr; return p; }

template<typename M> Eigen::MatrixXd to_double(const M& m) { return dense(M(m)).template cast<double>(); }

// default dense solver with recording
template<typename Mat, int UpLo, typename... Args>
struct RecLDLT : public Eigen::LDLT<Mat, UpLo>
{
    using B = Eigen::LDLT<Mat, UpLo>;
    template<typename T> RecLDLT& compute(const Eigen::EigenBase<T>& m)
    { B::compute(m); if(lin_log()) { lin_log()->factorisations++; lin_log()->K = to_double(Mat(m.derived())); } return *this; }
    template<typename R> Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, 1> solve(const R& r) const
    { if(lin_log()) { lin_log()->solves++; lin_log()->Kused = lin_log()->K; } return B::solve(r); }
};
// a user-supplied dense solver that needs the full matrix
template<typename Mat, int UpLo, typename... Args>
struct RecLU
{
    Eigen::PartialPivLU<Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, Eigen::Dynamic>> lu;
    template<typename T> RecLU& compute(const Eigen::EigenBase<T>& m)
    { lu.compute(Mat(m.derived())); if(lin_log()) { lin_log()->factorisations++; lin_log()->K = to_double(Mat(m.derived())); } return *this; }
    template<typename R> Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, 1> solve(const R& r) const
    { if(lin_log()) { lin_log()->solves++; lin_log()->Kused = lin_log()->K; } return lu.solve(r); }
    Eigen::ComputationInfo info() const { return Eigen::Success; }
};
template<typename Mat, int UpLo, typename... Args>
struct RecSLDLT : public Eigen::SimplicialLDLT<Mat, UpLo>
{
    using B = Eigen::SimplicialLDLT<Mat, UpLo>;
    void factorize(const Mat& m) { B::factorize(m); if(lin_log()) { lin_log()->factorisations++; lin_log()->K = to_double(m); } }
    template<typename R> Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, 1> solve(const R& r) const
    { if(lin_log()) { lin_log()->solves++; lin_log()->Kused = lin_log()->K; } return B::solve(r); }
};
template<typename Mat, int UpLo, typename... Args>
struct RecSLU
{
    Eigen::PartialPivLU<Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, Eigen::Dynamic>> lu;
    void analyzePattern(const Mat&) {}
    void factorize(const Mat& m) { lu.compute(dense(m)); if(lin_log()) { lin_log()->factorisations++; lin_log()->K = to_double(m); } }
    template<typename R> Eigen::Matrix<typename Mat::Scalar, Eigen::Dynamic, 1> solve(const R& r) const
    { if(lin_log()) { lin_log()->solves++; lin_log()->Kused = lin_log()->K; } return lu.solve(r); }
    Eigen::ComputationInfo info() const { return Eigen::Success; }
};

struct Problem
{
    int n, m;
    double eps_abs, eps_rel, rho, sigma, alpha, adtol;
    long max_iter, check, interval;
    bool adaptive, reuse, guess; int reversed;  // storage of sparse data: 0 inserted in order, 1 in reverse order, 2 compressed
    Eigen::MatrixXd H, A;
    Eigen::MatrixXi Hp, Ap;           // structural pattern (1: stored)
    Eigen::VectorXd h, al, au, xl, xu, x0, y0;
    void read(In& in, int n_, int m_)
    {
        n = n_; m = m_;
        eps_abs = in.d(); eps_rel = in.d(); max_iter = in.i(); rho = in.d(); sigma = in.d(); alpha = in.d();
        check = in.i(); adaptive = in.i(); interval = in.i(); adtol = in.d(); reuse = in.i(); guess = in.i(); reversed = in.i();
        H.setZero(n, n); Hp.setZero(n, n); A.setZero(m, n); Ap.setZero(m, n);
        for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) cell(in, H, Hp, i, j);
        v(in, h, n);
        for(int i = 0; i < m; ++i) for(int j = 0; j < n; ++j) cell(in, A, Ap, i, j);
        v(in, al, m); v(in, au, m); v(in, xl, n); v(in, xu, n);
        if(guess) { v(in, x0, n); v(in, y0, n + m); } else { x0.setZero(n); y0.setZero(n + m); }
    }
    static void cell(In& in, Eigen::MatrixXd& M, Eigen::MatrixXi& P, int i, int j)
    { std::string t = in.tok(); if(t != ".") { M(i, j) = std::strtod(t.c_str(), nullptr); P(i, j) = 1; } }
    static void v(In& in, Eigen::VectorXd& x, int k) { x.resize(k); for(int i = 0; i < k; ++i) x(i) = in.d(); }
};

template<typename S> struct Maker;
template<typename T> struct Build
{
    static T make(const Eigen::MatrixXd& m, const Eigen::MatrixXi&, int) { return m.cast<typename T::Scalar>(); }
};
template<typename S> struct Build<Eigen::SparseMatrix<S>>
{
    static Eigen::SparseMatrix<S> make(const Eigen::MatrixXd& m, const Eigen::MatrixXi& p, int reversed)
    {
        Eigen::SparseMatrix<S> r(m.rows(), m.cols());
        r.reserve(Eigen::VectorXi::Constant(m.cols(), int(m.rows()) + 1));
        if(reversed == 1) { for(int j = int(m.cols()) - 1; j >= 0; --j) for(int i = int(m.rows()) - 1; i >= 0; --i) if(p(i, j)) r.insert(i, j) = S(m(i, j)); }
        else { for(int i = 0; i < m.rows(); ++i) for(int j = 0; j < m.cols(); ++j) if(p(i, j)) r.insert(i, j) = S(m(i, j)); }
        if(reversed == 2) r.makeCompressed();
        return r;
    }
};

inline const char* status_name(int s)
{
    switch(s) { case SOLVED: return "SOLVED"; case MAX_ITER_EXCEEDED: return "MAX_ITER"; case UNSOLVED: return "UNSOLVED";
                case UNINITIALIZED: return "UNINITIALIZED"; case INFEASIBLE: return "INFEASIBLE"; default: return "OTHER"; }
}

template<typename Solver> void configure(Solver& s, const Problem& p, long max_iter)
{
    using S = typename Solver::scalar_t;
    auto& t = s.settings();
    t.eps_abs = S(p.eps_abs); t.eps_rel = S(p.eps_rel); t.max_iter = int(max_iter); t.rho = S(p.rho); t.sigma = S(p.sigma); t.alpha = S(p.alpha);
    t.check_termination = int(p.check); t.adaptive_rho = p.adaptive; t.adaptive_rho_interval = int(p.interval);
    t.adaptive_rho_tolerance = S(p.adtol); t.reuse_pattern = p.reuse;
}

template<typename Solver> int run(Solver& s, const Problem& p)
{
    using H_t = typename Solver::qp_hessian_t; using A_t = typename Solver::qp_constraint_t;
    using v_t = typename Solver::qp_var_t; using a_t = typename Solver::qp_dual_a_t; using y_t = typename Solver::qp_dual_t;
    using S = typename Solver::scalar_t;
    H_t H = Build<H_t>::make(p.H, p.Hp, p.reversed);
    A_t A = Build<A_t>::make(p.A, p.Ap, p.reversed);
    v_t h = p.h.cast<S>(), xl = p.xl.cast<S>(), xu = p.xu.cast<S>(), x0 = p.x0.cast<S>();
    a_t al = p.al.cast<S>(), au = p.au.cast<S>(); y_t y0 = p.y0.cast<S>();
    return p.guess ? s.solve(H, h, A, al, au, xl, xu, x0, y0) : s.solve(H, h, A, al, au, xl, xu);
}

template<typename Solver> std::string outcome(Solver& s, int st, const LinLog& log, bool withK, int upd0)
{
    Obj o;
    o.str("status", status_name(st)).str("istatus", status_name(s.info().status)).i("iter", s.info().iter)
     .n("resP", s.info().res_prim).n("resD", s.info().res_dual).n("est", s.info().rho_estimate).i("nupd", s.info().rho_updates - upd0)
     .v("x", s.primal_solution()).v("y", s.dual_solution()).i("solves", log.solves);
    if(withK) o.m("K", log.Kused);
    return o.end();
}

template<typename Solver> void scenario(In& in, std::ostream& out, const std::string& id, const std::string& variant, int n, int m)
{
    const std::string mode = in.tok(); const int nsolves = int(in.i());
    std::vector<Problem> ps(nsolves);
    for(auto& p : ps) p.read(in, n, m);
    Obj o;
    o.str("id", id).str("variant", variant);
    Arr ev;
    if(mode == "iter")
    {
        // one fresh solver per iteration limit: event k is the outcome of a run limited to k iterations
        const Problem& p = ps[0];
        for(long k = 1; k <= p.max_iter; ++k)
        {
            std::unique_ptr<Solver> s(new Solver); LinLog log; lin_log() = &log;
            configure(*s, p, k);
            int st = run(*s, p);
            ev.add(outcome(*s, st, log, true, 0));
            lin_log() = nullptr;
            if(st != MAX_ITER_EXCEEDED) break;
        }
        o.raw("ev", ev.end());
    }
    else if(mode == "final")
    {
        std::unique_ptr<Solver> s(new Solver); LinLog log; lin_log() = &log;
        configure(*s, ps[0], ps[0].max_iter);
        int st = run(*s, ps[0]);
        ev.add(outcome(*s, st, log, false, 0));
        lin_log() = nullptr;
        o.raw("ev", ev.end());
    }
    else // history: every solve on the shared instance, and on a fresh one
    {
        std::unique_ptr<Solver> shared(new Solver);
        Arr fresh;
        for(auto& p : ps)
        {
            LinLog log; lin_log() = &log;
            int u0 = shared->info().rho_updates;
            configure(*shared, p, p.max_iter);
            int st = run(*shared, p);
            ev.add(outcome(*shared, st, log, true, u0));
            std::unique_ptr<Solver> f(new Solver); LinLog log2; lin_log() = &log2;
            Problem q = p; q.reuse = false;
            configure(*f, q, q.max_iter);
            st = run(*f, q);
            fresh.add(outcome(*f, st, log2, true, 0));
            lin_log() = nullptr;
        }
        o.raw("ev", ev.end()).raw("fresh", fresh.end());
    }
    emit(out, o.end());
}

} // namespace vf
#endif
