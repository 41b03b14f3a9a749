// The MPC interface over a real SQP solver and box ADMM: histories of setters, horizon changes, solves and reads.
// Macros of ocp_class.hpp and NAME.
#include "ocp_class.hpp"
#include "solvers/sqp_base.hpp"
#include "control/mpc_wrapper.hpp"
using namespace vf;
namespace {
const int NV = CLS::VAR_SIZE, NI = CLS::NUM_INEQ, NC = CLS::NUM_EQ + NI, NL = CLS::DUAL_SIZE, NN = CLS::NUM_NODES;
std::string ints(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
using V = Eigen::Matrix<SC, Eigen::Dynamic, 1>;
#if FMT == 1
template<typename T, int F> struct Lenient : Eigen::SimplicialLDLT<T, F> { using B = Eigen::SimplicialLDLT<T, F>; Eigen::ComputationInfo info() const { return Eigen::Success; }
    template<class V_> V_ solve(const V_& b) const { if(B::info() != Eigen::Success) return V_::Zero(b.size()); return B::solve(b); } };
using Real = boxADMM<NV, NC, SC, SPARSE, Lenient>;
#else
template<typename T, int F> struct Lenient : Eigen::LDLT<T, F> { Eigen::ComputationInfo info() const { return Eigen::Success; } };
using Real = boxADMM<NV, NC, SC, DENSE, Lenient>;
#endif
// subproblems that are none (not numbers, crossed bounds) are not passed on
struct Guard : Real
{
    bool answered = false, built = false;
    // a problem answered here left no matrix behind whose pattern the solver could reuse
    template<class... A_> status_t pass(const A_&... a)
    {
        const bool reuse = this->settings().reuse_pattern;
        if(answered && !built) this->settings().reuse_pattern = false;
        built = true;
        const status_t s = Real::solve(a...);
        this->settings().reuse_pattern = reuse;
        return s;
    }
    template<class H, class h_, class A_, class C_> status_t solve(const H& H0, const h_& h, const A_& A, const C_& al, const C_& au, const h_& lx, const h_& ux)
    {
        auto ordered = [](const auto& a, const auto& b) { for(int i = 0; i < a.size(); ++i) if(!(a(i) <= b(i))) return false; return true; };
        if(dense(H0).allFinite() && h.allFinite() && dense(A).allFinite() && ordered(al, au) && ordered(lx, ux)) return pass(H0, h, A, al, au, lx, ux);
        answered = true;
        this->m_x.setZero(); this->m_y.setZero(); this->m_info.iter = 0;
        return SOLVED;
    }
};
double g_reg = 0;
template<class Pb, class... Args> class Solver : public SQPBase<Solver<Pb, Args...>, Pb, Guard, polympc::IdentityPreconditioner>
{
public:
    using Base = SQPBase<Solver<Pb, Args...>, Pb, Guard, polympc::IdentityPreconditioner>;
    using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t;
    EIGEN_STRONG_INLINE void hessian_regularisation_dense_impl(Eigen::Ref<nlp_hessian_t> H) noexcept { for(int i = 0; i < NV; ++i) H(i, i) += (SC)g_reg; }
    EIGEN_STRONG_INLINE void hessian_regularisation_sparse_impl(nlp_hessian_t& H) noexcept { for(int i = 0; i < NV; ++i) H.coeffRef(i, i) += (SC)g_reg; }
#if FMT == 1
    EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<nlp_hessian_t> H, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept
    { this->problem.hessian_update_impl(H, s, y); }
#endif
};
using M = MPC<CLS, Solver>;
// the controller lives in memory that held something else before
struct Box
{
    std::vector<char> mem; M* s;
    Box() : mem(sizeof(M) + 128, 0)
    {
        void* at = (void*)((reinterpret_cast<uintptr_t>(mem.data()) + 63) / 64 * 64);
        { double* q = (double*)at; for(size_t i = 0; i < sizeof(M) / sizeof(double); ++i) q[i] = 3.25 + (double)(i % 1000); }
        s = new(at) M();
    }
    ~Box() { s->~M(); }
};
template<class T> T rd(In& in, int n) { T v; v.resize(n); for(int i = 0; i < n; ++i) v(i) = (SC)in.d(); return v; }
template<class T> T rd(In& in, int n, Arr& a) { T v = rd<T>(in, n); a.add(vec(v)); return v; }
const char* status(const M& m)
{ auto v = m.info().status.value; return v == sqp_status_t::SOLVED ? "SOLVED" : v == sqp_status_t::MAX_ITER_EXCEEDED ? "MAX_ITER" : "OTHER"; }
std::string state(const M& m)
{
    auto& s = m.solver();
    return Obj().n("t0", m.ocp().t_start).n("tf", m.ocp().t_stop).v("lx", s.lower_bound_x()).v("ux", s.upper_bound_x()).v("lg", s.lower_bound_g()).v("ug", s.upper_bound_g())
        .v("z", s.primal_solution()).v("lam", s.dual_solution()).v("d", s.parameters()).end();
}
void run(In& in, std::ostream& out, const std::string& id)
{
    g_prog.read(in, X_ + U_ + P_ + D_ + 1);
    g_f.resize(X_); g_g.resize(G_);
    for(auto& x : g_f) x = in.i();
    for(auto& x : g_g) x = in.i();
    g_lag = in.i(); g_may = in.i();
    g_reg = in.d();
    std::unique_ptr<Box> box(new Box());
    M& m = *box->s;
    const M& c = m;
    {
        m.settings().max_iter = in.i(); m.settings().line_search_max_iter = in.i();
        m.settings().eps_prim = (SC)in.d(); m.settings().eps_dual = (SC)in.d();
        auto& q = m.qp_settings();
        q.max_iter = in.i(); q.check_termination = 5; q.eps_abs = q.eps_rel = (SC)in.d(); q.adaptive_rho = true; q.adaptive_rho_interval = 50;
    }
    std::string P = Obj().raw("prog", g_prog.json()).raw("xdot", ints(g_f)).raw("g", ints(g_g)).i("lag", g_lag).i("may", g_may).end();
    std::string D = Obj().i("nx", X_).i("nu", U_).i("np", P_).i("nd", D_).i("ng", G_).i("N", ORD).i("S", SEG).end();
    using st = M::state_t; using ct = M::control_t; using pt = M::parameter_t; using dt = M::static_param; using gt = M::constraint_t;
    using xt = M::traj_state_t; using ut = M::traj_control_t; using gg = M::constraints_t; using lt = M::dual_var_t;
    Arr ev;
    std::string first = state(m);
    int n = in.i();
    for(int k = 0; k < n; ++k)
    {
        std::string op = in.tok();
        Arr a;
        Obj e; e.str("op", op);
        if(op == "t") { SC t0 = (SC)in.d(), tf = (SC)in.d(); m.set_time_limits(t0, tf); a.add(num(t0)); a.add(num(tf)); }
        else if(op == "x0") m.initial_conditions(rd<st>(in, X_, a));
        else if(op == "x0b") { auto p = rd<st>(in, X_, a), q = rd<st>(in, X_, a); m.initial_conditions(p, q); }
        else if(op == "xlb") m.x_lower_bound(rd<st>(in, X_, a));
        else if(op == "xub") m.x_upper_bound(rd<st>(in, X_, a));
        else if(op == "xb") { auto p = rd<st>(in, X_, a), q = rd<st>(in, X_, a); m.state_bounds(p, q); }
        else if(op == "xtb") { auto p = rd<xt>(in, X_ * NN, a), q = rd<xt>(in, X_ * NN, a); m.state_trajectory_bounds(p, q); }
        else if(op == "xflb") m.x_final_lower_bound(rd<st>(in, X_, a));
        else if(op == "xfub") m.x_final_upper_bound(rd<st>(in, X_, a));
        else if(op == "xfb") { auto p = rd<st>(in, X_, a), q = rd<st>(in, X_, a); m.final_state_bounds(p, q); }
        else if(op == "ulb") m.u_lower_bound(rd<ct>(in, U_, a));
        else if(op == "uub") m.u_upper_bound(rd<ct>(in, U_, a));
        else if(op == "ub") { auto p = rd<ct>(in, U_, a), q = rd<ct>(in, U_, a); m.control_bounds(p, q); }
        else if(op == "utb") { auto p = rd<ut>(in, U_ * NN, a), q = rd<ut>(in, U_ * NN, a); m.control_trajecotry_bounds(p, q); }
#if G_ > 0
        else if(op == "gb") { auto p = rd<gt>(in, G_, a), q = rd<gt>(in, G_, a); m.constraints_bounds(p, q); }
        else if(op == "gtb") { auto p = rd<gg>(in, NI, a), q = rd<gg>(in, NI, a); m.constraints_trajectory_bounds(p, q); }
#endif
#if P_ > 0
        else if(op == "pb") { auto p = rd<pt>(in, P_, a), q = rd<pt>(in, P_, a); m.parameters_bounds(p, q); }
        else if(op == "pg") m.p_guess(rd<pt>(in, P_, a));
#endif
#if D_ > 0
        else if(op == "d") m.set_static_parameters(rd<dt>(in, D_, a));
#endif
        else if(op == "xg") m.x_guess(rd<xt>(in, X_ * NN, a));
        else if(op == "ug") m.u_guess(rd<ut>(in, U_ * NN, a));
        else if(op == "lg") m.lam_guess(rd<lt>(in, NL, a));
        else if(op == "solve") { m.solve(); e.str("status", status(m)); }
        // the states at a time of the present solution become the next initial conditions, as in a closed loop
        else if(op == "loop") { SC t = (SC)in.d(); st x = c.solution_x_at(t); m.initial_conditions(x); m.x_guess(c.solution_x()); m.u_guess(c.solution_u()); e.str("status", status(m)).n("at", t).v("x0", x); }
        else if(op == "read")
        {
            auto& s = c.solver();
            Arr xn, un, tt, xa, ua;
            for(int i = 0; i < NN; ++i) { xn.add(vec(c.solution_x_at(i))); un.add(vec(c.solution_u_at(i))); }
            for(int i = in.i(); i > 0; --i) { SC t = (SC)in.d(); tt.add(num(t)); xa.add(vec(c.solution_x_at(t))); ua.add(vec(c.solution_u_at(t))); }
            std::string rx = "[", ru = "[";
            auto X = c.solution_x_reshaped(); auto U = c.solution_u_reshaped();
            Arr xr, ur;
            for(int i = 0; i < NN; ++i) { xr.add(vec(X.col(i))); ur.add(vec(U.col(i))); }
            e.v("xs", c.solution_x()).v("us", c.solution_u()).raw("xr", xr.end()).raw("ur", ur.end()).raw("xn", xn.end()).raw("un", un.end()).v("dual", c.solution_dual())
                .raw("ts", tt.end()).raw("xa", xa.end()).raw("ua", ua.end()).v("p", c.solution_p())
                .b("norms", num(c.primal_norm()) == num(s.primal_norm()) && num(c.dual_norm()) == num(s.dual_norm()) && num(c.constr_violation()) == num(s.constr_violation()) && num(c.cost()) == num(s.cost()));
        }
        else { std::cerr << "harness: bad operation " << op << "\n"; std::exit(3); }
        ev.add(e.raw("a", a.end()).raw("st", state(m)).end());
    }
    emit(out, Obj().str("id", id).raw("D", D).raw("P", P).raw("first", first).n("ep", m.settings().eps_prim).raw("ev", ev.end()).end());
}
struct Reg_ { Reg_() { registry()[NAME] = run; } } reg_;
}
