// The OSQP adapter driven by a stand-in for OsqpEigen: -DN_ -DM_ -DNAME
#include "common.hpp"
#include "solvers/osqp_interface.hpp"
using namespace vf;
namespace {
using Sp = Eigen::SparseMatrix<double>;
// entries: count (row col value)*; how: 0 compressed, 1 inserted (uncompressed with room to spare)
Sp read_sparse(In& in, int rows, int cols)
{
    int how = in.i(), n = in.i(); Sp m(rows, cols);
    if(how) m.reserve(Eigen::VectorXi::Constant(cols, rows + 1));
    for(int k = 0; k < n; ++k) { int i = in.i(), j = in.i(); m.insert(i, j) = in.d(); }
    if(!how) m.makeCompressed();
    return m;
}
template<int K> Eigen::Matrix<double, K, 1> rv(In& in) { Eigen::Matrix<double, K, 1> v; for(int i = 0; i < K; ++i) v(i) = in.d(); return v; }
void run(In& in, std::ostream& out, const std::string& id)
{
    using Solver = polympc::OSQP<N_, M_, double>;
    Solver* sv = new Solver();
    Arr ev; Obj* cur = nullptr; std::string seen; int calls = 0;
    for(int k = in.i(); k > 0; --k)
    {
        auto& s = sv->settings(); bool guess;
        s.warm_start = in.i(); s.reuse_pattern = in.i(); guess = in.i();
        s.rho = in.d(); s.alpha = in.d(); s.max_iter = in.i(); s.eps_abs = in.d(); s.eps_rel = in.d(); s.check_termination = in.i(); s.adaptive_rho = in.i();
        Sp H = read_sparse(in, N_, N_), A = read_sparse(in, M_, N_);
        auto h = rv<N_>(in); auto al = rv<M_>(in), au = rv<M_>(in); auto xl = rv<N_>(in), xu = rv<N_>(in);
        auto gx = rv<N_>(in); auto gy = rv<N_ + M_>(in);
        OsqpEigen::Answer a; a.x = rv<N_>(in); a.y = rv<N_ + M_>(in);
        a.info.status_val = in.i(); a.info.iter = in.i(); a.info.pri_res = in.d(); a.info.dua_res = in.d(); a.info.rho_updates = in.i(); a.info.rho_estimate = in.d();
        calls = 0; seen = "{\"ready\":false}";
        OsqpEigen::oracle() = [&](const OsqpEigen::Run& r) {
            ++calls; if(!r.ready) return a;
            Obj o; o.b("ready", true).b("fresh", r.fresh).b("warm", r.warm).m("H", r.H).m("A", r.A).v("q", r.q).v("l", r.l).v("u", r.u);
            if(r.warm) o.v("wx", r.wx).v("wy", r.wy);
            Obj st; for(auto& kv : r.settings) st.n(kv.first, kv.second);
            seen = o.raw("settings", st.end()).end(); return a; };
        status_t st = guess ? sv->solve(H, h, A, al, au, xl, xu, gx, gy) : sv->solve(H, h, A, al, au, xl, xu);
        Obj o; o.b("warm", s.warm_start).b("guess", guess).m("H", H).m("A", A).v("h", h).v("al", al).v("au", au).v("xl", xl).v("xu", xu).v("gx", gx).v("gy", gy);
        Obj set; set.n("Rho", s.rho).n("Alpha", s.alpha).n("Sigma", s.sigma).n("MaxIteration", s.max_iter).n("CheckTermination", s.check_termination).n("AdaptiveRho", s.adaptive_rho)
            .n("AbsoluteTolerance", s.eps_abs).n("RelativeTolerance", s.eps_rel).n("AdaptiveRhoInterval", s.adaptive_rho_interval).n("AdaptiveRhoTolerance", s.adaptive_rho_tolerance)
            .n("Delta", s.delta).n("Polish", s.polish).n("Scaling", s.scaling).n("TimeLimit", s.time_limit).n("PolishRefineIter", s.polish_refine_iter)
            .n("AdaptiveRhoFraction", s.adaptive_rho_fraction);
        o.raw("settings", set.end()).i("calls", calls).raw("seen", seen);
        o.raw("answer", Obj().v("x", a.x).v("y", a.y).i("status", a.info.status_val).i("iter", a.info.iter).n("prim", a.info.pri_res).n("dual", a.info.dua_res).i("updates", a.info.rho_updates).n("rho", a.info.rho_estimate).end());
        auto& f = sv->info();
        o.raw("told", Obj().v("x", sv->primal_solution()).v("y", sv->dual_solution()).i("ret", st).i("status", f.status).i("iter", f.iter).n("prim", f.res_prim).n("dual", f.res_dual).i("updates", f.rho_updates).n("rho", f.rho_estimate).end());
        ev.add(o.end());
    }
    delete sv;
    emit(out, Obj().str("id", id).str("kind", "osqp").i("n", N_).i("m", M_).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
