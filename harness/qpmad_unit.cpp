// The qpmad adapter driven by a stand-in for qpmad: -DN_ -DM_ -DNAME
#include "common.hpp"
#define POLYMPC_FOUND_QPMAD
#include "solvers/qpmad_interface.hpp"
using namespace vf;
namespace {
template<int R, int C> Eigen::Matrix<double, R, C> rm(In& in) { Eigen::Matrix<double, R, C> m; m.setZero(); for(int k = in.i(); k > 0; --k) { int i = in.i(), j = in.i(); m(i, j) = in.d(); } return m; }
template<int K> Eigen::Matrix<double, K, 1> rv(In& in) { Eigen::Matrix<double, K, 1> v; for(int i = 0; i < K; ++i) v(i) = in.d(); return v; }
void run(In& in, std::ostream& out, const std::string& id)
{
    using Solver = polympc::QPMAD<N_, M_, double>;
    Solver* sv = new Solver();
    Arr ev;
    for(int k = in.i(); k > 0; --k)
    {
        auto& s = sv->settings(); bool guess;
        s.warm_start = in.i(); s.reuse_pattern = in.i(); guess = in.i();
        s.rho = in.d(); s.alpha = in.d(); s.max_iter = in.i(); s.eps_abs = in.d(); s.eps_rel = in.d(); s.check_termination = in.i(); s.adaptive_rho = in.i();
        in.i(); auto H = rm<N_, N_>(in); in.i(); auto A = rm<M_, N_>(in);
        auto h = rv<N_>(in); auto al = rv<M_>(in), au = rv<M_>(in); auto xl = rv<N_>(in), xu = rv<N_>(in);
        auto gx = rv<N_>(in); auto gy = rv<N_ + M_>(in);
        qpmad::Answer a; a.x = rv<N_>(in); rv<N_ + M_>(in); a.status = in.i(); in.i(); in.d(); in.d(); in.i(); in.d();
        // qpmad's own codes
        a.status = a.status == 1 || a.status == 2 ? 0 : a.status == -2 ? 2 : a.status == -3 ? 3 : a.status == -4 ? 4 : a.status == 3 ? 1 : 5;
        int calls = 0; std::string seen = "{}";
        qpmad::oracle() = [&](const qpmad::Call& r) {
            ++calls; seen = Obj().m("H", r.H).m("A", r.A).v("q", r.h).v("xl", r.lb).v("xu", r.ub).v("al", r.Alb).v("au", r.Aub).v("x", r.x)
                               .i("hessian", r.p.hessian_type_).n("tol", r.p.tolerance_).i("max", r.p.max_iter_).end();
            return a; };
        status_t st = guess ? sv->solve(H, h, A, al, au, xl, xu, gx, gy) : sv->solve(H, h, A, al, au, xl, xu);
        ev.add(Obj().b("guess", guess).m("H", H).m("A", A).v("h", h).v("al", al).v("au", au).v("xl", xl).v("xu", xu).v("gx", gx).n("eps", s.eps_abs).i("max", s.max_iter)
               .i("calls", calls).raw("seen", seen).v("ax", a.x).i("astatus", a.status).v("x", sv->primal_solution()).i("ret", st).i("status", sv->info().status).end());
    }
    delete sv;
    emit(out, Obj().str("id", id).str("kind", "qpmad").i("n", N_).i("m", M_).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
