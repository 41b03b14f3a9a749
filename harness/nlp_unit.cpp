// Nonlinear programs through ProblemBase: -DCLS -DNX_ -DNE_ -DNI_ -DNP_ -DSC -DNAME
#include "nlp_class.hpp"
using namespace vf;
namespace {
std::string ints(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
// the stack below is filled with a pattern, so that what an evaluation leaves uninitialised is visible
__attribute__((noinline)) void dirty(double v) { volatile double pad[2048]; for(int i = 0; i < 2048; ++i) pad[i] = v + i; }

void run(In& in, std::ostream& out, const std::string& id)
{
    using Pb = CLS;
    g_prog.read(in, NX_ + NP_);
    g_cost = in.i(); g_eq.resize(NE_); g_ineq.resize(NI_);
    for(auto& x : g_eq) x = in.i();
    for(auto& x : g_ineq) x = in.i();
    std::vector<char> mem(sizeof(Pb) + 64, 0);
    void* at = (void*)((reinterpret_cast<uintptr_t>(mem.data()) + 63) / 64 * 64);
    { double* d = (double*)at; for(size_t i = 0; i < sizeof(Pb) / sizeof(double); ++i) d[i] = 3.25 + (double)i; }
    Pb& pb = *new(at) Pb();
    Arr ev;
    for(int k = in.i(); k > 0; --k)
    {
        std::string op = in.tok();
        Pb::nlp_variable_t x; Pb::static_parameter_t p; Pb::nlp_dual_t lam;
        for(int i = 0; i < NX_; ++i) x(i) = (SC)in.d();
        for(int i = 0; i < NP_; ++i) p(i) = (SC)in.d();
        for(int i = 0; i < NX_ + NE_ + NI_; ++i) lam(i) = (SC)in.d();
        SC scale = (SC)in.d(), junk = (SC)in.d();
        // outputs arrive filled with junk: nothing of it may survive
        SC f = junk; Pb::nlp_variable_t g, lg; g.setConstant(junk); lg.setConstant(junk);
        Pb::nlp_hessian_t h; h.setConstant(junk);
        Pb::nlp_constraints_t c; c.setConstant(junk); Pb::nlp_jacobian_t J; J.setConstant(junk);
        Pb::nlp_eq_constraints_t ce; ce.setConstant(junk); Pb::nlp_eq_jacobian_t Je; Je.setConstant(junk);
        Pb::nlp_ineq_constraints_t ci; ci.setConstant(junk); Pb::nlp_ineq_jacobian_t Ji; Ji.setConstant(junk);
        dirty(junk + 0.125);
        Obj o; o.str("op", op).v("x", x).v("q", p);
        if(op == "cost") { pb.cost(x, p, f); o.n("f", f); }
        else if(op == "cg") { pb.cost_gradient(x, p, f, g); o.n("f", f).v("g", g); }
        else if(op == "cgh") { pb.cost_gradient_hessian(x, p, f, g, h); o.n("f", f).v("g", g).m("h", h); }
        else if(op == "con") { pb.constraints(x, p, c); o.v("c", c); }
        else if(op == "eq") { pb.equalities(x, p, ce); o.v("c", ce); }
        else if(op == "ineq") { pb.inequalities(x, p, ci); o.v("c", ci); }
        else if(op == "conl") { pb.constraints_linearised(x, p, c, J); o.v("c", c).m("j", J); }
        else if(op == "eql") { pb.equalities_linearised(x, p, ce, Je); o.v("c", ce).m("j", Je); }
        else if(op == "ineql") { pb.inequalities_linearised(x, p, ci, Ji); o.v("c", ci).m("j", Ji); }
        else if(op == "lag") { pb.lagrangian(x, p, lam, f); o.v("lam", lam).n("f", f); }
        else if(op == "lg") { pb.lagrangian_gradient(x, p, lam, f, lg); o.v("lam", lam).n("f", f).v("lg", lg); }
        else if(op == "lgj") { pb.lagrangian_gradient(x, p, lam, f, lg, g, c, J); o.v("lam", lam).n("f", f).v("lg", lg).v("g", g).v("c", c).m("j", J); }
        else if(op == "lgh") { pb.lagrangian_gradient_hessian(x, p, lam, f, lg, h, g, c, J); o.v("lam", lam).n("f", f).v("lg", lg).v("g", g).v("c", c).m("j", J).m("h", h); }
        else if(op == "lghs") { pb.lagrangian_gradient_hessian(x, p, lam, f, lg, h, g, c, J, scale); o.v("lam", lam).n("scale", scale).n("f", f).v("lg", lg).v("g", g).v("c", c).m("j", J).m("h", h); }
        else { std::cerr << "bad op " << op << "\n"; std::exit(3); }
        ev.add(o.end());
    }
    pb.~Pb();
    std::string P = Obj().raw("prog", g_prog.json()).i("cost", g_cost).raw("eq", ints(g_eq)).raw("ineq", ints(g_ineq)).end();
    emit(out, Obj().str("id", id).raw("P", P).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
