// Optimal control problems through ContinuousOCP (LEVEL: highest order of derivatives compiled in): -DCLS -DX_ -DU_ -DP_ -DD_ -DG_ -DORD -DSEG -DFMT -DSC -DNAME -DLEVEL [-DNOLAG] [-DNOMAY]
#include "ocp_class.hpp"
using namespace vf;
namespace {
std::string ints(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
__attribute__((noinline)) void dirty(double v) { volatile double pad[2048]; for(int i = 0; i < 2048; ++i) pad[i] = v + i; }
template<typename M> void reset(Eigen::MatrixBase<M>& m, int r, int c, double junk) { m.derived().resize(r, c); m.setConstant((typename M::Scalar)junk); }
template<typename S> void reset(Eigen::SparseMatrix<S>& m, int r, int c, double) { Eigen::SparseMatrix<S> e(r, c); m = e; }

#if FMT == 1
std::string quasi_newton(CLS& pb, CLS::nlp_hessian_t& h, In& in)
{
    // the stored Hessian becomes shift * I + B B^T on its pattern (values from the input), then is updated
    CLS::nlp_variable_t s(CLS::VAR_SIZE), y(CLS::VAR_SIZE), b(CLS::VAR_SIZE);
    int own = in.i(); double shift = in.d();
    for(int i = 0; i < CLS::VAR_SIZE; ++i) s(i) = (SC)in.d();
    for(int i = 0; i < CLS::VAR_SIZE; ++i) y(i) = (SC)in.d();
    for(int i = 0; i < CLS::VAR_SIZE; ++i) b(i) = (SC)in.d();
    if(shift > 0)
        for(int k = 0; k < h.outerSize(); ++k)
            for(CLS::nlp_hessian_t::InnerIterator it(h, k); it; ++it)
                it.valueRef() = (SC)(b(it.row()) * b(it.col()) + (it.row() == it.col() ? shift : 0.0));
    auto before = dense(h); long nz = h.nonZeros();
    pb.hessian_update_impl(h, s, y);
    return Obj().str("op", "hup").i("own", own).n("eps", std::numeric_limits<SC>::epsilon()).v("s", s).v("y", y).m("h0", before).m("h1", h).b("samennz", nz == h.nonZeros()).end();
}
#else
std::string quasi_newton(CLS&, CLS::nlp_hessian_t&, In&) { std::cerr << "hup needs sparse\n"; std::exit(3); }
#endif

void run(In& in, std::ostream& out, const std::string& id)
{
    using Pb = CLS;
    g_prog.read(in, X_ + U_ + P_ + D_ + 1);
    g_f.resize(X_); g_g.resize(G_);
    for(auto& x : g_f) x = in.i();
    for(auto& x : g_g) x = in.i();
    g_lag = in.i(); g_may = in.i();
    std::vector<char> mem(sizeof(Pb) + 64, 0);
    void* at = (void*)((reinterpret_cast<uintptr_t>(mem.data()) + 63) / 64 * 64);
    { double* q = (double*)at; for(size_t i = 0; i < sizeof(Pb) / sizeof(double); ++i) q[i] = 3.25 + (double)i; }
    Pb& pb = *new(at) Pb();
    const int NV = Pb::VAR_SIZE, NE = Pb::NUM_EQ, NI = Pb::NUM_INEQ, NL = Pb::DUAL_SIZE;
    std::string hor = "[" + num((double)pb.t_start) + "," + num((double)pb.t_stop) + "]";
    int npts = in.i();
    std::vector<Pb::nlp_variable_t> Z(npts); std::vector<Pb::static_parameter_t> Q(npts); std::vector<Pb::nlp_dual_t> L(npts);
    for(int k = 0; k < npts; ++k)
    {
        Z[k].resize(NV); L[k].resize(NL);
        for(int i = 0; i < NV; ++i) Z[k](i) = (SC)in.d();
        for(int i = 0; i < D_; ++i) Q[k](i) = (SC)in.d();
        for(int i = 0; i < NL; ++i) L[k](i) = (SC)in.d();
    }
    // matrices live through the whole history, the way a solver keeps them
    Pb::nlp_hessian_t h; Pb::nlp_jacobian_t J; Pb::nlp_eq_jacobian_t Je; Pb::nlp_ineq_jacobian_t Ji;
    auto fresh = [&](double junk) { reset(h, NV, NV, junk); reset(J, NE + NI, NV, junk); reset(Je, NE, NV, junk); reset(Ji, NI, NV, junk); };
    fresh(1.5);
    Arr ev;
    for(int k = in.i(); k > 0; --k)
    {
        std::string op = in.tok();
        if(op == "lim") { double a = in.d(), b = in.d(); pb.set_time_limits((SC)a, (SC)b); ev.add(Obj().str("op", op).n("t0", (SC)a).n("tf", (SC)b).end()); continue; }
        if(op == "time") { ev.add(Obj().str("op", op).v("tn", pb.time_nodes).n("t0", pb.t_start).n("tf", pb.t_stop).end()); continue; }
        if(op == "fresh") { fresh(in.d()); ev.add(Obj().str("op", op).end()); continue; }
        if(op == "hup") { ev.add(quasi_newton(pb, h, in)); continue; }
        int pt = in.i(); SC scale = (SC)in.d(), junk = (SC)in.d();
        if(op != "lghs") scale = SC(1);
        const Pb::nlp_variable_t& z = Z[pt]; const Pb::static_parameter_t& q = Q[pt]; const Pb::nlp_dual_t& lam = L[pt];
        SC f = junk; Pb::nlp_variable_t g(NV), lg(NV); g.setConstant(junk); lg.setConstant(junk);
        Pb::nlp_constraints_t c(NE + NI); c.setConstant(junk);
        Pb::nlp_eq_constraints_t ce(NE); ce.setConstant(junk);
        Pb::nlp_ineq_constraints_t ci(NI); ci.setConstant(junk);
        if(FMT == 0 && op != "hup") fresh(junk);
        dirty(junk + 0.125);
        Obj o; o.str("op", op).v("z", z).v("d", q).v("lam", lam).n("scale", scale);
        if(op == "cost") { pb.cost(z, q, f); o.n("f", f); }
#if LEVEL > 0
        else if(op == "cg") { pb.cost_gradient(z, q, f, g); o.n("f", f).v("g", g); }
#endif
        else if(op == "con") { pb.constraints(z, q, c); o.v("c", c); }
        else if(op == "eq") { pb.equalities(z, q, ce); o.v("ce", ce); }
        else if(op == "ineq") { pb.inequalities(z, q, ci); o.v("ci", ci); }
#if LEVEL > 0
        else if(op == "conl") { pb.constraints_linearised(z, q, c, J); o.v("c", c).m("j", J); }
        else if(op == "eql") { pb.equalities_linearised(z, q, ce, Je); o.v("ce", ce).m("je", Je); }
        else if(op == "ineql") { pb.inequalities_linearised(z, q, ci, Ji); o.v("ci", ci).m("ji", Ji); }
        else if(op == "lag") { pb.lagrangian(z, q, lam, f); o.n("lv", f); }
        else if(op == "lagc") { pb.lagrangian(z, q, lam, f, c); o.n("lv", f).v("c", c); }
        // the overloads with derivatives return the cost as the value
        else if(op == "lg") { pb.lagrangian_gradient(z, q, lam, f, lg); o.n("f", f).v("lg", lg); }
        else if(op == "lgj") { pb.lagrangian_gradient(z, q, lam, f, lg, g, c, J); o.n("f", f).v("lg", lg).v("g", g).v("c", c).m("j", J); }
#endif
#if LEVEL > 1
        else if(op == "cgh") { pb.cost_gradient_hessian(z, q, f, g, h); o.n("f", f).v("g", g).m("ch", h); }
        else if(op == "lghshort") { pb.lagrangian_gradient_hessian(z, q, lam, f, lg, h); o.n("f", f).v("lg", lg).m("h", h); }
        else if(op == "lgh") { pb.lagrangian_gradient_hessian(z, q, lam, f, lg, h, g, c, J); o.n("f", f).v("lg", lg).v("g", g).v("c", c).m("j", J).m("h", h); }
        else if(op == "lghs") { pb.lagrangian_gradient_hessian(z, q, lam, f, lg, h, g, c, J, scale); o.n("f", f).v("lg", lg).v("g", g).v("c", c).m("j", J).m("h", h); }
#endif
        else { std::cerr << "bad op " << op << "\n"; std::exit(3); }
        ev.add(o.end());
    }
    pb.~Pb();
    std::string P = Obj().raw("prog", g_prog.json()).raw("xdot", ints(g_f)).raw("g", ints(g_g)).i("lag", g_lag).i("may", g_may).end();
    std::string D = Obj().i("nx", X_).i("nu", U_).i("np", P_).i("nd", D_).i("ng", G_).i("N", ORD).i("S", SEG).end();
    emit(out, Obj().str("id", id).raw("D", D).raw("P", P).raw("hor", hor).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
