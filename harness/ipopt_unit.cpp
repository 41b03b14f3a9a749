// The Ipopt adapter driven by a stand-in for Ipopt.  KIND 0: a nonlinear program (nlp_class.hpp), 1: an optimal control problem (ocp_class.hpp).
#include <sys/mman.h>
#include <unistd.h>
#if KIND == 0
#include "nlp_class.hpp"
#else
#include "ocp_class.hpp"
#endif
#include "solvers/ipopt_interface.hpp"
using namespace vf;
namespace {
std::string ints(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
// an array that ends where its memory ends
template<typename T> struct Edge
{
    size_t n, bytes; char* mem; T* p;
    Edge(size_t n_, T fill) : n(n_)
    {
        size_t pg = sysconf(_SC_PAGESIZE); bytes = (n * sizeof(T) + pg - 1) / pg * pg;
        mem = (char*)mmap(nullptr, bytes + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if(mem == MAP_FAILED) std::exit(3);
        bytes += pg; mprotect(mem + bytes - pg, pg, PROT_NONE);
        p = (T*)(mem + bytes - pg) - n;
        for(size_t i = 0; i < n; ++i) p[i] = fill;
    }
    Edge(const std::vector<double>& v) : Edge(v.size(), T()) { for(size_t i = 0; i < n; ++i) p[i] = v[i]; }
    ~Edge() { munmap(mem, bytes); }
    std::string json() const { std::string r = "["; for(size_t i = 0; i < n; ++i) { if(i) r += ","; r += num((double)p[i]); } return r + "]"; }
};
std::string nums(const std::vector<double>& v) { return Edge<double>(v).json(); }
using Ed = Edge<double>;
std::vector<double> read(In& in, int n) { std::vector<double> v(n); for(auto& x : v) x = in.d(); return v; }

void run(In& in, std::ostream& out, const std::string& id)
{
    using Pb = CLS; using Solver = IpoptInterface<Pb>;
#if KIND == 0
    g_prog.read(in, NX_ + NP_);
    g_cost = in.i(); g_eq.resize(NE_); g_ineq.resize(NI_);
    for(auto& x : g_eq) x = in.i();
    for(auto& x : g_ineq) x = in.i();
    const int nq = NP_;
#else
    g_prog.read(in, X_ + U_ + P_ + D_ + 1);
    g_f.resize(X_); g_g.resize(G_);
    for(auto& x : g_f) x = in.i();
    for(auto& x : g_g) x = in.i();
    g_lag = in.i(); g_may = in.i();
    const int nq = D_;
#endif
    const int NV = Pb::VAR_SIZE, NC = Pb::NUM_EQ + Pb::NUM_INEQ, NI = Pb::NUM_INEQ;
    int npts = in.i();
    std::vector<std::vector<double>> Z, L, ZL, ZU;
    for(int k = 0; k < npts; ++k) { Z.push_back(read(in, NV)); L.push_back(read(in, NC)); ZL.push_back(read(in, NV)); ZU.push_back(read(in, NV)); }
    double junk = in.d();
    Solver* sv = new Solver();
    std::string hor = "[]";
    Arr ev;
    std::vector<int> jr, jc, hr, hc;
    auto structure = [&](std::vector<int>& r, std::vector<int>& c, int rows, int cols, int n, Edge<int>& er, Edge<int>& ec) {
        bool ok = true; r.assign(n, 0); c.assign(n, 0);
        for(int k = 0; k < n; ++k) { r[k] = er.p[k]; c[k] = ec.p[k]; if(r[k] < 0 || r[k] >= rows || c[k] < 0 || c[k] >= cols) { ok = false; r[k] = c[k] = 0; } }
        return ok;
    };
    Ipopt::script().run = [&](Ipopt::TNLP& t, Ipopt::SolveStatistics& st, Ipopt::OptionsList&) {
        int n = NV, m = NC, nj = 0, nh = 0; Ipopt::TNLP::IndexStyleEnum style = Ipopt::TNLP::FORTRAN_STYLE;
        int lastx = -1, lastl = -1; Ipopt::ApplicationReturnStatus status = Ipopt::Internal_Error;
        for(int k = in.i(); k > 0; --k)
        {
            std::string op = in.tok(); Obj o; o.str("op", op); bool ok = true;
            if(op == "info") { ok = t.get_nlp_info(n, m, nj, nh, style); o.i("n", n).i("m", m).b("cstyle", style == Ipopt::TNLP::C_STYLE); if(n != NV || m != NC) { ev.add(o.b("ok", ok).end()); break; } }
            else if(op == "bounds") { Ed a(NV, junk), b(NV, junk), c(NC, junk), d(NC, junk); ok = t.get_bounds_info(n, a.p, b.p, m, c.p, d.p); o.raw("xl", a.json()).raw("xu", b.json()).raw("gl", c.json()).raw("gu", d.json()); }
            else if(op == "start")
            {
                bool fx = in.i(), fz = in.i(), fl = in.i(); Ed x(NV, junk), a(NV, junk), b(NV, junk), l(NC, junk);
                ok = t.get_starting_point(n, fx, fx ? x.p : nullptr, fz, fz ? a.p : nullptr, fz ? b.p : nullptr, m, fl, fl ? l.p : nullptr);
                if(fx) o.raw("x", x.json()); if(fz) o.raw("zl", a.json()).raw("zu", b.json()); if(fl) o.raw("l", l.json());
            }
            else if(op == "sj") { Edge<int> r(nj, -7), c(nj, -7); ok = t.eval_jac_g(n, nullptr, false, m, nj, r.p, c.p, nullptr); o.b("fits", structure(jr, jc, NC, NV, nj, r, c)); }
            else if(op == "sh") { Edge<int> r(nh, -7), c(nh, -7); ok = t.eval_h(n, nullptr, false, 0.0, m, nullptr, false, nh, r.p, c.p, nullptr); o.b("fits", structure(hr, hc, NV, NV, nh, r, c)); }
            else if(op == "end") { status = (Ipopt::ApplicationReturnStatus)in.i(); st.iter = in.i(); st.obj = in.d(); st.dual = in.d(); st.viol = in.d(); st.bounds = in.d(); st.compl_ = in.d(); st.kkt = in.d(); continue; }
            else if(op == "fin")
            {
                int how = in.i(), px = in.i(), pl = in.i(), pz = in.i(); double obj = in.d();
                Ed x(Z[px]), l(L[pl]), a(ZL[pz]), b(ZU[pz]), g(NC, junk);
                t.finalize_solution((Ipopt::SolverReturn)how, n, x.p, a.p, b.p, m, g.p, l.p, obj, nullptr, nullptr);
                o.raw("x", x.json()).raw("l", l.json()).raw("zl", a.json()).raw("zu", b.json());
            }
            else
            {
                int px = in.i(); bool nw = px != lastx; lastx = px; Ed x(Z[px]); o.raw("x", x.json());
                if(op == "f") { double f = junk; ok = t.eval_f(n, x.p, nw, f); o.n("f", f); }
                else if(op == "gf") { Ed g(NV, junk); ok = t.eval_grad_f(n, x.p, nw, g.p); o.raw("g", g.json()); }
                else if(op == "g") { Ed g(NC, junk); ok = t.eval_g(n, x.p, nw, m, g.p); o.raw("c", g.json()); }
                else if(op == "jac")
                {
                    Ed v(nj, junk); ok = t.eval_jac_g(n, x.p, nw, m, nj, nullptr, nullptr, v.p);
                    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(NC, NV);
                    for(int i = 0; i < nj; ++i) J(jr[i], jc[i]) += v.p[i];
                    o.m("j", J);
                }
                else if(op == "h")
                {
                    int pl = in.i(); double s = in.d(); Ed l(L[pl]), v(nh, junk); bool nl = pl != lastl; lastl = pl;
                    ok = t.eval_h(n, x.p, nw, s, m, l.p, nl, nh, nullptr, nullptr, v.p);
                    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(NV, NV);
                    for(int i = 0; i < nh; ++i) { H(hr[i], hc[i]) += v.p[i]; if(hr[i] != hc[i]) H(hc[i], hr[i]) += v.p[i]; }
                    o.raw("l", l.json()).n("scale", s).m("h", H);
                }
                else { std::cerr << "bad callback " << op << "\n"; std::exit(3); }
                for(int i = 0; i < NV; ++i) if(x.p[i] != Z[px][i]) ok = false;
            }
            ev.add(o.b("ok", ok).end());
        }
        ev.add(Obj().str("op", "end").i("status", status).i("iter", st.iter).n("obj", st.obj).n("dual", st.dual).n("viol", st.viol).end());
        return status;
    };
#if KIND == 1
    hor = "[" + num((double)sv->get_problem().t_start) + "," + num((double)sv->get_problem().t_stop) + "]";
#endif
    auto set = [&](const char* op, int n, std::function<void(const std::vector<double>&)> f) { auto v = read(in, n); f(v); ev.add(Obj().str("op", op).raw("v", nums(v)).end()); };
    for(int k = in.i(); k > 0; --k)
    {
        std::string op = in.tok();
        if(op == "lbx") set("lbx", NV, [&](const std::vector<double>& v) { for(int i = 0; i < NV; ++i) sv->lower_bound_x()(i) = v[i]; });
        else if(op == "ubx") set("ubx", NV, [&](const std::vector<double>& v) { for(int i = 0; i < NV; ++i) sv->upper_bound_x()(i) = v[i]; });
        else if(op == "lbg") set("lbg", NI, [&](const std::vector<double>& v) { for(int i = 0; i < NI; ++i) sv->lower_bound_g()(i) = v[i]; });
        else if(op == "ubg") set("ubg", NI, [&](const std::vector<double>& v) { for(int i = 0; i < NI; ++i) sv->upper_bound_g()(i) = v[i]; });
        else if(op == "par") set("par", nq, [&](const std::vector<double>& v) { for(int i = 0; i < nq; ++i) sv->parameters()(i) = v[i]; });
        else if(op == "x0") set("x0", NV, [&](const std::vector<double>& v) { for(int i = 0; i < NV; ++i) sv->primal_solution()(i) = v[i]; });
        else if(op == "lam0") set("lam0", NV + NC, [&](const std::vector<double>& v) { for(int i = 0; i < NV + NC; ++i) sv->dual_solution()(i) = v[i]; });
#if KIND == 1
        else if(op == "lim") { double a = in.d(), b = in.d(); sv->get_problem().set_time_limits(a, b); ev.add(Obj().str("op", op).n("t0", a).n("tf", b).end()); }
#endif
        else if(op == "solve") { ev.add(Obj().str("op", op).end()); sv->solve(); }
        else if(op == "guess")
        {
            auto x = read(in, NV), l = read(in, NV + NC);
            ev.add(Obj().str("op", op).raw("x", nums(x)).raw("lam", nums(l)).end());
            Pb::nlp_variable_t gx(NV); Pb::nlp_dual_t gl(NV + NC);
            for(int i = 0; i < NV; ++i) gx(i) = x[i];
            for(int i = 0; i < NV + NC; ++i) gl(i) = l[i];
            sv->solve(gx, gl);
        }
        else if(op == "get")
        {
            const Solver& c = *sv; bool same = (const void*)&c.get_problem() == (const void*)&sv->get_problem();
            ev.add(Obj().str("op", op).b("same", same).v("x", c.primal_solution()).v("lam", c.dual_solution()).v("lbx", c.lower_bound_x()).v("ubx", c.upper_bound_x()).v("lbg", c.lower_bound_g()).v("ubg", c.upper_bound_g()).v("q", c.parameters())
                   .i("status", c.info().status).i("iter", c.info().iter).n("cost", c.cost()).n("dual", c.dual_norm()).n("viol", c.constr_violation()).end());
        }
        else { std::cerr << "bad op " << op << "\n"; std::exit(3); }
    }
    delete sv;
#if KIND == 0
    std::string P = Obj().raw("prog", g_prog.json()).i("cost", g_cost).raw("eq", ints(g_eq)).raw("ineq", ints(g_ineq)).end();
    std::string D = Obj().i("nv", NV).i("ne", Pb::NUM_EQ).i("ni", NI).i("nq", nq).end();
#else
    std::string P = Obj().raw("prog", g_prog.json()).raw("xdot", ints(g_f)).raw("g", ints(g_g)).i("lag", g_lag).i("may", g_may).end();
    std::string D = Obj().i("nx", X_).i("nu", U_).i("np", P_).i("nd", D_).i("ng", G_).i("N", ORD).i("S", SEG).i("nv", NV).i("ne", Pb::NUM_EQ).i("ni", NI).i("nq", nq).end();
#endif
    emit(out, Obj().str("id", id).str("kind", KIND == 0 ? "nlp" : "ocp").raw("D", D).raw("P", P).raw("hor", hor).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
