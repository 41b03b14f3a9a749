// The NLP solver with a recording QP solver and preconditioner (MODE 0) or with its real QP solver over histories of solves (MODE 1).
// -DOCP_=0|1 (+ the macros of the problem class), -DUPD=0 (default update) 1 (exact Hessian) 2 (block update), -DREG=0|1, -DPRE=0 identity 1 own scaling 2 Ruiz, -DMODE, -DNAME
#if OCP_
#include "ocp_class.hpp"
#else
#define FMT 0
#include "nlp_class.hpp"
#endif
#include "solvers/sqp_base.hpp"
using namespace vf;
namespace {
const int NV = CLS::VAR_SIZE, NE = CLS::NUM_EQ, NI = CLS::NUM_INEQ, NC = NE + NI, NL = CLS::DUAL_SIZE;
std::string ints(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
using V = Eigen::Matrix<SC, Eigen::Dynamic, 1>;
// a diverging iteration may pose systems no factorisation handles; the answer is then whatever it is
#if FMT == 1
template<typename T, int F> struct Lenient : Eigen::SimplicialLDLT<T, F> { using B = Eigen::SimplicialLDLT<T, F>; Eigen::ComputationInfo info() const { return Eigen::Success; }
    template<class V_> V_ solve(const V_& b) const { if(B::info() != Eigen::Success) return V_::Zero(b.size()); return B::solve(b); } };
using Real = boxADMM<NV, NC, SC, SPARSE, Lenient>;
#else
template<typename T, int F> struct Lenient : Eigen::LDLT<T, F> { Eigen::ComputationInfo info() const { return Eigen::Success; } };
using Real = boxADMM<NV, NC, SC, DENSE, Lenient>;
#endif
// nor is a problem with entries that are not numbers passed on
struct Guard : Real
{
    bool answered = false, built = false;
    // a problem answered here left no matrix behind whose pattern the solver could reuse
    template<class... A_> status_t pass(const A_&... a)
    {
        const bool reuse = this->settings().reuse_pattern;
        if(answered && !built) this->settings().reuse_pattern = false;
        built = true;
        const status_t s = Real::solve(a...);
        this->settings().reuse_pattern = reuse;
        return s;
    }
    template<class H, class h_, class A_, class C_> status_t solve(const H& H0, const h_& h, const A_& A, const C_& al, const C_& au, const h_& lx, const h_& ux)
    {
        auto num_ = [](const auto& v) { for(int i = 0; i < v.size(); ++i) if(v(i) != v(i)) return false; return true; };
        if(dense(H0).allFinite() && h.allFinite() && dense(A).allFinite() && num_(al) && num_(au) && num_(lx) && num_(ux)) return pass(H0, h, A, al, au, lx, ux);
        answered = true;
        this->m_x.setZero(); this->m_y.setZero(); this->m_info.iter = 0;
        return SOLVED;
    }
};
double g_reg = 0;
struct Answer { char kind; V p, y; int iter; double decay; };
struct Ctx
{
    const CLS::nlp_variable_t* x = nullptr; const CLS::nlp_dual_t* lam = nullptr;
    std::vector<Answer> answers; size_t k = 0; double cap = 10;
    V D, E; SC c = 1;          // scaling in force
    std::string posed, scaled; // the subproblem before and after the preconditioner
    Arr ev;
    bool restored = true;
} cx;
template<class H, class h_, class A_, class C_> std::string problem_json(const H& H0, const h_& h, const A_& A, const C_& al, const C_& au, const h_& lx, const h_& ux)
{ return Obj().m("H", H0).v("h", h).m("A", A).v("al", al).v("au", au).v("lx", lx).v("ux", ux).end(); }

// ------------------------------------------------------------------ recording QP solver
struct Stub
{
    using settings_t = qp_solver_settings_t<SC>;
    settings_t m_settings; qp_solver_info_t<SC> m_info; V p, y;
    settings_t& settings() { return m_settings; }
    const settings_t& settings() const { return m_settings; }
    const qp_solver_info_t<SC>& info() const { return m_info; }
    const V& primal_solution() const { return p; }
    const V& dual_solution() const { return y; }
    template<class H, class h_, class A_, class C_> status_t solve(H& H0, const h_& h, A_& A, const C_& al, const C_& au, const h_& lx, const h_& ux)
    {
        std::string got = problem_json(H0, h, A, al, au, lx, ux);
        V x0 = *cx.x, l0 = *cx.lam, tp(NV), ty(NL);
        Answer an = cx.answers[std::min(cx.k, cx.answers.size() - 1)];
        double f = 1;
        for(size_t i = cx.answers.size() - 1; i < cx.k; ++i) f *= an.decay;
        bool scripted = an.kind == 's';
        if(!scripted)
        {
            // the answer may be anything; this one is near a solution when the Hessian is convex
            using DM = Eigen::Matrix<SC, Eigen::Dynamic, Eigen::Dynamic>;
            DM Hd = dense(H0);
            SC shift = 0;
            bool sane = Hd.allFinite() && dense(A).allFinite();
            if(sane) { SC e = Eigen::SelfAdjointEigenSolver<DM>(Hd).eigenvalues().minCoeff(); if(e < SC(0.05)) shift = SC(0.05) - e; }
            std::unique_ptr<Real> q(new Real);
            auto Hs = H0;
            for(int i = 0; i < NV; ++i) Hs.coeffRef(i, i) += shift;
            q->settings().check_termination = 5; q->settings().max_iter = 2000; q->settings().adaptive_rho = true; q->settings().adaptive_rho_interval = 50;
            q->settings().eps_abs = q->settings().eps_rel = sizeof(SC) == 8 ? 1e-6 : 1e-3;
            if(sane) q->solve(Hs, h, A, al, au, lx, ux);
            else { q->m_x = V::Zero(NV); q->m_y = V::Zero(NL); }
            p = q->primal_solution(); y = q->dual_solution();
            tp = p.cwiseProduct(cx.D);
            ty.head(NC) = y.head(NC).cwiseProduct(cx.E) / cx.c; ty.tail(NV) = y.tail(NV).cwiseQuotient(cx.D) / cx.c;
            double big = 0;
            bool fin = true;
            for(int i = 0; i < NV; ++i) { fin = fin && std::isfinite((double)tp(i)); big = std::max(big, std::abs((double)tp(i)) / cx.cap); }
            for(int i = 0; i < NL; ++i) { fin = fin && std::isfinite((double)ty(i)); big = std::max(big, std::abs((double)ty(i)) / cx.cap / 10); }
            if(!fin || big > 1) { scripted = true; f = 1; an.p = V::Zero(NV); an.y = V::Zero(NL); if(fin) { an.p = tp / (SC)big; an.y = ty / (SC)big - l0; } }
        }
        if(scripted)
        {
            tp = an.p * (SC)f; ty = an.y * (SC)f + l0;
            p = tp.cwiseQuotient(cx.D);
            y.resize(NL);
            y.head(NC) = cx.c * ty.head(NC).cwiseQuotient(cx.E); y.tail(NV) = cx.c * ty.tail(NV).cwiseProduct(cx.D);
        }
        m_info.iter = an.iter; m_info.status = SOLVED; cx.k++;
        cx.ev.add(Obj().v("x", x0).v("lam", l0).raw("qp", cx.posed).b("handed", got == cx.scaled).v("p", tp).v("y", ty).i("it", an.iter).end());
        return SOLVED;
    }
};
// ------------------------------------------------------------------ recording preconditioner
struct Pre
{
#if PRE == 2
    polympc::RuizEquilibration<SC, NV, NC, FMT == 1 ? SPARSE : DENSE> ruiz;
#endif
    template<class H, class h_, class A_, class C_> void compute(H& H0, h_& h, A_& A, C_& al, C_& au, h_& lx, h_& ux)
    {
        cx.posed = problem_json(H0, h, A, al, au, lx, ux);
#if PRE == 1
        H0 = (cx.c * cx.D.asDiagonal() * H0 * cx.D.asDiagonal()).eval(); h = (cx.c * h.cwiseProduct(cx.D)).eval();
        A = (cx.E.asDiagonal() * A * cx.D.asDiagonal()).eval();
        al = al.cwiseProduct(cx.E).eval(); au = au.cwiseProduct(cx.E).eval(); lx = lx.cwiseQuotient(cx.D).eval(); ux = ux.cwiseQuotient(cx.D).eval();
#elif PRE == 2
        ruiz.compute(H0, h, A, al, au, lx, ux);
        cx.D = ruiz.D; cx.E = ruiz.E; cx.c = ruiz.c();
#endif
        cx.scaled = problem_json(H0, h, A, al, au, lx, ux);
    }
    template<class P, class L> void unscale(P& p, L& lam)
    {
#if PRE == 1
        p = p.cwiseProduct(cx.D).eval();
        lam.head(NC) = (lam.head(NC).cwiseProduct(cx.E) / cx.c).eval(); lam.tail(NV) = (lam.tail(NV).cwiseQuotient(cx.D) / cx.c).eval();
#elif PRE == 2
        ruiz.unscale(p, lam);
#endif
    }
    template<class H, class h_, class A_, class C_> void unscale(H& H0, h_& h, A_& A, C_& al, C_& au, h_& lx, h_& ux)
    {
#if PRE == 1
        H0 = (cx.D.cwiseInverse().asDiagonal() * H0 * cx.D.cwiseInverse().asDiagonal() / cx.c).eval(); h = (h.cwiseQuotient(cx.D) / cx.c).eval();
        A = (cx.E.cwiseInverse().asDiagonal() * A * cx.D.cwiseInverse().asDiagonal()).eval();
        al = al.cwiseQuotient(cx.E).eval(); au = au.cwiseQuotient(cx.E).eval(); lx = lx.cwiseProduct(cx.D).eval(); ux = ux.cwiseProduct(cx.D).eval();
#elif PRE == 2
        ruiz.unscale(H0, h, A, al, au, lx, ux);
#endif
    }
};
#if MODE == 0
using Qp = Stub; using Prec = Pre;
#else
using Qp = Guard; using Prec = polympc::IdentityPreconditioner;
#endif

template<class Pb> class Solver : public SQPBase<Solver<Pb>, Pb, Qp, Prec>
{
public:
    using Base = SQPBase<Solver<Pb>, Pb, Qp, Prec>;
    using typename Base::nlp_variable_t; using typename Base::nlp_hessian_t; using typename Base::nlp_jacobian_t; using typename Base::nlp_dual_t;
    using typename Base::parameter_t; using typename Base::nlp_constraints_t;
#if REG
    EIGEN_STRONG_INLINE void hessian_regularisation_dense_impl(Eigen::Ref<nlp_hessian_t> H) noexcept { for(int i = 0; i < NV; ++i) H(i, i) += (SC)g_reg; }
    EIGEN_STRONG_INLINE void hessian_regularisation_sparse_impl(nlp_hessian_t& H) noexcept { for(int i = 0; i < NV; ++i) H.coeffRef(i, i) += (SC)g_reg; }
#endif
#if UPD == 1 && FMT == 0
    EIGEN_STRONG_INLINE void update_linearisation_dense_impl(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>&,
        const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, Eigen::Ref<nlp_hessian_t> H, Eigen::Ref<nlp_jacobian_t> A, Eigen::Ref<nlp_constraints_t> b) noexcept
    { this->linearisation_dense_impl(x, p, lam, g, H, A, b); }
#elif UPD == 1
    EIGEN_STRONG_INLINE void update_linearisation_sparse_impl(const Eigen::Ref<const nlp_variable_t>& x, const Eigen::Ref<const parameter_t>& p, const Eigen::Ref<const nlp_variable_t>&,
        const Eigen::Ref<const nlp_dual_t>& lam, Eigen::Ref<nlp_variable_t> g, nlp_hessian_t& H, nlp_jacobian_t& A, Eigen::Ref<nlp_constraints_t> b) noexcept
    { this->linearisation_sparse_impl(x, p, lam, g, H, A, b); }
#elif UPD == 2
    EIGEN_STRONG_INLINE void hessian_update_impl(Eigen::Ref<nlp_hessian_t> H, const Eigen::Ref<const nlp_variable_t>& s, const Eigen::Ref<const nlp_variable_t>& y) noexcept
    { this->problem.hessian_update_impl(H, s, y); }
#endif
};
using S = Solver<CLS>;
template<class Vec> void rd(In& in, Vec& v) { for(int i = 0; i < v.size(); ++i) v(i) = (SC)in.d(); }
V rdv(In& in, int n) { V v(n); rd(in, v); return v; }

// the solver object lives in memory that held something else before
struct Box
{
    std::vector<char> mem; S* s;
    Box() : mem(sizeof(S) + 128, 0)
    {
        void* at = (void*)((reinterpret_cast<uintptr_t>(mem.data()) + 63) / 64 * 64);
        { double* q = (double*)at; for(size_t i = 0; i < sizeof(S) / sizeof(double); ++i) q[i] = 3.25 + (double)(i % 1000); }
        s = new(at) S();
    }
    ~Box() { s->~S(); }
};
void read_problem(In& in)
{
#if OCP_
    g_prog.read(in, X_ + U_ + P_ + D_ + 1);
    g_f.resize(X_); g_g.resize(G_);
    for(auto& x : g_f) x = in.i();
    for(auto& x : g_g) x = in.i();
    g_lag = in.i(); g_may = in.i();
#else
    g_prog.read(in, NX_ + NP_);
    g_cost = in.i(); g_eq.resize(NE_); g_ineq.resize(NI_);
    for(auto& x : g_eq) x = in.i();
    for(auto& x : g_ineq) x = in.i();
#endif
}
void set_limits(S& s, double a, double b)
{
#if OCP_
    s.problem.set_time_limits((SC)a, (SC)b);
#endif
}
std::string problem_text(S& s)
{
#if OCP_
    std::string P = Obj().raw("prog", g_prog.json()).raw("xdot", ints(g_f)).raw("g", ints(g_g)).i("lag", g_lag).i("may", g_may).end();
    std::string D = Obj().i("nx", X_).i("nu", U_).i("np", P_).i("nd", D_).i("ng", G_).i("N", ORD).i("S", SEG).end();
    return Obj().str("kind", "ocp").raw("D", D).raw("P", P).n("t0", s.problem.t_start).n("tf", s.problem.t_stop).end();
#else
    std::string P = Obj().raw("prog", g_prog.json()).i("cost", g_cost).raw("eq", ints(g_eq)).raw("ineq", ints(g_ineq)).end();
    return Obj().str("kind", "nlp").raw("P", P).end();
#endif
}
void read_bounds(In& in, S& s)
{ rd(in, s.lower_bound_x()); rd(in, s.upper_bound_x()); rd(in, s.lower_bound_g()); rd(in, s.upper_bound_g()); rd(in, s.parameters()); }
std::string outcome(S& s)
{
    auto& i = s.info();
    const char* st = i.status.value == sqp_status_t::SOLVED ? "SOLVED" : i.status.value == sqp_status_t::MAX_ITER_EXCEEDED ? "MAX_ITER" : "OTHER";
    return Obj().v("x", s.primal_solution()).v("lam", s.dual_solution()).n("pn", s.primal_norm()).n("dn", s.dual_norm()).n("viol", s.constr_violation()).n("cost", s.cost())
        .i("iter", i.iter).i("qit", i.qp_solver_iter).str("status", st).end();
}
void read_settings(In& in, S& s)
{
    auto& t = s.settings();
    t.tau = (SC)in.d(); t.eta = (SC)in.d(); t.eps_prim = (SC)in.d(); t.eps_dual = (SC)in.d(); t.max_iter = in.i(); t.line_search_max_iter = in.i();
}

#if MODE == 0
Arr cb;
void callback(void* p)
{ S& s = *static_cast<S*>(p); cb.add(Obj().i("iter", s.info().iter).v("x", s.primal_solution()).v("lam", s.dual_solution()).n("pn", s.primal_norm()).n("dn", s.dual_norm()).end()); }
void run(In& in, std::ostream& out, const std::string& id)
{
    cx = Ctx(); cb = Arr();
    cx.D = V::Ones(NV); cx.E = V::Ones(NC);
    read_problem(in);
    g_reg = in.d();
    std::unique_ptr<Box> box(new Box());
    S& s = *box->s;
    double t0 = in.d(), tf = in.d();
    set_limits(s, t0, tf);
    std::string pb = problem_text(s);
    read_bounds(in, s);
    std::string B = Obj().v("lx", s.lower_bound_x()).v("ux", s.upper_bound_x()).v("lg", s.lower_bound_g()).v("ug", s.upper_bound_g()).v("q", s.parameters()).end();
    read_settings(in, s);
    auto& t = s.settings();
    std::string set = Obj().n("tau", t.tau).n("eta", t.eta).n("ep", t.eps_prim).n("ed", t.eps_dual).i("max", t.max_iter).i("ls", t.line_search_max_iter)
        .n("eps", std::numeric_limits<SC>::epsilon()).n("reg", REG ? g_reg : 0).i("upd", UPD).b("dense", FMT == 0).end();
    if(PRE == 1) { cx.D = rdv(in, NV); cx.E = rdv(in, NC); cx.c = (SC)in.d(); }
    CLS::nlp_variable_t x0; CLS::nlp_dual_t l0; x0.resize(NV); l0.resize(NL);
    rd(in, x0); rd(in, l0);
    cx.cap = in.d();
    for(int k = in.i(); k > 0; --k)
    {
        Answer a; a.kind = in.tok()[0]; a.iter = in.i(); a.decay = in.d();
        if(a.kind == 's') { a.p = rdv(in, NV); a.y = rdv(in, NL); }
        cx.answers.push_back(a);
    }
    bool withcb = in.i();
    if(withcb) t.iteration_callback = callback;
    cx.x = &s.m_x; cx.lam = &s.m_lam;
    if(in.i()) s.solve(x0, l0);
    else { s.primal_solution() = x0; s.dual_solution() = l0; s.solve(); }
    emit(out, Obj().str("id", id).raw("pb", pb).raw("B", B).raw("set", set).v("x0", x0).v("l0", l0).raw("ev", cx.ev.end()).raw("cb", cb.end()).b("withcb", withcb).raw("out", outcome(s)).end());
}
#else
// every solve of the history on one solver, and each of them on a solver of its own
void run(In& in, std::ostream& out, const std::string& id)
{
    read_problem(in);
    g_reg = in.d();
    std::string rest, w;
    int n = in.i();
    std::unique_ptr<Box> used(new Box());
    Arr ev, fr, pt;
    for(int k = 0; k < n; ++k)
    {
        std::unique_ptr<Box> fresh(new Box()), shaken(new Box());
        std::vector<std::string> words;
        std::string start = in.tok();   // g: guess arguments, a: guess through the accessors, c: continue from the previous solution
        int cnt = 2 + 2 * NV + 2 * NI + (int)used->s->parameters().size() + 6 + 4 + (start == "c" ? 0 : NV + NL);
        for(int i = 0; i < cnt; ++i) words.push_back(in.tok());
        std::ostringstream o; for(auto& x : words) o << x << " ";
        CLS::nlp_variable_t px = used->s->primal_solution(); CLS::nlp_dual_t pl = used->s->dual_solution();
        for(int which = 0; which < 3; ++which)   // the third shows how far rounding alone carries
        {
            S& s = which == 1 ? *used->s : which == 0 ? *fresh->s : *shaken->s;
            struct Keep { double v = g_reg; ~Keep() { g_reg = v; } } keep;
            std::istringstream is(o.str()); In i2(is);
            double t0 = i2.d(), tf = i2.d();
            set_limits(s, t0, tf);
            read_bounds(i2, s); read_settings(i2, s);
            s.qp_settings().max_iter = i2.i(); s.qp_settings().check_termination = i2.i(); s.qp_settings().eps_abs = s.qp_settings().eps_rel = (SC)i2.d(); s.qp_settings().adaptive_rho = i2.i();
            CLS::nlp_variable_t x0 = px; CLS::nlp_dual_t l0 = pl;
            if(start != "c") { rd(i2, x0); rd(i2, l0); }
            if(which == 2) { const SC e = 50 * std::numeric_limits<SC>::epsilon(); for(int i = 0; i < NV; ++i) x0(i) += (i % 2 ? e : -e) * (1 + std::abs(x0(i))); g_reg *= 1 + e; }
            if(start == "g") s.solve(x0, l0);
            else { s.primal_solution() = x0; s.dual_solution() = l0; s.solve(); }
            (which == 1 ? ev : which == 0 ? fr : pt).add(outcome(s));
        }
    }
    emit(out, Obj().str("id", id).raw("fresh", fr.end()).raw("ev", ev.end()).raw("shaken", pt.end()).end());
}
#endif
struct Reg_ { Reg_() { registry()[NAME] = run; } } reg_;
}
