// The stand-alone collocation functors: -DCLS -DX_ -DU_ -DP_ -DG_ -DORD -DSEG -DSC -DFAM=0|1 (Chebyshev, Legendre) -DSTOCK=0|1 (which AutoDiffScalar comes first) -DNAME
#include "Eigen/Dense"
#if STOCK
#include "unsupported/Eigen/AutoDiff"
#endif
#include "prog.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "control/ode_collocation.hpp"
#include "control/sparse_ode_collocation.hpp"
#include "control/cost_collocation.hpp"
#include "control/constraints_collocation.hpp"
using namespace vf;
namespace {
Prog g_prog, g_mprog; int g_lag, g_may; std::vector<int> g_f, g_g;
#if FAM == 0
using Poly = polympc::Chebyshev<ORD, polympc::GAUSS_LOBATTO, SC>;
#else
using Poly = polympc::Legendre<ORD, polympc::GAUSS_LOBATTO, SC>;
#endif
std::string ints(const std::vector<int>& v) { std::string r = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
template<class T, class A, class B, class C> std::vector<T> regs(const Prog& pr, const A& x, const B& u, const C& p)
{
    std::vector<T> r;
    for(int i = 0; i < X_; ++i) r.push_back(T(x(i)));
    for(int i = 0; i < U_; ++i) r.push_back(T(u(i)));
    for(int i = 0; i < P_; ++i) r.push_back(T((SC)p(i)));
    r.push_back(T((SC)0));
    return exec<T, SC>(pr, r);
}
template<class T, class L> void put(const std::vector<T>& r, int reg, L&& out) { if(g_prog.is_const(reg)) out = (SC)g_prog.const_of(reg); else out = r[reg - 1]; }
struct Base_ { using Scalar = SC; using State = Eigen::Matrix<SC, X_, 1>; using Control = Eigen::Matrix<SC, U_, 1>; using Parameters = Eigen::Matrix<SC, P_, 1>; };
struct Dyn : Base_
{
    int live = 1;   // dynamics objects may carry data
    template<class A, class B, class C, class O> void operator()(const Eigen::MatrixBase<A>& x, const Eigen::MatrixBase<B>& u, const Eigen::MatrixBase<C>& p, O& out) const
    { using T = typename O::Scalar; auto r = regs<T>(g_prog, x, u, p); for(int i = 0; i < X_; ++i) put(r, live ? g_f[i] : 1, out(i)); }
};
struct Lag : Base_
{
    int live = 1;
    template<class A, class B, class C, class T> void operator()(const Eigen::MatrixBase<A>& x, const Eigen::MatrixBase<B>& u, const Eigen::MatrixBase<C>& p, T& out) const
    { auto r = regs<T>(g_prog, x, u, p); put(r, live ? g_lag : 1, out); }
};
struct May : Base_
{
    int live = 1;
    template<class A, class T> void operator()(const Eigen::MatrixBase<A>& x, T& out) const
    { Eigen::Matrix<T, U_, 1> u; for(int i = 0; i < U_; ++i) u(i) = T((SC)0); Eigen::Matrix<SC, P_, 1> p; p.setZero(); auto r = regs<T>(g_mprog, x, u, p); put(r, live ? g_may : 1, out); }
};
struct Con : Base_
{
    template<class A, class B, class C, class O> void operator()(const Eigen::MatrixBase<A>& x, const Eigen::MatrixBase<B>& u, const Eigen::MatrixBase<C>& p, O& out) const
    { using T = typename O::Scalar; auto r = regs<T>(g_prog, x, u, p); for(int i = 0; i < G_; ++i) put(r, g_g[i], out(i)); }
};
using Ode = polympc::ode_collocation<Dyn, Poly, SEG>;
using SOde = polympc::sparse_ode_collocation<Dyn, Poly, SEG>;
#if FAM == 0
using Cost = polympc::cost_collocation<Lag, May, Poly, SEG>;
#endif
using CCon = polympc::constraint_collocation<X_, U_, P_, Poly, SEG>;
// objects live in memory that held something else before
template<class T> struct Box
{
    std::vector<char> mem; T* s;
    template<class... A> explicit Box(double junk, A&&... a) : mem(sizeof(T) + 128, 0)
    {
        void* at = (void*)((reinterpret_cast<uintptr_t>(mem.data()) + 63) / 64 * 64);
        double* q = (double*)at;
        for(size_t i = 0; i < sizeof(T) / sizeof(double); ++i) q[i] = junk + (double)(i % 1000);
        s = new(at) T(a...);
    }
    ~Box() { s->~T(); }
    T* operator->() { return s; }
    T& operator*() { return *s; }
};
__attribute__((noinline)) void dirty(double v) { volatile double pad[4096]; for(int i = 0; i < 4096; ++i) pad[i] = v + i; }
void run(In& in, std::ostream& out, const std::string& id)
{
    const int NV = Ode::VARX_SIZE + Ode::VARU_SIZE + Ode::VARP_SIZE, NE = Ode::VARX_SIZE;
    g_prog.read(in, X_ + U_ + P_ + 1);
    int k = in.i();   // the first instructions depend on the states only
    g_mprog = g_prog; g_mprog.code.resize(k);
    g_f.resize(X_); g_g.resize(G_);
    for(auto& x : g_f) x = in.i();
    for(auto& x : g_g) x = in.i();
    g_lag = in.i(); g_may = in.i();
    bool given = in.i();   // functors handed to the constructors
    Box<Ode> ode_default(3.25), ode_given(3.25, Dyn());
    Box<SOde> sode_default(1.5), sode_given(1.5, Dyn());
    Ode& ode = given ? *ode_given : *ode_default;
    SOde& sode = given ? *sode_given : *sode_default;
#if FAM == 0
    Box<Cost> cost_default(2.5), cost_given(2.5, Lag(), May());
    Cost& cost = given ? *cost_given : *cost_default;
#endif
    Box<CCon> con(7.5);
    std::vector<typename Ode::var_t> z(in.i());
    for(auto& v : z) { v.resize(NV); for(int i = 0; i < NV; ++i) v(i) = (SC)in.d(); }
    typename SOde::jacobian_t S(NE, NV);
    std::unique_ptr<typename Ode::jacobian_t> A(new typename Ode::jacobian_t);
    Arr ev;
    for(int n = in.i(); n > 0; --n)
    {
        std::string op = in.tok(); int zi = in.i(); double junk = in.d(); SC t0 = (SC)in.d(), tf = (SC)in.d();
        auto& v = z[zi];
        Obj e; e.str("op", op).v("z", v).n("t0", t0).n("tf", tf);
        typename Ode::constr_t b; b.setConstant((SC)junk);
        dirty(junk);
        if(op == "ode") { ode(v, b, t0, tf); e.v("ce", b); }
        else if(op == "sode") { sode(v, b, t0, tf); e.v("ce", b); }
        else if(op == "lin") { A->setConstant((SC)junk); ode.linearized(v, *A, b, t0, tf); e.v("ce", b).m("je", *A); }
        else if(op == "slin") { sode.linearized(v, S, b, t0, tf); e.v("ce", b).m("je", S); }
        else if(op == "fresh") { typename SOde::jacobian_t E(NE, NV); S = E; }
#if FAM == 0
        else if(op == "cost") { SC f = (SC)junk; cost(v, f, t0, tf); e.n("f", f); }
        else if(op == "costg") { SC f = (SC)junk; typename Cost::var_t g; g.setConstant((SC)junk); cost.value_gradient(v, f, g, t0, tf); e.n("f", f).v("g", g); }
        else if(op == "costh")
        {
            SC f = (SC)junk; typename Cost::var_t g; g.setConstant((SC)junk); std::unique_ptr<typename Cost::hessian_t> H(new typename Cost::hessian_t); H->setConstant((SC)junk);
            cost.value_gradient_hessian(v, f, g, *H, t0, tf); e.n("f", f).v("g", g).m("ch", *H);
        }
#endif
        else if(op == "con")
        {
            Con f; typename CCon::template value_t<G_> y; y.setConstant((SC)junk);
            con->template generic_function<Con, G_>(f, v, y);
            auto y2 = con->template generic_function<Con, G_>(f, v);
            e.v("ci", y).v("ci2", y2);
        }
        else { std::cerr << "harness: bad operation\n"; std::exit(3); }
        ev.add(e.end());
    }
    std::string P = Obj().raw("prog", g_prog.json()).raw("xdot", ints(g_f)).raw("g", ints(g_g)).i("lag", g_lag).i("may", g_may).end();
    std::string D = Obj().i("nx", X_).i("nu", U_).i("np", P_).i("nd", 0).i("ng", G_).i("N", ORD).i("S", SEG).end();
    emit(out, Obj().str("id", id).raw("D", D).raw("P", P).i("fam", FAM).raw("ev", ev.end()).end());
}
struct Reg_ { Reg_() { registry()[NAME] = run; } } reg_;
}
