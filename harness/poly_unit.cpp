// Polynomial bases: one unit per family, order and scalar type (-DFAM, -DORD, -DSC, -DNAME)
#include "common.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/legendre.hpp"
#include "polynomials/projection.hpp"
#include "polynomials/splines.hpp"
using namespace vf;
namespace {
using S = SC;
#if FAM == 0
using Basis = polympc::Chebyshev<ORD, polympc::GAUSS_LOBATTO, S>;
inline Basis::q_weights_t int_weights(Basis& b) { return b.CCQWeights(); }
#else
using Basis = polympc::Legendre<ORD, polympc::GAUSS_LOBATTO, S>;
inline Basis::q_weights_t int_weights(Basis& b) { return b.QWeights(); }
#endif
using PVec = Eigen::Matrix<S, ORD + 1, 1>;

std::vector<S> g_poly;
S eval_poly(S x) { S r = 0; for(size_t i = g_poly.size(); i-- > 0;) r = r * x + g_poly[i]; return r; }
struct Integrand { S operator()(const S& x) const { return eval_poly(x); } };
std::vector<S> read_poly(In& in) { int n = in.i(); std::vector<S> p(n); for(auto& x : p) x = (S)in.d(); return p; }
std::string pol(const std::vector<S>& p) { std::string r = "["; for(size_t i = 0; i < p.size(); ++i) { if(i) r += ","; r += num(p[i]); } return r + "]"; }

template<class Src> std::string tables(const char* op, Src get)
{
    Obj o; o.str("op", op); get(o); return o.end();
}

void run(In& in, std::ostream& out, const std::string& id)
{
    Arr ev;
    Basis b;
    for(int n = in.i(); n > 0; --n)
    {
        std::string op = in.tok();
        Obj o; o.str("op", op);
        if(op == "table")      // members, statics and the composite wrapper must all agree with the definition
        {
            int how = in.i();
            using Spl = polympc::Spline<Basis, 3>;
            if(how == 0) o.v("nodes", b.CPoints()).m("D", b.D()).v("iw", int_weights(b)).v("qw", b.QWeights()).v("nf", b.NFactors());
            else if(how == 1) o.v("nodes", Basis::compute_nodes()).m("D", Basis::compute_diff_matrix()).v("iw", Basis::compute_int_weights()).v("qw", Basis::compute_quad_weights()).v("nf", Basis::compute_norm_factors());
            else o.v("nodes", Spl::compute_nodes()).m("D", Spl::compute_diff_matrix()).v("iw", Spl::compute_int_weights()).v("qw", Spl::compute_quad_weights()).v("nf", Spl::compute_norm_factors());
            o.i("nn", how == 2 ? (long)Spl::NUM_NODES : (long)Basis::NUM_NODES).i("segs", how == 2 ? 3 : 1).i("order", how == 2 ? (long)Spl::POLY_ORDER : (long)Basis::POLY_ORDER);
        }
        else if(op == "diff")  // derivative at the nodes from the node values of a polynomial
        {
            g_poly = read_poly(in);
            PVec v, x = b.CPoints(); for(int i = 0; i <= ORD; ++i) v(i) = eval_poly(x(i));
            o.raw("p", pol(g_poly)).v("nodes", x).v("res", PVec(b.D() * v));
        }
        else if(op == "integ")
        {
            g_poly = read_poly(in); S t0 = (S)in.d(), tf = (S)in.d(); int def = in.i();
            S r = def ? b.template integrate<Integrand>() : b.template integrate<Integrand>(t0, tf);
            o.raw("p", pol(g_poly)).n("t0", def ? S(-1) : t0).n("tf", def ? S(1) : tf).n("res", r);
        }
        else if(op == "lag")   // interpolation through the Lagrange basis of the grid
        {
            g_poly = read_poly(in); S x = (S)in.d();
            PVec nd = b.CPoints();
            Eigen::Matrix<S, ORD + 1, ORD + 1> L;
            polympc::LagrangeSpline::compute_lagrange_basis(nd, L);
            Eigen::Matrix<S, 2, ORD + 1> vals;
            for(int i = 0; i <= ORD; ++i) { vals(0, i) = eval_poly(nd(i)); vals(1, i) = 2 * eval_poly(nd(i)) - 1; }
            o.raw("p", pol(g_poly)).n("x", x).v("nodes", nd).m("L", L).v("res", polympc::LagrangeSpline::eval(x, vals, L));
        }
        else if(op == "proj" || op == "reproj")
        {
            g_poly = read_poly(in); S a = (S)in.d(), c = (S)in.d(); int k = in.i();
            Projection<Basis> p([](S x) { return eval_poly(x); }, op == "reproj" ? S(-3) : a, op == "reproj" ? S(5) : c);
            if(op == "reproj") p.project([](S x) { return eval_poly(x); }, a, c);
            Arr xs, vs;
            for(int i = 0; i < k; ++i) { S x = (S)in.d(); xs.add(num(x)); vs.add(num(p.eval(x))); }
            o.raw("p", pol(g_poly)).n("a", a).n("b", c).raw("xs", xs.end()).raw("vs", vs.end()).v("coeff", p.coeff);
        }
        else if(op == "basis")
        {
            int k = in.i(); S x = (S)in.d();
            o.i("n", k).n("x", x).n("res", b.eval(x, k));
#if FAM == 0
            o.n("top", Basis::eval(x));
#else
            o.n("top", b.eval(x, ORD));
#endif
            o.n("dens", Basis::weight(x));
        }
        else if(op == "coefs")
        {
#if FAM == 1
            o.m("L", Basis::compute_basis());
#endif
        }
        else if(op == "mul" || op == "der")
        {
            PVec p, q; for(int i = 0; i <= ORD; ++i) p(i) = (S)in.d(); for(int i = 0; i <= ORD; ++i) q(i) = (S)in.d();
            o.v("p", p).v("q", q);
            if(op == "mul") o.v("res", polympc::polymath::poly_mul(p, q)); else o.v("res", polympc::polymath::poly_diff(p));
        }
        else { std::cerr << "bad op " << op << "\n"; std::exit(3); }
        ev.add(o.end());
    }
    emit(out, Obj().str("id", id).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
