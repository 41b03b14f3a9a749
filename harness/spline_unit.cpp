// Equidistant cubic spline: histories of coefficient/length assignments and queries in plain and AD scalars
#include "common.hpp"
#include "polynomials/splines.hpp"
using namespace vf;
namespace {
template<class S> void run(In& in, std::ostream& out, const std::string& id)
{
    using Spl = polympc::EquidistantCubicSpline<S>;
    using M = typename Spl::coeffs_matrix_type;
    using A1 = Eigen::AutoDiffScalar<Eigen::Matrix<S, 2, 1>>;
    using AD2 = Eigen::AutoDiffScalar<Eigen::Matrix<A1, 2, 1>>;
    Spl s;
    Arr ev;
    for(int n = in.i(); n > 0; --n)
    {
        std::string op = in.tok();
        Obj o; o.str("op", op);
        if(op == "new" || op == "coeffs")
        {
            int k = in.i(); M c(4, k); for(int j = 0; j < k; ++j) for(int i = 0; i < 4; ++i) c(i, j) = (S)in.d();
            if(op == "new") { S len = (S)in.d(); s = Spl(c, len); o.n("len", len); } else s.coefficients() = c;
            o.m("c", M(c.transpose().transpose()));
            o.m("ct", Eigen::Matrix<S, Eigen::Dynamic, 4>(c.transpose()));
        }
        else if(op == "len") { S len = (S)in.d(); s.segment_length() = len; o.n("len", len); }
        else if(op == "eval")
        {
            S x = (S)in.d();
            const Spl& cs = s;
            o.n("x", x).n("v", cs.eval(x));
            A1 a(x, Eigen::Matrix<S, 2, 1>(S(3), S(-1)));
            A1 r = cs.eval(a);
            o.n("v1", r.value()).v("d1", r.derivatives());
            AD2 h; h.value() = A1(x, Eigen::Matrix<S, 2, 1>(S(1), S(2)));
            h.derivatives()(0) = A1(S(1), Eigen::Matrix<S, 2, 1>::Zero()); h.derivatives()(1) = A1(S(2), Eigen::Matrix<S, 2, 1>::Zero());
            AD2 q = cs.eval(h);
            o.n("v2", q.value().value()).v("g2", q.value().derivatives());
            Eigen::Matrix<S, 2, 2> H; for(int i = 0; i < 2; ++i) H.row(i) = q.derivatives()(i).derivatives().transpose();
            o.m("h2", H);
        }
        else if(op == "read") o.m("ct", Eigen::Matrix<S, Eigen::Dynamic, 4>(s.coefficients().transpose())).n("len", s.segment_length());
        ev.add(o.end());
    }
    emit(out, Obj().str("id", id).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()["spline-d"] = run<double>; registry()["spline-f"] = run<float>; } } reg;
}
