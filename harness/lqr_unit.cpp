// The Riccati kernels and the linear-quadratic regulator of control/lqr.hpp.
#include "common.hpp"
#include "control/lqr.hpp"
using namespace vf;
namespace {
using M = Eigen::MatrixXd;
M rd(In& in) { int r = in.i(), c = in.i(); M m(r, c); for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) m(i, j) = in.d(); return m; }
struct Quiet
{
    std::ostringstream sink; std::streambuf *o, *e;
    Quiet() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
void run(In& in, std::ostream& out, const std::string& id)
{
    Arr ev; M S, K;   // the outputs of lqr are kept from call to call
    for(int n = in.i(); n > 0; --n)
    {
        std::string op = in.tok(); Obj e; e.str("op", op);
        if(op == "pinv") { M A = rd(in), P; { Quiet q; P = pinv(A); } e.m("A", A).m("P", P); }
        else if(op == "lyap") { M A = rd(in), Q = rd(in), X; { Quiet q; X = lyapunov(A, Q); } e.m("A", A).m("Q", Q).m("X", X); }
        else if(op == "ls") { double a = in.d(), b = in.d(), c = in.d(), t; { Quiet q; t = line_search_care(a, b, c); } e.n("a", a).n("b", b).n("c", c).n("t", t); }
        else if(op == "init") { M A = rd(in), B = rd(in), X; { Quiet q; X = init_newton_care(A, B); } e.m("A", A).m("B", B).m("X", X); }
        else if(op == "care") { M A = rd(in), B = rd(in), C = rd(in), X; { Quiet q; X = care(A, B, C); } e.m("A", A).m("B", B).m("C", C).m("X", X); }
        else if(op == "newton")
        {
            M A = rd(in), B = rd(in), C = rd(in), X0, X; double s = in.d();
            { Quiet q; X0 = init_newton_care(A, B); X0 *= s; X = newton_ls_care(A, B, C, X0); }
            e.m("A", A).m("B", B).m("C", C).m("X0", X0).m("X", X);
        }
        else if(op == "lqr")
        {
            M F = rd(in), G = rd(in), Q = rd(in), R = rd(in), N = rd(in); bool check = in.i(), accept = in.i();
            { Quiet q; lqr(F, G, Q, R, N, S, K, check); }
            e.m("F", F).m("G", G).m("Q", Q).m("R", R).m("M", N).b("check", check).b("accept", accept).m("S", S).m("K", K);
        }
        else { std::cerr << "harness: bad operation\n"; std::exit(3); }
        ev.add(e.end());
    }
    emit(out, Obj().str("id", id).raw("ev", ev.end()).end());
}
struct Reg_ { Reg_() { registry()["lqr"] = run; } } reg_;
}
