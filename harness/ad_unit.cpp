// The AutoDiffScalar class and the radial basis kernel: -DN_ -DKIND (0 fixed, 1 dynamic, 2 float, 3 nested, 4 nested with dynamic outer) -DNAME
#include "prog.hpp"
#include "utils/helpers.hpp"
#include "autodiff/rbf_kernel.hpp"
using namespace vf;
namespace {
#if KIND == 2
using R = float;
#else
using R = double;
#endif
using AI = Eigen::AutoDiffScalar<Eigen::Matrix<R, N_, 1>>;
#if KIND == 1
using T = Eigen::AutoDiffScalar<Eigen::Matrix<R, Eigen::Dynamic, 1>>;
#elif KIND == 3
using T = Eigen::AutoDiffScalar<Eigen::Matrix<AI, N_, 1>>;
#else
using T = AI;
#endif
using Vt = Eigen::Matrix<T, N_, 1>;
constexpr bool nested = KIND == 3;
T seed(double x, int i, int mode)
{
#if KIND == 3
    T r; r.value() = AI((R)x, N_, i); for(int k = 0; k < N_; ++k) r.derivatives()(k) = AI(R(k == i)); return r;
#else
    if(mode) return T((R)x, N_, i);
    T r; r.value() = (R)x; r.derivatives() = Eigen::Matrix<R, N_, 1>::Unit(i); return r;
#endif
}
// the jet of a result: value, gradient, Hessian (nested scalars show value and gradient twice)
std::string jet(const T& y)
{
    Obj o;
#if KIND == 3
    Eigen::Matrix<R, N_, 1> g, g2; Eigen::Matrix<R, N_, N_> h;
    for(int i = 0; i < N_; ++i) { g(i) = y.derivatives()(i).value(); g2(i) = y.value().derivatives()(i); h.row(i) = y.derivatives()(i).derivatives().transpose(); }
    o.n("v", y.value().value()).v("g", g).v("g2", g2).m("h", h);
#else
    Eigen::Matrix<R, N_, 1> g; g.setZero(); if(y.derivatives().size() == N_) g = y.derivatives(); else if(y.derivatives().size() != 0) g.setConstant(std::numeric_limits<R>::quiet_NaN());
    o.n("v", y.value()).v("g", g);
#endif
    return o.end();
}
double val(const T& y)
{
#if KIND == 3
    return y.value().value();
#else
    return y.value();
#endif
}
T ext(const Ins& i, const std::vector<T>& r)
{
    using std::floor; using std::pow; using std::atan2; using std::min; using std::max; using std::sin;
    const T& a = r[(i.a > 0 ? i.a : 1) - 1]; const T& b = r[(i.b > 0 ? i.b : 1) - 1]; const R c = (R)i.c;
    const std::string& o = i.o;
#if KIND != 3
    if(o == "pow") return T(pow(a, c));
    if(o == "powx") return T(pow(a * a + c, c));
#endif
    if(o == "atan2") return T(atan2(a, b));
    if(o == "floor") return T(floor(a));
    if(o == "minc") return T(min(a, c));
    if(o == "maxc") return T(max(a, c));
    if(o == "cmin") return T(min(c, a));
    if(o == "cmax") return T(max(c, a));
    if(o == "dmin") return T(min(a, b));
    if(o == "dmax") return T(max(a, b));
    if(o == "iadd") { T t = a; t += b; return t; }
    if(o == "isub") { T t = a; t -= b; return t; }
    if(o == "imul") { T t = a; t *= b; return t; }
    if(o == "idiv") { T t = a; t /= b; return t; }
    if(o == "iaddc") { T t = a; t += c; return t; }
    if(o == "isubc") { T t = a; t -= c; return t; }
    if(o == "imulc") { T t = a; t *= c; return t; }
    if(o == "idivc") { T t = a; t /= c; return t; }
#if KIND != 1
    if(o == "iexpr") { T t = a; t += a * b; t -= b * c; t *= a + b; return t; }   // ((a + ab - cb)(a + b)
    if(o == "self") { T t = a; t = t * t + t; t *= t; return t; }
#endif
    if(o == "real") return T(real(a)) + T(conj(b));
    return step<T, R>(i, r);
}
std::vector<T> run_prog(const Prog& p, std::vector<T> regs) { regs.reserve(regs.size() + p.code.size()); for(const auto& i : p.code) { T v = ext(i, regs); regs.push_back(v); } return regs; }

std::string jets(const std::vector<T>& r) { Arr a; for(auto& x : r) a.add(jet(x)); return a.end(); }
template<typename D> std::string jetv(const Eigen::MatrixBase<D>& m) { Arr a; for(Eigen::Index i = 0; i < m.size(); ++i) a.add(jet(m(i))); return a.end(); }

void run(In& in, std::ostream& out, const std::string& id)
{
    Prog p; p.read(in, N_); Arr ev;
    for(int n = in.i(); n > 0; --n)
    {
        std::string what = in.tok(); Obj o; o.str("op", what);
        Eigen::Matrix<double, N_, 1> x; for(int i = 0; i < N_; ++i) x(i) = (double)(R)in.d();
        o.v("x", x);
        std::vector<T> regs; for(int i = 0; i < N_; ++i) regs.push_back(seed(x(i), i, n & 1));
        if(what == "rbf")
        {
            Eigen::Matrix<R, N_, 1> y; for(int i = 0; i < N_; ++i) y(i) = (R)in.d();
            std::vector<T> r = run_prog(p, regs);
            Vt z; for(int i = 0; i < N_; ++i) z(i) = in.i() ? regs[i] : r[r.size() - 1 - i % p.code.size()];
#if KIND != 1
            rbf_kernel<N_, R> k; Eigen::Matrix<R, N_, 1> zr; for(int i = 0; i < N_; ++i) zr(i) = (R)val(z(i));
            o.v("y", y).raw("z", jetv(z)).raw("r", jet(k.template eval<T>(z, y))).n("p", k.template eval<R>(zr, y));
#endif
        }
        else if(what == "run") o.raw("r", jets(run_prog(p, regs)));
        else
        {
            std::vector<T> r = run_prog(p, regs); int nr = (int)r.size();
            std::vector<int> at; for(int i = 0; i < N_; ++i) at.push_back((int)(in.i() % nr));
            double c = (double)(R)in.d();
            std::string is = "["; for(int i = 0; i < N_; ++i) is += (i ? "," : "") + std::to_string(at[i] + 1);
            o.raw("at", is + "]").n("c", c);
            if(what == "lin")
            {
                Vt v; for(int i = 0; i < N_; ++i) v(i) = r[at[i]];
                Eigen::Matrix<R, N_, N_> M; Eigen::Matrix<R, N_, 1> w;
                for(int i = 0; i < N_; ++i) { w(i) = (R)in.d(); for(int j = 0; j < N_; ++j) M(i, j) = (R)in.d(); }
                o.v("w", w).m("M", M);
#if KIND != 1
                Vt y = M * v; Vt y2 = M.transpose() * v; Vt y3 = v * (R)c; Vt y4 = v / (R)c; Vt y5 = v + w.template cast<T>(); Vt y6 = v.cwiseProduct(M * v);
                o.raw("Mv", jetv(y)).raw("Mtv", jetv(y2)).raw("vc", jetv(y3)).raw("vdc", jetv(y4)).raw("vpw", jetv(y5)).raw("vMv", jetv(y6));
                T d = w.dot(v), s = v.squaredNorm(), t = v.sum(), q = v.dot(M * v), pr = v.prod();
                o.raw("wv", jet(d)).raw("vv", jet(s)).raw("sum", jet(t)).raw("q", jet(q)).raw("prod", jet(pr));
#endif
            }
            else   // comparisons of two results, and with a number
            {
                const T& a = r[at[0]]; const T b = in.i() ? r[at[N_ - 1]] : T(r[at[0]]); R k = in.i() ? (R)c : (R)val(a);
                o.n("a", val(a)).n("b", val(b)).n("k", (double)k);
                Arr l;
                for(bool z : {a < b, a <= b, a > b, a >= b, a == b, a != b, a < k, a <= k, a > k, a >= k, a == k, a != k, k < a, k <= a, k > a, k >= a, k == a, k != a}) l.add(z ? "true" : "false");
                o.raw("r", l.end());
            }
        }
        ev.add(o.end());
    }
    emit(out, Obj().str("id", id).i("n", N_).b("nested", nested).b("dyn", KIND == 1).raw("P", p.json()).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
