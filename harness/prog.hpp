// Straight-line programs (spec/Jet.tla) interpreted over any scalar type the library instantiates.
#ifndef VERIF_PROG_HPP
#define VERIF_PROG_HPP
#include "common.hpp"
#include "autodiff/AutoDiffScalar.h"
namespace vf {
struct Ins { std::string o; int a, b; double c; };
struct Prog
{
    std::vector<Ins> code; int base = 0;
    // tokens: count (op a b c)*
    void read(In& in, int base_) { base = base_; int n = in.i(); code.resize(n); for(auto& k : code) { k.o = in.tok(); k.a = in.i(); k.b = in.i(); k.c = in.d(); } }
    std::string json() const
    {
        std::string r = "[";
        for(size_t i = 0; i < code.size(); ++i)
        { if(i) r += ","; r += "{\"o\":\"" + code[i].o + "\",\"a\":" + std::to_string(code[i].a) + ",\"b\":" + std::to_string(code[i].b) + ",\"c\":" + num(code[i].c) + "}"; }
        return r + "]";
    }
    bool is_const(int reg) const { return reg > base && code[reg - base - 1].o == "const"; }
    double const_of(int reg) const { return code[reg - base - 1].c; }
};
// S: the problem's real type; constants enter expressions the way user code writes them
template<class T, class S> T step(const Ins& i, const std::vector<T>& r)
{
    using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::sqrt;
    using std::sinh; using std::cosh; using std::tanh; using std::abs; using std::asin; using std::acos; using std::min; using std::max;
    using Eigen::numext::abs2;
    const T& a = r[(i.a > 0 ? i.a : 1) - 1]; const T& b = r[(i.b > 0 ? i.b : 1) - 1]; const S c = (S)i.c; const T k = T(c);
    const std::string& o = i.o;
    if(o == "const") return k;
    if(o == "add") return T(a + b);
    if(o == "sub") return T(a - b);
    if(o == "mul") return T(a * b);
    if(o == "div") return T(a / b);
    if(o == "addc") return T(a + c);
    if(o == "cadd") return T(c + a);
    if(o == "subc") return T(a - c);
    if(o == "csub") return T(c - a);
    if(o == "mulc") return T(a * c);
    if(o == "cmul") return T(c * a);
    if(o == "divc") return T(a / c);
    if(o == "cdiv") return T(c / a);
    if(o == "neg") return T(-a);
    if(o == "sq") return T(a * a);
#ifndef PROG_NOABS
    if(o == "abs") return T(abs(a));
#endif
    if(o == "abs2") return T(abs2(a));
    if(o == "sin") return T(sin(a));
    if(o == "cos") return T(cos(a));
    if(o == "tan") return T(tan(a));
    if(o == "exp") return T(exp(a));
    if(o == "log") return T(log(a));
    if(o == "sqrt") return T(sqrt(a));
    if(o == "sinh") return T(sinh(a));
    if(o == "cosh") return T(cosh(a));
    if(o == "tanh") return T(tanh(a));
    if(o == "asin") return T(asin(a));
    if(o == "acos") return T(acos(a));
    if(o == "min") return T((min)(a, b));
    if(o == "max") return T((max)(a, b));
    if(o == "acc") { T t = a; t *= b; T u = t; u += a; u -= b; return u; }
    if(o == "mix") return T(a * sin(b) + c * (b - a * a) - b / (c + a * a));
    if(o == "hyp") return T(sqrt(a * a + b * b + c));
    std::cerr << "harness: bad instruction " << o << "\n"; std::exit(3);
}
template<class T, class S> std::vector<T> exec(const Prog& p, std::vector<T> regs)
{
    regs.reserve(regs.size() + p.code.size());
    for(const auto& i : p.code) { T v = step<T, S>(i, regs); regs.push_back(v); }
    return regs;
}
} // namespace vf
#endif
