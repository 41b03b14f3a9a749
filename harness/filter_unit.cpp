// The line-search filter along histories: -DSC -DNAME
#include "common.hpp"
#include "solvers/line_search.hpp"
using namespace vf;
namespace {
std::string pairs(const LSFilter<SC>& f)
{
    Arr a;
    for(const auto& e : f.m_filter) a.add("[" + num(e.first) + "," + num(e.second) + "]");
    return a.end();
}
void run(In& in, std::ostream& out, const std::string& id)
{
    LSFilter<SC> f;
    int cap = in.i(); double beta = in.d();
    if(cap > 0) f.max_depth = cap;
    if(beta >= 0) f.beta = (SC)beta;
    int nq = in.i();
    std::vector<std::pair<SC, SC>> q(nq);
    for(auto& e : q) { e.first = (SC)in.d(); e.second = (SC)in.d(); }
    Arr qs;
    for(auto& e : q) qs.add("[" + num(e.first) + "," + num(e.second) + "]");
    Arr ev;
    int b = f.max_depth; SC bt = f.beta;
    for(int k = in.i(); k > 0; --k)
    {
        std::string op = in.tok();
        Obj o; o.str("op", op);
        SC x = 0, y = 0;
        if(op == "add") { x = (SC)in.d(); y = (SC)in.d(); f.add(x, y); }
        else if(op == "clear") f.clear();
        else if(op == "remove") f.remove_one();
        o.n("f", x).n("c", y).raw("E", pairs(f));
        Arr acc, dom;
        for(auto& e : q) { acc.add(f.is_acceptable(e.first, e.second) ? "true" : "false"); dom.add(f.is_dominated(e.first, e.second) ? "true" : "false"); }
        ev.add(o.raw("acc", acc.end()).raw("dom", dom.end()).raw("E2", pairs(f)).end());
    }
    emit(out, Obj().str("id", id).i("cap", b).n("beta", bt).raw("q", qs.end()).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
