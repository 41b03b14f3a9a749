#ifndef VERIF_STUB_IPAPP_HPP
#define VERIF_STUB_IPAPP_HPP
#include "IpTNLP.hpp"
#include "IpSolveStatistics.hpp"
namespace Ipopt {
class OptionsList : public ReferencedObject
{
public:
    std::map<std::string, Number> num; std::map<std::string, Index> integer; std::map<std::string, std::string> str;
    bool SetNumericValue(const std::string& t, Number v, bool = true, bool = false) { num[t] = v; return true; }
    bool SetIntegerValue(const std::string& t, Index v, bool = true, bool = false) { integer[t] = v; return true; }
    bool SetStringValue(const std::string& t, const std::string& v, bool = true, bool = false) { str[t] = v; return true; }
};
// what the next runs of the solver do
struct Script { std::function<ApplicationReturnStatus(TNLP&, SolveStatistics&, OptionsList&)> run; };
inline Script& script() { static Script s; return s; }
class IpoptApplication : public ReferencedObject
{
    SmartPtr<OptionsList> opt; SmartPtr<SolveStatistics> stat;
public:
    IpoptApplication() : opt(new OptionsList()), stat(new SolveStatistics()) {}
    ApplicationReturnStatus Initialize(bool = false) { return Solve_Succeeded; }
    SmartPtr<OptionsList> Options() { return opt; }
    SmartPtr<const OptionsList> Options() const { return SmartPtr<const OptionsList>(GetRawPtr(opt)); }
    SmartPtr<SolveStatistics> Statistics() { return stat; }
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>& t) { stat = new SolveStatistics(); return script().run(*t, *stat, *opt); }
    ApplicationReturnStatus ReOptimizeTNLP(const SmartPtr<TNLP>& t) { return OptimizeTNLP(t); }
};
}
inline Ipopt::IpoptApplication* IpoptApplicationFactory() { return new Ipopt::IpoptApplication(); }
#endif
