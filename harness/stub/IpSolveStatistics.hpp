#ifndef VERIF_STUB_IPSTAT_HPP
#define VERIF_STUB_IPSTAT_HPP
#include "IpTNLP.hpp"
namespace Ipopt {
class SolveStatistics : public ReferencedObject
{
public:
    Index iter = 0; Number obj = 0, dual = 0, viol = 0, bounds = 0, compl_ = 0, kkt = 0;
    virtual Index IterationCount() const { return iter; }
    virtual Number FinalObjective() const { return obj; }
    void Infeasibilities(Number& dual_inf, Number& constr_viol, Number& varbounds_viol, Number& complementarity, Number& kkt_error) const
    { dual_inf = dual; constr_viol = viol; varbounds_viol = bounds; complementarity = compl_; kkt_error = kkt; }
};
}
#endif
