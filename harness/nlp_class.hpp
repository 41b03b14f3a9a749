// The user's nonlinear program: -DCLS -DNX_ -DNE_ -DNI_ -DNP_ -DSC
#ifndef VERIF_NLP_CLASS_HPP
#define VERIF_NLP_CLASS_HPP
#include "prog.hpp"
#include "solvers/nlproblem.hpp"
namespace { vf::Prog g_prog; int g_cost; std::vector<int> g_eq, g_ineq; }
POLYMPC_FORWARD_NLP_DECLARATION(CLS, NX_, NE_, NI_, NP_, SC);
class CLS : public ProblemBase<CLS, DENSE>
{
public:
    template<typename T> std::vector<T> regs(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p) const
    {
        std::vector<T> r;
        for(int i = 0; i < NX_; ++i) r.push_back(x(i));
        for(int i = 0; i < NP_; ++i) r.push_back(T((SC)p(i)));
        return vf::exec<T, SC>(g_prog, r);
    }
    // a constant output is written the way user code writes it: out = 1.0
    template<typename T, typename L> void put(const std::vector<T>& r, int reg, L&& out) const
    { if(g_prog.is_const(reg)) out = (SC)g_prog.const_of(reg); else out = r[reg - 1]; }

    template<typename T> EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept
    { auto r = regs<T>(x, p); put(r, g_cost, cost); }
#if NE_ > 0
    template<typename T> EIGEN_STRONG_INLINE void equality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<eq_constraint_t<T>> c) const noexcept
    { auto r = regs<T>(x, p); for(int i = 0; i < NE_; ++i) put(r, g_eq[i], c(i)); }
#endif
#if NI_ > 0
    template<typename T> EIGEN_STRONG_INLINE void inequality_constraints_impl(const Eigen::Ref<const variable_t<T>>& x, const Eigen::Ref<const static_parameter_t>& p, Eigen::Ref<ineq_constraint_t<T>> c) const noexcept
    { auto r = regs<T>(x, p); for(int i = 0; i < NI_; ++i) put(r, g_ineq[i], c(i)); }
#endif
};
#endif
