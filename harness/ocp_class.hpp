// The user's optimal control problem: -DCLS -DX_ -DU_ -DP_ -DD_ -DG_ -DORD -DSEG -DFMT -DSC [-DNOLAG] [-DNOMAY]
#ifndef VERIF_OCP_CLASS_HPP
#define VERIF_OCP_CLASS_HPP
#include "prog.hpp"
#include "polynomials/ebyshev.hpp"
#include "polynomials/splines.hpp"
#include "solvers/nlproblem.hpp"
#include "control/continuous_ocp.hpp"
namespace { vf::Prog g_prog; int g_lag, g_may; std::vector<int> g_f, g_g; }
using Approx_ = polympc::Spline<polympc::Chebyshev<ORD, polympc::GAUSS_LOBATTO, SC>, SEG>;
POLYMPC_FORWARD_DECLARATION(CLS, X_, U_, P_, D_, G_, SC)
class CLS : public ContinuousOCP<CLS, Approx_, FMT>
{
public:
    ~CLS() = default;
    template<typename T, typename TT> std::vector<T> regs(const Eigen::Ref<const state_t<T>>& x, const Eigen::Ref<const control_t<T>>& u, const Eigen::Ref<const parameter_t<T>>& p,
                                             const Eigen::Ref<const static_parameter_t>& d, const TT& t) const
    {
        std::vector<T> r;
        for(int i = 0; i < X_; ++i) r.push_back(x(i));
        for(int i = 0; i < U_; ++i) r.push_back(u(i));
        for(int i = 0; i < P_; ++i) r.push_back(p(i));
        for(int i = 0; i < D_; ++i) r.push_back(T((SC)d(i)));
        r.push_back(T(t));
        return vf::exec<T, SC>(g_prog, r);
    }
    template<typename T, typename L> void put(const std::vector<T>& r, int reg, L&& out) const
    { if(g_prog.is_const(reg)) out = (SC)g_prog.const_of(reg); else out = r[reg - 1]; }

    template<typename T> inline void dynamics_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
                                                   const Eigen::Ref<const static_parameter_t> d, const T& t, Eigen::Ref<state_t<T>> xdot) const noexcept
    { auto r = regs<T>(x, u, p, d, t); for(int i = 0; i < X_; ++i) put(r, g_f[i], xdot(i)); }
#ifndef NOLAG
    template<typename T> inline void lagrange_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
                                                        const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& out) const noexcept
    { auto r = regs<T>(x, u, p, d, t); put(r, g_lag, out); }
#endif
#ifndef NOMAY
    template<typename T> inline void mayer_term_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
                                                     const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, T& out) const noexcept
    { auto r = regs<T>(x, u, p, d, t); put(r, g_may, out); }
#endif
#if G_ > 0
    template<typename T> inline void inequality_constraints_impl(const Eigen::Ref<const state_t<T>> x, const Eigen::Ref<const control_t<T>> u, const Eigen::Ref<const parameter_t<T>> p,
                                                                 const Eigen::Ref<const static_parameter_t> d, const scalar_t& t, Eigen::Ref<constraint_t<T>> g) const noexcept
    { auto r = regs<T>(x, u, p, d, t); for(int i = 0; i < G_; ++i) put(r, g_g[i], g(i)); }
#endif
};
#endif
