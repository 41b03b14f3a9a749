// QP preconditioners along a history on one instance: -DN_ -DM_ -DSC -DFMT -DNAME [-DIDENT]
#include "common.hpp"
#include "solvers/qp_base.hpp"
#include "solvers/qp_preconditioners.hpp"
using namespace vf;
namespace {
using DM = Eigen::Matrix<SC, Eigen::Dynamic, Eigen::Dynamic>;
#if FMT == 1
using HM = Eigen::SparseMatrix<SC>; using AM = Eigen::SparseMatrix<SC>;
#else
using HM = Eigen::Matrix<SC, N_, N_>; using AM = Eigen::Matrix<SC, M_, N_>;
#endif
using VN = Eigen::Matrix<SC, N_, 1>; using VM = Eigen::Matrix<SC, M_, 1>; using VL = Eigen::Matrix<SC, N_ + M_, 1>;
#ifdef IDENT
using P = polympc::IdentityPreconditioner;
#else
using P = polympc::RuizEquilibration<SC, N_, M_, FMT == 1 ? SPARSE : DENSE>;
#endif
struct Data { HM H; AM A; VN h, lx, ux; VM al, au; };
// masks say which entries are stored; a stored entry may be zero
template<class M> void fill(In& in, Eigen::MatrixBase<M>& m, int r, int c) { for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { double v = in.d(); in.i(); m(i, j) = (SC)v; } }
template<class S> void fill(In& in, Eigen::SparseMatrix<S>& m, int r, int c)
{
    m.resize(r, c);
    std::vector<std::vector<std::pair<double, int>>> a(r);
    for(int i = 0; i < r; ++i) for(int j = 0; j < c; ++j) { double v = in.d(); int k = in.i(); a[i].push_back({v, k}); }
    for(int j = 0; j < c; ++j) for(int i = 0; i < r; ++i) if(a[i][j].second) m.insert(i, j) = (S)a[i][j].first;
    m.makeCompressed();
}
template<class V> void rd(In& in, V& v) { for(int i = 0; i < v.size(); ++i) v(i) = (SC)in.d(); }
std::string text(const Data& d) { return Obj().m("H", d.H).v("h", d.h).m("A", d.A).v("al", d.al).v("au", d.au).v("lx", d.lx).v("ux", d.ux).end(); }
void run(In& in, std::ostream& out, const std::string& id)
{
    int n = in.i();
    std::vector<Data> ds(n);
    for(auto& d : ds) { fill(in, d.H, N_, N_); rd(in, d.h); fill(in, d.A, M_, N_); rd(in, d.al); rd(in, d.au); rd(in, d.lx); rd(in, d.ux); }
    std::vector<char> mem(sizeof(P) + 64, 0);
    void* at = (void*)((reinterpret_cast<uintptr_t>(mem.data()) + 63) / 64 * 64);
    { double* q = (double*)at; for(size_t i = 0; i < sizeof(P) / sizeof(double); ++i) q[i] = 3.25 + (double)i; }
    P& p = *new(at) P();
    Arr ev;
    for(int k = in.i(); k > 0; --k)
    {
        std::string op = in.tok();
        Obj o; o.str("op", op);
        if(op == "scsol" || op == "unsol")
        {
            VN x; VL y; rd(in, x); rd(in, y);
            o.v("x0", x).v("y0", y);
            if(op == "scsol") p.scale(x, y); else p.unscale(x, y);
            o.v("x1", x).v("y1", y);
        }
        else
        {
            Data& d = ds[in.i()];
            o.raw("a", text(d));
            if(op == "compute") p.compute(d.H, d.h, d.A, d.al, d.au, d.lx, d.ux);
            else if(op == "scale") p.scale(d.H, d.h, d.A, d.al, d.au, d.lx, d.ux);
            else if(op == "unscale") p.unscale(d.H, d.h, d.A, d.al, d.au, d.lx, d.ux);
            else if(op == "unhess") p.unscale_hessian(d.H);
            else { std::cerr << "bad op\n"; std::exit(3); }
            o.raw("b", text(d));
        }
#ifdef IDENT
        VN D = VN::Ones(); VM E = VM::Ones(); SC c = 1;
#else
        const VN& D = p.D; const VM& E = p.E; SC c = p.c();
#endif
        ev.add(o.v("D", D).v("E", E).n("c", c).end());
    }
    p.~P();
    emit(out, Obj().str("id", id).i("n", N_).i("m", M_).raw("ev", ev.end()).end());
}
struct Reg { Reg() { registry()[NAME] = run; } } reg;
}
