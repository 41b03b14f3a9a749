// Shared helpers of the conformance harnesses: token input, JSON-lines output (numbers as strings).
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "Eigen/Dense"
#include "Eigen/Sparse"

namespace vf {

struct In
{
    std::istream& s;
    explicit In(std::istream& s_) : s(s_) {}
    std::string tok() { std::string t; if(!(s >> t)) { std::cerr << "harness: input ended\n"; std::exit(3); } return t; }
    long i() { return std::strtol(tok().c_str(), nullptr, 10); }
    double d() { std::string t = tok(); return std::strtod(t.c_str(), nullptr); }
    bool more() { s >> std::ws; return s.good() && !s.eof(); }
};

// a number as a JSON string that TLC's Num module reads; 17 digits identify a double uniquely
inline std::string num(double v)
{
    if(std::isnan(v)) return "\"nan\"";
    if(std::isinf(v)) return v > 0 ? "\"inf\"" : "\"-inf\"";
    char b[64];
    std::snprintf(b, sizeof b, "\"%.17g\"", v);
    return b;
}
inline std::string num(float v) { return num(static_cast<double>(v)); }

template<typename D> std::string vec(const Eigen::MatrixBase<D>& v)
{
    std::string r = "[";
    for(Eigen::Index i = 0; i < v.size(); ++i) { if(i) r += ","; r += num(v(i)); }
    return r + "]";
}
template<typename D> std::string mat(const Eigen::MatrixBase<D>& m)
{
    std::string r = "[";
    for(Eigen::Index i = 0; i < m.rows(); ++i)
    {
        if(i) r += ",";
        r += "[";
        for(Eigen::Index j = 0; j < m.cols(); ++j) { if(j) r += ","; r += num(m(i, j)); }
        r += "]";
    }
    return r + "]";
}
template<typename S> Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> dense(const Eigen::SparseMatrix<S>& m)
{ return Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>(m); }
template<typename D> Eigen::Matrix<typename D::Scalar, Eigen::Dynamic, Eigen::Dynamic> dense(const Eigen::MatrixBase<D>& m)
{ return Eigen::Matrix<typename D::Scalar, Eigen::Dynamic, Eigen::Dynamic>(m); }
template<typename M> std::string anymat(const M& m) { return mat(dense(m)); }

// one JSON object, field by field
struct Obj
{
    std::string s = "{";
    bool first = true;
    Obj& raw(const std::string& k, const std::string& v) { if(!first) s += ","; first = false; s += "\"" + k + "\":" + v; return *this; }
    Obj& str(const std::string& k, const std::string& v) { return raw(k, "\"" + v + "\""); }
    Obj& i(const std::string& k, long v) { return raw(k, std::to_string(v)); }
    Obj& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    Obj& n(const std::string& k, double v) { return raw(k, num(v)); }
    template<typename D> Obj& v(const std::string& k, const Eigen::MatrixBase<D>& x) { return raw(k, vec(x)); }
    template<typename M> Obj& m(const std::string& k, const M& x) { return raw(k, anymat(x)); }
    std::string end() const { return s + "}"; }
};
struct Arr
{
    std::string s = "[";
    bool first = true;
    void add(const std::string& v) { if(!first) s += ","; first = false; s += v; }
    std::string end() const { return s + "]"; }
};

using UnitFn = std::function<void(In&, std::ostream&, const std::string&)>;
inline std::map<std::string, UnitFn>& registry() { static std::map<std::string, UnitFn> r; return r; }

inline void emit(std::ostream& o, const std::string& line) { o << line << "\n"; o.flush(); }

} // namespace vf
#endif
