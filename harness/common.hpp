// Shared driver, generators and independent high-precision oracle for the libnurbs runtime monitors.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <libnurbs/libnurbs.hpp>
#include <libnurbs/Core/BoundingBox.hpp>

namespace vf
{
using libnurbs::Curve;
using libnurbs::KnotVector;
using libnurbs::Surface;
using libnurbs::Vec3;
using libnurbs::Vec4;
using LD = long double;

// ---------------------------------------------------------------- rng
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int range(int lo, int hi) // inclusive
    {
        if (hi <= lo) return lo;
        return lo + int(next() % uint64_t(hi - lo + 1));
    }
    bool chance(int num, int den) { return int(next() % uint64_t(den)) < num; }
    double unit() { return double(next() >> 11) * 0x1.0p-53; } // [0,1)
    double uni(double a, double b) { return a + (b - a) * unit(); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull));
    r.next();
    return r.next();
}
inline uint64_t hashStr(const char* p)
{
    uint64_t h = 1469598103934665603ull;
    for (; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- context of one monitored case
struct Failure
{
    long long cs;
    std::string key, msg;
};

struct Ctx
{
    std::string prop;
    bool thorough = false;
    uint64_t seed = 1;
    long long cs = 0;
    Rng rng{1};
    std::string variant = "san";
    std::string scratch;   // private scratch directory of this worker (created/removed by the runner)

    // evidence
    std::map<std::string, long long> events;
    std::unordered_set<uint64_t> sigs;
    long long cases = 0, nontrivial = 0;
    std::vector<std::string> samples;
    std::vector<Failure> failures;
    std::string desc;
    bool caseNontrivial = false;
    bool caseFailed = false;

    void event(const char* name, long long n = 1) { events[name] += n; }
    void maxEvent(const char* name, long long n)
    {
        auto& e = events[name];
        e = std::max(e, n);
    }
    void sig(uint64_t h)
    {
        caseNontrivial = true;
        sigs.insert(h);
    }
    void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        char buf[1500];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (caseFailed) return; // first violation of a case is the witness
        caseFailed = true;
        failures.push_back({cs, key, std::string(buf) + " | " + desc});
    }
};
void setOp(const char* op); // visible to the crash reporter (main.cpp)
void caseCpuLimit(int sec);

#define VCHECK(c, cond, key, ...)            \
    do                                       \
    {                                        \
        (c).event("checks");                 \
        if (!(cond)) (c).fail(key, __VA_ARGS__); \
    } while (0)

using CaseFn = void (*)(Ctx&);
struct PropReg
{
    const char* id;
    CaseFn fn;
};
std::vector<PropReg>& registry();
struct Register
{
    Register(const char* id, CaseFn fn) { registry().push_back({id, fn}); }
};

// ---------------------------------------------------------------- printing
inline std::string str(const std::vector<double>& v, size_t cap = 40)
{
    std::string s = "[";
    char b[40];
    for (size_t i = 0; i < v.size() && i < cap; ++i)
    {
        snprintf(b, sizeof b, "%s%.17g", i ? "," : "", v[i]);
        s += b;
    }
    return s + (v.size() > cap ? ",...]" : "]");
}
inline std::string str(const std::vector<Vec4>& v, size_t cap = 12)
{
    std::string s = "[";
    char b[160];
    for (size_t i = 0; i < v.size() && i < cap; ++i)
    {
        snprintf(b, sizeof b, "%s(%.9g %.9g %.9g %.9g)", i ? "," : "", v[i].x(), v[i].y(), v[i].z(), v[i].w());
        s += b;
    }
    return s + (v.size() > cap ? ",...]" : "]");
}
inline std::string str(const Curve& c)
{
    return "curve{p=" + std::to_string(c.Degree) + " U=" + str(c.Knots.Values()) + " n=" +
           std::to_string(c.ControlPoints.size()) + " P=" + str(c.ControlPoints) + "}";
}
inline std::string str(const Surface& s)
{
    return "surface{p=" + std::to_string(s.DegreeU) + " q=" + std::to_string(s.DegreeV) + " U=" +
           str(s.KnotsU.Values()) + " V=" + str(s.KnotsV.Values()) + " n=" + std::to_string(s.ControlPoints.UCount) +
           "x" + std::to_string(s.ControlPoints.VCount) + " P=" + str(s.ControlPoints.Values) + "}";
}

// ---------------------------------------------------------------- generators
struct GenOpt
{
    int minDeg = 1, maxDeg = 6;
    int maxInterior = 8;      // interior knots counted with multiplicity (soft cap)
    double minGap = 1e-7;     // minimum distance between distinct knots
    int extraMult = 0;        // 0: interior multiplicity <= degree, 1: up to degree + 1
    int multCapBelow = 0;     // lowers the multiplicity cap (degree - multCapBelow, at least 1)
    double maxScale = 1e6;    // coordinate magnitude cap
    double wLo = 1e-3, wHi = 1e3;
    bool big = true;          // occasionally produce large nets
    int poles = 10;           // one surface in `poles` has a collapsed line of control points (0: never)
    int related = 10;         // one case in `related` has coinciding control points or weights: closed, doubled lines, symmetric, ... (0: never)
    int huge = 0;             // one case in `huge` gets hundreds to thousands of knots (0: never)
    double hugeGap = 0;       // and their distinct knots are more than this apart
    double wCommon = 1;       // one net in five has all weights multiplied by a common factor in [1/wCommon, wCommon]
    double pCommon = 1;       // one net in six has all coordinates multiplied by a common factor in [1/pCommon, pCommon]
    int high = 0;             // one case in `high` has degrees of 41..highDeg (0: never)
    int highDeg = 130;
    int vast = 0;             // one surface in `vast` has more than 2^16 control points, both directions long (0: never)
};

std::vector<double> genKnots(Rng& r, int p, const GenOpt& o, int style, int interiorCap);
std::vector<double> genLongKnots(Rng& r, int p, int n, double minGap = 0);
double genParam(Rng& r, const std::vector<double>& U);
std::vector<double> genParams(Rng& r, const std::vector<double>& U, int randomCount, int knotCap = 10);
// Estimate of the rounding noise in the homogeneous control points that a removal of t copies of knot v compares: it divides by
// relative knot distances about degree / 2 times per copy, which amplifies the rounding of the operand's points
double removalNoise(const std::vector<double>& U, int p, double v, int t, const std::vector<Vec4>& P);
// whether t copies of a knot that was inserted must come out again with the given tolerance
bool mustComeOut(const std::vector<double>& U, int p, double v, int t, const std::vector<Vec4>& P, double tol);
Curve genCurve(Rng& r, const GenOpt& o, long long cs);
Surface genSurface(Rng& r, const GenOpt& o, long long cs);
void genNet(Rng& r, std::vector<Vec4>& P, int nu, const GenOpt& o, int pstyle, int wstyle);
uint64_t sigOf(const Curve& c);
uint64_t sigOf(const Surface& s);
std::vector<std::pair<double, int>> distinctKnots(const std::vector<double>& U);
double scaleOf(const std::vector<Vec4>& P);        // max |coordinate|
double weightRatio(const std::vector<Vec4>& P);

// ---------------------------------------------------------------- oracle (long double, textbook definitions)
using H4 = std::array<LD, 4>;

int oSpan(const std::vector<double>& U, int p, LD x);
// local homogeneous derivative of order d at x in span k; mag = magnitude bound of the same expression
struct HVal
{
    H4 v{};
    H4 mag{};
};
HVal oCurveH(const std::vector<double>& U, int p, const std::vector<H4>& P, const std::vector<H4>& M, int k, LD x, int d);

struct OCurve
{
    int p;
    std::vector<double> U;
    std::vector<H4> P, M;
    explicit OCurve(const Curve& c);
    std::array<LD, 3> eval(LD x) const;
    // derivatives 0..order plus magnitude bounds
    void derivs(LD x, int order, std::vector<std::array<LD, 3>>& d, std::vector<std::array<LD, 3>>& mag) const;
};
struct OSurface
{
    int p, q, nu, nv;
    std::vector<double> U, V;
    std::vector<H4> P, M; // index v*nu+u
    explicit OSurface(const Surface& s);
    std::array<LD, 3> eval(LD u, LD v) const;
    // d[i*(ov+1)+j]
    void derivs(LD u, LD v, int ou, int ov, std::vector<std::array<LD, 3>>& d, std::vector<std::array<LD, 3>>& mag) const;
};

inline bool finite3(const Vec3& v) { return std::isfinite(v.x()) && std::isfinite(v.y()) && std::isfinite(v.z()); }
inline LD dist(const Vec3& a, const std::array<LD, 3>& b)
{
    LD m = 0;
    for (int i = 0; i < 3; ++i)
    {
        LD d = std::fabs((LD)a[i] - b[i]);
        if (!(d <= m)) m = d;
    }
    return m;
}
inline LD dist(const std::array<LD, 3>& a, const std::array<LD, 3>& b)
{
    LD m = 0;
    for (int i = 0; i < 3; ++i)
    {
        LD d = std::fabs(a[i] - b[i]);
        if (!(d <= m)) m = d;
    }
    return m;
}

// structural invariants every produced shape must satisfy; empty string when fine
std::string structure(const Curve& c);
std::string structure(const Surface& s);
bool sameBits(const Curve& a, const Curve& b);
bool sameBits(const Surface& a, const Surface& b);
bool sameBits(double a, double b);
bool sameBits(const std::vector<double>& a, const std::vector<double>& b);
bool sameBits(const std::vector<Vec4>& a, const std::vector<Vec4>& b);
// bit 0: u and v swapped, bit 1: u reversed, bit 2: v reversed; -1 if out is none of the eight reparametrisations of in
Surface reparam(const Surface& s, bool swap, bool ru, bool rv);
int symmetryOf(const Surface& in, const Surface& out);
} // namespace vf
