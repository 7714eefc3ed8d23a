// C24 concurrent use, C25 operation histories, C26 no hidden state.
#include "common.hpp"
#include <libnurbs/Algorithm/MathUtils.hpp>
#include <atomic>
#include <chrono>
#include <span>
#include <thread>
#include <tuple>

namespace vf
{
namespace
{
// ---------------------------------------------------------------- digest of results
struct Dig
{
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t x)
    {
        for (int i = 0; i < 8; ++i, x >>= 8) h = (h ^ (x & 255)) * 1099511628211ull;
    }
    void d(double x)
    {
        uint64_t b;
        memcpy(&b, &x, 8);
        u(b);
    }
    void v(const Vec3& x)
    {
        for (int i = 0; i < 3; ++i) d(x[i]);
    }
    void v(const Vec4& x)
    {
        for (int i = 0; i < 4; ++i) d(x[i]);
    }
    void ds(const std::vector<double>& x)
    {
        u(x.size());
        for (double y : x) d(y);
    }
    void c(const Curve& x)
    {
        u(x.Degree);
        ds(x.Knots.Values());
        u(x.ControlPoints.size());
        for (auto& p : x.ControlPoints) v(p);
    }
    void s(const Surface& x)
    {
        u(x.DegreeU);
        u(x.DegreeV);
        ds(x.KnotsU.Values());
        ds(x.KnotsV.Values());
        u(x.ControlPoints.UCount);
        u(x.ControlPoints.VCount);
        u(x.ControlPoints.Values.size());
        for (auto& p : x.ControlPoints.Values) v(p);
    }
    template <class M>
    void m(const M& x)
    {
        u(x.rows());
        u(x.cols());
        for (int i = 0; i < x.rows(); ++i)
            for (int j = 0; j < x.cols(); ++j) d(x(i, j));
    }
    void str(const std::string& x)
    {
        u(x.size());
        for (unsigned char ch : x) h = (h ^ ch) * 1099511628211ull;
    }
};
double par(Rng& r, const std::vector<double>& U)
{
    switch (r.range(0, 4))
    {
    case 0: return U[r.range(0, (int)U.size() - 1)];
    case 1: return r.range(0, 1);
    default: return r.unit();
    }
}
double interior(Rng& r, const std::vector<double>& U)
{
    // far enough from every knot, or an existing interior knot
    for (int t = 0; t < 50; ++t)
    {
        double x = r.uni(0.02, 0.98);
        bool ok = true;
        for (double k : U) ok = ok && std::fabs(k - x) > 1e-3;
        if (ok) return x;
    }
    return -1;
}
Eigen::Matrix3d mat(Rng& r)
{
    Eigen::Matrix3d R;
    for (int i = 0; i < 9; ++i) R(i / 3, i % 3) = r.uni(-2, 2);
    return R;
}

std::string g_dir; // scratch directory for the operations that take a path
std::atomic<unsigned> g_file{0};

constexpr int NOPS = 32;
const char* opName[NOPS] = {"Curve::Evaluate", "Curve::EvaluateDerivative", "Curve::EvaluateAll", "Curve::IsRational", "Curve::SearchParameter", "Curve::BinarySearchParameter",
                            "Curve::InsertKnot", "Curve::InsertKnot(span)", "Curve::RemoveKnot", "Curve::ElevateDegree", "Curve::Transform", "Curve::ExtractBezier",
                            "Curve::GetBoundingBox", "Curve::SaveToFile", "Curve::LoadFromFile", "Surface::Evaluate", "Surface::EvaluateDerivative", "Surface::EvaluateAll",
                            "Surface::SearchParameter", "Surface::SearchParameterOn", "Surface::InsertKnotUV", "Surface::RemoveKnotUV", "Surface::ElevateDegreeUV", "Surface::Transform",
                            "Surface::AlignParameterDomain", "Surface::SaveToFile", "Surface::LoadFromFile", "KnotVector", "BSplineBasis", "Geometry+copy", "Save/LoadFromFile(path)", "default objects"};

// one public operation on shared, constant operands; everything it returns goes into the digest
uint64_t runOp(int op, const Curve& c, const Surface& s, uint64_t seed)
{
    using namespace libnurbs;
    Rng r(seed);
    Dig g;
    const auto& U = c.Knots.Values();
    const auto& SU = s.KnotsU.Values();
    const auto& SV = s.KnotsV.Values();
    try
    {
        switch (op)
        {
        case 0:
            for (int i = 0; i < 4; ++i) g.v(c.Evaluate(par(r, U)));
            break;
        case 1: g.v(c.EvaluateDerivative(par(r, U), r.chance(1, 5) ? r.range(5, 12) : r.range(0, 4))); break;
        case 2:
            for (auto& v : c.EvaluateAll(par(r, U), r.chance(1, 5) ? r.range(5, 12) : r.range(0, 4))) g.v(v);
            break;
        case 3: g.u(c.IsRational() * 2 + s.IsRational()); break;
        case 4: g.d(c.SearchParameter(c.Evaluate(r.unit()), r.unit(), 1e-8, 20)); break;
        case 5: g.d(c.BinarySearchParameter(c.Evaluate(r.unit()), 1e-8, 40)); break;
        case 6:
        {
            double x = interior(r, U);
            if (x > 0) g.c(c.InsertKnot(x, r.range(1, c.Degree)));
            if (x > 0) g.c(c.InsertKnot(x));
            break;
        }
        case 7:
        {
            double x = interior(r, U), y = interior(r, U);
            std::vector<double> k;
            if (x > 0) k.push_back(x);
            if (y > 0 && std::fabs(x - y) > 1e-3) k.push_back(y);
            g.c(c.InsertKnot(std::span<double>(k)));
            break;
        }
        case 8:
        {
            double x = interior(r, U);
            if (x < 0) break;
            Curve t = c.InsertKnot(x);
            auto [q, n] = t.RemoveKnot(x, 1, 1e-9 * (1 + scaleOf(c.ControlPoints)));
            g.c(q);
            g.u(n);
            break;
        }
        case 9: g.c(c.ElevateDegree(r.range(1, 2))); break;
        case 10: g.c(c.Transform(mat(r))); break;
        case 11:
            for (auto& b : c.ExtractBezier()) g.c(b);
            break;
        case 12:
        {
            auto b = c.GetBoundingBox(r.chance(1, 2) ? 1e-2 : 1e-1);
            g.v(b.Min);
            g.v(b.Max);
            break;
        }
        case 13:
        {
            std::ostringstream os;
            c.SaveToFile(os, r.chance(1, 2));
            g.str(os.str());
            break;
        }
        case 14:
        {
            std::stringstream ss;
            c.SaveToFile(ss, r.chance(1, 2));
            Curve t;
            t.LoadFromFile(ss);
            g.c(t);
            break;
        }
        case 15:
            for (int i = 0; i < 3; ++i)
            {
                double u = par(r, SU);
                g.v(s.Evaluate(u, par(r, SV)));
            }
            break;
        case 16:
        {
            double u = par(r, SU), v = par(r, SV);
            int a = r.range(0, 3);
            g.v(s.EvaluateDerivative(u, v, a, r.range(0, 3)));
            break;
        }
        case 17:
        {
            double u = par(r, SU), v = par(r, SV);
            auto a = r.chance(1, 4) ? s.EvaluateAll(u, v, r.range(0, 6), r.range(0, 6)) : s.EvaluateAll(u, v, 2, 2);
            for (auto& x : a.Values) g.v(x);
            break;
        }
        case 18:
        {
            double u = r.unit(), v = r.unit();
            auto a = s.SearchParameter(s.Evaluate(u, v), 0.5, 0.4, 1e-8, 8);
            g.d(a.first);
            g.d(a.second);
            break;
        }
        case 19:
        {
            double u = r.unit(), v = r.unit();
            Vec3 P = s.Evaluate(u, v);
            auto a = s.SearchParameterOn(P, 0, u, 0.5, 1e-8, 15);
            auto b = s.BinarySearchParameterOn(P, 1, v, 1e-8, 30);
            g.d(a.first);
            g.d(a.second);
            g.d(b.first);
            g.d(b.second);
            break;
        }
        case 20:
        {
            double x = interior(r, SU), y = interior(r, SV);
            if (x > 0) g.s(s.InsertKnotU(x, r.range(1, s.DegreeU)));
            if (y > 0) g.s(s.InsertKnotV(y, r.range(1, s.DegreeV)));
            break;
        }
        case 21:
        {
            double x = interior(r, SU), y = interior(r, SV);
            double tol = 1e-9 * (1 + scaleOf(s.ControlPoints.Values));
            if (x > 0)
            {
                auto [q, n] = s.InsertKnotU(x).RemoveKnotU(x, 1, tol);
                g.s(q);
                g.u(n);
            }
            if (y > 0)
            {
                auto [q, n] = s.InsertKnotV(y).RemoveKnotV(y, 1, tol);
                g.s(q);
                g.u(n);
            }
            break;
        }
        case 22: g.s(r.chance(1, 2) ? s.ElevateDegreeU(r.range(1, 2)) : s.ElevateDegreeV(r.range(1, 2))); break;
        case 23: g.s(s.Transform(mat(r))); break;
        case 24:
        {
            Surface t = s;
            int a = r.range(0, 2), b = (a + r.range(1, 2)) % 3;
            g.s(t.AlignParameterDomain((Surface::AlignAxis)a, (Surface::AlignAxis)b));
            break;
        }
        case 25:
        {
            std::ostringstream os;
            s.SaveToFile(os, r.chance(1, 2));
            g.str(os.str());
            break;
        }
        case 26:
        {
            std::stringstream ss;
            s.SaveToFile(ss, r.chance(1, 2));
            Surface t;
            t.LoadFromFile(ss);
            g.s(t);
            break;
        }
        case 27:
        {
            for (auto& p : c.Knots.GetKnotPairs())
            {
                g.u(p.Index);
                g.d(p.Value);
                g.u(p.Multiplicity);
            }
            double x = par(r, U);
            g.u(c.Knots.FindSpanIndex(c.Degree, x));
            auto sp = c.Knots.FindSpan(x);
            g.u(sp.Index);
            g.d(sp.Left.Value);
            g.d(sp.Right.Value);
            g.u(c.Knots.GetMultiplicity(x));
            g.u(c.Knots.IsValid() + 2 * c.Knots.IsClamped() + 4 * c.Knots.IsUniform());
            g.u(c.Knots.DetectDegree());
            KnotVector k(c.Knots);
            k.Reverse();
            g.ds(k.Values());
            double in = interior(r, U);
            if (in > 0)
            {
                g.u(k.InsertKnot(in, r.range(1, 3)));
                g.u(k.InsertKnot(in));
                g.ds(k.Values());
            }
            g.ds(KnotVector::Uniform(r.range(1, 5), r.range(12, 20)).Values());
            g.ds(KnotVector(U).Values());
            break;
        }
        case 28:
        {
            double x = par(r, U);
            int o = r.chance(1, 5) ? r.range(4, 12) : r.range(0, 3);
            g.m(BSplineBasis::Evaluate(c.Degree, c.Knots, x));
            g.m(BSplineBasis::EvaluateAll(c.Degree, c.Knots, x, o));
            g.m(BSplineBasis::EvaluateDerivative(c.Degree, c.Knots, x, o));
            g.u(Factorial(r.range(0, 9)));
            g.u(Binomial(r.range(0, 20), r.range(0, 10)));
            break;
        }
        case 30:
        {
            std::string path = g_dir + "/op" + std::to_string(g_file.fetch_add(1, std::memory_order_relaxed));
            bool bin = r.chance(1, 2);
            try
            {
                if (r.chance(1, 2))
                {
                    c.SaveToFile(path, bin);
                    Curve t;
                    g.c(t.LoadFromFile(path));
                }
                else
                {
                    s.SaveToFile(path, bin);
                    Surface t;
                    g.s(t.LoadFromFile(path));
                }
            }
            catch (const std::exception& e)
            {
                g.str("exception"); // its text holds the path
            }
            remove(path.c_str());
            break;
        }
        case 31: // objects that hold nothing yet
        {
            const Curve e{};
            const Surface f{};
            g.u(e.IsRational() * 2 + f.IsRational());
            auto b = e.GetBoundingBox(1e-3);
            g.v(b.Min);
            g.v(b.Max);
            g.c(e.Transform(mat(r)));
            g.s(f.Transform(mat(r)));
            g.u(KnotVector{}.GetKnotPairs().size());
            break;
        }
        default:
        {
            auto seg = GeomSegment::Make(c.ControlPoints.front().head<3>(), c.ControlPoints.back().head<3>());
            seg.Degree = r.range(1, 3);
            seg.ControlPointCount = seg.Degree + 1 + r.range(0, 3);
            g.c(seg.GetCurve());
            auto rc = GeomRect::Make(Vec3(0, 0, 0), Vec3(1, 0, r.unit()), Vec3(0, 1, 0), Vec3(1, 1, 1));
            rc.DegreeU = r.range(1, 3);
            rc.DegreeV = r.range(1, 3);
            rc.ControlPointCountU = rc.DegreeU + 1 + r.range(0, 2);
            rc.ControlPointCountV = rc.DegreeV + 1 + r.range(0, 2);
            g.s(rc.GetSurface());
            Curve t = c;
            Surface w = s;
            g.c(t);
            g.s(w);
        }
        }
    }
    catch (const std::exception& e)
    {
        g.str(std::string("exception ") + e.what());
    }
    return g.h;
}
// one long curve and one wide surface now and then: what outgrows a buffer, a table or a threshold
template <class O>
void enlarge(Rng& r, O& v)
{
    int p = r.range(1, 3), q = r.range(1, 3);
    GenOpt o;
    o.maxScale = 1e3;
    o.wLo = 0.1;
    o.wHi = 10;
    auto U = genLongKnots(r, p, r.range(40, 160)), V = genLongKnots(r, q, r.range(1, 4)), W = genLongKnots(r, q, r.range(15, 40));
    v.c.Degree = p;
    v.c.Knots = KnotVector(U);
    v.c.ControlPoints.resize(U.size() - p - 1);
    genNet(r, v.c.ControlPoints, 0, o, r.range(0, 9), r.range(0, 5));
    bool t = r.chance(1, 2);
    v.s.DegreeU = v.s.DegreeV = q;
    v.s.KnotsU = KnotVector(t ? V : W);
    v.s.KnotsV = KnotVector(t ? W : V);
    int nu = v.s.KnotsU.Count() - q - 1, nv = v.s.KnotsV.Count() - q - 1;
    v.s.ControlPoints.UCount = nu;
    v.s.ControlPoints.VCount = nv;
    v.s.ControlPoints.Values.resize(nu * nv);
    genNet(r, v.s.ControlPoints.Values, nu, o, r.range(0, 9), r.range(0, 5));
}
GenOpt stateOpt(Rng& r)
{
    GenOpt o;
    o.maxDeg = r.chance(1, 6) ? 8 : 4;
    o.minGap = 0.03;
    o.maxScale = 1e3;
    o.wLo = 0.1;
    o.wHi = 10;
    o.big = false;
    o.maxInterior = 5;
    return o;
}

// ================================================================ C24
void c24(Ctx& c)
{
    caseCpuLimit(240);
    Rng& r = c.rng;
    GenOpt o = stateOpt(r);
    g_dir = c.scratch;
    struct
    {
        Curve c;
        Surface s;
    } made{genCurve(r, o, c.cs), genSurface(r, o, c.cs)};
    if (r.chance(1, 20)) enlarge(r, made);
    const Curve cv = made.c;
    const Surface sf = made.s;
    const Curve cv0 = cv;
    const Surface sf0 = sf;
    int T = r.range(2, 6);
    int K = c.thorough ? r.range(8, 40) : r.range(6, 20);
    bool same = r.chance(1, 2); // all threads run the same operation with the same arguments at the same time
    int delay = r.range(0, 3);
    std::vector<std::vector<std::pair<int, uint64_t>>> plan(T);
    std::vector<std::vector<uint64_t>> got(T), ticket(T);
    // every operation gets its turn as the very first concurrent call of a fresh process
    int first = (int)((c.cs / 8) % NOPS);
    for (int k = 0; k < K; ++k)
    {
        int op = k == 0 ? first : r.range(0, NOPS - 1);
        uint64_t sd = r.next();
        for (int t = 0; t < T; ++t) plan[t].push_back(same || k == 0 ? std::make_pair(op, sd) : std::make_pair(r.range(0, NOPS - 1), r.next()));
    }
    for (int t = 0; t < T; ++t)
    {
        got[t].resize(K);
        ticket[t].resize(K);
    }
    c.desc = std::to_string(T) + " threads x " + std::to_string(K) + " operations, first " + opName[first] + (same ? ", in step on " : ", mixed on ") + str(cv).substr(0, 200) + " and " +
             str(sf).substr(0, 200);
    std::atomic<int> ready{0};
    std::atomic<uint64_t> clock{0};    // relaxed: orders nothing, so it hides no race
    std::atomic<int> active{0}, maxActive{0};
    std::atomic<long long> overlapped{0};
    setOp("concurrent operations");
    auto body = [&](int t, uint64_t seed) {
        Rng q(seed);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < T) std::this_thread::yield();
        for (int k = 0; k < K; ++k)
        {
            if (delay == 1 && q.chance(1, 3)) std::this_thread::yield();
            if (delay == 2 && q.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(q.range(0, 60)));
            int a = active.fetch_add(1, std::memory_order_relaxed) + 1;
            if (a > 1) overlapped.fetch_add(1, std::memory_order_relaxed);
            int m = maxActive.load(std::memory_order_relaxed);
            while (a > m && !maxActive.compare_exchange_weak(m, a, std::memory_order_relaxed)) {}
            ticket[t][k] = clock.fetch_add(1, std::memory_order_relaxed);
            got[t][k] = runOp(plan[t][k].first, cv, sf, plan[t][k].second);
            active.fetch_sub(1, std::memory_order_relaxed);
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back(body, t, r.next());
    for (auto& t : th) t.join();
    // the same calls one after another afterwards
    setOp("sequential reference");
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < K; ++k)
        {
            uint64_t ref = runOp(plan[t][k].first, cv, sf, plan[t][k].second);
            VCHECK(c, ref == got[t][k], "result", "%s called by thread %d of %d concurrently gave another result than alone", opName[plan[t][k].first], t, T);
        }
    VCHECK(c, sameBits(cv, cv0) && sameBits(sf, sf0), "operand", "a shared constant operand changed");
    c.event("concurrent_operations", (long long)T * K);
    c.event("operations_overlapping_another", overlapped.load());
    c.maxEvent("max_operations_in_flight", maxActive.load());
    std::vector<std::pair<uint64_t, int>> order;
    for (int t = 0; t < T; ++t)
        for (int k = 0; k < K; ++k) order.push_back({ticket[t][k], t});
    std::sort(order.begin(), order.end());
    uint64_t h = 99;
    for (auto& x : order) h = mix(h, x.second);
    c.sig(h); // the interleaving that was observed
}
Register r24("C24", c24);

// ================================================================ C26
void c26(Ctx& c)
{
    Rng& r = c.rng;
    struct Obj
    {
        Curve c;
        Surface s;
    };
    int n = r.range(2, 4);
    g_dir = c.scratch;
    std::vector<Obj> vals;
    for (int i = 0; i < n; ++i)
    {
        GenOpt o = stateOpt(r);
        vals.push_back({genCurve(r, o, c.cs + 31 * i), genSurface(r, o, c.cs + 17 * i)});
    }
    if (r.chance(1, 10))
    {
        enlarge(r, vals[r.range(0, n - 1)]);
        c.event("large_objects");
    }
    if (r.chance(1, 2)) // equal layout, different content: what a cache keyed too coarsely would mix up
    {
        vals[1] = vals[0];
        for (auto& p : vals[1].c.ControlPoints) p.head<3>() *= 1.25;
        for (auto& p : vals[1].s.ControlPoints.Values) p.head<3>() *= 1.25;
        if (r.chance(1, 2))
            for (auto& k : vals[1].c.Knots.Values()) k = k * k * (3 - 2 * k) * 0.5 + k * 0.5;
    }
    std::vector<Obj> work = vals; // operands live here
    struct Call
    {
        int obj, op;
        uint64_t seed, digest;
    };
    std::vector<Call> calls;
    int K = r.range(8, 24);
    c.desc = std::to_string(K) + " calls on " + std::to_string(n) + " objects, first " + str(vals[0].c).substr(0, 300);
    for (int k = 0; k < K; ++k)
    {
        Call q{r.range(0, n - 1), r.range(0, NOPS - 1), r.next(), 0};
        setOp(opName[q.op]);
        q.digest = runOp(q.op, work[q.obj].c, work[q.obj].s, q.seed);
        if (r.chance(1, 3)) // immediately again
        {
            uint64_t d = runOp(q.op, work[q.obj].c, work[q.obj].s, q.seed);
            VCHECK(c, d == q.digest, "repeat", "%s gives a different result when called again", opName[q.op]);
        }
        VCHECK(c, sameBits(work[q.obj].c, vals[q.obj].c) && sameBits(work[q.obj].s, vals[q.obj].s), "operand", "%s changed its operand", opName[q.op]);
        calls.push_back(q);
        if (c.caseFailed) return;
    }
    // edited in place between two equal calls: the second must answer for the new contents
    for (int t = 0; t < 6 && !c.caseFailed; ++t)
    {
        int i = r.range(0, n - 1), op = r.range(0, NOPS - 1);
        uint64_t seed = r.next();
        Obj E = vals[i];
        auto bend = [&](KnotVector& k) { // other interior knots, same number and multiplicities
            double a = r.uni(0.3, 0.7);
            for (auto& x : k.Values()) x = x <= 0 || x >= 1 ? x : x * x * a + x * (1 - a);
        };
        int kind = r.range(0, 4);
        if (kind == 0 || kind == 3) bend(E.c.Knots), bend(r.chance(1, 2) ? E.s.KnotsU : E.s.KnotsV);
        if (kind == 1 || kind == 3)
        {
            E.c.ControlPoints[r.range(0, (int)E.c.ControlPoints.size() - 1)][r.range(0, 2)] += 0.37;
            E.s.ControlPoints.Values[r.range(0, (int)E.s.ControlPoints.Values.size() - 1)][r.range(0, 2)] += 0.37;
        }
        if (kind == 2 || kind == 3)
        {
            E.c.ControlPoints[r.range(0, (int)E.c.ControlPoints.size() - 1)].w() *= 1.5;
            E.s.ControlPoints.Values[r.range(0, (int)E.s.ControlPoints.Values.size() - 1)].w() *= 1.5;
        }
        if (kind == 4)
        {
            for (auto& p : E.c.ControlPoints) p.head<3>() = -p.head<3>();
            for (auto& p : E.s.ControlPoints.Values) p.head<3>() = -p.head<3>();
        }
        const Obj& far = vals[(i + 1) % n];
        auto flush = [&] { runOp(op, far.c, far.s, seed ^ 0x9e3779b97f4a7c15ull); };
        setOp(opName[op]);
        flush();
        uint64_t want = runOp(op, E.c, E.s, seed);
        flush();
        Obj slot = vals[i];
        runOp(op, slot.c, slot.s, seed);
        std::copy(E.c.Knots.Values().begin(), E.c.Knots.Values().end(), slot.c.Knots.Values().begin());
        std::copy(E.s.KnotsU.Values().begin(), E.s.KnotsU.Values().end(), slot.s.KnotsU.Values().begin());
        std::copy(E.s.KnotsV.Values().begin(), E.s.KnotsV.Values().end(), slot.s.KnotsV.Values().begin());
        std::copy(E.c.ControlPoints.begin(), E.c.ControlPoints.end(), slot.c.ControlPoints.begin());
        std::copy(E.s.ControlPoints.Values.begin(), E.s.ControlPoints.Values.end(), slot.s.ControlPoints.Values.begin());
        VCHECK(c, runOp(op, slot.c, slot.s, seed) == want, "edited", "%s still answers for the contents the object had before it was edited in place (kind %d)", opName[op], kind);
        VCHECK(c, runOp(op, E.c, E.s, seed) == want, "edited-again", "%s gives a different result when called again", opName[op]);
        c.event("calls_after_edit_in_place");
    }
    // the same calls in another order, on the same storage holding other values in between, on copies and moved objects
    int rounds = 2;
    for (int t = 0; t < rounds && !c.caseFailed; ++t)
    {
        auto order = calls;
        for (int i = (int)order.size() - 1; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
        Obj slot; // one storage location, overwritten again and again
        for (auto& q : order)
        {
            uint64_t d;
            setOp(opName[q.op]);
            switch (r.range(0, 3))
            {
            case 0:
                slot.c.Degree = vals[q.obj].c.Degree;
                slot.c.Knots.Values().assign(vals[q.obj].c.Knots.Values().begin(), vals[q.obj].c.Knots.Values().end());
                slot.c.ControlPoints.assign(vals[q.obj].c.ControlPoints.begin(), vals[q.obj].c.ControlPoints.end());
                slot.s = vals[q.obj].s;
                d = runOp(q.op, slot.c, slot.s, q.seed);
                break;
            case 1:
            {
                Obj copy = vals[q.obj];
                d = runOp(q.op, copy.c, copy.s, q.seed);
                break;
            }
            case 2:
            {
                Obj tmp = vals[q.obj];
                Obj moved = std::move(tmp);
                d = runOp(q.op, moved.c, moved.s, q.seed);
                break;
            }
            default: d = runOp(q.op, work[q.obj].c, work[q.obj].s, q.seed);
            }
            VCHECK(c, d == q.digest, "history", "%s on an equal object gives a different result after other calls", opName[q.op]);
            c.event("repeated_calls");
        }
    }
    c.event("calls", K);
    uint64_t h = 5;
    for (auto& q : calls) h = mix(h, q.digest);
    c.sig(h);
}
Register r26("C26", c26);

// ================================================================ C25
using P3 = std::array<LD, 3>;
P3 mapped(const Eigen::Matrix<LD, 3, 3>& M, const P3& p)
{
    P3 q;
    for (int i = 0; i < 3; ++i) q[i] = M(i, 0) * p[0] + M(i, 1) * p[1] + M(i, 2) * p[2];
    return q;
}
double newKnot(Rng& r, const std::vector<double>& U, int p, double gap)
{
    auto d = distinctKnots(U);
    for (int t = 0; t < 30; ++t)
    {
        double x = r.chance(1, 3) && d.size() > 2 ? d[r.range(1, (int)d.size() - 2)].first : r.uni(0.02, 0.98);
        if (r.chance(1, 10)) x = 0.5 + r.logu(1e-13, 1e-6) * (r.chance(1, 2) ? 1 : -1);
        int m = 0;
        double g = 1;
        for (auto& k : d)
            if (k.first == x) m = k.second;
            else g = std::min(g, std::fabs(k.first - x));
        if (g >= gap && m < p) return x;
    }
    return -1;
}
int multip(const std::vector<double>& U, double x) { return (int)std::count(U.begin(), U.end(), x); }
Eigen::Matrix3d goodMat(Rng& r)
{
    for (;;)
    {
        Eigen::Matrix3d R = mat(r);
        double s = R.norm(), d = std::fabs(R.determinant());
        if (s < 4 && d > 0.3) return R;
    }
}
struct Hist
{
    std::string log;
    int steps = 0;
    LD slack = 0; // deviation that removals were allowed to introduce
};
void c25curve(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = 4;
    o.minGap = 0.04;
    o.maxScale = 100;
    o.wLo = 0.3;
    o.wHi = 3;
    o.big = false;
    o.maxInterior = 4;
    Curve x = genCurve(r, o, c.cs);
    const OCurve shadow(x);
    Eigen::Matrix<LD, 3, 3> M = Eigen::Matrix<LD, 3, 3>::Identity();
    LD lo = 0, hi = 1; // current parameter t stands for lo + (hi - lo) t of the original
    double scale = std::max(1.0, scaleOf(x.ControlPoints));
    Hist h;
    std::string init = str(x);
    int n = r.range(3, c.thorough ? 24 : 12);
    std::map<double, int> redundant; // knots known to be removable, with how often
    uint64_t sg = sigOf(x);
    for (int k = 0; k < n && !c.caseFailed; ++k)
    {
        const Curve before = x;
        Curve y = x;
        int op = r.range(0, 7);
        char buf[120];
        const auto& U = x.Knots.Values();
        switch (op)
        {
        case 0:
        case 1:
        {
            double v = newKnot(r, U, x.Degree, 0.03);
            if (v < 0 || x.ControlPoints.size() > 60) continue;
            int t = r.range(1, x.Degree - multip(U, v));
            setOp("history InsertKnot");
            if (t == 1) y = x.InsertKnot(v);
            else if (r.chance(1, 2)) y = x.InsertKnot(v, t);
            else
            {
                std::vector<double> ks(t, v);
                y = x.InsertKnot(std::span<double>(ks));
            }
            redundant[v] += t;
            snprintf(buf, sizeof buf, "insert %.17g x%d; ", v, t);
            VCHECK(c, (int)y.ControlPoints.size() == (int)x.ControlPoints.size() + t, "count", "insertion of %d knots added %d control points", t,
                   (int)y.ControlPoints.size() - (int)x.ControlPoints.size());
            break;
        }
        case 2:
        case 3:
        {
            std::vector<double> cand;
            for (auto& q : distinctKnots(U))
                if (q.first > 0 && q.first < 1) cand.push_back(q.first);
            if (cand.empty()) continue;
            double v = cand[r.range(0, (int)cand.size() - 1)];
            int t = r.range(1, 3);
            double tol = 1e-8 * scale;
            setOp("history RemoveKnot");
            auto [z, got] = x.RemoveKnot(v, t, tol);
            y = z;
            snprintf(buf, sizeof buf, "remove %.17g x%d -> %d; ", v, t, got);
            int have = multip(U, v);
            VCHECK(c, got >= 0 && got <= std::min(t, have) && (int)y.ControlPoints.size() == (int)x.ControlPoints.size() - got &&
                          multip(y.Knots.Values(), v) == have - got, "removed-count", "removal reported %d, knot occurred %d times, now %d", got, have, multip(y.Knots.Values(), v));
            int red = redundant.count(v) ? redundant[v] : 0;
            if (red > 0 && mustComeOut(U, x.Degree, v, std::min(t, red), x.ControlPoints, tol))
            {
                VCHECK(c, got >= std::min(t, red), "removable", "only %d of %d removable knots were removed", got, std::min(t, red));
                c.event("history_removals_demanded");
            }
            if (redundant.count(v)) redundant[v] = std::max(0, red - got);
            h.slack += 6 * got * (LD)tol;
            c.event("history_knots_removed", got);
            break;
        }
        case 4:
        {
            int t = r.range(1, 2);
            if (x.Degree + t > 7 || x.ControlPoints.size() > 40) continue;
            setOp("history ElevateDegree");
            y = x.ElevateDegree(t);
            snprintf(buf, sizeof buf, "elevate %d; ", t);
            VCHECK(c, y.Degree == x.Degree + t, "degree", "elevation by %d changed the degree from %d to %d", t, x.Degree, y.Degree);
            redundant.clear(); // still removable in theory, but no longer exactly so
            break;
        }
        case 5:
        {
            auto R = goodMat(r);
            if (scale * 4 > 1e5) continue;
            setOp("history Transform");
            y = x.Transform(R);
            Eigen::Matrix<LD, 3, 3> L = R.cast<LD>();
            M = (L * M).eval();
            scale *= 4;
            h.slack *= 4;
            snprintf(buf, sizeof buf, "transform; ");
            redundant.clear();
            break;
        }
        case 6:
        {
            if (!r.chance(1, 3)) continue;
            setOp("history ExtractBezier");
            auto bs = x.ExtractBezier();
            auto d = distinctKnots(U);
            VCHECK(c, bs.size() == d.size() - 1, "pieces", "%zu pieces from %zu spans", bs.size(), d.size() - 1);
            if (bs.size() != d.size() - 1) break;
            int i = r.range(0, (int)bs.size() - 1);
            y = bs[i];
            LD a = lo + (hi - lo) * (LD)d[i].first, b = lo + (hi - lo) * (LD)d[i + 1].first;
            lo = a;
            hi = b;
            snprintf(buf, sizeof buf, "piece %d of %zu; ", i, bs.size());
            redundant.clear();
            break;
        }
        default:
        {
            bool bin = r.chance(2, 3);
            std::stringstream ss;
            setOp("history Save/Load");
            x.SaveToFile(ss, bin);
            if (r.chance(1, 2)) y = Curve{};
            y.LoadFromFile(ss);
            if (bin) VCHECK(c, sameBits(y, x), "saveload", "binary round trip in the middle of a history changed the curve");
            snprintf(buf, sizeof buf, "save/load %s; ", bin ? "BIN" : "TXT");
        }
        }
        h.log += buf;
        sg = mix(sg, op);
        h.steps++;
        c.desc = "history [" + h.log + "] from " + init;
        VCHECK(c, sameBits(x, before), "operand", "the operand of the last step changed");
        x = std::move(y);
        auto st = structure(x);
        VCHECK(c, st.empty(), "structure", "after the last step: %s", st.c_str());
        if (c.caseFailed) return;
        LD tol = 1e-9L * scale * (1 + h.steps) + h.slack;
        OCurve now(x);
        setOp("history Evaluate");
        for (int i = 0; i < 12; ++i)
        {
            double t = i < 2 ? i : r.unit();
            if (i >= 9) t = x.Knots.Values()[r.range(0, (int)x.Knots.Values().size() - 1)];
            P3 want = mapped(M, shadow.eval(lo + (hi - lo) * (LD)t));
            Vec3 e = x.Evaluate(t);
            LD d = dist(e, want);
            VCHECK(c, d <= tol, "shape", "point at %.17g is %g away from where the history leaves it (allowed %g)", t, (double)d, (double)tol);
            c.maxEvent("max_history_rel_error_e-15", (long long)std::min<LD>(1e9L, d / scale / 1e-15L));
        }
        c.event("history_steps");
        // a symmetric curve may lose a knot of its own, and the control points that remain may have weights that are not positive
        double wl = 1e300, wh = 0;
        for (auto& p : x.ControlPoints) wl = std::min(wl, p.w()), wh = std::max(wh, p.w());
        if (wl < 0.02 * wh) break;
    }
    if (h.steps >= 2) c.sig(sg);
}
void c25surface(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = 3;
    o.minGap = 0.05;
    o.maxScale = 100;
    o.wLo = 0.3;
    o.wHi = 3;
    o.big = false;
    o.maxInterior = 3;
    Surface x = genSurface(r, o, c.cs);
    const OSurface shadow(x);
    Eigen::Matrix<LD, 3, 3> M = Eigen::Matrix<LD, 3, 3>::Identity();
    double scale = std::max(1.0, scaleOf(x.ControlPoints.Values));
    Hist h;
    std::string init = str(x);
    int n = r.range(3, c.thorough ? 20 : 9);
    std::map<double, int> redU, redV;
    // current (u,v) stands for A (u,v) + B of the original
    LD A[2][2] = {{1, 0}, {0, 1}}, B[2] = {0, 0};
    uint64_t sg = sigOf(x);
    for (int k = 0; k < n && !c.caseFailed; ++k)
    {
        const Surface before = x;
        Surface y = x;
        int op = r.range(0, 11);
        if (op > 9) op = 8;
        bool du = r.chance(1, 2);
        auto& U = du ? x.KnotsU.Values() : x.KnotsV.Values();
        int deg = du ? x.DegreeU : x.DegreeV;
        auto& red = du ? redU : redV;
        char buf[120];
        const char* dn = du ? "U" : "V";
        switch (op)
        {
        case 0: case 1: case 2:
        {
            double v = newKnot(r, U, deg, 0.03);
            if (v < 0 || x.ControlPoints.Values.size() > 400) continue;
            int t = r.range(1, deg - multip(U, v));
            setOp("history InsertKnotU/V");
            int how = r.range(0, 1);
            std::vector<double> ks(t, v);
            if (t == 1 && how) y = du ? x.InsertKnotU(v) : x.InsertKnotV(v);
            else if (how) y = du ? x.InsertKnotU(v, t) : x.InsertKnotV(v, t);
            else y = du ? x.InsertKnotU(std::span<double>(ks)) : x.InsertKnotV(std::span<double>(ks));
            red[v] += t;
            snprintf(buf, sizeof buf, "insert%s %.17g x%d; ", dn, v, t);
            break;
        }
        case 3: case 4: case 5:
        {
            std::vector<double> cand;
            for (auto& q : distinctKnots(U))
                if (q.first > 0 && q.first < 1) cand.push_back(q.first);
            if (cand.empty()) continue;
            double v = cand[r.range(0, (int)cand.size() - 1)];
            int rd = red.count(v) ? red[v] : 0;
            if (rd == 0) continue;
            int t = r.range(1, rd);
            double tol = 1e-8 * scale;
            setOp("history RemoveKnotU/V");
            auto [z, got] = du ? x.RemoveKnotU(v, t, tol) : x.RemoveKnotV(v, t, tol);
            y = z;
            snprintf(buf, sizeof buf, "remove%s %.17g x%d -> %d; ", dn, v, t, got);
            if (mustComeOut(U, deg, v, t, x.ControlPoints.Values, tol))
            {
                VCHECK(c, got == t, "removable", "only %d of %d removable knots were removed in %s", got, t, dn);
                c.event("history_removals_demanded");
            }
            red[v] -= got;
            h.slack += 20 * got * (LD)tol;
            c.event("history_knots_removed", got);
            break;
        }
        case 6:
        {
            int t = r.range(1, 2);
            if (deg + t > 6 || x.ControlPoints.Values.size() > 300) continue;
            setOp("history ElevateDegreeU/V");
            y = du ? x.ElevateDegreeU(t) : x.ElevateDegreeV(t);
            snprintf(buf, sizeof buf, "elevate%s %d; ", dn, t);
            VCHECK(c, (du ? y.DegreeU : y.DegreeV) == deg + t && (du ? y.DegreeV == x.DegreeV : y.DegreeU == x.DegreeU), "degree", "elevation in %s by %d gave degrees %d, %d", dn, t,
                   y.DegreeU, y.DegreeV);
            redU.clear();
            redV.clear();
            break;
        }
        case 7:
        {
            auto R = goodMat(r);
            if (scale * 4 > 1e5) continue;
            setOp("history Transform");
            y = x.Transform(R);
            Eigen::Matrix<LD, 3, 3> L = R.cast<LD>();
            M = (L * M).eval();
            scale *= 4;
            h.slack *= 4;
            redU.clear();
            redV.clear();
            snprintf(buf, sizeof buf, "transform; ");
            break;
        }
        case 8:
        {
            auto ua = Surface::AlignAxis(r.range(0, 2)), va = Surface::AlignAxis(r.range(0, 2));
            setOp("history AlignParameterDomain");
            y = x.AlignParameterDomain(ua, va);
            int k8 = symmetryOf(x, y);
            VCHECK(c, k8 >= 0, "align", "alignment in the middle of a history is not a reparametrisation of the surface");
            if (k8 < 0) break;
            LD M2[2][2] = {{k8 & 2 ? -1.0L : 1.0L, 0}, {0, k8 & 4 ? -1.0L : 1.0L}}, N2[2] = {k8 & 2 ? 1.0L : 0.0L, k8 & 4 ? 1.0L : 0.0L};
            if (k8 & 1)
            {
                std::swap(M2[0][0], M2[1][0]);
                std::swap(M2[0][1], M2[1][1]);
                std::swap(N2[0], N2[1]);
            }
            LD nA[2][2], nB[2];
            for (int i = 0; i < 2; ++i)
            {
                for (int j = 0; j < 2; ++j) nA[i][j] = A[i][0] * M2[0][j] + A[i][1] * M2[1][j];
                nB[i] = A[i][0] * N2[0] + A[i][1] * N2[1] + B[i];
            }
            memcpy(A, nA, sizeof A);
            memcpy(B, nB, sizeof B);
            redU.clear();
            redV.clear();
            snprintf(buf, sizeof buf, "align %d %d -> %d; ", (int)ua, (int)va, k8);
            if (k8) c.event("history_reparametrisations");
            break;
        }
        default:
        {
            bool bin = r.chance(2, 3);
            std::stringstream ss;
            setOp("history Save/Load");
            x.SaveToFile(ss, bin);
            if (r.chance(1, 2)) y = Surface{};
            y.LoadFromFile(ss);
            if (bin) VCHECK(c, sameBits(y, x), "saveload", "binary round trip in the middle of a history changed the surface");
            snprintf(buf, sizeof buf, "save/load %s; ", bin ? "BIN" : "TXT");
        }
        }
        h.log += buf;
        sg = mix(sg, op * 2 + du);
        h.steps++;
        c.desc = "history [" + h.log + "] from " + init;
        VCHECK(c, sameBits(x, before), "operand", "the operand of the last step changed");
        x = std::move(y);
        auto st = structure(x);
        VCHECK(c, st.empty(), "structure", "after the last step: %s", st.c_str());
        if (c.caseFailed) return;
        LD tol = 1e-9L * scale * (1 + h.steps) + h.slack;
        setOp("history Evaluate");
        for (int i = 0; i < 8; ++i)
        {
            double u = i < 4 ? (i & 1) : r.unit(), v = i < 4 ? (i >> 1) : r.unit();
            if (i == 6) u = x.KnotsU.Values()[r.range(0, (int)x.KnotsU.Values().size() - 1)];
            if (i == 7) v = x.KnotsV.Values()[r.range(0, (int)x.KnotsV.Values().size() - 1)];
            P3 want = mapped(M, shadow.eval(std::clamp(A[0][0] * u + A[0][1] * v + B[0], 0.0L, 1.0L), std::clamp(A[1][0] * u + A[1][1] * v + B[1], 0.0L, 1.0L)));
            LD d = dist(x.Evaluate(u, v), want);
            VCHECK(c, d <= tol, "shape", "point at (%.17g, %.17g) is %g away from where the history leaves it (allowed %g)", u, v, (double)d, (double)tol);
            c.maxEvent("max_history_rel_error_e-15", (long long)std::min<LD>(1e9L, d / scale / 1e-15L));
        }
        c.event("history_steps");
    }
    if (h.steps >= 2) c.sig(sg);
}
void c25(Ctx& c)
{
    if (c.cs % 2) c25curve(c);
    else c25surface(c);
}
Register r25("C25", c25);
} // namespace
} // namespace vf
