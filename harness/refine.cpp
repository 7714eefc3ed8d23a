// C07/C08 knot insertion, C09/C10 knot removal, C11/C12 degree elevation, C13 Bezier decomposition.
#include "common.hpp"
#include <tuple>
using namespace vf;

// parameters that pin down a piecewise rational function: several per non-empty span, plus ends and knots
static std::vector<double> pin(Rng& r, const std::vector<double>& U, int perSpan, int cap)
{
    auto d = distinctKnots(U);
    std::vector<double> x{0.0, 1.0};
    int spans = (int)d.size() - 1;
    int take = std::min(spans, std::max(1, cap / perSpan));
    int start = spans > take ? r.range(0, spans - 1) : 0;
    for (int s = 0; s < take; ++s)
    {
        int k = (start + s) % spans;
        double a = d[k].first, b = d[k + 1].first;
        x.push_back(a);
        for (int j = 0; j < perSpan; ++j)
        {
            double t = a + (b - a) * ((j + r.uni(0.15, 0.85)) / perSpan);
            if (t >= a && t < b) x.push_back(t);
        }
    }
    return x;
}

static LD maxDev(const OCurve& a, const OCurve& b, const std::vector<double>& xs, double* where)
{
    LD m = 0;
    *where = -1;
    for (double x : xs)
    {
        LD e = dist(a.eval(x), b.eval(x));
        if (!(e <= m)) { m = e; *where = x; }
    }
    return m;
}
static LD maxDev(const OSurface& a, const OSurface& b, const std::vector<double>& us, const std::vector<double>& vs, Rng& r, int n, double* wu, double* wv)
{
    LD m = 0;
    *wu = *wv = -1;
    for (int k = 0; k < n; ++k)
    {
        double u = us[n >= (int)us.size() ? k % us.size() : r.range(0, (int)us.size() - 1)], v = vs[r.range(0, (int)vs.size() - 1)];
        LD e = dist(a.eval(u, v), b.eval(u, v));
        if (!(e <= m)) { m = e; *wu = u; *wv = v; }
    }
    return m;
}

static int multOf(const std::vector<double>& U, double x)
{
    return (int)std::count(U.begin(), U.end(), x);
}
static double nearestOther(const std::vector<double>& U, double x)
{
    double g = 1;
    for (double v : U)
        if (v != x) g = std::min(g, std::fabs(v - x));
    return g;
}
// choose a knot value to insert; -1 if none admissible
static double pickInsert(Rng& r, const std::vector<double>& U, int p, double gap, int maxMult)
{
    auto d = distinctKnots(U);
    for (int t = 0; t < 20; ++t)
    {
        double x;
        int k = r.range(0, 5);
        if (k <= 1 && d.size() > 2) x = d[r.range(1, (int)d.size() - 2)].first;
        else if (k == 2)
        {
            int i = r.range(0, (int)d.size() - 2);
            x = 0.5 * (d[i].first + d[i + 1].first);
        }
        else if (k == 3) x = r.range(1, 15) / 16.0 + (r.chance(1, 3) ? r.logu(1e-13, 1e-6) * (r.chance(1, 2) ? 1 : -1) : 0);
        else x = r.unit();
        if (!(x > 0 && x < 1)) continue;
        if (nearestOther(U, x) < gap) continue;
        if (multOf(U, x) + 1 > maxMult) continue;
        return x;
    }
    return -1;
}

static void c07(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = r.chance(1, 10) ? 10 : 6;
    o.minGap = r.chance(1, 3) ? r.logu(1e-12, 1e-6) : 1e-3;
    o.extraMult = r.chance(1, 4);
    o.huge = 300;
    o.wCommon = 1e12;
    o.pCommon = 1e12;
    o.high = 3000;
    Curve cv = genCurve(r, o, c.cs);
    const Curve before = cv;
    int p = cv.Degree;
    c.desc = str(cv);
    int mode = r.range(0, 3);
    std::vector<double> ins, U = cv.Knots.Values();
    int cap = r.chance(1, 3) ? p + 1 : p;
    Curve res;
    if (mode == 0)
    {
        double x = pickInsert(r, U, p, o.minGap, cap);
        if (x < 0) return;
        ins = {x};
        setOp("Curve::InsertKnot(value)");
        res = cv.InsertKnot(x);
    }
    else if (mode == 1)
    {
        double x = pickInsert(r, U, p, o.minGap, cap);
        if (x < 0) return;
        int times = r.chance(1, 12) ? 0 : r.range(1, cap - multOf(U, x));
        ins.assign(times, x);
        setOp("Curve::InsertKnot(value,times)");
        res = cv.InsertKnot(x, times);
    }
    else
    {
        auto V = U;
        int n = r.chance(1, 10) ? r.range(10, 40) : r.range(1, 7);
        for (int i = 0; i < n; ++i)
        {
            double x = pickInsert(r, V, p, o.minGap, cap);
            if (x < 0) continue;
            ins.push_back(x);
            V.insert(std::upper_bound(V.begin(), V.end(), x), x);
        }
        if (mode == 3) std::sort(ins.begin(), ins.end());
        auto arg = ins;
        setOp("Curve::InsertKnot(span)");
        res = cv.InsertKnot(std::span<double>(arg));
        VCHECK(c, sameBits(arg, ins), "insert-arg", "InsertKnot(span) modified its argument");
    }
    c.desc += " insert" + str(ins);
    c.event("knots_inserted", (long long)ins.size());
    c.sig(mix(sigOf(cv), mix(mode, ins.size())));
    auto want = U;
    for (double x : ins) want.insert(std::upper_bound(want.begin(), want.end(), x), x);
    VCHECK(c, res.Degree == p, "insert-degree", "degree changed to %d", res.Degree);
    VCHECK(c, sameBits(res.Knots.Values(), want), "insert-knots", "knots are %s", str(res.Knots.Values()).c_str());
    auto st = structure(res);
    VCHECK(c, st.empty(), "insert-structure", "result is malformed: %s", st.c_str());
    VCHECK(c, sameBits(cv, before), "insert-operand", "operand changed");
    if (c.caseFailed) return;
    double S = scaleOf(cv.ControlPoints), wr = weightRatio(cv.ControlPoints);
    double at;
    LD e = maxDev(OCurve(before), OCurve(res), pin(r, want, p + 1, 220), &at);
    LD tol = S * (1e-11L + 1e-14L * wr);
    VCHECK(c, e <= tol, "insert-shape", "shape changed by %.3Lg at %.17g (tolerance %.3Lg)", e, at, tol);
    double wlo = 1e300, whi = 0;
    for (auto& q : before.ControlPoints) { wlo = std::min(wlo, q.w()); whi = std::max(whi, q.w()); }
    for (auto& q : res.ControlPoints)
        VCHECK(c, q.w() >= wlo * (1 - 1e-12) && q.w() <= whi * (1 + 1e-12), "insert-weight", "weight %.17g outside the original range", q.w());
    for (double x : ins)
    {
        int m = multOf(want, x);
        if (m == p) c.event("reached_multiplicity_p");
        if (m == p + 1) c.event("reached_multiplicity_p_plus_1");
    }
    // through the library's own evaluator as well
    for (double x : {ins.empty() ? 0.5 : ins[0], r.unit(), 0.0, 1.0})
    {
        Vec3 a = cv.Evaluate(x), b = res.Evaluate(x);
        VCHECK(c, (a - b).cwiseAbs().maxCoeff() <= (double)(10 * tol), "insert-eval", "Evaluate(%.17g) moved by %g", x, (a - b).cwiseAbs().maxCoeff());
    }
}

static void c08(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = r.chance(1, 10) ? 7 : 4;
    o.maxInterior = 5;
    o.minGap = r.chance(1, 3) ? r.logu(1e-12, 1e-6) : 1e-3;
    o.huge = 400;
    o.wCommon = 1e12;
    o.pCommon = 1e12;
    o.vast = 4000;
    Surface s = genSurface(r, o, c.cs);
    const Surface before = s;
    bool du = r.chance(1, 2);
    int p = du ? s.DegreeU : s.DegreeV;
    c.desc = str(s);
    auto U = (du ? s.KnotsU : s.KnotsV).Values();
    int mode = r.range(0, 2);
    std::vector<double> ins;
    Surface res;
    int cap = r.chance(1, 3) ? p + 1 : p;
    if (mode == 0)
    {
        double x = pickInsert(r, U, p, o.minGap, cap);
        if (x < 0) return;
        ins = {x};
        setOp(du ? "Surface::InsertKnotU(value)" : "Surface::InsertKnotV(value)");
        res = du ? s.InsertKnotU(x) : s.InsertKnotV(x);
    }
    else if (mode == 1)
    {
        double x = pickInsert(r, U, p, o.minGap, cap);
        if (x < 0) return;
        int times = r.chance(1, 12) ? 0 : r.range(1, cap - multOf(U, x));
        ins.assign(times, x);
        setOp(du ? "Surface::InsertKnotU(value,times)" : "Surface::InsertKnotV(value,times)");
        res = du ? s.InsertKnotU(x, times) : s.InsertKnotV(x, times);
    }
    else
    {
        auto V = U;
        int n = r.range(1, 6);
        for (int i = 0; i < n; ++i)
        {
            double x = pickInsert(r, V, p, o.minGap, cap);
            if (x < 0) continue;
            ins.push_back(x);
            V.insert(std::upper_bound(V.begin(), V.end(), x), x);
        }
        auto arg = ins;
        setOp(du ? "Surface::InsertKnotU(span)" : "Surface::InsertKnotV(span)");
        res = du ? s.InsertKnotU(std::span<double>(arg)) : s.InsertKnotV(std::span<double>(arg));
        VCHECK(c, sameBits(arg, ins), "insert-arg", "InsertKnot(span) modified its argument");
    }
    c.desc += std::string(du ? " insertU" : " insertV") + str(ins);
    c.event(du ? "knots_inserted_u" : "knots_inserted_v", (long long)ins.size());
    c.sig(mix(sigOf(s), mix(mode * 2 + du, ins.size())));
    auto want = U;
    for (double x : ins) want.insert(std::upper_bound(want.begin(), want.end(), x), x);
    VCHECK(c, res.DegreeU == s.DegreeU && res.DegreeV == s.DegreeV, "insert-degree", "degree changed");
    VCHECK(c, sameBits((du ? res.KnotsU : res.KnotsV).Values(), want), "insert-knots", "knots are %s", str((du ? res.KnotsU : res.KnotsV).Values()).c_str());
    VCHECK(c, sameBits((du ? res.KnotsV : res.KnotsU).Values(), (du ? s.KnotsV : s.KnotsU).Values()), "insert-other-knots", "knots of the other direction changed");
    auto st = structure(res);
    VCHECK(c, st.empty(), "insert-structure", "result is malformed: %s", st.c_str());
    VCHECK(c, sameBits(s, before), "insert-operand", "operand changed");
    if (c.caseFailed) return;
    double S = scaleOf(s.ControlPoints.Values), wr = weightRatio(s.ControlPoints.Values), wu, wv;
    auto us = pin(r, res.KnotsU.Values(), 3, 30), vs = pin(r, res.KnotsV.Values(), 3, 30);
    LD tol = S * (1e-11L + 1e-14L * wr);
    LD e = maxDev(OSurface(before), OSurface(res), us, vs, r, 60, &wu, &wv);
    VCHECK(c, e <= tol, "insert-shape", "shape changed by %.3Lg at (%.17g,%.17g) (tolerance %.3Lg)", e, wu, wv, tol);
    for (int k = 0; k < 3; ++k)
    {
        double u = r.unit(), v = r.unit();
        double m = (s.Evaluate(u, v) - res.Evaluate(u, v)).cwiseAbs().maxCoeff();
        VCHECK(c, m <= (double)(10 * tol), "insert-eval", "Evaluate moved by %g", m);
    }
}

static GenOpt tame(Rng& r)
{
    GenOpt o;
    o.maxDeg = r.chance(1, 8) ? 7 : 5;
    o.minGap = 0.03;
    o.maxScale = r.chance(1, 3) ? 1e3 : 10;
    o.wLo = r.chance(1, 3) ? 0.01 : 0.2;
    o.wHi = r.chance(1, 3) ? 100 : 5;
    o.maxInterior = 6;
    o.big = false;
    return o;
}

// soundness of one removal result: counts, knots, deviation
static void judgeRemoval(Ctx& c, const Curve& in, const Curve& out, int t, double x, int times, double tol)
{
    int p = in.Degree;
    auto U = in.Knots.Values();
    int s = multOf(U, x);
    VCHECK(c, t >= 0 && t <= times && t <= s, "remove-count", "reported %d removals of knot %.17g (requested %d, multiplicity %d)", t, x, times, s);
    if (c.caseFailed) return;
    auto want = U;
    auto it = std::find(want.begin(), want.end(), x);
    if (t > 0) want.erase(it, it + t);
    VCHECK(c, out.Degree == p, "remove-degree", "degree changed");
    VCHECK(c, sameBits(out.Knots.Values(), want), "remove-knots", "after %d removals the knots are %s", t, str(out.Knots.Values()).c_str());
    auto st = structure(out);
    VCHECK(c, st.empty(), "remove-structure", "after %d removals: %s", t, st.c_str());
    if (c.caseFailed) return;
    if (t == 0) VCHECK(c, sameBits(in.ControlPoints, out.ControlPoints), "remove-none", "nothing removed but control points changed");
    double S = scaleOf(in.ControlPoints), at;
    LD e = maxDev(OCurve(in), OCurve(out), pin(c.rng, U, p + 2, 200), &at);
    LD lim = 1.8L * t * tol + 1e-9L * S; // euclidean tolerance, max-norm deviation
    VCHECK(c, e <= lim, "remove-deviation", "%d removals with tolerance %g moved the curve by %.3Lg at %.17g", t, tol, e, at);
    c.event(t ? "removals_done" : "removals_refused");
    if (s > p) c.event(t ? "breaks_removed" : "breaks_kept");
    if (t && t < times) c.event("partial_removals");
}

// moves one control point by about the tolerance: in Cartesian or in homogeneous space, along an axis (the weight included) or at random
// The value a caller names a knot by: the knot itself, or that value with rounding or noise below the 1e-6 tolerance of multiplicity queries
static double named(Ctx& c, Rng& r, double x)
{
    if (!r.chance(1, 5)) return x;
    c.event("knots_named_inexactly");
    switch (r.range(0, 3))
    {
    case 0: return std::nextafter(x, 0.0);
    case 1: return std::nextafter(x, 1.0);
    default: return x + r.logu(1e-16, 5e-7) * (r.chance(1, 2) ? 1 : -1);
    }
}
// the control points whose basis functions touch knot x are [lo, hi]
static std::pair<int, int> around(const std::vector<double>& U, int p, double x)
{
    int last = int(std::upper_bound(U.begin(), U.end(), x) - U.begin()) - 1, s = multOf(U, x);
    return {std::max(0, last - p - 1), std::min((int)U.size() - p - 2, last - s + 1)};
}
static void perturb(Rng& r, std::vector<Vec4>& P, int index, double tol, double S)
{
    Vec4& q = P[index];
    if (r.chance(1, 2))
    {
        double amp = tol * r.logu(1e-2, 1e3);
        int comp = r.range(0, 3);
        if (comp == 3) q.w() *= 1 + amp / (S + 1e-300) * r.uni(0.1, 1);
        else q[comp] += amp;
        return;
    }
    double wmin = 1e300;
    for (auto& v : P) wmin = std::min(wmin, v.w());
    double amp = std::min(0.5 * wmin, tol * wmin / (1 + S) * r.logu(0.1, 1e3) * std::max(1.0, S * r.unit()));
    Vec4 d = Vec4::Zero();
    if (r.chance(1, 2)) d[r.range(0, 3)] = r.chance(1, 2) ? 1 : -1;
    else
    {
        d = Vec4(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
        d /= d.norm() + 1e-9;
    }
    Vec4 h(q.x() * q.w(), q.y() * q.w(), q.z() * q.w(), q.w());
    h += amp * d;
    q = Vec4(h.x() / h.w(), h.y() / h.w(), h.z() / h.w(), h.w());
}
static void scaleWeights(Rng& r, std::vector<Vec4>& P)
{
    if (!r.chance(1, 3)) return;
    double f = r.logu(1e-4, 1e4);
    for (auto& q : P) q.w() *= f;
}

// inserts k copies; past multiplicity degree only by separate calls
static Curve inserted(const Curve& c, double x, int k)
{
    int room = std::clamp(c.Degree - multOf(c.Knots.Values(), x), 0, k);
    Curve res = room ? c.InsertKnot(x, room) : c;
    for (; room < k; ++room) res = res.InsertKnot(x);
    return res;
}
static Surface inserted(const Surface& s, bool du, double x, int k)
{
    int room = std::clamp((du ? s.DegreeU : s.DegreeV) - multOf((du ? s.KnotsU : s.KnotsV).Values(), x), 0, k);
    Surface res = !room ? s : du ? s.InsertKnotU(x, room) : s.InsertKnotV(x, room);
    for (; room < k; ++room) res = du ? res.InsertKnotU(x) : res.InsertKnotV(x);
    return res;
}

static void c09(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = tame(r);
    int mode = r.range(0, 5);
    int cap = r.chance(1, 5); // 1: multiplicities up to degree + 1 (a break of the parametrisation)
    o.extraMult = cap;
    if (mode >= 3 && r.chance(1, 3)) o.minGap = r.logu(2e-5, 0.03); // whether anything is removed depends on rounding, but the result may not
    const bool high = r.chance(1, 50), longer = !high && r.chance(1, 80);
    if (high)
    {
        o.minDeg = 8;
        o.maxDeg = mode <= 2 ? 16 : 40;
        if (mode <= 2) o.maxInterior = 0; // the removal divides by ratios of gaps, once per degree
        c.event("high_degrees");
    }
    if (longer)
    {
        o.maxDeg = 3;
        o.huge = 1;
        o.hugeGap = 1e-4;
        if (mode <= 2) mode += 3;
        c.event("long_knot_vectors");
    }
    Curve cv = genCurve(r, o, c.cs);
    scaleWeights(r, cv.ControlPoints);
    int p = cv.Degree;
    double S = scaleOf(cv.ControlPoints);
    auto U = cv.Knots.Values();
    if (mode <= 2)
    {
        // insert, then remove: must give the original back
        double x = pickInsert(r, U, p, o.minGap, p + cap);
        if (high && distinctKnots(U).size() == 2) x = r.uni(0.35, 0.65);
        else if (high) return;
        if (x < 0) return;
        int k = r.range(1, p + cap - multOf(U, x));
        Curve ref = inserted(cv, x, k);
        int extra = mode == 2 ? r.range(0, 3) : 0;
        int times = mode == 1 ? r.range(1, k) : k + extra;
        // never below the rounding of the homogeneous points themselves, which the removal compares
        double tol = std::max(S * r.logu(1e-7, 1e-5), 1e-10 * (1 + S) * weightRatio(cv.ControlPoints));
        c.desc = str(ref) + " after inserting " + std::to_string(x) + " x" + std::to_string(k) + " remove times=" + std::to_string(times) + " tol=" + std::to_string(tol);
        c.sig(mix(sigOf(ref), mix(k, times)));
        setOp("Curve::RemoveKnot");
        const Curve keep = ref;
        auto [out, t] = ref.RemoveKnot(named(c, r, x), times, tol);
        VCHECK(c, sameBits(keep, ref), "remove-operand", "operand changed");
        judgeRemoval(c, ref, out, t, x, times, tol);
        const auto& refU = ref.Knots.Values();
        const bool must = mustComeOut(refU, p, x, k, ref.ControlPoints, tol);
        if (must) VCHECK(c, t >= std::min(times, k), "remove-inserted", "only %d of %d removable copies of knot %.17g were removed (asked %d)", t, k, x, times);
        if (c.caseFailed) return;
        if (t == k)
        {
            double at;
            LD e = maxDev(OCurve(cv), OCurve(out), pin(r, U, p + 2, 120), &at);
            double wl = 1e300;
            for (auto& q : ref.ControlPoints) wl = std::min(wl, q.w());
            VCHECK(c, e <= 2e-8L * S + 4 * removalNoise(refU, p, x, k, ref.ControlPoints) / wl, "remove-roundtrip", "insert+remove moved the curve by %.3Lg", e);
            c.event("insert_remove_round_trips");
            if (must) c.event("removals_demanded");
        }
    }
    else if (mode == 3)
    {
        // perturb one control point of a refined curve: near-threshold removals
        double x = pickInsert(r, U, p, o.minGap, p + cap);
        if (x < 0) return;
        int k = r.range(1, p + cap - multOf(U, x));
        Curve ref = inserted(cv, x, k);
        double tol = S * r.logu(1e-6, 1e-3);
        auto [lo, hi] = around(ref.Knots.Values(), p, x);
        perturb(r, ref.ControlPoints, r.chance(3, 4) ? r.range(lo, hi) : r.range(0, (int)ref.ControlPoints.size() - 1), tol, S);
        int times = r.range(1, k + 1);
        c.desc = str(ref) + " perturbed; remove " + std::to_string(x) + " times=" + std::to_string(times);
        c.sig(mix(sigOf(ref), 1000 + times));
        setOp("Curve::RemoveKnot (perturbed)");
        auto [out, t] = ref.RemoveKnot(named(c, r, x), times, tol);
        judgeRemoval(c, ref, out, t, x, times, tol);
        c.event("perturbed_removals");
    }
    else
    {
        // arbitrary curve, existing (or absent) knot
        auto d = distinctKnots(U);
        double x;
        if (mode == 5 || d.size() <= 2)
        {
            x = pickInsert(r, U, p, o.minGap, 1);
            if (x < 0) return;
            if (mode == 5) c.event("absent_knots");
        }
        else x = d[r.range(1, (int)d.size() - 2)].first;
        int times = r.range(1, p + 2);
        double tol = r.chance(1, 2) ? 1e-12 : S * r.logu(1e-8, 0.3);
        c.desc = str(cv) + " remove " + std::to_string(x) + " times=" + std::to_string(times);
        c.sig(mix(sigOf(cv), 2000 + times));
        setOp("Curve::RemoveKnot (arbitrary)");
        double ask = named(c, r, x);
        if (mode == 5 && r.chance(1, 4)) ask = x = r.chance(1, 2) ? r.logu(1e-16, 9e-7) : std::min(1 - r.logu(1e-16, 9e-7), std::nextafter(1.0, 0.0)); // next to an end
        auto [out, t] = tol == 1e-12 && times == 1 ? cv.RemoveKnot(ask) : cv.RemoveKnot(ask, times, tol);
        judgeRemoval(c, cv, out, t, x, times, tol);
    }
}

static void judgeRemovalS(Ctx& c, const Surface& in, const Surface& out, int t, bool du, double x, int times, double tol)
{
    auto U = (du ? in.KnotsU : in.KnotsV).Values();
    int s = multOf(U, x);
    VCHECK(c, t >= 0 && t <= times && t <= s, "remove-count", "reported %d removals (requested %d, multiplicity %d)", t, times, s);
    if (c.caseFailed) return;
    auto want = U;
    auto it = std::find(want.begin(), want.end(), x);
    if (t > 0) want.erase(it, it + t);
    VCHECK(c, out.DegreeU == in.DegreeU && out.DegreeV == in.DegreeV, "remove-degree", "degree changed");
    VCHECK(c, sameBits((du ? out.KnotsU : out.KnotsV).Values(), want), "remove-knots", "after %d removals the knots are %s", t, str((du ? out.KnotsU : out.KnotsV).Values()).c_str());
    VCHECK(c, sameBits((du ? out.KnotsV : out.KnotsU).Values(), (du ? in.KnotsV : in.KnotsU).Values()), "remove-other-knots", "knots of the other direction changed");
    auto st = structure(out);
    VCHECK(c, st.empty(), "remove-structure", "after %d removals: %s", t, st.c_str());
    if (c.caseFailed) return;
    if (t == 0) VCHECK(c, sameBits(in, out), "remove-none", "nothing removed but the surface changed");
    double S = scaleOf(in.ControlPoints.Values), wu, wv;
    auto us = pin(c.rng, in.KnotsU.Values(), 3, 30), vs = pin(c.rng, in.KnotsV.Values(), 3, 30);
    LD e = maxDev(OSurface(in), OSurface(out), us, vs, c.rng, 50, &wu, &wv);
    // each row stays within tol of its own rational row; mixing rows with different weights amplifies by at most the weight ratio
    LD lim = 2.0L * t * tol * weightRatio(in.ControlPoints.Values) + 1e-9L * S;
    VCHECK(c, e <= lim, "remove-deviation", "%d removals with tolerance %g moved the surface by %.3Lg at (%.17g,%.17g)", t, tol, e, wu, wv);
    c.event(t ? (du ? "removals_done_u" : "removals_done_v") : "removals_refused");
    if (s > (du ? in.DegreeU : in.DegreeV)) c.event(t ? "breaks_removed" : "breaks_kept");
    if (t && t < times) c.event("partial_removals");
}

static void c10(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = tame(r);
    o.maxDeg = 4;
    o.maxInterior = 4;
    int mode = r.range(0, 4);
    int cap = r.chance(1, 5); // 1: multiplicities up to degree + 1
    o.extraMult = cap;
    if (mode >= 3 && r.chance(1, 3)) o.minGap = r.logu(2e-5, 0.03);
    if (mode >= 3 && r.chance(1, 40))
    {
        o.maxDeg = 12;
        c.event("high_degrees");
    }
    if (mode >= 3 && r.chance(1, 60))
    {
        o.huge = 1;
        o.hugeGap = 1e-4;
        c.event("long_knot_vectors");
    }
    Surface s = genSurface(r, o, c.cs);
    scaleWeights(r, s.ControlPoints.Values);
    bool du = r.chance(1, 2);
    int p = du ? s.DegreeU : s.DegreeV;
    auto U = (du ? s.KnotsU : s.KnotsV).Values();
    double S = scaleOf(s.ControlPoints.Values);
    Surface in = s;
    double x;
    int k = 0, times;
    double tol;
    if (mode <= 3)
    {
        x = pickInsert(r, U, p, o.minGap, p + cap);
        if (x < 0) return;
        k = r.range(1, p + cap - multOf(U, x));
        in = inserted(s, du, x, k);
        times = mode == 1 ? k + r.range(0, 2) : r.range(1, k);
        tol = std::max(S * r.logu(1e-7, 1e-5), 1e-10 * (1 + S) * weightRatio(s.ControlPoints.Values)); // above rounding
        if (mode == 3)
        {
            tol = S * r.logu(1e-6, 1e-3);
            auto& G = in.ControlPoints;
            auto [lo, hi] = around((du ? in.KnotsU : in.KnotsV).Values(), p, x);
            int line = r.chance(3, 4) ? r.range(lo, hi) : r.range(0, (du ? G.UCount : G.VCount) - 1), other = r.range(0, (du ? G.VCount : G.UCount) - 1);
            Vec4* at = du ? &G.Get(line, other) : &G.Get(other, line);
            if (r.chance(1, 5))
            {
                // a pole of which only the weights resist
                Vec3 pole = at->head<3>();
                for (int i = 0; i < (du ? G.UCount : G.VCount); ++i) (du ? G.Get(i, other) : G.Get(other, i)).head<3>() = pole;
                at->w() *= 1 + r.logu(1e-3, 1);
                c.event("poles_with_odd_weights");
            }
            else perturb(r, G.Values, int(at - G.Values.data()), tol, S);
        }
    }
    else
    {
        auto d = distinctKnots(U);
        if (d.size() > 2 && r.chance(2, 3)) x = d[r.range(1, (int)d.size() - 2)].first;
        else
        {
            x = pickInsert(r, U, p, o.minGap, 1);
            if (x < 0) return;
            c.event("absent_or_simple_knots");
        }
        times = r.range(1, p + 1);
        tol = r.chance(1, 2) ? 1e-12 : S * r.logu(1e-8, 0.3);
    }
    c.desc = str(in) + (du ? " removeU " : " removeV ") + std::to_string(x) + " times=" + std::to_string(times) + " tol=" + std::to_string(tol) +
             " inserted=" + std::to_string(k);
    c.sig(mix(sigOf(in), mix(du * 8 + mode, times)));
    setOp(du ? "Surface::RemoveKnotU" : "Surface::RemoveKnotV");
    const Surface keep = in;
    double ask = named(c, r, x);
    if (mode == 4 && multOf(U, x) == 0 && r.chance(1, 3)) ask = x = r.chance(1, 2) ? r.logu(1e-16, 9e-7) : std::min(1 - r.logu(1e-16, 9e-7), std::nextafter(1.0, 0.0)); // next to an end
    auto [out, t] = du ? in.RemoveKnotU(ask, times, tol) : in.RemoveKnotV(ask, times, tol);
    VCHECK(c, sameBits(keep, in), "remove-operand", "operand changed");
    judgeRemovalS(c, in, out, t, du, x, times, tol);
    if (mode <= 2 && times <= k && !c.caseFailed)
    {
        if (mustComeOut((du ? in.KnotsU : in.KnotsV).Values(), p, x, k, in.ControlPoints.Values, tol))
        {
            VCHECK(c, t == times, "remove-inserted", "only %d of %d removable copies were removed (asked %d)", t, k, times);
            c.event("removals_demanded");
        }
        c.event("insert_remove_round_trips");
    }
}

static std::vector<double> elevated(const std::vector<double>& U, int times)
{
    std::vector<double> V;
    for (auto& [v, m] : distinctKnots(U)) V.insert(V.end(), m + times, v);
    return V;
}

// relative error granted to an elevation: two orders of magnitude above what rounding costs on the unchanged tree
static LD elevationError(int p)
{
    return p <= 2 ? 1e-11L : p <= 4 ? 1e-9L : 1e-7L;
}
static void c11(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = tame(r);
    o.maxDeg = r.chance(1, 8) ? 8 : 5;
    o.maxInterior = r.chance(1, 8) ? 24 : 8;
    bool narrow = r.chance(1, 4); // knots close together: low degrees only, elevation divides by powers of their distance
    if (narrow) o.maxDeg = 3;
    o.minGap = narrow ? r.logu(3e-6, 1e-2) : r.chance(1, 4) ? 0.004 : 0.02;
    o.extraMult = r.chance(1, 5);
    bool longer = r.chance(1, 60); // many spans, low degree
    if (longer)
    {
        o.maxDeg = 3;
        o.huge = 1;
        o.hugeGap = 5e-5;
    }
    o.wCommon = 1e12;
    o.pCommon = 1e12;
    const bool high = !longer && r.chance(1, 60); // one span or full multiplicities only
    if (high)
    {
        o.minDeg = 8;
        o.maxDeg = 40;
        o.maxInterior = 0;
    }
    Curve cv = genCurve(r, o, c.cs);
    if (high && distinctKnots(cv.Knots.Values()).size() > 2)
    {
        cv.Knots = KnotVector::Uniform(cv.Degree, 2 * cv.Degree + 2);
        cv.ControlPoints.resize(cv.Degree + 1);
    }
    if (high && r.chance(1, 2))
    {
        // several spans, each interior knot of full multiplicity
        int q = cv.Degree, n = r.range(2, 4), m = q + (int)r.chance(1, 4);
        std::vector<double> W(q + 1, 0.0);
        for (int i = 1; i < n; ++i) W.insert(W.end(), m, double(i) / n);
        W.insert(W.end(), q + 1, 1.0);
        cv.Knots = KnotVector(W);
        cv.ControlPoints.resize(W.size() - q - 1);
        genNet(r, cv.ControlPoints, 0, o, r.range(0, 9), r.range(0, 5));
    }
    if (high) c.event("high_degrees");
    const Curve keep = cv;
    int p = cv.Degree;
    int times = high ? r.range(1, 10) : longer ? r.range(1, 2) : p <= 3 && r.chance(1, 20) ? (r.chance(1, 10) ? r.range(20, 42) : r.range(8, 14)) : r.chance(1, 10) ? r.range(4, 7) : r.range(1, 3);
    c.desc = str(cv) + " elevate by " + std::to_string(times);
    c.sig(mix(sigOf(cv), times));
    setOp("Curve::ElevateDegree");
    Curve out = times == 1 && r.chance(1, 2) ? cv.ElevateDegree() : cv.ElevateDegree(times);
    auto U = cv.Knots.Values();
    VCHECK(c, sameBits(keep, cv), "elevate-operand", "operand changed");
    VCHECK(c, out.Degree == p + times, "elevate-degree", "degree is %d, expected %d", out.Degree, p + times);
    VCHECK(c, sameBits(out.Knots.Values(), elevated(U, times)), "elevate-knots", "knots are %s", str(out.Knots.Values(), 80).c_str());
    auto st = structure(out);
    VCHECK(c, st.empty(), "elevate-structure", "result is malformed: %s", st.c_str());
    if (c.caseFailed) return;
    double S = scaleOf(cv.ControlPoints), wr = weightRatio(cv.ControlPoints), at;
    LD e = maxDev(OCurve(cv), OCurve(out), pin(r, U, p + times + 1, 260), &at);
    LD tol = elevationError(p) * S * std::max(1.0, wr / 100);
    c.maxEvent("max_log10_error_x100", (long long)(100 * (16 + std::log10((double)(e / S) + 1e-16))));
    VCHECK(c, e <= tol, "elevate-shape", "shape changed by %.3Lg at %.17g (tolerance %.3Lg)", e, at, tol);
    c.event("elevations");
    c.maxEvent("max_times", times);
    c.maxEvent("max_interior_knots", (long long)distinctKnots(U).size() - 2);
}

static void c12(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = tame(r);
    bool narrow = r.chance(1, 4);
    o.maxDeg = narrow ? 3 : 4;
    o.maxInterior = 5;
    o.minGap = narrow ? r.logu(3e-6, 1e-2) : 0.02;
    o.wCommon = 1e12;
    o.pCommon = 1e12;
    Surface s = genSurface(r, o, c.cs);
    const Surface keep = s;
    bool du = r.chance(1, 2);
    int times = r.chance(1, 15) ? (r.chance(1, 10) ? r.range(20, 32) : r.range(4, 7)) : r.range(1, 3);
    c.desc = str(s) + (du ? " elevateU by " : " elevateV by ") + std::to_string(times);
    c.sig(mix(sigOf(s), times * 2 + du));
    setOp(du ? "Surface::ElevateDegreeU" : "Surface::ElevateDegreeV");
    Surface out = du ? (times == 1 ? s.ElevateDegreeU() : s.ElevateDegreeU(times)) : (times == 1 ? s.ElevateDegreeV() : s.ElevateDegreeV(times));
    VCHECK(c, sameBits(keep, s), "elevate-operand", "operand changed");
    VCHECK(c, out.DegreeU == s.DegreeU + (du ? times : 0) && out.DegreeV == s.DegreeV + (du ? 0 : times), "elevate-degree", "degrees are %d,%d", out.DegreeU, out.DegreeV);
    VCHECK(c, sameBits(out.KnotsU.Values(), du ? elevated(s.KnotsU.Values(), times) : s.KnotsU.Values()), "elevate-knots-u", "u knots are %s", str(out.KnotsU.Values()).c_str());
    VCHECK(c, sameBits(out.KnotsV.Values(), du ? s.KnotsV.Values() : elevated(s.KnotsV.Values(), times)), "elevate-knots-v", "v knots are %s", str(out.KnotsV.Values()).c_str());
    auto st = structure(out);
    VCHECK(c, st.empty(), "elevate-structure", "result is malformed: %s", st.c_str());
    if (c.caseFailed) return;
    double S = scaleOf(s.ControlPoints.Values), wr = weightRatio(s.ControlPoints.Values), wu, wv;
    auto us = pin(r, s.KnotsU.Values(), s.DegreeU + 2, 40), vs = pin(r, s.KnotsV.Values(), s.DegreeV + 2, 40);
    LD e = maxDev(OSurface(s), OSurface(out), us, vs, r, 70, &wu, &wv);
    LD tol = elevationError(du ? s.DegreeU : s.DegreeV) * S * std::max(1.0, wr / 100);
    VCHECK(c, e <= tol, "elevate-shape", "shape changed by %.3Lg at (%.17g,%.17g) (tolerance %.3Lg)", e, wu, wv, tol);
    c.event(du ? "elevations_u" : "elevations_v");
}

static void c13(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = r.chance(1, 8) ? 9 : 6;
    o.minGap = r.chance(1, 3) ? r.logu(1e-11, 1e-5) : 1e-2;
    o.extraMult = r.chance(1, 2);
    o.huge = 400;
    o.wCommon = 1e12;
    o.pCommon = 1e12;
    o.high = 4000;
    Curve cv = genCurve(r, o, c.cs);
    const Curve keep = cv;
    int p = cv.Degree;
    c.desc = str(cv);
    c.sig(sigOf(cv));
    setOp("Curve::ExtractBezier");
    auto seg = cv.ExtractBezier();
    VCHECK(c, sameBits(keep, cv), "bezier-operand", "operand changed");
    auto d = distinctKnots(cv.Knots.Values());
    VCHECK(c, seg.size() + 1 == d.size(), "bezier-count", "%zu pieces for %zu non-empty knot spans", seg.size(), d.size() - 1);
    if (c.caseFailed) return;
    OCurve ref(cv);
    double S = scaleOf(cv.ControlPoints), wr = weightRatio(cv.ControlPoints);
    LD tol = S * (1e-10L + 1e-14L * wr);
    for (size_t i = 0; i < seg.size(); ++i)
    {
        std::vector<double> bz(p + 1, 0.0);
        bz.insert(bz.end(), p + 1, 1.0);
        VCHECK(c, seg[i].Degree == p && sameBits(seg[i].Knots.Values(), bz) && (int)seg[i].ControlPoints.size() == p + 1, "bezier-form", "piece %zu is not a Bezier curve of degree %d", i, p);
        auto st = structure(seg[i]);
        VCHECK(c, st.empty(), "bezier-structure", "piece %zu: %s", i, st.c_str());
        if (c.caseFailed) return;
        OCurve b(seg[i]);
        LD a0 = d[i].first, a1 = d[i + 1].first;
        int n = seg.size() > 40 ? 2 : p + 2;
        for (int j = 0; j <= n; ++j)
        {
            LD t = (LD)j / (n + 1); // half-open: the right end belongs to the next piece
            LD x = a0 + (a1 - a0) * t;
            t = (x - a0) / (a1 - a0); // undo the rounding of x, which matters on tiny spans
            LD e = dist(b.eval(t), ref.eval(x));
            VCHECK(c, e <= tol, "bezier-shape", "piece %zu at t=%.6Lg differs from the curve by %.3Lg (tolerance %.3Lg)", i, t, e, tol);
        }
        if (i + 1 < seg.size() && d[i + 1].second <= p)
        {
            LD e = dist(b.eval(1.0L), ref.eval(a1));
            VCHECK(c, e <= tol, "bezier-join", "piece %zu does not end at the curve point of knot %.17Lg", i, a1);
        }
        else if (i + 1 == seg.size())
        {
            LD e = dist(b.eval(1.0L), ref.eval(1.0L));
            VCHECK(c, e <= tol, "bezier-end", "the last piece does not end at the curve's end");
        }
        else c.event("discontinuous_joins");
        c.event("bezier_pieces");
    }
}

static Register r7("C07", c07), r8("C08", c08), r9("C09", c09), r10("C10", c10), r11("C11", c11), r12("C12", c12), r13("C13", c13);
