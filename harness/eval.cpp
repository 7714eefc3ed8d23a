// C01 curve evaluation, C02 surface evaluation, C03 basis functions, C05/C06 derivatives.
#include "common.hpp"
using namespace vf;
using libnurbs::BSplineBasis;
using libnurbs::Grid;
using libnurbs::MatX;
using libnurbs::VecX;

static GenOpt evalOpt(Rng& r)
{
    GenOpt o;
    o.maxDeg = r.chance(1, 150) ? 40 : r.chance(1, 40) ? 20 : r.chance(1, 10) ? 12 : 7;
    o.maxInterior = r.chance(1, 8) ? 20 : 8;
    o.extraMult = 1;
    if (r.chance(1, 4)) o.minGap = r.logu(1e-14, 1e-7);
    if (r.chance(1, 6)) { o.wLo = 1e-6; o.wHi = 1e6; }
    o.huge = 300;
    o.wCommon = 1e15;
    o.pCommon = 1e12;
    o.high = 1000;
    o.vast = 1500;
    return o;
}

static void c01(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = evalOpt(r);
    Curve cv = genCurve(r, o, c.cs);
    c.desc = str(cv);
    c.sig(sigOf(cv));
    OCurve orc(cv);
    const double S = scaleOf(cv.ControlPoints);
    auto xs = genParams(r, cv.Knots.Values(), 8);
    for (double x : xs)
    {
        setOp("Curve::Evaluate");
        Vec3 got = cv.Evaluate(x);
        auto want = orc.eval(x);
        c.event("curve_evaluations");
        VCHECK(c, dist(got, want) <= 1e-11L * S, "curve-eval", "Evaluate(%.17g) = (%.17g %.17g %.17g), definition gives (%.17Lg %.17Lg %.17Lg)",
               x, got.x(), got.y(), got.z(), want[0], want[1], want[2]);
        // convex hull property per coordinate over the active control points
        auto all = cv.EvaluateAll(x, 0);
        VCHECK(c, all.size() == 1 && dist(all[0], want) <= 1e-11L * S, "curve-evalall0", "EvaluateAll(x,0) disagrees with the definition at %.17g", x);
    }
    // end-point interpolation of a clamped curve
    Vec3 a = cv.Evaluate(0.0), b = cv.Evaluate(1.0);
    VCHECK(c, (a - cv.ControlPoints.front().head<3>()).cwiseAbs().maxCoeff() <= 1e-13 * S, "curve-start", "Evaluate(0) is not the first control point");
    VCHECK(c, (b - cv.ControlPoints.back().head<3>()).cwiseAbs().maxCoeff() <= 1e-13 * S, "curve-end", "Evaluate(1) is not the last control point");
    c.maxEvent("max_degree", cv.Degree);
    c.maxEvent("max_control_points", (long long)cv.ControlPoints.size());
}

static void c02(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = evalOpt(r);
    o.maxInterior = r.chance(1, 8) ? 12 : 5;
    Surface s = genSurface(r, o, c.cs);
    c.desc = str(s);
    c.sig(sigOf(s));
    OSurface orc(s);
    const double S = scaleOf(s.ControlPoints.Values);
    auto us = genParams(r, s.KnotsU.Values(), 3, 5), vs = genParams(r, s.KnotsV.Values(), 3, 5);
    int n = 18;
    for (int k = 0; k < n; ++k)
    {
        double u = us[r.range(0, (int)us.size() - 1)], v = vs[r.range(0, (int)vs.size() - 1)];
        if (r.chance(1, 6)) v = u;
        if (k < 4) { u = k & 1; v = k >> 1; }
        setOp("Surface::Evaluate");
        Vec3 got = s.Evaluate(u, v);
        auto want = orc.eval(u, v);
        c.event("surface_evaluations");
        VCHECK(c, dist(got, want) <= 1e-11L * S, "surface-eval", "Evaluate(%.17g,%.17g) = (%.17g %.17g %.17g), definition gives (%.17Lg %.17Lg %.17Lg)",
               u, v, got.x(), got.y(), got.z(), want[0], want[1], want[2]);
        setOp("Surface::EvaluateAll");
        auto all = s.EvaluateAll(u, v, 0, 0);
        VCHECK(c, all.UCount == 1 && all.VCount == 1 && all.Values.size() == 1 && dist(all.Get(0, 0), want) <= 1e-11L * S, "surface-evalall0",
               "EvaluateAll(u,v,0,0) disagrees at (%.17g,%.17g)", u, v);
    }
    int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    for (int k = 0; k < 4; ++k)
    {
        Vec3 p = s.ControlPoints.Get(k & 1 ? nu - 1 : 0, k & 2 ? nv - 1 : 0).head<3>();
        Vec3 e = s.Evaluate(k & 1, (k >> 1) & 1);
        VCHECK(c, (p - e).cwiseAbs().maxCoeff() <= 1e-13 * S, "surface-corner", "corner %d is not interpolated", k);
    }
}

// reference basis values/derivatives by evaluating unit control points with the oracle
static void oBasis(const std::vector<double>& U, int p, int k, LD x, int order, std::vector<LD>& val, std::vector<LD>& mag)
{
    val.assign((order + 1) * (p + 1), 0);
    mag.assign((order + 1) * (p + 1), 0);
    int n = (int)U.size() - p - 1;
    std::vector<H4> P(n, H4{});
    for (int i0 = 0; i0 <= p; i0 += 4)
    {
        for (auto& h : P) h = {};
        for (int c = 0; c < 4 && i0 + c <= p; ++c) P[k - p + i0 + c][c] = 1;
        for (int d = 0; d <= order && d <= p; ++d)
        {
            HVal h = oCurveH(U, p, P, P, k, x, d);
            for (int c = 0; c < 4 && i0 + c <= p; ++c)
            {
                val[d * (p + 1) + i0 + c] = h.v[c];
                mag[d * (p + 1) + i0 + c] = h.mag[c];
            }
        }
    }
}

static void c03(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o = evalOpt(r);
    int nd = o.maxDeg;
    if (nd > 20) o.minGap = std::max(o.minGap, 1e-4); // keep gap^-order inside the range of double
    int p = 1 + int(c.cs % nd);
    const bool high = r.chance(1, 1000);
    if (high)
    {
        p = r.range(41, 130);
        o.minGap = std::max(o.minGap, 1e-2);
    }
    auto U = genKnots(r, p, o, int(c.cs / nd) % 10, r.range(1, r.chance(1, 20) ? 60 : 10));
    if (r.chance(1, 300)) U = genLongKnots(r, p, (int)r.logu(150, 3000));
    KnotVector kv(U);
    c.desc = "p=" + std::to_string(p) + " U=" + str(U);
    uint64_t h = p;
    for (auto& [v, m] : distinctKnots(U)) h = mix(h, m);
    c.sig(h);
    auto xs = genParams(r, U, 5);
    if (high && xs.size() > 8) xs.erase(xs.begin() + 2, xs.end() - 6);
    for (double x : xs)
    {
        int k = oSpan(U, p, x);
        int order = high ? (r.chance(1, 60) ? p + 1 : r.range(0, 4)) : r.chance(1, 3) ? p + r.range(0, 3) : r.range(0, p);
        std::vector<LD> val, mag;
        oBasis(U, p, k, x, order, val, mag);
        setOp("BSplineBasis::Evaluate");
        VecX a = BSplineBasis::Evaluate(p, kv, x), b = BSplineBasis::Evaluate(p, U, k, x);
        setOp("BSplineBasis::EvaluateAll");
        MatX A = BSplineBasis::EvaluateAll(p, kv, x, order), B = BSplineBasis::EvaluateAll(p, U, k, x, order);
        int od = r.range(0, order);
        setOp("BSplineBasis::EvaluateDerivative");
        VecX D = BSplineBasis::EvaluateDerivative(p, kv, x, od), E = BSplineBasis::EvaluateDerivative(p, U, k, x, od);
        c.event("basis_evaluations");
        bool shape = a.size() == p + 1 && b.size() == p + 1 && A.rows() == order + 1 && A.cols() == p + 1 && B.rows() == order + 1 &&
                     B.cols() == p + 1 && D.size() == p + 1 && E.size() == p + 1;
        VCHECK(c, shape, "basis-shape", "wrong result dimensions at x=%.17g order=%d", x, order);
        if (!shape) return;
        // products of tiny basis values underflow in double, not in long double: a floor relative to the row
        std::vector<LD> rowMag(order + 1, 0.0L);
        for (int d = 0; d <= order; ++d)
            for (int i = 0; i <= p; ++i) rowMag[d] = std::max(rowMag[d], mag[d * (p + 1) + i]);
        double sum = 0;
        for (int i = 0; i <= p; ++i)
        {
            LD w = val[i];
            sum += a[i];
            LD t = 1e-11L;
            VCHECK(c, a[i] >= -1e-15 && std::fabs((LD)a[i] - w) <= t && std::fabs((LD)b[i] - w) <= t, "basis-value",
                   "N[%d](%.17g) = %.17g / %.17g, definition %.17Lg", i, x, a[i], b[i], w);
            for (int d = 0; d <= order; ++d)
            {
                if (rowMag[d] > 1e280L) continue; // leaves the range of double
                LD wd = val[d * (p + 1) + i], md = mag[d * (p + 1) + i];
                LD td = 1e-10L * md + 1e-100L * rowMag[d] + 1e-290L + 1e-13L * (d == 0);
                VCHECK(c, std::fabs((LD)A(d, i) - wd) <= td && std::fabs((LD)B(d, i) - wd) <= td, "basis-derivative",
                       "derivative order %d of N[%d] at %.17g = %.17g / %.17g, definition %.17Lg (order requested %d)", d, i, x, A(d, i), B(d, i), wd, order);
            }
            LD wd = val[od * (p + 1) + i], td = 1e-10L * mag[od * (p + 1) + i] + 1e-100L * rowMag[od] + 1e-290L + 1e-13L * (od == 0);
            VCHECK(c, rowMag[od] > 1e280L || (std::fabs((LD)D[i] - wd) <= td && std::fabs((LD)E[i] - wd) <= td), "basis-derivative-single",
                   "EvaluateDerivative order %d of N[%d] at %.17g = %.17g / %.17g, definition %.17Lg", od, i, x, D[i], E[i], wd);
        }
        VCHECK(c, std::fabs(sum - 1) <= 1e-12, "basis-unity", "basis sums to %.17g at %.17g", sum, x);
        c.maxEvent("max_order", order);
        if (order > p) c.event("orders_above_degree");
    }
    c.maxEvent("max_degree", p);
}

static void c05(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = r.chance(1, 300) ? 45 : r.chance(1, 30) ? 14 : r.chance(1, 10) ? 10 : 6;
    o.huge = 400;
    o.minGap = r.chance(1, 2) || o.maxDeg > 14 ? 1e-2 : 1e-5;
    o.wLo = 1e-2;
    o.wHi = 1e2;
    o.extraMult = 1;
    o.wCommon = 1e15;
    o.pCommon = 1e12;
    Curve cv = genCurve(r, o, c.cs);
    c.desc = str(cv);
    c.sig(sigOf(cv));
    OCurve orc(cv);
    int p = cv.Degree;
    for (double x : genParams(r, cv.Knots.Values(), 4, 6))
    {
        int order = r.chance(1, 100) ? r.range(10, 40) : r.chance(1, 4) ? p + r.range(1, 4) : r.range(0, p);
        std::vector<std::array<LD, 3>> d, m;
        orc.derivs(x, order, d, m);
        setOp("Curve::EvaluateAll");
        auto got = cv.EvaluateAll(x, order);
        c.event("derivative_vectors", order + 1);
        VCHECK(c, (int)got.size() == order + 1, "curve-deriv-size", "EvaluateAll(x,%d) returned %zu vectors", order, got.size());
        if ((int)got.size() != order + 1) return;
        int od = r.range(0, order);
        setOp("Curve::EvaluateDerivative");
        Vec3 single = cv.EvaluateDerivative(x, od);
        auto near = [&](const Vec3& g, int k) {
            for (int i = 0; i < 3; ++i)
                if (m[k][i] < 1e280L && !(std::fabs((LD)g[i] - d[k][i]) <= 1e-10L * m[k][i] + 1e-290L)) return false;
            return true;
        };
        for (int k = 0; k <= order; ++k)
            VCHECK(c, near(got[k], k), "curve-deriv", "derivative %d (of %d requested) at %.17g = (%.17g %.17g %.17g), definition (%.17Lg %.17Lg %.17Lg)", k,
                   order, x, got[k].x(), got[k].y(), got[k].z(), d[k][0], d[k][1], d[k][2]);
        VCHECK(c, near(single, od), "curve-deriv-single", "EvaluateDerivative(%.17g,%d) = (%.17g %.17g %.17g), definition (%.17Lg %.17Lg %.17Lg)", x, od,
               single.x(), single.y(), single.z(), d[od][0], d[od][1], d[od][2]);
        c.maxEvent("max_order", order);
        if (order > p) c.event("orders_above_degree");
    }
}

static void c06(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = r.chance(1, 500) ? 24 : r.chance(1, 10) ? 8 : 5;
    o.huge = 400;
    o.minGap = r.chance(1, 2) ? 1e-2 : 1e-4;
    o.maxInterior = 4;
    o.wLo = 1e-2;
    o.wHi = 1e2;
    o.extraMult = 1;
    o.wCommon = 1e15;
    o.pCommon = 1e12;
    o.vast = 3000;
    Surface s = genSurface(r, o, c.cs);
    c.desc = str(s);
    c.sig(sigOf(s));
    OSurface orc(s);
    auto us = genParams(r, s.KnotsU.Values(), 3, 5), vs = genParams(r, s.KnotsV.Values(), 3, 5);
    for (int k = 0; k < 6; ++k)
    {
        double u = us[r.range(0, (int)us.size() - 1)], v = vs[r.range(0, (int)vs.size() - 1)];
        if (r.chance(1, 6)) v = u;
        int ou = r.range(0, std::min(s.DegreeU + 2, 6)), ov = r.range(0, std::min(s.DegreeV + 2, 6));
        if (r.chance(1, 400))
        {
            ou = r.range(7, r.chance(1, 4) ? 34 : 24);
            ov = r.range(7, r.chance(1, 4) ? 34 : 24);
            c.event("very_high_orders");
        }
        std::vector<std::array<LD, 3>> d, m;
        orc.derivs(u, v, ou, ov, d, m);
        setOp("Surface::EvaluateAll");
        auto got = s.EvaluateAll(u, v, ou, ov);
        bool ok = got.UCount == ou + 1 && got.VCount == ov + 1 && (int)got.Values.size() == (ou + 1) * (ov + 1);
        VCHECK(c, ok, "surface-deriv-size", "EvaluateAll(u,v,%d,%d) has wrong dimensions", ou, ov);
        if (!ok) return;
        c.event("derivative_vectors", (ou + 1) * (ov + 1));
        auto near = [&](const Vec3& g, int i, int j) {
            for (int q = 0; q < 3; ++q)
                if (m[i * (ov + 1) + j][q] < 1e280L && !(std::fabs((LD)g[q] - d[i * (ov + 1) + j][q]) <= 1e-10L * m[i * (ov + 1) + j][q] + 1e-290L)) return false;
            return true;
        };
        for (int i = 0; i <= ou; ++i)
            for (int j = 0; j <= ov; ++j)
            {
                auto& w = d[i * (ov + 1) + j];
                auto& g = got.Get(i, j);
                VCHECK(c, near(g, i, j), "surface-deriv", "derivative (%d,%d) of (%d,%d) at (%.17g,%.17g) = (%.17g %.17g %.17g), definition (%.17Lg %.17Lg %.17Lg)", i,
                       j, ou, ov, u, v, g.x(), g.y(), g.z(), w[0], w[1], w[2]);
                if (i && j) c.event("mixed_partials");
            }
        int a = r.range(0, ou), b = r.range(0, ov);
        setOp("Surface::EvaluateDerivative");
        Vec3 g = s.EvaluateDerivative(u, v, a, b);
        VCHECK(c, near(g, a, b), "surface-deriv-single", "EvaluateDerivative(%.17g,%.17g,%d,%d) disagrees with the definition", u, v, a, b);
    }
}

static Register r1("C01", c01), r2("C02", c02), r3("C03", c03), r5("C05", c05), r6("C06", c06);
