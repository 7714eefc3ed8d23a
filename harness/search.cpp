// C15 parameter search on curves, C16 parameter search on surfaces.
#include "common.hpp"

namespace vf
{
namespace
{
// shapes whose parametrisation is close to uniform: control points at the Greville abscissae, disturbed by `amp`
std::vector<double> niceKnots(Rng& r, int p, int n)
{
    std::vector<double> U(p + 1, 0.0);
    int m = n - p - 1;
    for (int i = 1; i <= m; ++i) U.push_back((i + 0.2 * (r.unit() - 0.5)) / (m + 1));
    U.insert(U.end(), p + 1, 1.0);
    return U;
}
std::vector<double> greville(const std::vector<double>& U, int p)
{
    std::vector<double> g;
    for (int i = 0; i + p + 1 < (int)U.size(); ++i)
    {
        double s = 0;
        for (int k = 1; k <= p; ++k) s += U[i + k];
        g.push_back(s / p);
    }
    return g;
}
Eigen::Matrix3d randomRotation(Rng& r)
{
    Eigen::Quaterniond q(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    if (q.norm() < 0.1) q = Eigen::Quaterniond::Identity();
    return q.normalized().toRotationMatrix();
}
Curve niceCurve(Rng& r, double amp, double w, double scale, int pmax = 5)
{
    Curve c;
    int p = r.range(1, pmax), n = p + 1 + r.range(0, 6);
    auto U = niceKnots(r, p, n);
    auto g = greville(U, p);
    c.Degree = p;
    c.Knots.Values() = U;
    auto R = randomRotation(r);
    Vec3 o(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    for (int i = 0; i < n; ++i)
    {
        Vec3 q(g[i] + amp * r.uni(-1, 1) / n, amp * r.uni(-1, 1) / n, amp * r.uni(-1, 1) / n);
        q = (R * q + o) * scale;
        c.ControlPoints.push_back(Vec4(q.x(), q.y(), q.z(), w > 0 ? std::exp(r.uni(-w, w)) : 1.0));
    }
    return c;
}
Surface niceSurface(Rng& r, double amp, double w, double scale)
{
    Surface s;
    int p = r.range(1, 4), q = r.range(1, 4), nu = p + 1 + r.range(0, 5), nv = q + 1 + r.range(0, 5);
    s.DegreeU = p;
    s.DegreeV = q;
    s.KnotsU.Values() = niceKnots(r, p, nu);
    s.KnotsV.Values() = niceKnots(r, q, nv);
    auto gu = greville(s.KnotsU.Values(), p), gv = greville(s.KnotsV.Values(), q);
    s.ControlPoints.UCount = nu;
    s.ControlPoints.VCount = nv;
    auto R = randomRotation(r);
    Vec3 o(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    for (int j = 0; j < nv; ++j)
        for (int i = 0; i < nu; ++i)
        {
            Vec3 x(gu[i] + amp * r.uni(-1, 1) / nu, gv[j] + amp * r.uni(-1, 1) / nv, amp * r.uni(-1, 1) / std::max(nu, nv));
            x = (R * x + o) * scale;
            s.ControlPoints.Values.push_back(Vec4(x.x(), x.y(), x.z(), w > 0 ? std::exp(r.uni(-w, w)) : 1.0));
        }
    return s;
}
double anyParam(Rng& r) { return r.chance(1, 6) ? (r.chance(1, 2) ? 0.0 : 1.0) : r.unit(); }
bool in01(double x) { return x >= 0 && x <= 1; }
constexpr double PAD = 1e-13; // rounding of the residual itself, relative to the size of the shape

// ================================================================ C15
void curveNice(Ctx& c)
{
    Rng& r = c.rng;
    bool straight = r.chance(1, 3);
    double sc = straight ? r.logu(0.1, 1000) : r.logu(0.8, 1.25);
    Curve k = niceCurve(r, straight ? 0 : 0.04, straight ? 0 : 0.04, sc);
    const Curve copy = k;
    double u = anyParam(r);
    Vec3 P = k.Evaluate(u);
    c.desc = "u=" + std::to_string(u) + " " + str(k);
    auto res = [&](double x) { return (k.Evaluate(x) - P).norm(); };
    // default arguments, interior start, end start, own accuracy
    setOp("Curve::SearchParameter");
    double eps = 1e-8;
    double x = k.SearchParameter(P);
    VCHECK(c, in01(x) && res(x) < eps + PAD * sc, "default", "search with default arguments returned %.17g at distance %g", x, res(x));
    double init = r.uni(0.02, 0.98);
    x = k.SearchParameter(P, init);
    VCHECK(c, in01(x) && res(x) < eps + PAD * sc, "init", "search from %g returned %.17g at distance %g", init, x, res(x));
    eps = r.logu(1e-10, 1e-2) * sc;
    x = k.SearchParameter(P, init, eps);
    VCHECK(c, in01(x) && res(x) < eps + PAD * sc, "epsilon", "search with epsilon %g returned %.17g at distance %g", eps, x, res(x));
    x = k.SearchParameter(P, init, 1e-8, 60);
    VCHECK(c, in01(x) && res(x) < 1e-8 + PAD * sc, "iterations", "search with 60 iterations returned %.17g at distance %g", x, res(x));
    if (straight)
    {
        double e = r.chance(1, 2) ? 0 : 1;
        x = k.SearchParameter(P, e);
        VCHECK(c, in01(x) && res(x) < 1e-8 + PAD * sc, "end-init", "search from %g returned %.17g at distance %g", e, x, res(x));
        // nearest point for targets off the segment
        Vec3 a = k.ControlPoints.front().head<3>(), b = k.ControlPoints.back().head<3>(), d = b - a;
        double t = r.uni(-0.3, 1.3);
        Vec3 side = d.unitOrthogonal();
        Vec3 Q = a + t * d + side * (r.uni(0.05, 0.5) * sc);
        double foot = std::clamp(t, 0.0, 1.0);
        x = k.SearchParameter(Q, init);
        VCHECK(c, std::fabs(x - foot) < 1e-4, "projection", "nearest parameter of an outside point is %.17g, search from %g says %.17g", foot, init, x);
        setOp("Curve::BinarySearchParameter");
        x = k.BinarySearchParameter(Q);
        VCHECK(c, std::fabs(x - foot) < 1e-4, "projection-b", "nearest parameter of an outside point is %.17g, bisection says %.17g", foot, x);
        c.event("projections");
    }
    setOp("Curve::BinarySearchParameter");
    x = k.BinarySearchParameter(P);
    VCHECK(c, in01(x) && res(x) < 4e-8 * sc + PAD * sc, "bisection", "bisection returned %.17g at distance %g", x, res(x));
    double be = r.logu(1e-9, 1e-3);
    x = k.BinarySearchParameter(P, be);
    VCHECK(c, in01(x) && res(x) < 4 * std::max(be, 1e-8) * std::max(1.0, sc), "bisection-eps", "bisection with epsilon %g returned %.17g at distance %g", be, x, res(x));
    VCHECK(c, sameBits(k, copy), "operand", "search changed its curve");
    c.event("searches", 6);
    c.sig(mix(sigOf(k), c.rng.next()));
}
void curveMonotone(Ctx& c) // bisection on curves that advance steadily, any scale
{
    Rng& r = c.rng;
    double sc = r.logu(1e-2, 1e4);
    Curve k = niceCurve(r, 0.1, 0.1, sc);
    double u = anyParam(r);
    Vec3 P = k.Evaluate(u);
    c.desc = "u=" + std::to_string(u) + " " + str(k);
    setOp("Curve::BinarySearchParameter");
    double x = k.BinarySearchParameter(P);
    double d = (k.Evaluate(x) - P).norm();
    VCHECK(c, in01(x) && d < 4e-8 * sc, "bisection", "bisection returned %.17g at distance %g (scale %g)", x, d, sc);
    VCHECK(c, std::fabs(x - u) < 1e-7, "bisection-u", "bisection returned %.17g for the point at %.17g", x, u);
    // a monotone but strongly non-uniform, possibly rational planar graph y(x) with x strictly increasing
    c.event("searches");
    c.sig(mix(sigOf(k), c.rng.next()));
}
void curveAnything(Ctx& c) // hostile shapes: result is a parameter, terminates, memory clean; start at the solution stays there
{
    Rng& r = c.rng;
    GenOpt o;
    Curve k = genCurve(r, o, c.cs);
    double u = anyParam(r);
    c.desc = str(k);
    Vec3 P = r.chance(1, 2) ? k.Evaluate(u) : Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * r.logu(1e-3, 1e6);
    double init = anyParam(r), eps = r.logu(1e-12, 1);
    int it = r.chance(1, 3) ? r.range(0, 3) : r.range(4, 60);
    setOp("Curve::SearchParameter(any)");
    double x = k.SearchParameter(P, init, eps, it);
    VCHECK(c, in01(x), "range", "search returned %.17g", x);
    setOp("Curve::BinarySearchParameter(any)");
    x = k.BinarySearchParameter(P, eps, it);
    VCHECK(c, in01(x), "range", "bisection returned %.17g", x);
    VCHECK(c, k.SearchParameter(P, init, eps, 0) == init, "budget", "search without iterations left its start");
    VCHECK(c, k.BinarySearchParameter(P, eps, 0) == 0.5, "budget", "bisection without iterations left the middle");
    c.event("searches", 4);
    GenOpt t;
    t.related = 0;
    t.maxScale = 10;
    t.wLo = 0.2;
    t.wHi = 5;
    t.minGap = 1e-2;
    t.maxDeg = 4;
    t.big = false;
    Curve m = genCurve(r, t, c.cs);
    if (scaleOf(m.ControlPoints) > 10) return;
    u = anyParam(r);
    P = m.Evaluate(u);
    c.desc = "u=" + std::to_string(u) + " " + str(m);
    x = m.SearchParameter(P, u);
    double d = (m.Evaluate(x) - P).norm();
    VCHECK(c, d < 1e-8, "stay", "search started at the solution %.17g ended at %.17g, distance %g", u, x, d);
    c.event("searches_from_solution");
    c.sig(mix(sigOf(k), sigOf(m)));
}
void curvePopulation(Ctx& c) // ordinary shapes of very different size: nearly all searches succeed
{
    Rng& r = c.rng;
    int n = 120, bad = 0, badB = 0, badC = 0, early = 0, earlyB = 0;
    c.desc = "population of 120 ordinary curves, amp 0.3, weights e^+-0.3, scale 0.1..1000";
    setOp("Curve::SearchParameter(population)");
    for (int i = 0; i < n; ++i)
    {
        double sc = r.logu(0.3, 1000);
        Curve k = niceCurve(r, 0.3, 0.3, sc);
        Vec3 P = k.Evaluate(r.uni(0.02, 0.98));
        double x = k.SearchParameter(P, 0.5, 1e-8 * sc, 200);
        if (!((k.Evaluate(x) - P).norm() < 1e-8 * sc + PAD * sc)) ++bad;
        x = k.BinarySearchParameter(P);
        if (!((k.Evaluate(x) - P).norm() < 1e-7 * sc)) ++badB;
        // coarse accuracy: reached while the steps are still large
        double eps = r.logu(1e-4, 1e-2) * sc;
        x = k.SearchParameter(P, r.uni(0.02, 0.98), eps, 200);
        if (!((k.Evaluate(x) - P).norm() < eps)) ++badC;
        // a budget that is too small for (nearly) all of them
        x = k.SearchParameter(P, 0.5, 1e-10 * sc, 1);
        if ((k.Evaluate(x) - P).norm() < 1e-10 * sc) ++early;
        x = k.BinarySearchParameter(P, 1e-8, 4);
        if ((k.Evaluate(x) - P).norm() < 1e-8 * sc) ++earlyB;
    }
    VCHECK(c, early <= n / 2 && earlyB <= n / 2, "budget", "%d and %d of %d searches on ordinary curves were through after 1 and 4 iterations", early, earlyB, n);
    c.maxEvent("max_population_early_of_120", std::max(early, earlyB));
    VCHECK(c, bad <= n / 5, "population", "%d of %d searches on ordinary curves failed", bad, n);
    VCHECK(c, badC <= n / 5, "population-coarse", "%d of %d searches with coarse accuracy on ordinary curves failed", badC, n);
    c.maxEvent("max_population_coarse_failures_of_120", badC);
    VCHECK(c, badB <= n / 10, "population-b", "%d of %d bisections on ordinary curves failed", badB, n);
    c.event("population_searches", n);
    c.maxEvent("max_population_failures_of_120", bad);
    c.maxEvent("max_population_bisection_failures_of_120", badB);
    c.sig(c.rng.next());
}
void c15(Ctx& c)
{
    switch (c.cs % 16)
    {
    case 0: return curvePopulation(c);
    case 1: case 2: case 3: case 4: case 5: return curveAnything(c);
    case 6: case 7: case 8: return curveMonotone(c);
    default: return curveNice(c);
    }
}
Register r15("C15", c15);

// ================================================================ C16
void surfNice(Ctx& c)
{
    Rng& r = c.rng;
    bool flat = r.chance(1, 3);
    double sc = flat ? r.logu(0.1, 10) : r.logu(0.8, 1.25);
    Surface k = niceSurface(r, flat ? 0 : 0.04, flat ? 0 : 0.04, sc);
    const Surface copy = k;
    double u = anyParam(r), v = anyParam(r);
    Vec3 P = k.Evaluate(u, v);
    c.desc = "uv=" + std::to_string(u) + "," + std::to_string(v) + " " + str(k);
    using UV = std::pair<double, double>;
    auto res = [&](UV x) { return (k.Evaluate(x.first, x.second) - P).norm(); };
    auto ok = [&](UV x) { return in01(x.first) && in01(x.second); };
    setOp("Surface::SearchParameter");
    UV x = k.SearchParameter(P);
    double pad = PAD * sc;
    VCHECK(c, ok(x) && res(x) < 1e-8 + pad, "default", "search with default arguments returned (%.17g, %.17g) at distance %g", x.first, x.second, res(x));
    double iu = r.uni(0.03, 0.97), iv = r.uni(0.03, 0.97), eps = r.logu(1e-10, 1e-2) * sc;
    x = k.SearchParameter(P, iu, iv);
    VCHECK(c, ok(x) && res(x) < 1e-8 + pad, "init", "search from (%g, %g) returned (%.17g, %.17g) at distance %g", iu, iv, x.first, x.second, res(x));
    x = k.SearchParameter(P, iu, iv, eps, 100);
    VCHECK(c, ok(x) && res(x) < eps + pad, "epsilon", "search with epsilon %g returned (%.17g, %.17g) at distance %g", eps, x.first, x.second, res(x));
    for (int dir = 0; dir < 2; ++dir)
    {
        double fix = dir == 0 ? u : v, oth = dir == 0 ? v : u;
        auto fixed = [&](UV y) { return dir == 0 ? y.first : y.second; };
        setOp("Surface::SearchParameterOn");
        for (int t = 0; t < 3; ++t)
        {
            double e = t == 2 ? eps : 1e-8;
            x = t == 0 ? k.SearchParameterOn(P, dir, fix) : k.SearchParameterOn(P, dir, fix, iu, e, 200);
            VCHECK(c, ok(x) && sameBits(fixed(x), fix) && res(x) < e + pad, "on", "search with %s=%.17g fixed returned (%.17g, %.17g) at distance %g, epsilon %g",
                   dir == 0 ? "u" : "v", fix, x.first, x.second, res(x), e);
        }
        setOp("Surface::BinarySearchParameterOn");
        x = k.BinarySearchParameterOn(P, dir, fix);
        VCHECK(c, ok(x) && sameBits(fixed(x), fix) && res(x) < 4e-8 * sc + pad, "bisection", "bisection with %s=%.17g fixed returned (%.17g, %.17g) at distance %g",
               dir == 0 ? "u" : "v", fix, x.first, x.second, res(x));
        double got = dir == 0 ? x.second : x.first;
        VCHECK(c, std::fabs(got - oth) < 1e-7, "bisection-uv", "bisection with %s=%.17g fixed returned %.17g for %.17g", dir == 0 ? "u" : "v", fix, got, oth);
        double be = r.logu(1e-9, 1e-3);
        x = k.BinarySearchParameterOn(P, dir, fix, be);
        VCHECK(c, ok(x) && sameBits(fixed(x), fix) && res(x) < 4 * std::max(be, 1e-8) * std::max(1.0, sc), "bisection-eps",
               "bisection with epsilon %g, %s=%.17g fixed returned (%.17g, %.17g) at distance %g", be, dir == 0 ? "u" : "v", fix, x.first, x.second, res(x));
    }
    if (flat) // nearest point to a target off the plane
    {
        Vec3 o = k.Evaluate(0, 0), a = k.Evaluate(1, 0) - o, b = k.Evaluate(0, 1) - o;
        Vec3 n = a.cross(b).normalized();
        double tu = r.uni(0.1, 0.9), tv = r.uni(0.1, 0.9);
        Vec3 Q = o + tu * a + tv * b + n * (r.uni(0.05, 0.4) * sc);
        x = k.SearchParameter(Q, iu, iv);
        VCHECK(c, std::fabs(x.first - tu) < 1e-3 && std::fabs(x.second - tv) < 1e-3, "projection", "nearest parameters of an outside point are (%.9g, %.9g), search says (%.9g, %.9g)",
               tu, tv, x.first, x.second);
        for (int dir = 0; dir < 2; ++dir)
        {
            double fix = dir == 0 ? tu : tv, oth = dir == 0 ? tv : tu;
            x = k.BinarySearchParameterOn(Q, dir, fix);
            double got = dir == 0 ? x.second : x.first;
            VCHECK(c, std::fabs(got - oth) < 1e-4, "projection-b", "nearest parameter of an outside point with %s fixed is %.9g, bisection says %.9g", dir == 0 ? "u" : "v", oth, got);
        }
        c.event("projections");
    }
    VCHECK(c, sameBits(k, copy), "operand", "search changed its surface");
    c.event("searches", 13);
    c.sig(mix(sigOf(k), c.rng.next()));
}
void surfAnything(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.big = false;
    Surface k = genSurface(r, o, c.cs);
    double u = anyParam(r), v = anyParam(r);
    c.desc = str(k);
    Vec3 P = r.chance(1, 2) ? k.Evaluate(u, v) : Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * r.logu(1e-3, 1e6);
    double iu = anyParam(r), iv = anyParam(r), eps = r.logu(1e-12, 1);
    int it = r.chance(1, 3) ? r.range(0, 3) : r.range(4, 30);
    setOp("Surface::SearchParameter(any)");
    auto x = k.SearchParameter(P, iu, iv, eps, it);
    VCHECK(c, in01(x.first) && in01(x.second), "range", "search returned (%.17g, %.17g)", x.first, x.second);
    auto z = k.SearchParameter(P, iu, iv, eps, 0);
    VCHECK(c, z.first == iu && z.second == iv, "budget", "search without iterations left its start");
    for (int dir = 0; dir < 2; ++dir)
    {
        setOp("Surface::SearchParameterOn(any)");
        x = k.SearchParameterOn(P, dir, iu, iv, eps, it);
        VCHECK(c, in01(x.first) && in01(x.second) && sameBits(dir ? x.second : x.first, iu), "on-range", "search with %s=%.17g fixed returned (%.17g, %.17g)", dir ? "v" : "u", iu,
               x.first, x.second);
        x = k.BinarySearchParameterOn(P, dir, iu, eps, it);
        VCHECK(c, in01(x.first) && in01(x.second) && sameBits(dir ? x.second : x.first, iu), "on-range", "bisection with %s=%.17g fixed returned (%.17g, %.17g)", dir ? "v" : "u", iu,
               x.first, x.second);
        x = k.SearchParameterOn(P, dir, iu, iv, eps, 0);
        VCHECK(c, (dir ? x.first : x.second) == iv, "budget", "search with %s fixed, without iterations, left its start", dir ? "v" : "u");
        x = k.BinarySearchParameterOn(P, dir, iu, eps, 0);
        VCHECK(c, (dir ? x.first : x.second) == 0.5, "budget", "bisection with %s fixed, without iterations, left the middle", dir ? "v" : "u");
    }
    c.event("searches", 10);
    GenOpt t;
    t.maxScale = 10;
    t.wLo = 0.2;
    t.wHi = 5;
    t.minGap = 1e-2;
    t.maxDeg = 4;
    t.big = false;
    t.poles = 0;
    t.related = 0;
    Surface m = genSurface(r, t, c.cs);
    if (scaleOf(m.ControlPoints.Values) > 10) return;
    u = anyParam(r), v = anyParam(r);
    P = m.Evaluate(u, v);
    c.desc = "uv=" + std::to_string(u) + "," + std::to_string(v) + " " + str(m);
    auto dist3 = [&](std::pair<double, double> y) { return (m.Evaluate(y.first, y.second) - P).norm(); };
    x = m.SearchParameter(P, u, v);
    VCHECK(c, dist3(x) < 1e-8, "stay", "search started at the solution (%.17g, %.17g) ended at (%.17g, %.17g), distance %g", u, v, x.first, x.second, dist3(x));
    x = m.SearchParameterOn(P, 0, u, v);
    VCHECK(c, dist3(x) < 1e-8, "stay", "search on u=%.17g started at the solution ended at distance %g", u, dist3(x));
    x = m.SearchParameterOn(P, 1, v, u);
    VCHECK(c, dist3(x) < 1e-8, "stay", "search on v=%.17g started at the solution ended at distance %g", v, dist3(x));
    c.event("searches_from_solution", 3);
    c.sig(mix(sigOf(k), sigOf(m)));
}
void surfPopulation(Ctx& c)
{
    Rng& r = c.rng;
    int n = 60, bad = 0, badO = 0, badB = 0, badC = 0, badD = 0, early = 0, earlyO = 0, earlyB = 0;
    c.desc = "population of 60 ordinary surfaces, amp 0.3, weights e^+-0.3, scale 0.3..3";
    setOp("Surface::SearchParameter(population)");
    for (int i = 0; i < n; ++i)
    {
        double sc = r.logu(0.3, 3);
        Surface k = niceSurface(r, 0.3, 0.3, sc);
        double u = r.uni(0.02, 0.98), v = r.uni(0.02, 0.98);
        Vec3 P = k.Evaluate(u, v);
        auto res = [&](std::pair<double, double> y) { return (k.Evaluate(y.first, y.second) - P).norm(); };
        if (!(res(k.SearchParameter(P, 0.5, 0.5, 1e-8 * sc, 200)) < 1.001e-8 * sc)) ++bad;
        int d = r.range(0, 1);
        double fix = d ? v : u;
        if (!(res(k.SearchParameterOn(P, d, fix, 0.5, 1e-8 * sc, 200)) < 1.001e-8 * sc)) ++badO;
        if (!(res(k.BinarySearchParameterOn(P, d, fix)) < 1e-7 * sc)) ++badB;
        double eps = r.logu(1e-4, 1e-2) * sc;
        if (!(res(k.SearchParameter(P, r.uni(0.05, 0.95), r.uni(0.05, 0.95), eps, 200)) < 1.001 * eps)) ++badC;
        if (!(res(k.SearchParameterOn(P, d, fix, r.uni(0.05, 0.95), eps, 200)) < 1.001 * eps)) ++badD;
        early += res(k.SearchParameter(P, 0.5, 0.5, 1e-10 * sc, 1)) < 1e-10 * sc;
        earlyO += res(k.SearchParameterOn(P, d, fix, 0.5, 1e-10 * sc, 1)) < 1e-10 * sc;
        earlyB += res(k.BinarySearchParameterOn(P, d, fix, 1e-8, 4)) < 1e-8 * sc;
    }
    VCHECK(c, early <= n / 2 && earlyO <= n / 2 && earlyB <= n / 2, "budget", "%d, %d and %d of %d searches on ordinary surfaces were through after 1, 1 and 4 iterations", early, earlyO,
           earlyB, n);
    VCHECK(c, badC <= n / 4, "population-coarse", "%d of %d searches with coarse accuracy on ordinary surfaces failed", badC, n);
    VCHECK(c, badD <= n / 4, "population-coarse-on", "%d of %d searches with coarse accuracy and one parameter fixed failed", badD, n);
    c.maxEvent("max_population_early_of_60", std::max({early, earlyO, earlyB}));
    c.maxEvent("max_population_coarse_failures_of_60", badC);
    c.maxEvent("max_population_coarse_on_failures_of_60", badD);
    VCHECK(c, bad <= n / 4, "population", "%d of %d searches on ordinary surfaces failed", bad, n);
    VCHECK(c, badO <= n / 4, "population-on", "%d of %d searches with one parameter fixed failed", badO, n);
    VCHECK(c, badB <= n / 8, "population-b", "%d of %d bisections failed", badB, n);
    c.event("population_searches", n);
    c.maxEvent("max_population_failures_of_60", bad);
    c.maxEvent("max_population_on_failures_of_60", badO);
    c.maxEvent("max_population_bisection_failures_of_60", badB);
    c.sig(c.rng.next());
}
void c16(Ctx& c)
{
    switch (c.cs % 16)
    {
    case 0: return surfPopulation(c);
    case 1: case 2: case 3: case 4: case 5: return surfAnything(c);
    default: return surfNice(c);
    }
}
Register r16("C16", c16);
} // namespace
} // namespace vf
