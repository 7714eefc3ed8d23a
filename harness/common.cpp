#include "common.hpp"

namespace vf
{
std::vector<PropReg>& registry()
{
    static std::vector<PropReg> r;
    return r;
}

// ---------------------------------------------------------------- knots
static void addRun(std::vector<double>& U, double v, int m)
{
    for (int i = 0; i < m; ++i) U.push_back(v);
}

std::vector<double> genKnots(Rng& r, int p, const GenOpt& o, int style, int cap)
{
    std::vector<double> vals; // distinct interior values, ascending
    const double gap = o.minGap;
    int want = cap <= 0 ? 0 : r.range(1, cap);
    bool mult = false;
    int forced = 0;
    switch (style % 10)
    {
    case 0: want = 0; break;
    case 1:
        for (int i = 1; i <= want; ++i) vals.push_back(double(i) / (want + 1));
        break;
    case 2:
        for (int i = 0; i < want; ++i) vals.push_back(r.unit());
        break;
    case 3:
        for (int i = 0; i < want; ++i) vals.push_back(r.unit());
        mult = true;
        break;
    case 4: // full multiplicity everywhere: piecewise Bezier
    {
        int k = std::max(1, want / std::max(1, p));
        for (int i = 1; i <= k; ++i) vals.push_back(r.chance(1, 2) ? double(i) / (k + 1) : r.unit());
        forced = p;
        break;
    }
    case 5: // dyadic, exactly representable
    {
        int den = 1 << r.range(1, 5);
        for (int i = 0; i < want; ++i) vals.push_back(double(r.range(1, den - 1)) / den);
        mult = r.chance(1, 2);
        break;
    }
    case 6: // cluster of close knots
    {
        double c = r.uni(0.05, 0.95);
        for (int i = 0; i < want; ++i) vals.push_back(c + gap * r.uni(1.5, 12) * (i - want / 2));
        mult = r.chance(1, 3);
        break;
    }
    case 7: // close to the ends
        for (int i = 0; i < want; ++i)
        {
            double d = std::max(gap * 2, r.logu(std::max(gap * 2, 1e-15), 0.2));
            vals.push_back(r.chance(1, 2) ? d : 1 - d);
        }
        mult = r.chance(1, 3);
        break;
    case 8: // graded
        for (int i = 1; i <= want; ++i) vals.push_back(std::ldexp(1.0, -std::min(i, 20)));
        break;
    default: // decimal values typed by hand, multiplicities
        for (int i = 0; i < want; ++i) vals.push_back(r.range(1, 99) / 100.0);
        mult = true;
        break;
    }
    // slightly off the round value
    if ((style % 10 == 5 || style % 10 == 9) && r.chance(1, 6))
        for (auto& v : vals)
            if (r.chance(1, 2)) v += r.logu(1e-13, 1e-6) * (r.chance(1, 2) ? 1 : -1);
    std::sort(vals.begin(), vals.end());
    std::vector<double> keep;
    double last = 0.0;
    for (double v : vals)
    {
        if (v - last < gap || 1.0 - v < gap) continue;
        keep.push_back(v);
        last = v;
    }
    int maxm = std::max(1, p - o.multCapBelow);
    std::vector<double> U;
    addRun(U, 0.0, p + 1);
    int total = 0;
    for (double v : keep)
    {
        int m = 1;
        if (forced) m = std::min(forced, maxm);
        else if (mult)
        {
            int x = r.range(0, 5);
            m = x == 0 ? maxm : x == 1 ? std::max(1, maxm - 1) : r.range(1, maxm);
        }
        if (o.extraMult && r.chance(1, 12)) m = p + o.extraMult;
        if (total + m > std::max(cap, forced ? forced : 0) && total > 0) break;
        addRun(U, v, m);
        total += m;
    }
    addRun(U, 1.0, p + 1);
    return U;
}

// many knots: uniform, jittered or random spacing, a few repeated
std::vector<double> genLongKnots(Rng& r, int p, int n, double minGap)
{
    std::vector<double> U;
    addRun(U, 0.0, p + 1);
    int style = r.range(0, 2);
    std::vector<double> vals;
    for (int i = 1; i <= n; ++i)
        vals.push_back(style == 0 ? double(i) / (n + 1) : style == 1 ? (i + r.uni(-0.3, 0.3)) / (n + 1) : r.range(1, 1 << 20) / double(1 << 21) + 0.25);
    std::sort(vals.begin(), vals.end());
    vals.erase(std::unique(vals.begin(), vals.end(), [&](double a, double b) { return b - a <= minGap; }), vals.end());
    for (double v : vals) addRun(U, v, r.chance(1, 30) ? r.range(1, p) : 1);
    addRun(U, 1.0, p + 1);
    return U;
}

std::vector<std::pair<double, int>> distinctKnots(const std::vector<double>& U)
{
    std::vector<std::pair<double, int>> d;
    for (double v : U)
    {
        if (d.empty() || d.back().first != v) d.push_back({v, 1});
        else d.back().second++;
    }
    return d;
}

double genParam(Rng& r, const std::vector<double>& U)
{
    auto d = distinctKnots(U);
    switch (r.range(0, 9))
    {
    case 0: return 0.0;
    case 1: return 1.0;
    case 2: return d[r.range(0, (int)d.size() - 1)].first;
    case 3:
    {
        double k = d[r.range(0, (int)d.size() - 1)].first;
        if (r.chance(1, 2)) return std::nextafter(k, r.chance(1, 2) ? 0.0 : 1.0);
        double v = k + r.logu(1e-15, 1e-4) * (r.chance(1, 2) ? 1 : -1);
        return v > 0 && v < 1 ? v : k;
    }
    case 4:
    {
        int i = r.range(0, (int)d.size() - 2);
        return 0.5 * (d[i].first + d[i + 1].first);
    }
    case 5: return r.range(0, 16) / 16.0;
    case 6:
    {
        double e = r.logu(1e-15, 1e-2);
        return r.chance(1, 2) ? e : 1.0 - e;
    }
    default: return r.unit();
    }
}

std::vector<double> genParams(Rng& r, const std::vector<double>& U, int n, int knotCap)
{
    std::vector<double> x{0.0, 1.0};
    auto d = distinctKnots(U);
    int m = (int)d.size();
    if (m > 2)
    {
        int take = std::min(m - 2, knotCap);
        int start = m - 2 > knotCap ? r.range(0, m - 3) : 0;
        for (int i = 0; i < take; ++i)
        {
            int k = 1 + (start + i) % (m - 2);
            x.push_back(d[k].first);
            if (r.chance(1, 2)) x.push_back(std::nextafter(d[k].first, r.chance(1, 2) ? 0.0 : 1.0));
        }
    }
    for (int i = 0; i + 1 < m && i < knotCap; ++i)
    {
        int k = m - 1 > knotCap ? r.range(0, m - 2) : i;
        x.push_back(d[k].first + (d[k + 1].first - d[k].first) * (r.chance(1, 2) ? 0.5 : r.unit()));
    }
    for (int i = 0; i < n; ++i) x.push_back(genParam(r, U));
    const double lowest = std::count(U.begin(), U.end(), 0.0) > 10 ? 1e-12 : 1e-30;
    for (auto& v : x)
    {
        v = std::min(1.0, std::max(0.0, v));
        if (v > 0 && v < lowest) v = lowest; // keep clear of subnormal arithmetic
    }
    return x;
}

// ---------------------------------------------------------------- control nets
static double genWeight(Rng& r, const GenOpt& o, int wstyle, int i, double cst)
{
    switch (wstyle % 6)
    {
    case 0: return 1.0;
    case 1: return cst;
    case 2: return r.uni(std::max(0.2, o.wLo), std::min(5.0, o.wHi));
    case 3: return r.logu(o.wLo, o.wHi);
    case 4: return i % 2 ? std::sqrt(0.5) : 1.0;
    default: return r.chance(1, 4) ? (r.chance(1, 2) ? o.wLo : o.wHi) : 1.0;
    }
}

void genNet(Rng& r, std::vector<Vec4>& P, int nu, const GenOpt& o, int ps, int ws)
{
    const int n = (int)P.size();
    double cst = r.logu(std::max(o.wLo, 0.01), std::min(o.wHi, 100.0));
    double big = std::min(o.maxScale, 1e6), mid = std::min(o.maxScale, 100.0);
    Vec3 dir(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)), org(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    Vec3 off(big * r.uni(-1, 1), big * r.uni(-1, 1), big * r.uni(-1, 1));
    for (int i = 0; i < n; ++i)
    {
        Vec3 v;
        int iu = nu > 0 ? i % nu : i, iv = nu > 0 ? i / nu : 0;
        switch (ps % 10)
        {
        case 0: v = Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); break;
        case 1: v = Vec3(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3)); break;
        case 2: v = Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * big; break;
        case 3: v = Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)) * 1e-4; break;
        case 4: v = off + Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); break;
        case 5: v = i && r.chance(1, 2) ? Vec3(P[i - 1].head<3>()) : Vec3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1)); break;
        case 6: v = org + dir * r.uni(-2, 2); break;
        case 7: v = Vec3(iu * 1.0, iv * 1.0, r.uni(-0.5, 0.5)) * std::min(1.0, mid); break;
        case 8: v = Vec3(r.uni(-1, 1) * mid, r.uni(-1, 1) * mid, 0.0); break;
        default: v = Vec3(mid * (0.1 + r.unit()), -mid * (0.1 + r.unit()), r.chance(1, 3) ? 0.0 : r.uni(-1, 1)); break;
        }
        P[i].head<3>() = v;
        P[i].w() = genWeight(r, o, ws, i, cst);
    }
    if (o.wCommon > 1 && r.chance(1, 5))
    {
        const double g = r.logu(1 / o.wCommon, o.wCommon);
        for (auto& p : P) p.w() *= g;
    }
    if (o.pCommon > 1 && r.chance(1, 6))
    {
        const double g = r.logu(1 / o.pCommon, o.pCommon);
        for (auto& p : P) p.head<3>() *= g;
    }
}

// Coincidences that random coordinates never produce: `lines` groups of `len` control points, get(l, i) is point i of line l
template<typename Get> static void relate(Rng& r, int lines, int len, Get&& get)
{
    auto copy = [&](int to, int from, bool weights) {
        for (int i = 0; i < len; ++i)
        {
            Vec4 v = get(from, i);
            if (!weights) v.w() = get(to, i).w();
            get(to, i) = v;
        }
    };
    const bool w = r.chance(2, 3);
    switch (r.range(0, 7))
    {
    case 0: copy(lines - 1, 0, w); break; // closed
    case 1: // two neighbouring lines equal, the first or last two included
        if (int l = r.range(0, lines - 2); lines > 1) copy(l + 1, l, w);
        break;
    case 2: // palindrome
        for (int l = 0; l < lines / 2; ++l) copy(lines - 1 - l, l, w);
        break;
    case 3: // all equal
        for (int l = 1; l < lines; ++l) copy(l, 0, w);
        break;
    case 4: // both end lines collapsed to a point each, as on a sphere
        for (int i = 1; i < len; ++i)
            for (int l : {0, lines - 1})
            {
                Vec4 v = get(l, 0);
                if (!w) v.w() = get(l, i).w();
                get(l, i) = v;
            }
        break;
    case 5: // only the ends of the first and last line coincide
        for (int i : {0, len - 1})
        {
            Vec4 v = get(0, i);
            if (!w) v.w() = get(lines - 1, i).w();
            get(lines - 1, i) = v;
        }
        break;
    case 6: // weights that vary in one direction only
        for (int l = 0; l < lines; ++l)
            for (int i = 1; i < len; ++i) get(l, i).w() = get(l, 0).w();
        break;
    default: // one line with weights of its own, all others 1
    {
        int k = r.chance(1, 2) ? r.range(0, lines - 1) : lines - 1;
        for (int l = 0; l < lines; ++l)
            for (int i = 0; i < len; ++i)
                if (l != k) get(l, i).w() = 1;
    }
    }
}

Curve genCurve(Rng& r, const GenOpt& o, long long cs)
{
    Curve c;
    int nd = o.maxDeg - o.minDeg + 1;
    int p = o.minDeg + int(cs % nd);
    int ks = int((cs / nd) % 10);
    int cap = r.range(0, o.maxInterior);
    if (o.big && r.chance(1, 50)) cap = r.range(30, 150);
    const bool huge = o.huge && r.chance(1, o.huge);
    if (huge)
    {
        cap = (int)r.logu(150, 3000);
        p = std::min(p, 5);
    }
    if (!huge && o.high && r.chance(1, o.high))
    {
        p = r.range(41, o.highDeg);
        cap = r.range(0, 2 * p);
    }
    if (ks == 4) cap = std::max(cap, p);
    auto U = huge ? genLongKnots(r, p, cap, o.hugeGap) : genKnots(r, p, o, ks, std::max(1, cap));
    c.Degree = p;
    c.Knots = KnotVector(U);
    c.ControlPoints.resize(U.size() - p - 1);
    genNet(r, c.ControlPoints, 0, o, r.range(0, 9), r.range(0, 5));
    if (o.related && r.chance(1, o.related))
        relate(r, (int)c.ControlPoints.size(), 1, [&](int l, int) -> Vec4& { return c.ControlPoints[l]; });
    return c;
}

Surface genSurface(Rng& r, const GenOpt& o, long long cs)
{
    Surface s;
    int nd = o.maxDeg - o.minDeg + 1;
    int p = o.minDeg + int(cs % nd), q = o.minDeg + int((cs / nd) % nd);
    int cu = r.range(0, o.maxInterior), cv = r.range(0, o.maxInterior);
    if (o.big && r.chance(1, 60)) (r.chance(1, 2) ? cu : cv) = r.range(20, 60);
    int su = r.range(0, 9), sv = r.range(0, 9);
    if (su == 4) cu = std::max(cu, p);
    if (sv == 4) cv = std::max(cv, q);
    auto U = genKnots(r, p, o, su, std::max(1, cu)), V = genKnots(r, q, o, sv, std::max(1, cv));
    if (o.huge && r.chance(1, o.huge))
    {
        // one long direction, the other one short
        p = std::min(p, 4);
        q = std::min(q, 4);
        bool inU = r.chance(1, 2);
        U = inU ? genLongKnots(r, p, (int)r.logu(100, 1500), o.hugeGap) : genKnots(r, p, o, su, 4);
        V = inU ? genKnots(r, q, o, sv, 4) : genLongKnots(r, q, (int)r.logu(100, 1500), o.hugeGap);
    }
    else if (o.vast && r.chance(1, o.vast))
    {
        p = std::min(p, 3);
        q = std::min(q, 3);
        int n = r.range(100, 900);
        U = genLongKnots(r, p, n, o.hugeGap);
        V = genLongKnots(r, q, 66000 / n + r.range(10, 60), o.hugeGap);
    }
    else if (o.high && r.chance(1, o.high))
    {
        p = r.range(41, o.highDeg);
        if (r.chance(1, 2)) std::swap(p, q);
        U = genKnots(r, p, o, su, r.range(1, 2 * p));
        V = genKnots(r, q, o, sv, r.range(1, 2 * q));
    }
    else if (r.chance(1, 12))
    {
        // the same knots in both directions, or all but one
        q = p;
        V = U;
        if (r.chance(1, 2) && (int)V.size() > 2 * p + 2)
        {
            int i = r.range(p + 1, (int)V.size() - p - 2);
            double lo = V[i - 1], hi = V[i + 1], v = lo + (hi - lo) * r.uni(0.3, 0.7);
            if (v - lo > o.minGap && hi - v > o.minGap) V[i] = v;
        }
    }
    s.DegreeU = p;
    s.DegreeV = q;
    s.KnotsU = KnotVector(U);
    s.KnotsV = KnotVector(V);
    int nu = (int)U.size() - p - 1, nv = (int)V.size() - q - 1;
    s.ControlPoints.UCount = nu;
    s.ControlPoints.VCount = nv;
    s.ControlPoints.Values.resize(nu * nv);
    genNet(r, s.ControlPoints.Values, nu, o, r.range(0, 9), r.range(0, 5));
    if (o.related && r.chance(1, o.related))
    {
        const bool alongU = r.chance(1, 2);
        relate(r, alongU ? nv : nu, alongU ? nu : nv, [&](int l, int i) -> Vec4& { return alongU ? s.ControlPoints.Get(i, l) : s.ControlPoints.Get(l, i); });
    }
    if (o.poles && r.chance(1, o.poles))
    {
        // a line of control points collapsed to a point, as at a pole; the weights stay
        bool alongU = r.chance(1, 2);
        int len = alongU ? nu : nv, lines = alongU ? nv : nu, at = r.chance(2, 3) ? (r.chance(1, 2) ? 0 : lines - 1) : r.range(0, lines - 1);
        auto& G = s.ControlPoints;
        for (int i = 1; i < len; ++i)
            (alongU ? G.Get(i, at) : G.Get(at, i)).head<3>() = (alongU ? G.Get(0, at) : G.Get(at, 0)).head<3>().eval();
    }
    return s;
}

static uint64_t multSig(const std::vector<double>& U, uint64_t h)
{
    for (auto& [v, m] : distinctKnots(U)) h = mix(h, m);
    return h;
}
static uint64_t wSig(const std::vector<Vec4>& P)
{
    bool one = true, cst = true;
    for (auto& p : P)
    {
        one &= p.w() == 1.0;
        cst &= p.w() == P[0].w();
    }
    return one ? 0 : cst ? 1 : 2;
}
uint64_t sigOf(const Curve& c) { return mix(multSig(c.Knots.Values(), c.Degree), wSig(c.ControlPoints)); }
uint64_t sigOf(const Surface& s)
{
    return mix(multSig(s.KnotsV.Values(), multSig(s.KnotsU.Values(), s.DegreeU * 64 + s.DegreeV)), wSig(s.ControlPoints.Values));
}
double removalNoise(const std::vector<double>& U, int p, double v, int t, const std::vector<Vec4>& P)
{
    double g = 1, wh = 0, far = 0;
    for (int i = 0; i + p + 1 < (int)U.size(); ++i)
        if (U[i] < v && v < U[i + p + 1])
        {
            double a = (v - U[i]) / (U[i + p + 1] - U[i]);
            g = std::min({g, a, 1 - a});
        }
    for (auto& q : P)
    {
        wh = std::max(wh, q.w());
        far = std::max(far, q.head<3>().norm());
    }
    return 2e-15 * wh * (1 + far) * std::pow(1 / g, (p + 1) / 2 + (t - 1));
}
bool mustComeOut(const std::vector<double>& U, int p, double v, int t, const std::vector<Vec4>& P, double tol)
{
    double wl = 1e300, far = 0;
    for (auto& q : P)
    {
        wl = std::min(wl, q.w());
        far = std::max(far, q.head<3>().norm());
    }
    return wl > 0 && 4 * removalNoise(U, p, v, t, P) < tol * wl / (1 + far);
}
double scaleOf(const std::vector<Vec4>& P)
{
    double m = 0;
    for (auto& p : P) m = std::max(m, p.head<3>().cwiseAbs().maxCoeff());
    return m;
}
double weightRatio(const std::vector<Vec4>& P)
{
    double a = P[0].w(), b = a;
    for (auto& p : P)
    {
        a = std::min(a, p.w());
        b = std::max(b, p.w());
    }
    return b / a;
}

// ---------------------------------------------------------------- oracle
int oSpan(const std::vector<double>& U, int p, LD x)
{
    int n = (int)U.size() - p - 2; // last control point index
    if (x >= (LD)U[n + 1])
    {
        int k = n;
        while (k > p && U[k] == U[n + 1]) --k;
        return k;
    }
    int best = p;
    for (int k = p; k <= n; ++k)
        if ((LD)U[k] <= x && x < (LD)U[k + 1]) best = k;
    return best;
}

HVal oCurveH(const std::vector<double>& U, int p, const std::vector<H4>& P, const std::vector<H4>& M, int k, LD x, int d)
{
    HVal out;
    if (d > p) return out;
    std::vector<H4> a(P.begin() + (k - p), P.begin() + k + 1), m(M.begin() + (k - p), M.begin() + k + 1);
    int deg = p;
    int base = k - p; // global index of a[0] at current level
    // hodograph differencing
    for (int t = 0; t < d; ++t)
    {
        // control points of the (t)-th derivative, degree deg, indices base..base+deg, knot offset t at the front
        for (int j = 0; j < deg; ++j)
        {
            int i = base + j;
            LD den = (LD)U[i + t + deg + 1] - (LD)U[i + t + 1];
            for (int c = 0; c < 4; ++c)
            {
                a[j][c] = deg * (a[j + 1][c] - a[j][c]) / den;
                m[j][c] = deg * (m[j + 1][c] + m[j][c]) / den;
            }
        }
        a.pop_back();
        m.pop_back();
        --deg;
    }
    // de Boor with the knots of the derivative curve: U' = U without d knots at each end -> index shift d
    for (int rr = 1; rr <= deg; ++rr)
        for (int j = deg; j >= rr; --j)
        {
            int i = base + j; // derivative control point index; knot U'[i] = U[i+d]
            LD lo = U[i + d], hi = U[i + d + deg - rr + 1];
            LD al = (x - lo) / (hi - lo), be = (hi - x) / (hi - lo); // be, not 1-al: no cancellation
            for (int c = 0; c < 4; ++c)
            {
                a[j][c] = al * a[j][c] + be * a[j - 1][c];
                m[j][c] = std::fabs(al) * m[j][c] + std::fabs(be) * m[j - 1][c];
            }
        }
    out.v = a[deg];
    out.mag = m[deg];
    return out;
}

static H4 toH(const Vec4& p)
{
    LD w = p.w();
    return {(LD)p.x() * w, (LD)p.y() * w, (LD)p.z() * w, w};
}
static H4 absH(const H4& h) { return {std::fabs(h[0]), std::fabs(h[1]), std::fabs(h[2]), std::fabs(h[3])}; }

OCurve::OCurve(const Curve& c) : p(c.Degree), U(c.Knots.Values())
{
    for (auto& q : c.ControlPoints)
    {
        P.push_back(toH(q));
        M.push_back(absH(P.back()));
    }
}
std::array<LD, 3> OCurve::eval(LD x) const
{
    auto h = oCurveH(U, p, P, M, oSpan(U, p, x), x, 0).v;
    return {h[0] / h[3], h[1] / h[3], h[2] / h[3]};
}
void OCurve::derivs(LD x, int order, std::vector<std::array<LD, 3>>& d, std::vector<std::array<LD, 3>>& mag) const
{
    int k = oSpan(U, p, x);
    std::vector<HVal> h(order + 1);
    LD f = 1;
    for (int i = 0; i <= order; ++i)
    {
        h[i] = oCurveH(U, p, P, M, k, x, i);
        if (i) f *= i;
        for (int c = 0; c < 4; ++c)
        {
            h[i].v[c] /= f;
            h[i].mag[c] /= f;
        }
    }
    d.assign(order + 1, {});
    mag.assign(order + 1, {});
    for (int i = 0; i <= order; ++i)
        for (int c = 0; c < 3; ++c)
        {
            LD s = h[i].v[c], m = h[i].mag[c];
            for (int j = 1; j <= i; ++j)
            {
                s -= h[j].v[3] * d[i - j][c];
                m += h[j].mag[3] * mag[i - j][c];
            }
            d[i][c] = s / h[0].v[3];
            mag[i][c] = m / h[0].v[3];
        }
    f = 1;
    for (int i = 1; i <= order; ++i)
    {
        f *= i;
        for (int c = 0; c < 3; ++c)
        {
            d[i][c] *= f;
            mag[i][c] *= f;
        }
    }
}

OSurface::OSurface(const Surface& s)
    : p(s.DegreeU), q(s.DegreeV), nu(s.ControlPoints.UCount), nv(s.ControlPoints.VCount), U(s.KnotsU.Values()), V(s.KnotsV.Values())
{
    for (auto& c : s.ControlPoints.Values)
    {
        P.push_back(toH(c));
        M.push_back(absH(P.back()));
    }
}
static HVal oSurfH(const OSurface& s, int ku, int kv, LD u, LD v, int du, int dv)
{
    std::vector<H4> col(s.nv, H4{}), mcol(s.nv, H4{});
    for (int j = kv - s.q; j <= kv; ++j)
    {
        std::vector<H4> row(s.P.begin() + j * s.nu, s.P.begin() + (j + 1) * s.nu);
        std::vector<H4> mrow(s.M.begin() + j * s.nu, s.M.begin() + (j + 1) * s.nu);
        HVal h = oCurveH(s.U, s.p, row, mrow, ku, u, du);
        col[j] = h.v;
        mcol[j] = h.mag;
    }
    return oCurveH(s.V, s.q, col, mcol, kv, v, dv);
}
std::array<LD, 3> OSurface::eval(LD u, LD v) const
{
    auto h = oSurfH(*this, oSpan(U, p, u), oSpan(V, q, v), u, v, 0, 0).v;
    return {h[0] / h[3], h[1] / h[3], h[2] / h[3]};
}
void OSurface::derivs(LD u, LD v, int ou, int ov, std::vector<std::array<LD, 3>>& d, std::vector<std::array<LD, 3>>& mag) const
{
    int ku = oSpan(U, p, u), kv = oSpan(V, q, v);
    int W = ov + 1;
    std::vector<HVal> h((ou + 1) * W);
    auto fact = [](int n) {
        LD f = 1;
        for (int i = 2; i <= n; ++i) f *= i;
        return f;
    };
    for (int i = 0; i <= ou; ++i)
        for (int j = 0; j <= ov; ++j)
        {
            auto& e = h[i * W + j];
            e = oSurfH(*this, ku, kv, u, v, i, j);
            LD f = fact(i) * fact(j);
            for (int c = 0; c < 4; ++c)
            {
                e.v[c] /= f;
                e.mag[c] /= f;
            }
        }
    d.assign((ou + 1) * W, {});
    mag.assign((ou + 1) * W, {});
    // two-variable power series division
    for (int i = 0; i <= ou; ++i)
        for (int j = 0; j <= ov; ++j)
            for (int c = 0; c < 3; ++c)
            {
                LD s = h[i * W + j].v[c], m = h[i * W + j].mag[c];
                for (int a = 0; a <= i; ++a)
                    for (int b = 0; b <= j; ++b)
                    {
                        if (!a && !b) continue;
                        s -= h[a * W + b].v[3] * d[(i - a) * W + (j - b)][c];
                        m += h[a * W + b].mag[3] * mag[(i - a) * W + (j - b)][c];
                    }
                d[i * W + j][c] = s / h[0].v[3];
                mag[i * W + j][c] = m / h[0].v[3];
            }
    for (int i = 0; i <= ou; ++i)
        for (int j = 0; j <= ov; ++j)
            for (int c = 0; c < 3; ++c)
            {
                LD f = fact(i) * fact(j);
                d[i * W + j][c] *= f;
                mag[i * W + j][c] *= f;
            }
}

// ---------------------------------------------------------------- structure
static std::string knotProblem(const std::vector<double>& U, int p, int n)
{
    char b[160];
    if (p < 1) return "degree < 1";
    if ((int)U.size() != n + p + 1)
    {
        snprintf(b, sizeof b, "knot count %zu != control points %d + degree %d + 1", U.size(), n, p);
        return b;
    }
    for (size_t i = 0; i < U.size(); ++i)
    {
        if (!(U[i] >= 0 && U[i] <= 1)) return "knot outside [0,1]";
        if (i && !(U[i] >= U[i - 1])) return "knots decrease";
    }
    for (int i = 0; i <= p; ++i)
        if (U[i] != 0.0 || U[U.size() - 1 - i] != 1.0) return "knot vector not clamped";
    return "";
}
static std::string pointProblem(const std::vector<Vec4>& P)
{
    for (auto& p : P)
        for (int c = 0; c < 4; ++c)
            if (!std::isfinite(p[c])) return "non-finite control point";
    return "";
}
std::string structure(const Curve& c)
{
    auto s = knotProblem(c.Knots.Values(), c.Degree, (int)c.ControlPoints.size());
    return s.empty() ? pointProblem(c.ControlPoints) : s;
}
std::string structure(const Surface& s)
{
    const auto& g = s.ControlPoints;
    if (g.UCount <= 0 || g.VCount <= 0) return "empty grid";
    if ((long long)g.UCount * g.VCount != (long long)g.Values.size()) return "grid size mismatch";
    auto a = knotProblem(s.KnotsU.Values(), s.DegreeU, g.UCount);
    if (!a.empty()) return "u: " + a;
    a = knotProblem(s.KnotsV.Values(), s.DegreeV, g.VCount);
    if (!a.empty()) return "v: " + a;
    return pointProblem(g.Values);
}
bool sameBits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
bool sameBits(const std::vector<double>& a, const std::vector<double>& b)
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
bool sameBits(const std::vector<Vec4>& a, const std::vector<Vec4>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        for (int c = 0; c < 4; ++c)
            if (!sameBits(a[i][c], b[i][c])) return false;
    return true;
}
bool sameBits(const Curve& a, const Curve& b)
{
    return a.Degree == b.Degree && sameBits(a.Knots.Values(), b.Knots.Values()) && sameBits(a.ControlPoints, b.ControlPoints);
}
bool sameBits(const Surface& a, const Surface& b)
{
    return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && sameBits(a.KnotsU.Values(), b.KnotsU.Values()) &&
           sameBits(a.KnotsV.Values(), b.KnotsV.Values()) && a.ControlPoints.UCount == b.ControlPoints.UCount &&
           a.ControlPoints.VCount == b.ControlPoints.VCount && sameBits(a.ControlPoints.Values, b.ControlPoints.Values);
}

// the surface with u and v swapped and/or reversed, built independently of the library
Surface reparam(const Surface& s, bool swap, bool ru, bool rv)
{
    Surface t = s;
    int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    if (swap)
    {
        std::swap(t.DegreeU, t.DegreeV);
        std::swap(t.KnotsU, t.KnotsV);
        std::swap(nu, nv);
    }
    t.ControlPoints.UCount = nu;
    t.ControlPoints.VCount = nv;
    auto mirror = [](std::vector<double>& k) {
        std::reverse(k.begin(), k.end());
        for (auto& x : k) x = 1.0 - x;
    };
    if (ru) mirror(t.KnotsU.Values());
    if (rv) mirror(t.KnotsV.Values());
    for (int v = 0; v < nv; ++v)
        for (int u = 0; u < nu; ++u)
        {
            int a = ru ? nu - 1 - u : u, b = rv ? nv - 1 - v : v;
            t.ControlPoints.Values[v * nu + u] = swap ? s.ControlPoints.Values[a * s.ControlPoints.UCount + b] : s.ControlPoints.Values[b * s.ControlPoints.UCount + a];
        }
    return t;
}
static bool sameData(const Surface& a, const Surface& b)
{
    if (a.DegreeU != b.DegreeU || a.DegreeV != b.DegreeV || a.ControlPoints.UCount != b.ControlPoints.UCount || a.ControlPoints.VCount != b.ControlPoints.VCount) return false;
    if (!sameBits(a.ControlPoints.Values, b.ControlPoints.Values)) return false;
    auto near = [](const std::vector<double>& x, const std::vector<double>& y) {
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); ++i)
            if (!(std::fabs(x[i] - y[i]) <= 2.3e-16)) return false;
        return true;
    };
    return near(a.KnotsU.Values(), b.KnotsU.Values()) && near(a.KnotsV.Values(), b.KnotsV.Values());
}
int symmetryOf(const Surface& in, const Surface& out)
{
    for (int k = 0; k < 8; ++k)
        if (sameData(reparam(in, k & 1, k & 2, k & 4), out)) return k;
    return -1;
}
} // namespace vf
