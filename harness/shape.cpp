// C14 curve bounding box, C31 BoundingBox algebra, C20 primitive builders, C21 transforms, C22 parameter alignment, C27 IsRational.
#include "common.hpp"
#include <queue>
#include <tuple>
using namespace vf;
using libnurbs::BoundingBox;
using libnurbs::Mat3x3;

// ------------------------------------------------------------------ exact extent of a rational curve (long double branch and bound)
static std::vector<std::vector<H4>> oBezier(const OCurve& c)
{
    std::vector<LD> U(c.U.begin(), c.U.end());
    std::vector<H4> P = c.P;
    int p = c.p;
    for (auto& [v, m] : distinctKnots(c.U))
    {
        if (v <= 0 || v >= 1) continue;
        for (int t = m; t < p; ++t)
        {
            int k = int(std::upper_bound(U.begin(), U.end(), (LD)v) - U.begin()) - 1;
            std::vector<H4> Q(P.size() + 1);
            for (int i = 0; i < (int)Q.size(); ++i)
            {
                if (i <= k - p) Q[i] = P[i];
                else if (i > k) Q[i] = P[i - 1];
                else
                {
                    LD den = U[i + p] - U[i], a = (v - U[i]) / den, b = (U[i + p] - v) / den;
                    for (int q = 0; q < 4; ++q) Q[i][q] = a * P[i][q] + b * P[i - 1][q];
                }
            }
            P.swap(Q);
            U.insert(U.begin() + k + 1, v);
        }
    }
    std::vector<std::vector<H4>> out;
    for (int i = p; i < (int)P.size(); ++i)
        if (U[i] < U[i + 1]) out.emplace_back(P.begin() + i - p, P.begin() + i + 1);
    return out;
}
// max over the curve of s * coordinate q
static LD extreme(const std::vector<std::vector<H4>>& segs, int q, LD s, LD acc)
{
    struct Node
    {
        LD ub;
        std::vector<H4> b;
        bool operator<(const Node& o) const { return ub < o.ub; }
    };
    auto bound = [&](const std::vector<H4>& b) {
        LD m = -INFINITY;
        for (auto& h : b) m = std::max(m, s * h[q] / h[3]);
        return m;
    };
    std::priority_queue<Node> pq;
    LD best = -INFINITY;
    for (auto& g : segs)
    {
        best = std::max({best, s * g.front()[q] / g.front()[3], s * g.back()[q] / g.back()[3]});
        pq.push({bound(g), g});
    }
    int guard = 0;
    while (!pq.empty() && pq.top().ub > best + acc && ++guard < 20000)
    {
        auto b = pq.top().b;
        pq.pop();
        int n = (int)b.size();
        std::vector<H4> L(n), R(n);
        for (int r = 0; r < n; ++r)
        {
            L[r] = b[0];
            R[n - 1 - r] = b[n - 1 - r];
            for (int i = 0; i + 1 < n - r; ++i)
                for (int k = 0; k < 4; ++k) b[i][k] = 0.5L * (b[i][k] + b[i + 1][k]);
        }
        best = std::max(best, s * R[0][q] / R[0][3]);
        LD bl = bound(L), br = bound(R);
        if (bl > best) pq.push({bl, L});
        if (br > best) pq.push({br, R});
    }
    return best;
}

static void c14(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = r.chance(1, 200) ? 30 : r.chance(1, 8) ? 8 : 5;
    o.minGap = 1e-3;
    o.maxScale = r.chance(1, 12) ? 1e7 : r.chance(1, 3) ? 1e3 : 10;
    bool steep = r.chance(1, 10);
    o.wLo = steep ? 1e-3 : 0.05;
    o.wHi = steep ? 1e3 : 20;
    o.extraMult = r.chance(1, 6);
    o.wCommon = 1e12;
    Curve cv = genCurve(r, o, c.cs);
    if (r.chance(1, 3)) // long and thin
    {
        Vec3 f(r.logu(1e-7, 1), r.logu(1e-7, 1), r.logu(1e-7, 1));
        f[r.range(0, 2)] = 1;
        for (auto& p : cv.ControlPoints) p.head<3>().array() *= f.array();
        c.event("thin_curves");
    }
    const Curve keep = cv;
    c.desc = str(cv);
    c.sig(sigOf(cv));
    double S = scaleOf(cv.ControlPoints) + 1e-12;
    double eps = r.chance(1, 4) ? 1e-3 : r.logu(1e-8, 2 * S);
    setOp("Curve::GetBoundingBox");
    BoundingBox b = eps == 1e-3 && r.chance(1, 2) ? cv.GetBoundingBox() : cv.GetBoundingBox(eps);
    VCHECK(c, sameBits(keep, cv), "bbox-operand", "operand changed");
    auto segs = oBezier(OCurve(cv));
    LD tolq[3];
    for (int q = 0; q < 3; ++q)
    {
        LD Sq = 1e-12L;
        for (auto& p : cv.ControlPoints) Sq = std::max(Sq, (LD)std::fabs(p[q]));
        LD S = Sq, tol = tolq[q] = std::max(eps, 1e-6) * 1.001L + 1e-9L * S;
        LD hi = extreme(segs, q, 1, 1e-10L * S), lo = -extreme(segs, q, -1, 1e-10L * S);
        VCHECK(c, hi <= b.Max[q] + tol && lo >= b.Min[q] - tol, "bbox-contains", "axis %d: curve spans [%.12Lg,%.12Lg], box is [%.12g,%.12g] with epsilon %g", q, lo, hi,
               b.Min[q], b.Max[q], eps);
        VCHECK(c, b.Max[q] <= hi + 1e-9L * S && b.Min[q] >= lo - 1e-9L * S, "bbox-tight", "axis %d: box [%.12g,%.12g] exceeds the curve's extent [%.12Lg,%.12Lg]", q, b.Min[q],
               b.Max[q], lo, hi);
        LD ends = std::max((LD)cv.ControlPoints.front()[q], (LD)cv.ControlPoints.back()[q]);
        if (hi > ends + 1e-6L * S) c.event("interior_extrema");
    }
    for (int k = 0; k < 6; ++k)
    {
        Vec3 e = cv.Evaluate(genParam(r, cv.Knots.Values()));
        for (int q = 0; q < 3; ++q)
            VCHECK(c, e[q] <= b.Max[q] + tolq[q] && e[q] >= b.Min[q] - tolq[q], "bbox-point", "a curve point lies outside the box by more than the tolerance");
    }
    c.event("boxes");
}

static Vec3 rv(Rng& r, double s) { return Vec3(r.uni(-s, s), r.uni(-s, s), r.uni(-s, s)); }

static void c31(Ctx& c)
{
    Rng& r = c.rng;
    double s = r.logu(1e-3, 1e6);
    auto pt = [&] { return r.chance(1, 5) ? Vec3(r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)) : rv(r, s); };
    Vec3 a = pt(), b = pt(), lo, hi;
    setOp("BoundingBox");
    BoundingBox box(a, b);
    if (r.chance(1, 8))
    {
        box = BoundingBox();
        a = b = Vec3(0, 0, 0);
    }
    for (int i = 0; i < 3; ++i)
    {
        lo[i] = std::min(a[i], b[i]);
        hi[i] = std::max(a[i], b[i]);
    }
    auto same = [&](const char* op) {
        bool ok = true;
        for (int i = 0; i < 3; ++i) ok &= box.Min[i] == lo[i] && box.Max[i] == hi[i];
        VCHECK(c, ok, "box-extent", "after %s the box is [%g %g %g]..[%g %g %g], expected [%g %g %g]..[%g %g %g]", op, box.Min.x(), box.Min.y(), box.Min.z(), box.Max.x(),
               box.Max.y(), box.Max.z(), lo.x(), lo.y(), lo.z(), hi.x(), hi.y(), hi.z());
    };
    same("construction");
    uint64_t h = 0;
    std::string trail;
    for (int t = 0; t < 8 && !c.caseFailed; ++t)
    {
        int k = r.range(0, 3);
        h = mix(h, k);
        if (k == 0)
        {
            Vec3 p = r.chance(1, 3) ? Vec3(lo + (hi - lo) * r.unit()) : pt();
            box.ExpandToInclude(p);
            for (int i = 0; i < 3; ++i)
            {
                lo[i] = std::min(lo[i], p[i]);
                hi[i] = std::max(hi[i], p[i]);
            }
            same("ExpandToInclude(point)");
            VCHECK(c, box.Contains(p), "box-includes", "box does not contain the point it was expanded by");
            trail += "point ";
        }
        else if (k == 1)
        {
            Vec3 p = pt(), q = pt();
            BoundingBox o(p, q);
            BoundingBox old = box;
            box.ExpandToInclude(o);
            for (int i = 0; i < 3; ++i)
            {
                lo[i] = std::min({lo[i], p[i], q[i]});
                hi[i] = std::max({hi[i], p[i], q[i]});
            }
            same("ExpandToInclude(box)");
            VCHECK(c, box.Contains(o) && box.Contains(old), "box-union", "union does not contain its parts");
            trail += "box ";
        }
        else if (k == 2)
        {
            Vec3 p;
            for (int i = 0; i < 3; ++i)
            {
                int m = r.range(0, 5);
                p[i] = m == 0 ? lo[i] : m == 1 ? hi[i] : m == 2 ? std::nextafter(lo[i], -INFINITY) : m == 3 ? std::nextafter(hi[i], INFINITY) : lo[i] + (hi[i] - lo[i]) * r.unit();
            }
            bool in = true;
            for (int i = 0; i < 3; ++i) in &= p[i] >= lo[i] && p[i] <= hi[i];
            VCHECK(c, box.Contains(p) == in, "box-contains", "Contains() = %d for a point that is %s", (int)box.Contains(p), in ? "inside" : "outside");
            c.event(in ? "inside_points" : "outside_points");
            trail += "query ";
        }
        else
        {
            Vec3 p = pt(), q = pt();
            if (r.chance(1, 2))
            {
                p = lo + (hi - lo) * r.unit();
                q = lo + (hi - lo) * r.unit();
                if (r.chance(1, 3)) q[r.range(0, 2)] += (hi - lo).norm() + 1;
            }
            BoundingBox o(p, q);
            bool in = true;
            for (int i = 0; i < 3; ++i) in &= std::min(p[i], q[i]) >= lo[i] && std::max(p[i], q[i]) <= hi[i];
            VCHECK(c, box.Contains(o) == in, "box-contains-box", "Contains(box) = %d", (int)box.Contains(o));
            trail += "boxquery ";
        }
        LD vol = 1;
        for (int i = 0; i < 3; ++i)
        {
            LD len = (LD)hi[i] - lo[i], mid = ((LD)hi[i] + lo[i]) / 2, m = std::max(std::fabs((LD)hi[i]), std::fabs((LD)lo[i]));
            vol *= len;
            VCHECK(c, std::fabs(box.Length()[i] - len) <= 1e-14L * m, "box-length", "Length()[%d] = %.17g, expected %.17Lg", i, box.Length()[i], len);
            VCHECK(c, std::fabs(box.Center()[i] - mid) <= 1e-14L * m, "box-center", "Center()[%d] = %.17g, expected %.17Lg", i, box.Center()[i], mid);
        }
        VCHECK(c, std::fabs(box.Volume() - vol) <= 1e-9L * vol + 1e-14L * s * s * s + 1e-12L, "box-volume", "Volume() = %.17g, expected %.17Lg", box.Volume(), vol);
    }
    c.desc = "scale " + std::to_string(s) + ": " + trail;
    c.sig(h);
}

// ------------------------------------------------------------------ builders
static void c20(Ctx& c)
{
    Rng& r = c.rng;
    double s = r.chance(1, 4) ? r.logu(1e-12, 1e12) : r.logu(1e-3, 1e5);
    {
        libnurbs::GeomSegment g = libnurbs::GeomSegment::Make(rv(r, s), rv(r, s));
        if (r.chance(1, 10)) g.RightPoint = g.LeftPoint;
        g.Degree = r.range(1, 7);
        g.ControlPointCount = g.Degree + 1 + (r.chance(1, 10) ? r.range(10, 200) : r.range(0, 8));
        if (r.chance(1, 8)) { g.Degree = 1; g.ControlPointCount = 2; }
        if (r.chance(1, 300)) g.Degree = r.range(8, 70), g.ControlPointCount = g.Degree + r.range(1, 40);
        if (r.chance(1, 4000)) g.ControlPointCount = (int)r.logu(1000, 200000);
        char b[200];
        snprintf(b, sizeof b, "segment degree %d with %d points, rect ", g.Degree, g.ControlPointCount);
        c.desc = b;
        c.sig(mix(g.Degree, g.ControlPointCount));
        setOp("GeomSegment::GetCurve");
        Curve cv = g.GetCurve();
        int n = g.ControlPointCount, p = g.Degree;
        auto st = structure(cv);
        VCHECK(c, st.empty() && cv.Degree == p && (int)cv.ControlPoints.size() == n, "segment-structure", "segment curve malformed (%s), %zu points", st.c_str(), cv.ControlPoints.size());
        if (c.caseFailed) return;
        bool ok = true;
        for (int i = 0; i < n; ++i)
        {
            ok &= cv.ControlPoints[i].w() == 1.0;
            for (int q = 0; q < 3; ++q)
            {
                LD f = (LD)i / (n - 1), w = (1 - f) * g.LeftPoint[q] + f * g.RightPoint[q];
                ok &= std::fabs(cv.ControlPoints[i][q] - w) <= (1e-12L + 1e-15L * n) * s; // also if the steps are summed up
            }
        }
        VCHECK(c, ok, "segment-points", "control points are not equally spaced from %g %g %g to %g %g %g with weight 1", g.LeftPoint.x(), g.LeftPoint.y(), g.LeftPoint.z(), g.RightPoint.x(),
               g.RightPoint.y(), g.RightPoint.z());
        int add = n - p - 1;
        for (int i = 0; i < cv.Knots.Count(); ++i)
        {
            LD w = i <= p ? 0 : i >= n ? 1 : (LD)(i - p) / (add + 1);
            ok &= std::fabs(cv.Knots.Values()[i] - w) <= 4e-16L + 2e-16L * n;
        }
        VCHECK(c, ok, "segment-knots", "knots are not uniform");
        // straight, from left to right, monotone
        Vec3 D = g.RightPoint - g.LeftPoint;
        double last = -1e-9;
        for (int k = 0; k <= 10; ++k)
        {
            double x = k == 0 ? 0.0 : k == 10 ? 1.0 : k / 10.0 + 0.05 * (r.unit() - 0.5);
            Vec3 e = cv.Evaluate(x) - g.LeftPoint;
            double t = D.squaredNorm() > 0 ? e.dot(D) / D.squaredNorm() : 0;
            VCHECK(c, (e - t * D).cwiseAbs().maxCoeff() <= (1e-11 + 1e-15 * n) * s && t >= last - 1e-9 && t <= 1 + 1e-9, "segment-line", "Evaluate(%.17g) is not on the segment or moves backwards", x);
            if (D.norm() > 1e-6 * s)
            {
                if (k == 0) VCHECK(c, std::fabs(t) <= 1e-9, "segment-left", "curve does not start at the left point");
                if (k == 10) VCHECK(c, std::fabs(t - 1) <= 1e-9, "segment-right", "curve does not end at the right point");
                if (p == 1) VCHECK(c, std::fabs(t - x) <= 1e-9 + 1e-15 * n * s / D.norm(), "segment-linear", "degree-1 segment is not parametrised linearly");
            }
            last = t;
        }
        c.event("segments");
    }
    {
        int mode = r.range(0, 3);
        Vec3 lb = rv(r, s), rb = rv(r, s), lt = rv(r, s), rt = rv(r, s);
        if (mode == 0) rt = rb + lt - lb; // parallelogram
        if (mode == 1)
        {
            double w = r.unit() * s, h = r.unit() * s;
            lb = Vec3(0, 0, 0); rb = Vec3(w, 0, 0); lt = Vec3(0, h, 0); rt = Vec3(w, h, 0);
        }
        setOp("GeomRect::GetSurface");
        auto g = libnurbs::GeomRect::Make(lb, rb, lt, rt);
        g.DegreeU = r.range(1, 5);
        g.DegreeV = r.range(1, 5);
        g.ControlPointCountU = g.DegreeU + 1 + (r.chance(1, 10) ? r.range(5, 30) : r.range(0, 5));
        g.ControlPointCountV = g.DegreeV + 1 + (r.chance(1, 10) ? r.range(5, 30) : r.range(0, 5));
        if (r.chance(1, 4000))
        {
            g.ControlPointCountU = (int)r.logu(10, 20000);
            g.ControlPointCountV = (int)r.logu(10, 300000.0 / g.ControlPointCountU);
            c.event("vast_rectangles");
        }
        Surface f = g.GetSurface();
        int nu = g.ControlPointCountU, nv = g.ControlPointCountV;
        char b[200];
        snprintf(b, sizeof b, "degree %dx%d with %dx%d points, mode %d", g.DegreeU, g.DegreeV, nu, nv, mode);
        c.desc += b;
        c.sig(mix(mix(nu, nv), mix(g.DegreeU, g.DegreeV)));
        auto st = structure(f);
        VCHECK(c, st.empty() && f.DegreeU == g.DegreeU && f.DegreeV == g.DegreeV && f.ControlPoints.UCount == nu && f.ControlPoints.VCount == nv, "rect-structure", "surface malformed: %s", st.c_str());
        if (c.caseFailed) return;
        bool ok = true;
        int bi = 0, bj = 0;
        for (int j = 0; j < nv; ++j)
            for (int i = 0; i < nu; ++i)
            {
                LD u = (LD)i / (nu - 1), v = (LD)j / (nv - 1);
                const auto& q = f.ControlPoints.Get(i, j);
                bool one = q.w() == 1.0;
                for (int k = 0; k < 3; ++k)
                {
                    LD w = (1 - u) * (1 - v) * lb[k] + u * (1 - v) * rb[k] + (1 - u) * v * lt[k] + u * v * rt[k];
                    one &= std::fabs(q[k] - w) <= (1e-12L + 1e-15L * (nu + nv)) * s;
                }
                if (ok && !one) { ok = false; bi = i; bj = j; }
            }
        VCHECK(c, ok, "rect-points", "control point (%d,%d) is not the bilinear blend of the four corners (weight 1)", bi, bj);
        for (int i = 0; i < f.KnotsU.Count(); ++i)
        {
            LD w = i <= g.DegreeU ? 0 : i >= nu ? 1 : (LD)(i - g.DegreeU) / (nu - g.DegreeU);
            ok &= std::fabs(f.KnotsU.Values()[i] - w) <= 4e-16L + 2e-16L * nu;
        }
        for (int i = 0; i < f.KnotsV.Count(); ++i)
        {
            LD w = i <= g.DegreeV ? 0 : i >= nv ? 1 : (LD)(i - g.DegreeV) / (nv - g.DegreeV);
            ok &= std::fabs(f.KnotsV.Values()[i] - w) <= 4e-16L + 2e-16L * nv;
        }
        VCHECK(c, ok, "rect-knots", "knots are not uniform");
        const Vec3* cs[4] = {&lb, &rb, &lt, &rt};
        for (int k = 0; k < 4; ++k)
            VCHECK(c, (f.Evaluate(k & 1, k >> 1) - *cs[k]).cwiseAbs().maxCoeff() <= (1e-11 + 1e-15 * (nu + nv)) * s, "rect-corner", "corner %d is not interpolated", k);
        c.event("rectangles");
        if (mode >= 2) c.event("non_parallelograms");
    }
}

// ------------------------------------------------------------------ transforms
static Mat3x3 genMat(Rng& r)
{
    Mat3x3 R = Mat3x3::Identity();
    switch (r.range(0, 11))
    {
    case 0: break;
    case 6: // nearly the identity
    {
        double e = r.logu(1e-13, 1e-2);
        for (int i = 0; i < 9; ++i) R(i / 3, i % 3) += r.chance(1, 2) ? e * r.uni(-1, 1) : 0;
        break;
    }
    case 7: // axes exchanged, signs
    {
        int a = r.range(0, 2), b = (a + r.range(1, 2)) % 3;
        R.setZero();
        R(0, a) = r.chance(1, 2) ? 1 : -1;
        R(1, b) = r.chance(1, 2) ? 1 : -1;
        R(2, 3 - a - b) = r.chance(1, 2) ? 1 : -1;
        break;
    }
    case 8: // a single entry
        R(r.range(0, 2), r.range(0, 2)) = r.uni(-3, 3);
        break;
    case 9: // very large or small
        for (int i = 0; i < 9; ++i) R(i / 3, i % 3) = r.uni(-1, 1);
        R *= r.logu(1e-12, 1e12);
        break;
    case 1:
    {
        double a = r.uni(0, 6.3);
        int i = r.range(0, 2), j = (i + 1) % 3;
        R(i, i) = std::cos(a); R(i, j) = -std::sin(a); R(j, i) = std::sin(a); R(j, j) = std::cos(a);
        break;
    }
    case 2: R = Mat3x3::Identity() * r.logu(1e-3, 1e3); break;
    case 3: R(0, 0) = -1; break;
    case 4: R.setZero(); R(0, 0) = 1; R(1, 1) = 1; break; // projection
    case 5: R.setZero(); break;
    default:
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) R(i, j) = r.uni(-2, 2);
    }
    return R;
}
static std::array<LD, 3> ap(const Mat3x3& R, const std::array<LD, 3>& x)
{
    std::array<LD, 3> o{};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) o[i] += (LD)R(i, j) * x[j];
    return o;
}
static void c21(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = 5;
    o.huge = 300;
    o.wCommon = 1e12;
    o.vast = 4000;
    Mat3x3 R = genMat(r);
    double n = R.cwiseAbs().rowwise().sum().maxCoeff();
    char m[300];
    snprintf(m, sizeof m, " R=[%g %g %g; %g %g %g; %g %g %g]", R(0, 0), R(0, 1), R(0, 2), R(1, 0), R(1, 1), R(1, 2), R(2, 0), R(2, 1), R(2, 2));
    auto same4 = [&](const std::vector<Vec4>& a, const std::vector<Vec4>& b) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (!sameBits(a[i].w(), b[i].w())) return false;
            auto w = ap(R, {(LD)a[i].x(), (LD)a[i].y(), (LD)a[i].z()});
            for (int q = 0; q < 3; ++q)
                if (!(std::fabs(b[i][q] - w[q]) <= 1e-14L * n * scaleOf({a[i]}))) return false;
        }
        return true;
    };
    {
        Curve cv = genCurve(r, o, c.cs), keep = cv;
        double S = scaleOf(cv.ControlPoints);
        c.desc = str(cv) + m;
        c.sig(sigOf(cv));
        setOp("Curve::Transform");
        Curve t = cv.Transform(R);
        VCHECK(c, sameBits(cv, keep), "transform-operand", "operand changed");
        VCHECK(c, t.Degree == cv.Degree && sameBits(t.Knots.Values(), cv.Knots.Values()) && same4(cv.ControlPoints, t.ControlPoints), "transform-data",
               "transformed curve is not R times the control points with unchanged weights, knots and degree");
        if (c.caseFailed) return;
        OCurve oc(cv);
        for (int k = 0; k < 4; ++k)
        {
            double x = genParam(r, cv.Knots.Values());
            VCHECK(c, dist(t.Evaluate(x), ap(R, oc.eval(x))) <= 1e-11L * n * S, "transform-eval", "Evaluate(%.17g) of the transformed curve is not R times the point", x);
        }
        c.event("curve_transforms");
    }
    {
        o.maxInterior = 4;
        Surface s = genSurface(r, o, c.cs), keep = s;
        double S = scaleOf(s.ControlPoints.Values);
        c.desc = str(s) + m;
        setOp("Surface::Transform");
        Surface t = s.Transform(R);
        VCHECK(c, sameBits(s, keep), "transform-operand", "operand changed");
        VCHECK(c, t.DegreeU == s.DegreeU && t.DegreeV == s.DegreeV && sameBits(t.KnotsU.Values(), s.KnotsU.Values()) && sameBits(t.KnotsV.Values(), s.KnotsV.Values()) &&
                      t.ControlPoints.UCount == s.ControlPoints.UCount && t.ControlPoints.VCount == s.ControlPoints.VCount && same4(s.ControlPoints.Values, t.ControlPoints.Values),
               "transform-data", "transformed surface is not R times the control points with unchanged weights, knots and degrees");
        if (c.caseFailed) return;
        OSurface os(s);
        for (int k = 0; k < 4; ++k)
        {
            double u = genParam(r, s.KnotsU.Values()), v = genParam(r, s.KnotsV.Values());
            VCHECK(c, dist(t.Evaluate(u, v), ap(R, os.eval(u, v))) <= 1e-11L * n * S, "transform-eval", "Evaluate of the transformed surface is not R times the point");
        }
        c.event("surface_transforms");
    }
}

// ------------------------------------------------------------------ AlignParameterDomain
using Axis = Surface::AlignAxis;
static void c22(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = 4;
    o.maxInterior = 4;
    Surface s = genSurface(r, o, c.cs);
    int nu = s.ControlPoints.UCount, nv = s.ControlPoints.VCount;
    int A = r.range(0, 2), B = (A + r.range(1, 2)) % 3;
    int mode = r.range(0, 5); // 0..2 regular patch, 3: one collapsed edge, 4: mismatched request, 5: arbitrary net
    double sa = r.chance(1, 2) ? 1 : -1, sb = r.chance(1, 2) ? 1 : -1;
    // size and proportions; edges up to 1e-6 count as collapsed
    double La = r.logu(0.5, 20), Lb = r.logu(0.5, 20), scale = r.chance(1, 3) ? r.logu(1e-4, 1e5) : 1;
    if (r.chance(1, 3)) (r.chance(1, 2) ? La : Lb) *= r.logu(1, 1e4);
    La *= scale;
    Lb *= scale;
    bool clean = mode != 5;
    int collapsed = -1;
    if (clean)
    {
        Vec3 org = rv(r, 10 * scale);
        double nz = 0.15 * std::min(La, Lb);
        Vec3 K[4]; // k = iu + 2 iv
        for (int k = 0; k < 4; ++k)
        {
            K[k] = org + rv(r, nz);
            if (k & 1) K[k][A] += sa * La;
            if (k & 2) K[k][B] += sb * Lb;
        }
        if (mode == 3)
        {
            // triangle: one edge shrinks to a point in the middle of that edge; the neighbours must stay dominated by their axis
            collapsed = r.range(0, 3); // 0: v=0 u-edge, 1: v=1 u-edge, 2: u=0 v-edge, 3: u=1 v-edge
            bool uEdge = collapsed < 2;
            double big = r.uni(4, 12), small = r.uni(1, 2);
            if (r.chance(1, 4)) big *= r.logu(1, 1e3);
            La = (uEdge ? small : big) * scale;
            Lb = (uEdge ? big : small) * scale;
            for (int k = 0; k < 4; ++k)
            {
                K[k] = org + rv(r, 0.05 * scale);
                if (k & 1) K[k][A] += sa * La;
                if (k & 2) K[k][B] += sb * Lb;
            }
            int i = collapsed == 0 ? 0 : collapsed == 1 ? 2 : collapsed == 2 ? 0 : 1, j = collapsed == 0 ? 1 : collapsed == 1 ? 3 : collapsed == 2 ? 2 : 3;
            double at = r.chance(1, 2) ? 0.5 : r.range(0, 4) * 0.25;
            Vec3 mid = K[i] * (1 - at) + K[j] * at;
            K[i] = K[j] = mid;
        }
        for (int k = 0; k < 4; ++k) s.ControlPoints.Get(k & 1 ? nu - 1 : 0, k & 2 ? nv - 1 : 0).head<3>() = K[k];
    }
    const Surface in = s;
    Axis ua = Axis(A), va = Axis(B);
    if (r.chance(1, 2)) std::swap(ua, va);
    if (mode >= 4)
    {
        ua = Axis(r.range(0, 2));
        va = Axis(r.range(0, 2));
    }
    char b[120];
    snprintf(b, sizeof b, " u along %c%c, v along %c%c, request u=%c v=%c, collapsed edge %d", sa > 0 ? '+' : '-', 'x' + A, sb > 0 ? '+' : '-', 'x' + B, 'x' + int(ua), 'x' + int(va), collapsed);
    c.desc = str(s) + b;
    setOp("Surface::AlignParameterDomain");
    Surface out = s.AlignParameterDomain(ua, va);
    VCHECK(c, sameBits(in, s), "align-operand", "operand changed");
    int sym = symmetryOf(in, out);
    VCHECK(c, sym >= 0, "align-symmetry", "result is not the surface with u and v swapped and/or reversed");
    auto st = structure(out);
    VCHECK(c, st.empty(), "align-structure", "result is malformed: %s", st.c_str());
    if (c.caseFailed) return;
    c.sig(mix(mix(mode, sym), mix(mix(A * 3 + B, (int)ua * 3 + (int)va), (sa > 0) + 2 * (sb > 0) + 8 * (collapsed + 1))));
    c.event(sym == 0 ? "left_unchanged" : "reparametrised");
    // shape through evaluation: S'(u,v) = S(sigma(u,v))
    double S = scaleOf(in.ControlPoints.Values);
    OSurface os(in);
    for (int k = 0; k < 3; ++k)
    {
        double u = r.uni(0.01, 0.99), v = r.uni(0.01, 0.99);
        LD a = sym & 2 ? 1 - (LD)u : u, bb = sym & 4 ? 1 - (LD)v : v;
        if (sym & 1) std::swap(a, bb);
        // stay away from knots where a mirrored parameter may fall into the neighbouring span of a discontinuous surface
        VCHECK(c, dist(out.Evaluate(u, v), os.eval(a, bb)) <= 1e-7L * S, "align-eval", "points of the aligned surface differ");
    }
    bool match = clean && ((int(ua) == A && int(va) == B) || (int(ua) == B && int(va) == A));
    if (match)
    {
        int mu = out.ControlPoints.UCount - 1, mv = out.ControlPoints.VCount - 1;
        Vec3 S00 = out.ControlPoints.Get(0, 0).head<3>(), S10 = out.ControlPoints.Get(mu, 0).head<3>(), S01 = out.ControlPoints.Get(0, mv).head<3>(),
             S11 = out.ControlPoints.Get(mu, mv).head<3>();
        Vec3 e[4] = {S10 - S00, S11 - S01, S01 - S00, S11 - S10};
        for (int k = 0; k < 4; ++k)
        {
            if (e[k].norm() < 1e-7 * std::min(La, Lb)) continue; // the collapsed one
            int ax = k < 2 ? int(ua) : int(va);
            bool ok = e[k][ax] > 0;
            for (int q = 0; q < 3; ++q) ok &= std::fabs(e[k][q]) <= e[k][ax];
            VCHECK(c, ok, "align-direction", "after alignment %c-edge %d runs along (%g %g %g), not along +%c", k < 2 ? 'u' : 'v', k & 1, e[k].x(), e[k].y(), e[k].z(), 'x' + ax);
        }
        c.event(collapsed >= 0 ? "aligned_triangles" : "aligned_patches");
        Surface again = out;
        Surface twice = again.AlignParameterDomain(ua, va);
        VCHECK(c, sameBits(twice, out), "align-idempotent", "aligning an aligned surface changes it");
    }
}

static void c27(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.maxDeg = 5;
    o.maxInterior = 5;
    o.huge = 300;
    Curve cv = genCurve(r, o, c.cs);
    Surface s = genSurface(r, o, c.cs);
    double w = r.chance(1, 3) ? 1.0 : r.logu(1e-3, 1e3);
    bool rat = r.chance(1, 2);
    auto fill = [&](std::vector<Vec4>& P) {
        for (auto& q : P) q.w() = w;
        if (rat)
        {
            int i = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : (int)P.size() - 1) : r.range(0, (int)P.size() - 1);
            int k = r.range(0, 2);
            P[i].w() = k == 0 ? std::nextafter(w, 10 * w) : k == 1 ? w * 2 : w * (1 + 1e-9);
            if (P.size() > 2 && r.chance(1, 2))
            {
                // several weights differ, in patterns whose differences cancel: mirrored, alternating, up and down by the same amount
                int j = r.range(0, (int)P.size() - 1), m = r.range(0, 3);
                double dw = w * (r.chance(1, 2) ? 0.5 : r.logu(1e-12, 0.9));
                if (m == 0) P[P.size() - 1 - i].w() = P[i].w();
                else if (m == 1 && i != j) { P[i].w() = w + dw; P[j].w() = w - dw; }
                else if (m == 2) for (size_t q = 0; q < P.size(); ++q) P[q].w() = q % 2 ? w + dw : w;
                else for (size_t q = 0; q < P.size(); ++q) P[q].w() = q % 4 < 2 ? w + dw : w - dw;
                bool differs = false;
                for (auto& q : P) differs |= q.w() != P[0].w();
                if (!differs) P[i].w() = 2 * P[i].w();
            }
        }
    };
    fill(cv.ControlPoints);
    fill(s.ControlPoints.Values);
    c.desc = std::string(rat ? "one weight differs: " : "equal weights: ") + str(cv);
    c.sig(mix(sigOf(cv), rat));
    setOp("IsRational");
    VCHECK(c, cv.IsRational() == rat, "rational-curve", "Curve::IsRational() = %d", (int)cv.IsRational());
    VCHECK(c, s.IsRational() == rat, "rational-surface", "Surface::IsRational() = %d for %s", (int)s.IsRational(), str(s).c_str());
    VCHECK(c, !Curve().IsRational() && !Surface().IsRational(), "rational-empty", "empty shape reported rational");
    c.event(rat ? "rational_shapes" : "non_rational_shapes");
    Mat3x3 R = genMat(r);
    VCHECK(c, cv.Transform(R).IsRational() == rat && s.Transform(R).IsRational() == rat, "rational-transform", "Transform changed IsRational");
}

static Register r14("C14", c14), r31("C31", c31), r20("C20", c20), r21("C21", c21), r22("C22", c22), r27("C27", c27);
