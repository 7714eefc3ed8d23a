// C04 knot vector construction/classification, C30 knot vector queries and edits, C23 grid container, C28 numeric helpers.
#include "common.hpp"
#include <memory>
using namespace vf;
using libnurbs::Grid;
using KnotPair = KnotVector::KnotPair;

static bool accepts(const std::vector<double>& v, std::vector<double>* got = nullptr)
{
    try
    {
        KnotVector k(v);
        if (got) *got = k.Values();
        return true;
    }
    catch (const std::exception&)
    {
        return false;
    }
}
static bool acceptsPairs(const std::vector<KnotPair>& v, std::vector<double>* got)
{
    try
    {
        KnotVector k(v);
        *got = k.Values();
        return true;
    }
    catch (const std::exception&)
    {
        return false;
    }
}
// specification of an admissible knot sequence: non-empty, every value >= 0, non-decreasing, ends exactly at 1
static bool legal(const std::vector<double>& v)
{
    if (v.empty()) return false;
    double last = 0;
    for (double x : v)
    {
        if (!(x >= last)) return false;
        last = x;
    }
    return last == 1.0;
}

static void c04(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    int p = 1 + int(c.cs % 8);
    auto U = genKnots(r, p, o, int(c.cs / 8) % 10, r.range(1, r.chance(1, 15) ? 80 : 10));
    c.desc = "p=" + std::to_string(p) + " U=" + str(U);
    uint64_t h = p;
    for (auto& [v, m] : distinctKnots(U)) h = mix(h, m);
    c.sig(h);

    // --- acceptance of legal vectors, rejection of mutated ones
    std::vector<double> got;
    setOp("KnotVector(values)");
    VCHECK(c, accepts(U, &got) && sameBits(got, U), "ctor-accept", "constructor rejected or altered a legal knot vector");
    auto M = U;
    int kind = r.range(0, 11), at = r.range(0, (int)M.size() - 1);
    const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    switch (kind)
    {
    case 0: M[at] = nan; break;
    case 1: M[at] = -nan; break;
    case 2: M[at] = inf; break;
    case 3: M[at] = -r.logu(1e-300, 10); break;
    case 4: M.back() = r.chance(1, 2) ? std::nextafter(1.0, 0.0) : std::nextafter(1.0, 2.0); break;
    case 5: std::swap(M[at], M[r.range(0, (int)M.size() - 1)]); break;
    case 6: M[at] = 1.0 + r.logu(1e-15, 1e3); break;
    case 7: M.clear(); break;
    case 8: M.pop_back(); break;
    case 9: M[at] = r.unit(); break;
    case 10: M.insert(M.begin() + at, r.unit()); break;
    case 11: M.resize(r.range(1, (int)M.size())); break;
    }
    setOp("KnotVector(mutated values)");
    bool acc = accepts(M, &got);
    c.event(legal(M) ? "legal_vectors" : "illegal_vectors");
    VCHECK(c, acc == legal(M), "ctor-verdict", "constructor %s mutated knot vector (kind %d) %s", acc ? "accepted illegal" : "rejected legal", kind, str(M).c_str());
    if (acc) VCHECK(c, sameBits(got, M), "ctor-values", "constructor altered the values");
    // pairs
    {
        std::vector<KnotPair> prs;
        std::vector<double> flat;
        for (auto& [v, m] : distinctKnots(M)) prs.emplace_back(r.range(-1, 5), v, m);
        if (!prs.empty() && r.chance(1, 3)) prs[r.range(0, (int)prs.size() - 1)].Multiplicity = r.range(0, 3);
        for (auto& q : prs)
            for (int i = 0; i < q.Multiplicity; ++i) flat.push_back(q.Value);
        setOp("KnotVector(pairs)");
        bool a2 = acceptsPairs(prs, &got);
        VCHECK(c, a2 == legal(flat), "ctor-pairs-verdict", "pair constructor %s %s", a2 ? "accepted illegal" : "rejected legal", str(flat).c_str());
        if (a2) VCHECK(c, sameBits(got, flat), "ctor-pairs-values", "pair constructor produced different values");
    }
    // --- IsValid: at least 4 knots, starts at 0, ends at 1, never decreases (checked on arbitrary contents, through Values())
    {
        KnotVector k;
        k.Values() = M;
        bool want = M.size() >= 4 && M.front() == 0.0 && legal(M);
        setOp("KnotVector::IsValid");
        VCHECK(c, k.IsValid() == want, "isvalid", "IsValid() = %d for %s", (int)k.IsValid(), str(M).c_str());
    }
    // --- contents that no constructor accepts, as a failed load or direct access to the values may leave them
    {
        KnotVector k;
        const bool zeros = r.chance(1, 2);
        k.Values().assign(r.range(0, 9), zeros ? 0.0 : 0.5);
        setOp("KnotVector queries (no end knots)");
        VCHECK(c, !k.IsClamped() && !k.IsValid(), "degenerate", "%zu equal knots are called clamped or valid", k.Values().size());
        (void)k.IsUniform();
        (void)k.GetMultiplicity(r.chance(1, 2) ? 0.0 : 0.5);
        VCHECK(c, k.GetKnotPairs().size() == (k.Values().empty() ? 0u : 1u), "degenerate", "%zu equal knots give %zu knot pairs", k.Values().size(), k.GetKnotPairs().size());
        bool threw = false;
        try
        {
            (void)k.DetectDegree();
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        if (zeros) VCHECK(c, threw, "degenerate", "the degree of %zu zeros was detected", k.Values().size());
        c.event("degenerate_vectors");
    }
    // --- IsClamped: front and back knots repeated equally often
    {
        int cut0 = r.range(0, p), cut1 = r.chance(1, 2) ? cut0 : r.range(0, p);
        std::vector<double> W(U.begin() + cut0, U.end() - cut1);
        KnotVector k(W);
        bool want = cut0 == cut1;
        setOp("KnotVector::IsClamped");
        VCHECK(c, k.IsClamped() == want, "isclamped", "IsClamped() = %d for %s", (int)k.IsClamped(), str(W).c_str());
        c.event(want ? "clamped_vectors" : "unclamped_vectors");
    }
    // --- Uniform + IsUniform
    {
        int deg = r.range(1, 9), add = r.chance(1, 10) ? r.range(50, 2000) : r.range(0, 30);
        int cnt = 2 * (deg + 1) + add;
        setOp("KnotVector::Uniform");
        KnotVector k = KnotVector::Uniform(deg, cnt);
        bool ok = k.Count() == cnt;
        for (int i = 0; ok && i < cnt; ++i)
        {
            LD want = i <= deg ? 0.0L : i >= cnt - deg - 1 ? 1.0L : (LD)(i - deg) / (add + 1);
            if (want == 0 || want == 1) ok = (LD)k.Values()[i] == want;
            else ok = std::fabs((LD)k.Values()[i] - want) <= 4e-16L + 2e-16L * cnt; // also if the steps are summed up
        }
        VCHECK(c, ok, "uniform", "Uniform(%d,%d) is not the uniform clamped knot vector", deg, cnt);
        VCHECK(c, k.IsUniform() && k.IsValid() && k.IsClamped() && k.DetectDegree() == deg, "uniform-class", "Uniform(%d,%d) misclassified", deg, cnt);
        if (add >= 2 && add <= 200)
        {
            // move one interior knot noticeably
            int i = deg + 1 + r.range(0, add - 1);
            double g = 1.0 / (add + 1), e = g * r.uni(0.1, 0.9) * (r.chance(1, 2) ? 1 : -1);
            if (std::fabs(e) > 1e-4)
            {
                k[i] += e;
                VCHECK(c, !k.IsUniform(), "nonuniform", "IsUniform() true although knot %d of Uniform(%d,%d) moved by %g", i, deg, cnt, e);
            }
        }
        if (add >= 1)
        {
            // repeated interior knots keep equal non-zero intervals
            KnotVector k2 = KnotVector::Uniform(deg, cnt);
            int reps = r.range(1, deg);
            int i = deg + 1 + r.range(0, add - 1);
            double v = k2.Values()[i];
            k2.Values().insert(k2.Values().begin() + i, reps, v);
            VCHECK(c, k2.IsUniform(), "uniform-repeated", "IsUniform() false although all non-zero intervals are equal");
        }
    }
    // --- DetectDegree on the clamped vector
    setOp("KnotVector::DetectDegree");
    VCHECK(c, KnotVector(U).DetectDegree() == p, "detectdegree", "DetectDegree() = %d", KnotVector(U).DetectDegree());
}

static void c30(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.minGap = r.chance(1, 2) ? 1e-5 : r.chance(1, 2) ? 1e-9 : 1e-15;
    o.extraMult = 1;
    int p = 1 + int(c.cs % 8);
    auto U = genKnots(r, p, o, int(c.cs / 8) % 10, r.range(1, r.chance(1, 15) ? 120 : 12));
    if (r.chance(1, 80)) U = genLongKnots(r, p, (int)r.logu(200, 6000));
    c.desc = "p=" + std::to_string(p) + " U=" + str(U);
    uint64_t h = p;
    for (auto& [v, m] : distinctKnots(U)) h = mix(h, m);
    c.sig(h);
    KnotVector k(U);
    auto d = distinctKnots(U);
    VCHECK(c, k.Count() == (int)U.size(), "count", "Count() = %d", k.Count());
    for (int t = 0; t < 3; ++t)
    {
        int i = r.range(0, (int)U.size() - 1);
        VCHECK(c, sameBits(k[i], U[i]) && sameBits(static_cast<const KnotVector&>(k)(i), U[i]), "index", "operator[]/() at %d", i);
    }
    setOp("KnotVector::GetKnotPairs");
    auto prs = k.GetKnotPairs();
    bool ok = prs.size() == d.size();
    int pos = 0;
    for (size_t i = 0; ok && i < d.size(); ++i)
    {
        ok = sameBits(prs[i].Value, d[i].first) && prs[i].Multiplicity == d[i].second && prs[i].Index == pos;
        pos += d[i].second;
    }
    VCHECK(c, ok, "pairs", "GetKnotPairs() does not list each distinct knot with first index and multiplicity");
    // queries
    for (double x : genParams(r, U, 6, 12))
    {
        setOp("KnotVector::FindSpanIndex");
        int s = k.FindSpanIndex(p, x), want = x == 1.0 ? (int)U.size() - p - 2 : oSpan(U, p, x);
        c.event("span_queries");
        VCHECK(c, s == want, "spanindex", "FindSpanIndex(%d, %.17g) = %d, expected %d", p, x, s, want);
        setOp("KnotVector::FindSpan");
        auto sp = k.FindSpan(x);
        int wi = 0;
        while (wi + 2 < (int)d.size() && d[wi + 1].first <= x) ++wi;
        VCHECK(c, sp.Index == wi && sameBits(sp.Left.Value, d[wi].first) && sp.Left.Multiplicity == d[wi].second &&
                      sameBits(sp.Right.Value, d[wi + 1].first) && sp.Right.Multiplicity == d[wi + 1].second,
               "findspan", "FindSpan(%.17g) = #%d [%.17g x%d, %.17g x%d], expected #%d", x, sp.Index, sp.Left.Value, sp.Left.Multiplicity, sp.Right.Value,
               sp.Right.Multiplicity, wi);
    }
    // multiplicities (well separated knots only: the query has an absolute tolerance)
    double minGap = 1;
    for (size_t i = 0; i + 1 < d.size(); ++i) minGap = std::min(minGap, d[i + 1].first - d[i].first);
    if (minGap >= 0.99e-5)
    {
        setOp("KnotVector::GetMultiplicity");
        for (auto& [v, m] : d)
        {
            VCHECK(c, k.GetMultiplicity(v) == m, "multiplicity", "GetMultiplicity(%.17g) = %d, expected %d", v, k.GetMultiplicity(v), m);
            c.event("multiplicity_queries");
        }
        for (int t = 0; t < 3; ++t)
        {
            double x = r.unit();
            bool far = true;
            for (auto& q : d) far &= std::fabs(q.first - x) > 5e-6;
            if (far) VCHECK(c, k.GetMultiplicity(x) == 0, "multiplicity-absent", "GetMultiplicity(%.17g) = %d for an absent knot", x, k.GetMultiplicity(x));
        }
    }
    // insertion keeps order, inserts exactly `times` copies, returns the span in the original vector
    {
        KnotVector q(U);
        std::vector<double> ref = U;
        int steps = r.range(1, 6);
        for (int t = 0; t < steps; ++t)
        {
            double x = r.chance(1, 2) && d.size() > 2 ? d[r.range(1, (int)d.size() - 2)].first : r.unit();
            if (r.chance(1, 8)) x = std::nextafter(x, r.chance(1, 2) ? 0.0 : 1.0);
            if (!(x > 1e-30 && x < 1)) continue;
            int times = r.range(1, 4);
            int before = 0;
            for (double v : ref) before += v <= x;
            setOp("KnotVector::InsertKnot");
            int ret = times == 1 && r.chance(1, 2) ? q.InsertKnot(x) : q.InsertKnot(x, times);
            ref.insert(ref.begin() + before, times, x);
            c.event("knot_insertions");
            VCHECK(c, ret == before - 1, "insert-span", "InsertKnot(%.17g,%d) returned %d, span in the original vector is %d", x, times, ret, before - 1);
            VCHECK(c, sameBits(q.Values(), ref), "insert-values", "InsertKnot(%.17g,%d) left %s", x, times, str(q.Values()).c_str());
            if (c.caseFailed) return;
        }
    }
    // reversal
    {
        KnotVector q(U);
        setOp("KnotVector::Reverse");
        q.Reverse();
        bool good = q.Count() == (int)U.size();
        for (size_t i = 0; good && i < U.size(); ++i) good = q.Values()[i] == 1.0 - U[U.size() - 1 - i];
        VCHECK(c, good, "reverse", "Reverse() does not mirror the knots about 1/2");
        q.Reverse();
        good = q.Count() == (int)U.size();
        for (size_t i = 0; good && i < U.size(); ++i) good = std::fabs(q.Values()[i] - U[i]) <= 2.3e-16;
        VCHECK(c, good, "reverse-twice", "Reverse() twice is not the identity");
    }
    {
        KnotVector e;
        VCHECK(c, e.GetKnotPairs().empty() && e.Count() == 0 && !e.IsValid(), "empty", "default constructed knot vector misreported");
    }
}

// ------------------------------------------------------------------ Grid against a plain model
struct NoDefault
{
};
template <class T> T mk(Rng& r);
template <> double mk<double>(Rng& r) { return r.uni(-1e3, 1e3); }
template <> int mk<int>(Rng& r) { return r.range(-1000000, 1000000); }
template <> std::string mk<std::string>(Rng& r)
{
    return std::string(r.range(0, 40), 'a' + r.range(0, 25)) + std::to_string(r.next() % 100000);
}
template <> std::vector<int> mk<std::vector<int>>(Rng& r)
{
    std::vector<int> v(r.range(0, 6));
    for (auto& x : v) x = r.range(0, 99999);
    return v;
}
template <> Vec4 mk<Vec4>(Rng& r) { return Vec4(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1), r.unit() + 0.1); }
template <> std::shared_ptr<int> mk<std::shared_ptr<int>>(Rng& r) { return std::make_shared<int>(r.range(0, 1 << 30)); }

template <class T> struct Model
{
    std::vector<std::vector<T>> rows; // rows[v][u]
    int nu = 0;
};
template <class T> bool agree(Ctx& c, const Grid<T>& g, const Model<T>& m, const char* op)
{
    int nv = (int)m.rows.size();
    bool dims = g.UCount == m.nu && g.VCount == nv && (int)g.Values.size() == m.nu * nv && g.Count() == m.nu * nv;
    VCHECK(c, dims, "grid-dims", "after %s: grid is %dx%d with %zu values, model %dx%d", op, g.UCount, g.VCount, g.Values.size(), m.nu, nv);
    if (!dims) return false;
    for (int v = 0; v < nv; ++v)
        for (int u = 0; u < m.nu; ++u)
        {
            bool e = g.Get(u, v) == m.rows[v][u] && g.Values[v * m.nu + u] == m.rows[v][u];
            if (!e)
            {
                VCHECK(c, false, "grid-values", "after %s: element (%d,%d) of %dx%d grid differs from the model", op, u, v, m.nu, nv);
                return false;
            }
        }
    c.event("checks");
    return true;
}
template <class T> void gridCase(Ctx& c)
{
    Rng& r = c.rng;
    int nu = r.range(1, r.chance(1, 10) ? 20 : 5), nv = r.range(1, r.chance(1, 10) ? 20 : 5);
    Model<T> m;
    m.nu = nu;
    m.rows.assign(nv, std::vector<T>(nu));
    Grid<T> g;
    std::string trail;
    if (r.chance(1, 3))
    {
        T init = mk<T>(r);
        setOp("Grid(u,v,init)");
        g = Grid<T>(nu, nv, T(init));
        for (auto& row : m.rows)
            for (auto& x : row) x = init;
        trail = "ctor-init ";
        if (!agree(c, g, m, "construction with a value")) return;
    }
    else
    {
        setOp("Grid(u,v)");
        g = Grid<T>(nu, nv);
        trail = "ctor ";
        for (int v = 0; v < nv; ++v)
            for (int u = 0; u < nu; ++u)
            {
                T x = mk<T>(r);
                g.Get(u, v) = x;
                m.rows[v][u] = x;
            }
        if (!agree(c, g, m, "Get()=")) return;
    }
    int ops = r.range(2, 14);
    uint64_t h = mix(nu * 64 + nv, sizeof(T));
    for (int t = 0; t < ops; ++t)
    {
        int k = r.range(0, 8);
        nv = (int)m.rows.size();
        nu = m.nu;
        char b[64];
        switch (k)
        {
        case 0:
        case 1:
        {
            int at = r.range(0, nu - 1);
            bool alias = r.chance(1, 3);
            int au = r.range(0, nu - 1), av = r.range(0, nv - 1);
            T val = alias ? m.rows[av][au] : mk<T>(r);
            snprintf(b, sizeof b, "InsertU(%d%s)", at, alias ? ",own element" : "");
            setOp(b);
            if (k == 1 && !alias)
            {
                val = T();
                if constexpr (std::is_same_v<T, Vec4>) { val = Vec4::Zero(); g.InsertU(at, val); }
                else g.InsertU(at);
            }
            else if (alias) g.InsertU(at, g.Get(au, av));
            else g.InsertU(at, val);
            for (auto& row : m.rows) row.insert(row.begin() + at, val);
            m.nu++;
            c.event("insert_u");
            if (alias) c.event("aliased_inserts");
            break;
        }
        case 2:
        case 3:
        {
            int at = r.range(0, nv - 1);
            bool alias = r.chance(1, 3);
            int au = r.range(0, nu - 1), av = r.range(0, nv - 1);
            T val = alias ? m.rows[av][au] : mk<T>(r);
            snprintf(b, sizeof b, "InsertV(%d%s)", at, alias ? ",own element" : "");
            setOp(b);
            if (alias) g.InsertV(at, g.Get(au, av));
            else g.InsertV(at, val);
            m.rows.insert(m.rows.begin() + at, std::vector<T>(nu, val));
            c.event("insert_v");
            break;
        }
        case 4:
        {
            int at = r.range(0, nu - 1);
            std::vector<T> x(nv);
            for (auto& e : x) e = mk<T>(r);
            snprintf(b, sizeof b, "SetU(%d)", at);
            setOp(b);
            g.SetU(at, x);
            for (int v = 0; v < nv; ++v) m.rows[v][at] = x[v];
            break;
        }
        case 5:
        {
            int at = r.range(0, nv - 1);
            std::vector<T> x(nu);
            for (auto& e : x) e = mk<T>(r);
            snprintf(b, sizeof b, "SetV(%d)", at);
            setOp(b);
            g.SetV(at, x);
            m.rows[at] = x;
            break;
        }
        case 6:
        {
            int at = r.range(0, nu - 1);
            snprintf(b, sizeof b, "GetU(%d)", at);
            setOp(b);
            auto x = g.GetU(at);
            bool e = (int)x.size() == nv;
            for (int v = 0; e && v < nv; ++v) e = x[v] == m.rows[v][at];
            VCHECK(c, e, "grid-getu", "GetU(%d) on a %dx%d grid is not that column", at, nu, nv);
            break;
        }
        case 7:
        {
            int at = r.range(0, nv - 1);
            snprintf(b, sizeof b, "GetV(%d)", at);
            setOp(b);
            auto x = g.GetV(at);
            bool e = (int)x.size() == nu;
            for (int u = 0; e && u < nu; ++u) e = x[u] == m.rows[at][u];
            VCHECK(c, e, "grid-getv", "GetV(%d) on a %dx%d grid is not that row", at, nu, nv);
            break;
        }
        default:
        {
            int u = r.range(0, nu - 1), v = r.range(0, nv - 1);
            snprintf(b, sizeof b, "Get(%d,%d)=", u, v);
            T x = mk<T>(r);
            g.Get(u, v) = x;
            m.rows[v][u] = x;
            break;
        }
        }
        h = mix(h, k);
        trail += b;
        trail += ' ';
        c.desc = trail;
        c.event("grid_operations");
        if (c.caseFailed || !agree(c, g, m, b)) return;
    }
    c.sig(h);
}
static void c23(Ctx& c)
{
    switch (c.cs % 6)
    {
    case 0: gridCase<double>(c); break;
    case 1: gridCase<std::string>(c); break;
    case 2: gridCase<Vec4>(c); break;
    case 3: gridCase<std::vector<int>>(c); break;
    case 4: gridCase<int>(c); break;
    default: gridCase<std::shared_ptr<int>>(c); break;
    }
    c.desc += c.cs % 6 == 0 ? "T=double" : c.cs % 6 == 1 ? "T=string" : c.cs % 6 == 2 ? "T=Vec4" : c.cs % 6 == 3 ? "T=vector<int>" : c.cs % 6 == 4 ? "T=int" : "T=shared_ptr";
}

static void c28(Ctx& c)
{
    Rng& r = c.rng;
    setOp("Factorial");
    long long f = 1;
    for (int n = 0; n <= 9; ++n)
    {
        if (n) f *= n;
        VCHECK(c, libnurbs::Factorial(n) == f, "factorial", "Factorial(%d) = %d", n, libnurbs::Factorial(n));
    }
    static long long tri[56][56];
    if (!tri[0][0])
        for (int n = 0; n < 56; ++n)
            for (int k = 0; k <= n; ++k) tri[n][k] = k == 0 || k == n ? 1 : tri[n - 1][k - 1] + tri[n - 1][k];
    setOp("Binomial");
    for (int t = 0; t < 20; ++t)
    {
        int n = r.range(0, 50), k = r.range(0, 54);
        long long w = k > n ? 0 : tri[n][k];
        auto g = libnurbs::Binomial(n, k);
        c.sig(mix(n, k));
        VCHECK(c, g == w, "binomial", "Binomial(%d,%d) = %.17g, expected %lld", n, k, (double)g, w);
    }
    setOp("Approx");
    for (int t = 0; t < 10; ++t)
    {
        double a = r.uni(-10, 10), e = r.logu(1e-9, 1e-1), s = r.chance(1, 2) ? 1 : -1;
        bool def = r.chance(1, 3);
        if (def) e = 1e-6;
        double in = a + s * e * r.uni(0, 0.99), out = a + s * e * r.uni(1.01, 50);
        if (e < 1e-8) continue;
        VCHECK(c, def ? libnurbs::Approx(a, in) && !libnurbs::Approx(a, out) : libnurbs::Approx(a, in, e) && !libnurbs::Approx(a, out, e), "approx",
               "Approx(%.17g, +-%g) wrong around the tolerance", a, e);
        Vec3 v(r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)), w = v, x = v;
        for (int i = 0; i < 3; ++i) w[i] += (r.chance(1, 2) ? 1 : -1) * e * r.uni(0, 0.99);
        x[r.range(0, 2)] += s * e * r.uni(1.01, 50);
        VCHECK(c, def ? libnurbs::Approx(v, w) && !libnurbs::Approx(v, x) : libnurbs::Approx(v, w, e) && !libnurbs::Approx(v, x, e), "approx-vector",
               "vector Approx wrong around tolerance %g", e);
        c.event("approx_queries");
    }
    setOp("ToHomo");
    for (int t = 0; t < 10; ++t)
    {
        Vec4 v(r.uni(-1, 1) * 1e3, r.uni(-1, 1), r.uni(-1, 1) * 1e-3, r.logu(1e-6, 1e6));
        if (r.chance(1, 3)) v.w() = r.logu(1e-200, 1e200);
        if (r.chance(1, 10)) v.w() = 1.0;
        if (r.chance(1, 10)) v[r.range(0, 2)] = 0.0;
        if (r.chance(1, 8)) v.w() = -v.w();
        Vec4 hm = libnurbs::ToHomo(v), b = libnurbs::FromHomo(hm);
        bool ok = hm.w() == v.w() && b.w() == v.w();
        for (int i = 0; i < 3; ++i) ok &= hm[i] == v[i] * v.w() && std::fabs(b[i] - v[i]) <= 4e-16 * std::fabs(v[i]);
        VCHECK(c, ok, "homo", "ToHomo/FromHomo of (%.17g %.17g %.17g %.17g)", v.x(), v.y(), v.z(), v.w());
        c.event("homogeneous_round_trips");
    }
    c.desc = "factorials 0..9, 20 random binomials n<=29, tolerance-edge Approx, homogeneous round trips";
}

static Register r4("C04", c04), r30("C30", c30), r23("C23", c23), r28("C28", c28);
