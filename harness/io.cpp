// C17 save/load round trip, C18 hostile input, C19 failing sinks/sources, C29 text layout.
#include "common.hpp"
#include <cerrno>
#include <csignal>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <locale>
#include <malloc.h>
#include <memory>
#include <new>
#include <streambuf>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

// ---------------------------------------------------------------- allocation monitor
namespace
{
bool g_track = false;
size_t g_live = 0, g_peak = 0, g_max = 0;
size_t g_cap = 1ull << 31; // refuse single requests above this while tracking (no real 16 GB allocations in a check)

// plain malloc blocks: parts of the C++ runtime release them with free() directly
void* trackedNew(size_t n, size_t al)
{
    if (g_track)
    {
        if (n > g_max) g_max = n;
        if (n > g_cap) throw std::bad_alloc();
    }
    void* p = nullptr;
    if (n == 0) n = 1;
    if (al <= 16) p = malloc(n);
    else if (posix_memalign(&p, al, n)) p = nullptr;
    if (!p) throw std::bad_alloc();
    if (g_track)
    {
        g_live += malloc_usable_size(p);
        if (g_live > g_peak) g_peak = g_live;
    }
    return p;
}
void trackedDelete(void* q) noexcept
{
    if (!q) return;
    if (g_track)
    {
        size_t n = malloc_usable_size(q);
        g_live -= std::min(n, g_live);
    }
    free(q);
}
} // namespace
void* operator new(size_t n) { return trackedNew(n, 16); }
void* operator new[](size_t n) { return trackedNew(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return trackedNew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return trackedNew(n, (size_t)a); }
void operator delete(void* p) noexcept { trackedDelete(p); }
void operator delete[](void* p) noexcept { trackedDelete(p); }
void operator delete(void* p, size_t) noexcept { trackedDelete(p); }
void operator delete[](void* p, size_t) noexcept { trackedDelete(p); }
void operator delete(void* p, std::align_val_t) noexcept { trackedDelete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { trackedDelete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { trackedDelete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { trackedDelete(p); }

namespace vf
{
namespace
{
// ---------------------------------------------------------------- stream stand-ins
struct ChunkIn : std::streambuf // delivers its data in small, irregular pieces; non-seekable
{
    std::string d;
    size_t pos = 0;
    size_t failAt = SIZE_MAX; // source throws (I/O error) when this byte is requested
    Rng r;
    int maxChunk;
    std::vector<char> b;
    ChunkIn(std::string s, uint64_t seed, int mc) : d(std::move(s)), r(seed), maxChunk(mc), b(mc) {}
    int_type underflow() override
    {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= failAt) throw std::ios_base::failure("injected read error");
        size_t n = std::min<size_t>({(size_t)r.range(1, maxChunk), d.size() - pos, failAt - pos});
        if (n == 0) return traits_type::eof();
        std::copy(d.begin() + pos, d.begin() + pos + n, b.begin());
        pos += n;
        setg(b.data(), b.data(), b.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};
struct FailOut : std::streambuf // unbuffered sink that accepts exactly `limit` bytes, then fails for good
{
    std::string d;
    size_t limit;
    bool thrower, once; // once: refuses a single time, then works again (a transient error)
    explicit FailOut(size_t l, bool t = false, bool o = false) : limit(l), thrower(t), once(o) {}
    int_type refuse()
    {
        if (once) limit = SIZE_MAX;
        if (thrower) throw std::runtime_error("injected write error");
        return traits_type::eof();
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        if (d.size() >= limit) return refuse();
        d.push_back(traits_type::to_char_type(c));
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        size_t room = limit - d.size();
        size_t k = std::min<size_t>(room, (size_t)n);
        d.append(s, k);
        if ((std::streamsize)k < n && once) limit = SIZE_MAX;
        if ((std::streamsize)k < n && thrower) throw std::runtime_error("injected write error");
        return (std::streamsize)k;
    }
};

// ---------------------------------------------------------------- object generators
uint64_t bitsOf(double x)
{
    uint64_t b;
    memcpy(&b, &x, 8);
    return b;
}
double fromBits(uint64_t b)
{
    double x;
    memcpy(&x, &b, 8);
    return x;
}
double wildDouble(Rng& r, bool finiteOnly)
{
    for (;;)
    {
        double x;
        switch (r.range(0, 9))
        {
        case 0: x = fromBits(r.next()); break;
        case 1: x = (double)r.range(-9, 9); break;
        case 2: x = r.chance(1, 2) ? 0.0 : -0.0; break;
        case 3: x = r.uni(-1, 1) * std::pow(10.0, r.range(-6, 12)); break;
        case 4: x = r.uni(-1, 1); break;
        case 5: x = std::pow(10.0, r.range(-12, 20)) * (r.chance(1, 2) ? 1 : -1); break;
        case 6: x = finiteOnly ? 1.0 / 3 : (r.chance(1, 2) ? INFINITY : fromBits(0x7ff8000000000000ull | r.next() >> 20)); break;
        case 7: x = r.chance(1, 2) ? std::numeric_limits<double>::max() : std::numeric_limits<double>::min(); break;
        case 8: x = fromBits(0x0a0d0a0d0d0a1a00ull ^ (r.next() & 0xffff)); break; // bytes that text layers would translate
        default: x = std::nextafter(1.0, r.chance(1, 2) ? 2.0 : 0.0) * r.range(1, 1000); break;
        }
        if (!finiteOnly) return x;
        // decimal round trip domain: finite, not so huge that the fixed notation is pointless
        if (std::isfinite(x) && std::fabs(x) < 1e300) return x;
    }
}
void wildPoint(Rng& r, Vec4& p, bool fin)
{
    for (int i = 0; i < 4; ++i) p[i] = wildDouble(r, fin);
}
int wildCount(Rng& r, bool big)
{
    switch (r.range(0, 7))
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return r.range(2, 5);
    case 3: return big ? r.range(400, 1500) : r.range(5, 60);
    default: return r.range(2, 24);
    }
}
Curve ioCurve(Rng& r, long long cs, bool txt)
{
    if (r.chance(1, 2))
    {
        GenOpt o;
        o.huge = 300;
        return genCurve(r, o, cs);
    }
    Curve c;
    c.Degree = r.chance(1, 8) ? (int)r.next() : r.range(0, 12);
    int n = wildCount(r, r.chance(1, 20));
    if (r.chance(1, 400)) n = r.range(20000, 60000);
    int k = r.chance(1, 3) ? wildCount(r, false) : n + c.Degree % 16 + 1;
    if (k < 0) k = 3;
    for (int i = 0; i < k; ++i) c.Knots.Values().push_back(wildDouble(r, txt));
    c.ControlPoints.resize(n);
    for (auto& p : c.ControlPoints) wildPoint(r, p, txt);
    return c;
}
Surface ioSurface(Rng& r, long long cs, bool txt)
{
    if (r.chance(1, 2))
    {
        GenOpt o;
        o.huge = 400;
        return genSurface(r, o, cs);
    }
    Surface s;
    s.DegreeU = r.range(0, 12);
    s.DegreeV = r.chance(1, 8) ? (int)r.next() : r.range(0, 12);
    int nu = r.range(1, 12), nv = r.range(1, 12);
    if (r.chance(1, 10)) (r.chance(1, 2) ? nu : nv) = 1;
    if (r.chance(1, 40)) (r.chance(1, 2) ? nu : nv) = r.range(100, 700);
    int ku = r.chance(1, 3) ? wildCount(r, false) : nu + 4, kv = r.chance(1, 3) ? wildCount(r, false) : nv + 3;
    for (int i = 0; i < ku; ++i) s.KnotsU.Values().push_back(wildDouble(r, txt));
    for (int i = 0; i < kv; ++i) s.KnotsV.Values().push_back(wildDouble(r, txt));
    s.ControlPoints.UCount = nu;
    s.ControlPoints.VCount = nv;
    s.ControlPoints.Values.resize((size_t)nu * nv);
    for (auto& p : s.ControlPoints.Values) wildPoint(r, p, txt);
    return s;
}

// ---------------------------------------------------------------- comparison
// TXT keeps 17 decimals: values of magnitude >= 0.1 come back exactly, smaller ones within 1e-17
bool txtSame(double a, double b)
{
    if (std::fabs(a) >= 0.1) return sameBits(a, b);
    return std::fabs(a - b) <= 1.0e-17;
}
bool txtSame(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!txtSame(a[i], b[i])) return false;
    return true;
}
bool txtSame(const std::vector<Vec4>& a, const std::vector<Vec4>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        for (int k = 0; k < 4; ++k)
            if (!txtSame(a[i][k], b[i][k])) return false;
    return true;
}
bool txtSame(const Curve& a, const Curve& b)
{
    return a.Degree == b.Degree && txtSame(a.Knots.Values(), b.Knots.Values()) && txtSame(a.ControlPoints, b.ControlPoints);
}
bool txtSame(const Surface& a, const Surface& b)
{
    return a.DegreeU == b.DegreeU && a.DegreeV == b.DegreeV && txtSame(a.KnotsU.Values(), b.KnotsU.Values()) &&
           txtSame(a.KnotsV.Values(), b.KnotsV.Values()) && a.ControlPoints.UCount == b.ControlPoints.UCount &&
           a.ControlPoints.VCount == b.ControlPoints.VCount && txtSame(a.ControlPoints.Values, b.ControlPoints.Values);
}
Curve gen(Rng& r, long long cs, bool txt, Curve*) { return ioCurve(r, cs, txt); }
Surface gen(Rng& r, long long cs, bool txt, Surface*) { return ioSurface(r, cs, txt); }

template <class T>
std::string saveStr(const T& x, bool bin)
{
    std::ostringstream os(std::ios::binary);
    x.SaveToFile(os, bin);
    return os.str();
}

struct Punct : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
};

struct LocaleGuard
{
    bool on;
    std::locale old;
    explicit LocaleGuard(bool o) : on(o), old()
    {
        if (on) std::locale::global(std::locale(std::locale::classic(), new Punct));
    }
    ~LocaleGuard()
    {
        if (on) std::locale::global(old);
    }
};

// ================================================================ C17
template <class T>
void roundTrip(Ctx& c, const char* what)
{
    Rng& r = c.rng;
    bool bin = r.chance(1, 2);
    T x = gen(r, c.cs, !bin, (T*)nullptr);
    const T copy = x;
    c.desc = std::string(bin ? "BIN " : "TXT ") + str(x);
    if (c.desc.size() > 900) c.desc.resize(900);
    auto same = [&](const T& a, const T& b) { return bin ? sameBits(a, b) : txtSame(a, b); };
    T target;
    bool used = r.chance(1, 2);
    if (used) target = gen(r, r.range(0, 500), !bin, (T*)nullptr);
    std::string bytes;
    int how = r.range(0, 4);
    // an application may have installed any locale, e.g. one with a decimal comma
    LocaleGuard guard(r.chance(1, 5));
    if (guard.on) c.event("foreign_locale_round_trips");
    if (how == 0) // through a file, over a possibly longer old one
    {
        std::string path = c.scratch + "/shape.dat";
        if (r.chance(1, 2)) std::ofstream(path) << std::string(r.range(0, 20000), '7');
        setOp("SaveToFile(path)");
        x.SaveToFile(path, bin);
        std::ifstream f(path, std::ios::binary);
        bytes.assign(std::istreambuf_iterator<char>(f), {});
        setOp("LoadFromFile(path)");
        T& ret = target.LoadFromFile(path);
        VCHECK(c, &ret == &target, "ref", "%s: LoadFromFile does not return its object", what);
        unlink(path.c_str());
        c.event("file_round_trips");
    }
    else if (how == 1) // non-seekable source delivering irregular pieces
    {
        bytes = saveStr(x, bin);
        ChunkIn in(bytes, r.next(), r.chance(1, 3) ? 1 : r.range(2, 64));
        std::istream is(&in);
        setOp("LoadFromFile(chunked)");
        target.LoadFromFile(is);
        c.event("chunked_round_trips");
    }
    else if (how == 2) // stream with user formatting state, and a stream that already holds data
    {
        std::ostringstream os(std::ios::binary);
        std::string pre = r.chance(1, 2) ? "prefix of another writer\n" : "";
        os << pre;
        auto f0 = os.flags();
        if (r.chance(1, 2)) os << std::showpos;
        if (r.chance(1, 2)) os << std::uppercase;
        if (r.chance(1, 2)) os << std::showpoint;
        if (r.chance(1, 2)) os << std::scientific;
        if (r.chance(1, 2)) os << std::hex << std::showbase;
        else if (r.chance(1, 3)) os << std::oct;
        os << std::setprecision(r.range(0, 9));
        if (r.chance(1, 2)) os.imbue(std::locale(std::locale::classic(), new Punct));
        (void)f0;
        setOp("SaveToFile(stream with state)");
        x.SaveToFile(os, bin);
        bytes = os.str().substr(pre.size());
        std::istringstream is(bytes, std::ios::binary);
        target.LoadFromFile(is);
        c.event("formatted_stream_round_trips");
    }
    else if (how == 3) // same stream for writing and reading
    {
        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
        x.SaveToFile(ss, bin);
        bytes = ss.str();
        target.LoadFromFile(ss);
    }
    else
    {
        bytes = saveStr(x, bin);
        std::istringstream is(bytes, std::ios::binary);
        target.LoadFromFile(is);
    }
    c.event("round_trips");
    if (used) c.event("loads_into_used_objects");
    VCHECK(c, sameBits(x, copy), "operand", "%s: saving changed the object", what);
    VCHECK(c, same(x, target), "roundtrip", "%s: loaded object differs (how=%d, target %s): %s", what, how, used ? "already in use" : "fresh",
           str(target).substr(0, 500).c_str());
    std::string again = saveStr(x, bin);
    if (how != 2 || bin) VCHECK(c, again == bytes, "deterministic", "%s: saving twice produced different bytes", what);
    // saving what was loaded reproduces the file
    VCHECK(c, saveStr(target, bin) == again, "stable", "%s: save(load(file)) differs from the file", what);
    c.maxEvent("max_file_bytes", (long long)bytes.size());
    c.sig(mix(hashStr(what), mix(sigOf(x), (uint64_t)(how * 4 + bin * 2 + used))));
}
void binSequence(Ctx& c) // several binary objects one after another in one stream
{
    Rng& r = c.rng;
    std::vector<Curve> cv;
    std::vector<Surface> sv;
    std::string order;
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    int n = r.range(2, 5);
    for (int i = 0; i < n; ++i)
        if (r.chance(1, 2))
        {
            cv.push_back(ioCurve(r, c.cs + i, false));
            cv.back().SaveToFile(ss, true);
            order += 'C';
        }
        else
        {
            sv.push_back(ioSurface(r, c.cs + i, false));
            sv.back().SaveToFile(ss, true);
            order += 'S';
        }
    c.desc = "binary sequence " + order;
    size_t ci = 0, si = 0;
    Curve a;
    Surface b;
    setOp("LoadFromFile(sequence)");
    for (char k : order)
    {
        if (k == 'C')
        {
            a.LoadFromFile(ss);
            VCHECK(c, sameBits(a, cv[ci]), "sequence", "curve %zu of the sequence differs", ci);
            ++ci;
        }
        else
        {
            b.LoadFromFile(ss);
            VCHECK(c, sameBits(b, sv[si]), "sequence", "surface %zu of the sequence differs", si);
            ++si;
        }
        c.event("sequence_loads");
    }
    VCHECK(c, ss.peek() == EOF, "sequence", "bytes left over");
    c.sig(mix(hashStr(order.c_str()), c.rng.next()));
}
void emptyObjects(Ctx& c) // a default constructed object can be saved, and the curve comes back as it was
{
    c.desc = "default constructed objects";
    for (int bin = 0; bin < 2; ++bin)
    {
        Curve a, b;
        setOp("SaveToFile(default curve)");
        std::string s = saveStr(a, bin);
        std::istringstream is(s);
        b.LoadFromFile(is);
        VCHECK(c, sameBits(a, b), "empty", "default constructed curve does not survive saving and loading");
        setOp("SaveToFile(default surface)");
        saveStr(Surface{}, bin); // memory monitors watch
        c.event("default_objects_saved");
    }
}
// far more knots and control points than any other case has
void giantObjects(Ctx& c, bool bin, bool surface)
{
    Rng& r = c.rng;
    int n = bin ? r.range(1100000, 1300000) : r.range(70000, 80000), nu = bin ? r.range(1050, 1200) : r.range(260, 300);
    c.desc = std::string(bin ? "BIN" : "TXT") + " giant " + (surface ? "surface" : "curve");
    auto values = [&](std::vector<double>& U, int k) {
        U.resize(k);
        for (auto& x : U) x = r.uni(0.1, 1e3); // text keeps these exactly
    };
    auto points = [&](std::vector<Vec4>& P, size_t k) {
        P.resize(k);
        for (auto& p : P) p = Vec4(r.uni(1, 2), r.uni(-2, -1), r.uni(100, 200), r.uni(0.1, 1));
    };
    auto trip = [&](auto& x, auto y) {
        std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
        setOp("SaveToFile(giant)");
        x.SaveToFile(ss, bin);
        setOp("LoadFromFile(giant)");
        y.LoadFromFile(ss);
        VCHECK(c, sameBits(x, y), "giant", "%s does not survive saving and loading", c.desc.c_str());
    };
    if (surface)
    {
        Surface s;
        s.DegreeU = s.DegreeV = 2;
        values(s.KnotsU.Values(), n);
        values(s.KnotsV.Values(), n);
        s.ControlPoints.UCount = nu;
        s.ControlPoints.VCount = n / nu;
        points(s.ControlPoints.Values, (size_t)nu * (n / nu));
        trip(s, Surface{});
    }
    else
    {
        Curve v;
        v.Degree = 2;
        values(v.Knots.Values(), n);
        points(v.ControlPoints, n);
        trip(v, Curve{});
    }
    c.event("giant_objects");
    c.sig(mix(hashStr(c.desc.c_str()), n));
}
void c17(Ctx& c)
{
    if (c.cs == 8) return emptyObjects(c);
    if (c.cs % 9 == 8 && c.cs < 45) return giantObjects(c, c.cs < 30, c.cs == 26 || c.cs == 44);
    int k = (int)(c.cs % 9);
    if (k < 4) roundTrip<Curve>(c, "curve");
    else if (k < 8) roundTrip<Surface>(c, "surface");
    else binSequence(c);
}
Register r17("C17", c17);

// ================================================================ C18
const char* TOK[] = {"0", "1", "-1", "2147483647", "-2147483648", "99999999999999999999", "65536", "46341", "1e400", "-1e-400", "nan", "inf",
                     "NaN", "0x10", "1.5", ",", ",,", ":", "*", "*Degree:", "*Knots:", "*ControlPoints:", "*DegreeU:", "*KnotsV:", "\n", "\r\n",
                     " ", "\t", "", "abc", "-", "+", ".", "1e", "\0", "LIBNURBS", "TXT", "BIN", "CURVE", "SURFACE", "4 4", "65536 65536",
                     "2147483647 2147483647", "-1 -1", "0 0", "1 1 1 1", "1 2 3"};
std::string mutate(Rng& r, std::string s, bool bin)
{
    int n = r.range(1, 4);
    while (n--)
    {
        switch (r.range(0, 7))
        {
        case 0:
            if (!s.empty()) s[r.range(0, (int)s.size() - 1)] ^= (char)(1 << r.range(0, 7));
            break;
        case 1:
            if (!s.empty()) s.resize(r.range(0, (int)s.size()));
            break;
        case 2:
        {
            size_t at = r.range(0, (int)s.size());
            s.insert(at, TOK[r.range(0, (int)(sizeof TOK / sizeof *TOK) - 1)]);
            break;
        }
        case 3: // duplicate a piece
            if (!s.empty())
            {
                size_t a = r.range(0, (int)s.size() - 1), l = r.range(1, 40);
                s.insert(r.range(0, (int)s.size()), s.substr(a, l));
            }
            break;
        case 4: // drop a piece
            if (!s.empty())
            {
                size_t a = r.range(0, (int)s.size() - 1);
                s.erase(a, r.range(1, 30));
            }
            break;
        case 5: // overwrite a 4 byte field
        {
            size_t hdr = s.find('\n');
            if (hdr == std::string::npos || s.size() < hdr + 6) break;
            size_t at = bin && r.chance(1, 2) ? hdr + 1 + 4 * r.range(0, 3) : hdr + 1 + r.range(0, (int)(s.size() - hdr - 5));
            static const int32_t V[] = {-1, 0, 1, 2, 255, 65535, 65536, 65537, 46341, 0x7fffffff, (int32_t)0x80000000, 0x10000000, 0x08000001, 0x40000000};
            int32_t v = r.chance(1, 4) ? (int32_t)r.next() : V[r.range(0, 13)];
            if (at + 4 <= s.size()) memcpy(&s[at], &v, 4);
            break;
        }
        case 6: // replace a token
            if (!bin && !s.empty())
            {
                size_t a = r.range(0, (int)s.size() - 1);
                size_t b = s.find_first_of(" ,\n:", a);
                if (b == std::string::npos) b = s.size();
                s.replace(a, b - a, TOK[r.range(0, (int)(sizeof TOK / sizeof *TOK) - 1)]);
            }
            break;
        default:
        {
            std::string g(r.range(1, 60), 0);
            for (auto& ch : g) ch = (char)r.next();
            s.insert(r.range(0, (int)s.size()), g);
        }
        }
    }
    return s;
}
std::string le32(int32_t v) { return std::string((const char*)&v, 4); }
std::string doubles(Rng& r, int n)
{
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        double d = r.unit();
        s.append((const char*)&d, 8);
    }
    return s;
}

// outcome of feeding `s` to the loader of a T; returns true when accepted
template <class T>
bool feed(Ctx& c, T& obj, const std::string& s, std::string& err, bool chunked = false)
{
    std::unique_ptr<std::streambuf> sb;
    if (chunked) sb = std::make_unique<ChunkIn>(s, c.rng.next(), c.rng.range(1, 30));
    else sb = std::make_unique<std::stringbuf>(s, std::ios::in | std::ios::binary);
    std::istream is(sb.get());
    g_live = g_peak = g_max = 0;
    g_track = true;
    bool ok = false;
    try
    {
        obj.LoadFromFile(is);
        ok = true;
    }
    catch (const std::exception& e)
    {
        g_track = false;
        err = e.what();
    }
    catch (...)
    {
        g_track = false;
        err = "?";
        c.fail("foreign", "loader threw something that is not a std::exception");
    }
    g_track = false;
    c.event(ok ? "inputs_accepted" : "inputs_rejected");
    // memory must be paid for by input bytes, not by counts the input merely claims
    size_t allow = 64 * s.size() + (1u << 20);
    VCHECK(c, g_peak <= allow && g_max <= allow, "memory", "a %zu byte input made the loader request %zu bytes at once, %zu in total (%s)", s.size(), g_max,
           g_peak, ok ? "accepted" : err.c_str());
    return ok;
}
void consistent(Ctx& c, const Curve& x, const std::string& in)
{
    VCHECK(c, x.Knots.Values().size() <= in.size() && x.ControlPoints.size() <= in.size(), "phantom", "curve holds more data than its input: %zu knots %zu points from %zu bytes",
           x.Knots.Values().size(), x.ControlPoints.size(), in.size());
}
void consistent(Ctx& c, const Surface& x, const std::string& in)
{
    VCHECK(c, x.KnotsU.Values().size() <= in.size() && x.KnotsV.Values().size() <= in.size() && x.ControlPoints.Values.size() <= in.size(), "phantom",
           "surface holds more data than its input");
    const auto& g = x.ControlPoints;
    bool empty = g.Values.empty() && g.UCount <= 0 && g.VCount <= 0;
    VCHECK(c, empty || (g.UCount > 0 && g.VCount > 0 && (long long)g.UCount * g.VCount == (long long)g.Values.size()), "grid",
           "accepted surface has a %d x %d grid over %zu control points", g.UCount, g.VCount, g.Values.size());
    if (!empty && !c.caseFailed) // the accepted grid can be walked (sanitizers watch)
    {
        double acc = 0;
        for (int v = 0; v < g.VCount; ++v)
            for (int u = 0; u < g.UCount; ++u) acc += g.Get(u, v).w();
        c.event("grids_walked", acc == acc);
    }
}
template <class T>
void hostile(Ctx& c, const char* what, bool curve)
{
    Rng& r = c.rng;
    bool bin = r.chance(1, 2);
    GenOpt o;
    o.big = false;
    o.maxInterior = 4;
    T good = gen(r, c.cs, true, (T*)nullptr);
    while (saveStr(good, bin).size() > 6000) good = gen(r, c.cs, true, (T*)nullptr);
    std::string base = saveStr(good, bin), s, err;
    const std::string hdr = std::string("LIBNURBS ") + (bin ? "BIN " : "TXT ") + (curve ? "CURVE" : "SURFACE") + "\n";
    const bool binHdrOk = base.compare(0, hdr.size(), hdr) == 0;
    VCHECK(c, binHdrOk, "header", "unexpected header in a saved file: %s", base.substr(0, 40).c_str());
    bool mustThrow = false;
    int kind = r.range(0, 9);
    const char* kn = "mutation";
    switch (kind)
    {
    case 0: // every truncation of a binary file is an error
        if (bin)
        {
            s = base.substr(0, r.chance(1, 3) ? base.size() - r.range(1, std::min<int>(40, (int)base.size())) : r.range(0, (int)base.size() - 1));
            mustThrow = true;
            kn = "truncated";
            break;
        }
        [[fallthrough]];
    case 1: // counts that the data does not back up
    {
        static const int32_t BIG[] = {0x7fffffff, 0x40000000, 0x10000000, 0x20000001, 46341, 65536, 65537, 100000000, -1, (int32_t)0x80000000, 1000, 0x08000000};
        int32_t a = BIG[r.range(0, 11)], b = BIG[r.range(0, 11)];
        if (!curve && r.chance(1, 3))
        {
            // dimensions that are not positive, with as many points as their product
            do a = r.range(-3, 3), b = r.range(-3, 3);
            while (a > 0 && b > 0);
            const int n = std::max(0, a * b);
            if (bin) s = hdr + le32(1) + le32(1) + le32(4) + doubles(r, 4) + le32(4) + doubles(r, 4) + le32(a) + le32(b) + doubles(r, 4 * n);
            else
            {
                s = hdr + "*DegreeU: 1\n*DegreeV: 1\n*ControlPoints:\n" + std::to_string(a) + " " + std::to_string(b) + "\n";
                for (int i = 0; i < n; ++i) s += "0 0 0 1\n";
            }
            mustThrow = true;
            kn = "dimensions";
            c.event("odd_dimensions");
            break;
        }
        if (bin)
        {
            int nk = r.range(0, 6);
            if (curve)
            {
                if (r.chance(1, 2)) s = hdr + le32(2) + le32(a) + doubles(r, nk);
                else s = hdr + le32(2) + le32(nk) + doubles(r, nk) + le32(a) + doubles(r, 4 * r.range(0, 5));
            }
            else
            {
                int w = r.range(0, 2);
                if (w == 0) s = hdr + le32(2) + le32(2) + le32(a) + doubles(r, nk);
                else if (w == 1) s = hdr + le32(2) + le32(2) + le32(nk) + doubles(r, nk) + le32(a) + doubles(r, nk);
                else s = hdr + le32(2) + le32(2) + le32(nk) + doubles(r, nk) + le32(nk) + doubles(r, nk) + le32(a) + le32(b) + doubles(r, 4 * r.range(0, 5));
            }
            mustThrow = true;
        }
        else if (!curve)
        {
            s = hdr + "*DegreeU: 1\n*DegreeV: 1\n*ControlPoints:\n" + std::to_string(a) + " " + std::to_string(b) + "\n";
            int n = r.range(0, 4);
            for (int i = 0; i < n; ++i) s += "0 0 0 1\n";
            mustThrow = true;
        }
        else
        {
            s = hdr + "*Degree: " + std::to_string((long long)a * 1000) + "\n*Knots: 0,0,1,1\n";
            mustThrow = false;
        }
        kn = "claimed-count";
        break;
    }
    case 2: // wrong header
    {
        static const char* H[] = {"LIBNURBZ", "libnurbs", "", "LIBNURBS2", "XLIBNURBS"};
        int w = r.range(0, 3);
        std::string rest = base.substr(hdr.size());
        if (w == 0) s = std::string(H[r.range(0, 4)]) + hdr.substr(8) + rest;
        else if (w == 1) s = std::string("LIBNURBS ") + (r.chance(1, 2) ? "XML" : "bin") + (curve ? " CURVE\n" : " SURFACE\n") + rest;
        else if (w == 2) s = std::string("LIBNURBS ") + (bin ? "BIN" : "TXT") + (curve ? " SURFACE\n" : " CURVE\n") + rest;
        else s = std::string("LIBNURBS ") + (bin ? "BIN" : "TXT") + "\n" + rest;
        mustThrow = true;
        kn = "header";
        break;
    }
    case 3: // text: a field that is no number, an unknown key, data before the first key, wrong number of points
        if (!bin)
        {
            static const char* BAD[] = {"abc", "--1", "x1", "#", "(0)", "$"};
            std::string bad = BAD[r.range(0, 5)];
            int w = r.range(0, 8);
            auto number = [&](size_t from) { // a random number of the file: position and length
                std::vector<std::pair<size_t, size_t>> n;
                for (size_t i = from; i < base.size();)
                {
                    size_t j = base.find_first_of(" ,\n", i);
                    if (j == std::string::npos) j = base.size();
                    if (j > i && base[i] != '*') n.push_back({i, j - i});
                    i = j + 1;
                }
                return n.empty() ? std::pair<size_t, size_t>{0, 0} : n[r.range(0, (int)n.size() - 1)];
            };
            if (w == 6)
            {
                auto [at, len] = number(hdr.size());
                if (!len) return;
                s = base;
                s.replace(at, len, bad);
            }
            else if (w >= 7) // a coordinate (or grid dimension) is missing
            {
                size_t cp = base.find("*ControlPoints:\n");
                if (cp == std::string::npos) return;
                auto [at, len] = number(cp + 16);
                if (!len) return;
                s = base;
                s.erase(at, len);
            }
            else if (w == 0) s = hdr + "junk\n" + base.substr(hdr.size());
            else if (w == 1) s = base + "*" + bad + ": 1\n";
            else if (w == 2) s = hdr + (curve ? "*Degree: " : "*DegreeU: ") + bad + "\n" + base.substr(hdr.size());
            else if (w == 3) s = hdr + (curve ? "*Knots:" : r.chance(1, 2) ? "*KnotsU:" : "*KnotsV:") + " 0, 0, " + bad + ", 1\n";
            else if (w == 4)
            {
                std::string pt[4] = {"1", "2", "3", "1"};
                int at = r.range(0, 4);
                if (at < 4) pt[at] = bad;
                std::string l = pt[0] + " " + pt[1] + " " + pt[2] + (at == 4 ? "" : " " + pt[3]); // or a point with three numbers
                s = hdr + (curve ? "*ControlPoints:\n0 0 0 1,\n" + l + ",\n" : "*ControlPoints:\n1 2\n0 0 0 1\n" + l + "\n");
            }
            else if (!curve)
            {
                int nu = r.range(1, 5), nv = r.range(1, 5), d = r.chance(1, 2) ? 1 : -1;
                s = hdr + "*ControlPoints:\n" + std::to_string(nu) + " " + std::to_string(nv) + "\n";
                for (int i = 0; i < nu * nv + d; ++i) s += "0 0 0 1\n";
            }
            else s = hdr + "*Degree:\n1\n2\n";
            mustThrow = true;
            kn = "bad-field";
            break;
        }
        [[fallthrough]];
    case 4:
        if (kind == 4 && r.chance(1, 2)) // pure noise
        {
            s = r.chance(1, 2) ? hdr : "";
            int n = r.range(0, 300);
            for (int i = 0; i < n; ++i) s += r.chance(1, 4) ? TOK[r.range(0, (int)(sizeof TOK / sizeof *TOK) - 1)] : std::string(1, (char)r.next());
            kn = "noise";
            break;
        }
        [[fallthrough]];
    default: s = mutate(r, base, bin);
    }
    c.desc = std::string(what) + " " + kn + " input: ";
    for (size_t i = 0; i < s.size() && i < 160; ++i)
    {
        char b[8];
        unsigned char ch = (unsigned char)s[i];
        snprintf(b, sizeof b, (ch >= 32 && ch < 127) ? "%c" : "\\x%02x", ch);
        c.desc += b;
    }
    T obj;
    if (r.chance(1, 3)) obj = gen(r, c.cs + 1, true, (T*)nullptr);
    setOp("LoadFromFile(hostile)");
    bool ok = feed(c, obj, s, err, r.chance(1, 3));
    if (mustThrow) VCHECK(c, !ok, "accepted", "%s: malformed input (%s) was accepted: %s", what, kn, str(obj).substr(0, 300).c_str());
    if (ok) consistent(c, obj, s);
    // an object whose load failed (or that held something) is still usable as target of the next load
    setOp("LoadFromFile(after hostile)");
    std::string e2;
    bool ok2 = feed(c, obj, base, e2);
    VCHECK(c, ok2, "recover", "%s: valid file rejected after a %s load: %s", what, ok ? "successful" : "failed", e2.c_str());
    T ref;
    std::string e3;
    feed(c, ref, base, e3);
    if (ok2) VCHECK(c, sameBits(ref, obj), "recover", "%s: loading a valid file into an object with history gives a different object: %s vs %s", what,
                    str(obj).substr(0, 300).c_str(), str(ref).substr(0, 300).c_str());
    c.event("hostile_inputs");
    c.event((std::string("kind_") + kn).c_str());
    uint64_t h = hashStr(what);
    for (char ch : s) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    c.sig(h);
}
void c18(Ctx& c)
{
    if (c.cs % 2) hostile<Curve>(c, "curve", true);
    else hostile<Surface>(c, "surface", false);
}
Register r18("C18", c18);

// ================================================================ C19
template <class T>
void faults(Ctx& c, const char* what)
{
    Rng& r = c.rng;
    bool bin = r.chance(1, 2);
    T x = gen(r, c.cs, true, (T*)nullptr);
    while (saveStr(x, bin).size() > 2500) x = gen(r, c.cs, true, (T*)nullptr);
    std::string bytes = saveStr(x, bin);
    c.desc = std::string(what) + (bin ? " BIN " : " TXT ") + std::to_string(bytes.size()) + " bytes";
    size_t N = bytes.size();
    // 1. a sink that fails for good after k bytes, for every k
    setOp("SaveToFile(failing sink)");
    bool thrower = r.chance(1, 3);
    int mode = r.range(0, 2); // 0: default, 1: os.exceptions(badbit|failbit)
    bool once = r.chance(1, 3);
    for (size_t k = 0; k <= N; ++k)
    {
        FailOut fo(k, thrower, once);
        std::ostream os(&fo);
        bool threw = false;
        try
        {
            if (mode == 1) os.exceptions(std::ios::badbit | std::ios::failbit);
            x.SaveToFile(os, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.event("sink_faults");
        if (k < N) VCHECK(c, threw, "silent", "%s: the stream failed after %zu of %zu bytes and saving reported nothing", what, k, N);
        else VCHECK(c, !threw && fo.d == bytes, "spurious", "%s: saving failed although the stream took all %zu bytes", what, N);
        if (c.caseFailed) return;
    }
    // 2. a stream that is already broken
    {
        std::ostringstream os;
        os.setstate(r.chance(1, 2) ? std::ios::badbit : std::ios::failbit);
        bool threw = false;
        try
        {
            x.SaveToFile(os, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        VCHECK(c, threw, "silent", "%s: saving to a broken stream reported nothing", what);
    }
    // 3. a file that cannot grow past k bytes (every k for small files, all boundaries otherwise)
    setOp("SaveToFile(full disk)");
    {
        std::string path = c.scratch + "/limited.dat";
        signal(SIGXFSZ, SIG_IGN);
        rlimit old{};
        getrlimit(RLIMIT_FSIZE, &old);
        size_t stride = N <= 400 || c.thorough ? 1 : N / 60 + 1;
        for (size_t k = 0; k <= N && !c.caseFailed; k = (k == N ? N + 1 : std::min(N, k + stride)))
        {
            rlimit lim{k, old.rlim_max};
            setrlimit(RLIMIT_FSIZE, &lim);
            bool threw = false;
            try
            {
                x.SaveToFile(path, bin);
            }
            catch (const std::exception&)
            {
                threw = true;
            }
            setrlimit(RLIMIT_FSIZE, &old);
            std::ifstream f(path, std::ios::binary);
            std::string got((std::istreambuf_iterator<char>(f)), {});
            bool complete = got == bytes;
            c.event("file_limit_faults");
            VCHECK(c, threw || complete, "silent", "%s: the file system took only %zu of %zu bytes and saving reported nothing", what, got.size(), N);
            if (k == N) VCHECK(c, !threw && complete, "spurious", "%s: saving to a file that fits was reported as failure", what);
        }
        unlink(path.c_str());
    }
    // over an existing file of another length
    setOp("SaveToFile(existing file)");
    for (int k = 0; k < 3; ++k)
    {
        std::string path = c.scratch + "/existing.dat";
        if (k == 0) std::ofstream(path, std::ios::binary) << bytes << bytes;
        else std::ofstream(path, std::ios::binary) << std::string(k == 1 ? N + 1 : N / 2, '\n');
        bool threw = false;
        try
        {
            x.SaveToFile(path, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        std::ifstream f(path, std::ios::binary);
        std::string got((std::istreambuf_iterator<char>(f)), {});
        c.event("overwritten_files");
        VCHECK(c, !threw && got == bytes, "overwrite", "%s: saving over an existing file %s", what, threw ? "failed" : "left something else than the complete object");
        unlink(path.c_str());
    }
    // 4. targets that cannot be written
    auto bad = [&](const std::string& p, const char* n) {
        bool threw = false;
        try
        {
            x.SaveToFile(p, bin);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.event("bad_targets");
        VCHECK(c, threw, "silent", "%s: saving to %s reported nothing", what, n);
        threw = false;
    };
    bad(c.scratch + "/no/such/dir/x", "a path in a missing directory");
    bad(c.scratch, "a directory");
    if (access("/dev/full", W_OK) == 0) bad("/dev/full", "a full device");
    // 5. sources that fail
    setOp("LoadFromFile(failing source)");
    T y = r.chance(1, 2) ? T() : gen(r, r.range(0, 500), true, (T*)nullptr);
    for (size_t k = 0; k < N && !c.caseFailed; ++k)
    {
        ChunkIn in(bytes, r.next(), r.chance(1, 4) ? (int)N : r.range(1, 50));
        in.failAt = k;
        std::istream is(&in);
        bool threw = false;
        try
        {
            y.LoadFromFile(is);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.event("source_faults");
        VCHECK(c, threw, "silent-load", "%s: the source failed with an error after %zu of %zu bytes and loading reported nothing", what, k, N);
    }
    // 6. sources that end early: every prefix of a binary file is incomplete
    setOp("LoadFromFile(short source)");
    std::string cutPath = c.scratch + "/cut.dat";
    for (size_t k = 0; bin && k < N && !c.caseFailed; ++k)
    {
        std::string part = bytes.substr(0, k);
        bool threw = false, viaFile = r.chance(1, 10);
        try
        {
            if (viaFile)
            {
                std::ofstream(cutPath, std::ios::binary) << part;
                y.LoadFromFile(cutPath);
            }
            else if (r.chance(1, 2))
            {
                std::istringstream is(part, std::ios::binary);
                y.LoadFromFile(is);
            }
            else
            {
                ChunkIn in(part, r.next(), r.range(1, 50));
                std::istream is(&in);
                y.LoadFromFile(is);
            }
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.event("short_sources");
        VCHECK(c, threw, "silent-load", "%s: the source ended after %zu of %zu bytes and loading reported nothing", what, k, N);
    }
    unlink(cutPath.c_str());
    auto badSrc = [&](const std::string& p, const char* n) {
        bool threw = false;
        T y;
        try
        {
            y.LoadFromFile(p);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        c.event("bad_sources");
        VCHECK(c, threw, "silent-load", "%s: loading from %s reported nothing", what, n);
    };
    badSrc(c.scratch + "/missing", "a missing file");
    badSrc(c.scratch, "a directory");
    badSrc("/dev/null", "an empty file");
    c.sig(mix(hashStr(what), mix(sigOf(x), bin * 8 + mode * 2 + thrower)));
}
void c19(Ctx& c)
{
    if (c.cs % 2) faults<Curve>(c, "curve");
    else faults<Surface>(c, "surface");
}
Register r19("C19", c19);

// ================================================================ C29
std::string num(Rng& r, double x)
{
    char b[400];
    switch (r.range(0, 3))
    {
    case 0: snprintf(b, sizeof b, "%.17g", x); break;
    case 1: snprintf(b, sizeof b, "%.16e", x); break;
    case 2: snprintf(b, sizeof b, "%+.17g", x); break;
    default: snprintf(b, sizeof b, "%.25f", x); break;
    }
    if (strtod(b, nullptr) != x) snprintf(b, sizeof b, "%.17g", x);
    return b;
}
struct Layout
{
    Rng& r;
    std::string eol;
    int pad;
    char blank() { return r.chance(1, 3) ? '\t' : pad == 4 && r.chance(1, 8) ? (r.chance(1, 2) ? '\f' : '\v') : ' '; }
    std::string sp() { return pad ? std::string(r.range(0, pad), blank()) : ""; }
    std::string sep() { return std::string(r.range(1, 1 + pad), blank()); }
    std::string nl()
    {
        std::string s = sp() + eol;
        while (pad && r.chance(1, 5)) s += sp() + eol; // blank lines
        return s;
    }
    std::string key(const char* k) { return sp() + "*" + sp() + k + sp() + ":"; }
};
std::string knotSection(Layout& L, const char* k, const std::vector<double>& U)
{
    Rng& r = L.r;
    std::string s = L.key(k);
    s += r.chance(1, 2) ? L.sep() : L.nl();
    bool trailing = r.chance(1, 2);
    for (size_t i = 0; i < U.size(); ++i)
    {
        s += num(r, U[i]);
        bool last = i + 1 == U.size();
        bool brk = !last && r.chance(1, 6);
        if (!last && !(brk && r.chance(1, 2))) s += L.sp() + ",";
        else if (last && trailing) s += ",";
        if (brk) s += L.nl();
        else s += L.sp();
    }
    return s + L.nl();
}
std::string degSection(Layout& L, const char* k, int d)
{
    return L.key(k) + (L.r.chance(1, 2) ? L.sep() : L.nl()) + (L.r.chance(1, 5) ? "+" : "") + std::to_string(d) + L.nl();
}
std::string point(Layout& L, const Vec4& p)
{
    return num(L.r, p[0]) + L.sep() + num(L.r, p[1]) + L.sep() + num(L.r, p[2]) + L.sep() + num(L.r, p[3]);
}
template <class V>
void shuffle(Rng& r, V& v)
{
    for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[r.range(0, i)]);
}
void c29(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt o;
    o.huge = 300;
    LocaleGuard guard(r.chance(1, 5));
    if (guard.on) c.event("foreign_locale_loads");
    Layout L{r, r.chance(1, 3) ? "\r\n" : "\n", r.range(0, 4)};
    bool curve = c.cs % 2;
    Curve x;
    Surface y;
    std::vector<std::string> sec;
    if (curve)
    {
        x = genCurve(r, o, c.cs / 2);
        if (r.chance(1, 6))
            for (auto& p : x.ControlPoints) p *= 1e9;
        sec.push_back(degSection(L, "Degree", x.Degree));
        sec.push_back(knotSection(L, "Knots", x.Knots.Values()));
        std::string s = L.key("ControlPoints");
        s += r.chance(1, 2) ? L.sep() : L.nl();
        int style = r.range(0, 2); // 0: one per line, 1: several per line, 2: mixed
        bool trailing = r.chance(1, 2);
        for (size_t i = 0; i < x.ControlPoints.size(); ++i)
        {
            s += point(L, x.ControlPoints[i]) + L.sp();
            bool last = i + 1 == x.ControlPoints.size();
            bool brk = !last && (style == 0 || (style == 2 && r.chance(1, 3)));
            if ((!last && !(brk && r.chance(1, 3))) || (last && trailing)) s += ",";
            s += brk ? L.nl() : L.sp();
        }
        sec.push_back(s + L.nl());
    }
    else
    {
        y = genSurface(r, o, c.cs / 2);
        sec.push_back(degSection(L, "DegreeU", y.DegreeU));
        sec.push_back(degSection(L, "DegreeV", y.DegreeV));
        sec.push_back(knotSection(L, "KnotsU", y.KnotsU.Values()));
        sec.push_back(knotSection(L, "KnotsV", y.KnotsV.Values()));
        const auto& g = y.ControlPoints;
        std::string s = L.key("ControlPoints");
        s += r.chance(1, 2) ? L.sep() : L.nl();
        s += std::to_string(g.UCount) + L.sep() + std::to_string(g.VCount) + L.nl();
        bool comma = r.chance(1, 3);
        for (const auto& p : g.Values) s += L.sp() + point(L, p) + (comma ? "," : "") + L.nl();
        sec.push_back(s);
    }
    if (r.chance(2, 3)) shuffle(r, sec);
    std::string s = "LIBNURBS" + L.sep() + "TXT" + L.sep() + (curve ? "CURVE" : "SURFACE") + L.sp() + L.eol;
    if (L.pad && r.chance(1, 3)) s += L.nl();
    for (auto& q : sec) s += q;
    if (r.chance(1, 3))
        while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); // no newline at the end
    c.desc = s.substr(0, 700);
    setOp("LoadFromFile(layout)");
    bool used = r.chance(1, 3);
    std::unique_ptr<std::streambuf> sb;
    if (r.chance(1, 3)) sb = std::make_unique<ChunkIn>(s, r.next(), r.range(1, 40));
    else sb = std::make_unique<std::stringbuf>(s);
    std::istream is(sb.get());
    if (curve)
    {
        Curve z;
        if (used) z = genCurve(r, o, c.cs + 3);
        try
        {
            z.LoadFromFile(is);
        }
        catch (const std::exception& e)
        {
            c.fail("rejected", "documented layout rejected: %s", e.what());
        }
        VCHECK(c, sameBits(z, x), "differs", "loaded %s expected %s", str(z).substr(0, 400).c_str(), str(x).substr(0, 400).c_str());
    }
    else
    {
        Surface z;
        if (used) z = genSurface(r, o, c.cs + 3);
        try
        {
            z.LoadFromFile(is);
        }
        catch (const std::exception& e)
        {
            c.fail("rejected", "documented layout rejected: %s", e.what());
        }
        VCHECK(c, sameBits(z, y), "differs", "loaded %s expected %s", str(z).substr(0, 400).c_str(), str(y).substr(0, 400).c_str());
    }
    c.event("layouts_loaded");
    uint64_t h = 7;
    for (char ch : s) h = (h ^ (unsigned char)ch) * 1099511628211ull;
    c.sig(h);
}
Register r29("C29", c29);
} // namespace
} // namespace vf
