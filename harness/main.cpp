// Driver of one monitored worker: runs a range of generated cases of one property against the real
// library and writes what the monitors observed as JSON. Crashes, hangs and sanitizer reports end the
// process; the runner attributes them to the case recorded in the progress page.
#include "common.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace
{
struct Progress
{
    long long cs;
    long long done;
    char op[128];
    char key[32];
};
Progress* g_prog = nullptr;
Progress g_dummy;
int g_caseCpuLimit = 30;

struct Cov
{
    unsigned char *a, *b;
};
std::vector<Cov>& covs()
{
    static std::vector<Cov> v;
    return v;
}

void onTimer(int)
{
    static const char m[] = "VERIF-HANG: case exceeded its CPU limit\n";
    if (g_prog) strncpy(g_prog->key, "hang", sizeof g_prog->key - 1);
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
}
void arm(int sec)
{
    itimerval t{};
    t.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &t, nullptr);
}
std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else o += (char)ch;
    }
    return o;
}
} // namespace

extern "C" void __sanitizer_cov_8bit_counters_init(char* a, char* b)
{
    if (a != b) covs().push_back({(unsigned char*)a, (unsigned char*)b});
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}

namespace vf
{
void setOp(const char* op)
{
    if (g_prog) strncpy(g_prog->op, op, sizeof g_prog->op - 1);
}
void caseCpuLimit(int sec)
{
    g_caseCpuLimit = sec;
    arm(sec);
}
} // namespace vf

int main(int argc, char** argv)
{
    using namespace vf;
    Ctx c;
    long long from = 0, to = 1, step = 1;
    std::string out, progress;
    double budget = 0;
    int maxFail = 5;
    bool verbose = false;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") c.prop = v;
        else if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--from") from = atoll(v.c_str());
        else if (k == "--to") to = atoll(v.c_str());
        else if (k == "--step") step = atoll(v.c_str());
        else if (k == "--tier") c.thorough = v == "thorough";
        else if (k == "--out") out = v;
        else if (k == "--progress") progress = v;
        else if (k == "--scratch") c.scratch = v;
        else if (k == "--budget") budget = atof(v.c_str());
        else if (k == "--variant") c.variant = v;
        else if (k == "--verbose") verbose = v == "1";
    }
    CaseFn fn = nullptr;
    for (auto& r : registry())
        if (c.prop == r.id) fn = r.fn;
    if (!fn)
    {
        fprintf(stderr, "unknown property %s\n", c.prop.c_str());
        return 3;
    }
    if (!progress.empty())
    {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 4096)) return 3;
        void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) return 3;
        g_prog = (Progress*)m;
        close(fd);
    }
    else g_prog = &g_dummy;
    g_prog->cs = -1;
    struct sigaction sa{};
    sa.sa_handler = onTimer;
    sigaction(SIGPROF, &sa, nullptr);

    std::unordered_set<uint64_t> profiles;
    std::vector<unsigned char> seen;
    size_t nCounters = 0;
    for (auto& r : covs()) nCounters += r.b - r.a;
    seen.assign(nCounters, 0);

    timeval t0;
    gettimeofday(&t0, nullptr);
    const uint64_t base = mix(c.seed, hashStr(c.prop.c_str()));
    bool stopped = false;
    for (long long cs = from; cs < to; cs += step)
    {
        g_prog->cs = cs;
        g_prog->op[0] = 0;
        arm(g_caseCpuLimit);
        c.cs = cs;
        c.rng = Rng(mix(base, cs));
        c.desc.clear();
        c.caseNontrivial = false;
        c.caseFailed = false;
        for (auto& r : covs()) memset(r.a, 0, r.b - r.a);
        size_t failuresBefore = c.failures.size();
        try
        {
            fn(c);
        }
        catch (const std::exception& e)
        {
            c.fail("exception", "unexpected exception out of %s: %s", g_prog->op, e.what());
        }
        catch (...)
        {
            c.fail("exception", "unexpected non-standard exception out of %s", g_prog->op);
        }
        if (nCounters)
        {
            uint64_t h = 1469598103934665603ull;
            size_t k = 0;
            for (auto& r : covs())
                for (unsigned char* p = r.a; p < r.b; ++p, ++k)
                    if (*p)
                    {
                        seen[k] = 1;
                        int bucket = *p < 4 ? *p : *p < 8 ? 4 : *p < 16 ? 5 : *p < 32 ? 6 : *p < 128 ? 7 : 8;
                        h = (h ^ (k * 16 + bucket)) * 1099511628211ull;
                    }
            profiles.insert(h);
        }
        c.cases++;
        g_prog->done++;
        if (c.caseNontrivial) c.nontrivial++;
        if (c.samples.size() < 2 && !c.desc.empty()) c.samples.push_back("case " + std::to_string(cs) + ": " + c.desc);
        if (c.failures.size() > failuresBefore && verbose)
            fprintf(stderr, "FAIL case=%lld key=%s %s\n", cs, c.failures.back().key.c_str(), c.failures.back().msg.c_str());
        if ((int)c.failures.size() >= maxFail && !verbose)
        {
            stopped = true;
            break;
        }
        if (budget > 0)
        {
            timeval t1;
            gettimeofday(&t1, nullptr);
            if ((t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) > budget)
            {
                stopped = true;
                break;
            }
        }
    }
    arm(0);
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"prop\":\"%s\",\"cases\":%lld,\"nontrivial\":%lld,\"stopped\":%s,\n \"events\":{", c.prop.c_str(), c.cases,
            c.nontrivial, stopped ? "true" : "false");
    const char* sep = "";
    for (auto& [k, v] : c.events)
    {
        fprintf(f, "%s\"%s\":%lld", sep, esc(k).c_str(), v);
        sep = ",";
    }
    fprintf(f, "},\n \"sigs\":[");
    sep = "";
    for (uint64_t s : c.sigs)
    {
        fprintf(f, "%s\"%llx\"", sep, (unsigned long long)s);
        sep = ",";
    }
    fprintf(f, "],\n \"profiles\":[");
    sep = "";
    for (uint64_t s : profiles)
    {
        fprintf(f, "%s\"%llx\"", sep, (unsigned long long)s);
        sep = ",";
    }
    fprintf(f, "],\n \"edges_total\":%zu,\"edges\":\"", nCounters);
    for (size_t i = 0; i < nCounters; i += 4)
    {
        int v = 0;
        for (int b = 0; b < 4; ++b)
            if (i + b < nCounters && seen[i + b]) v |= 1 << b;
        fputc("0123456789abcdef"[v], f);
    }
    fprintf(f, "\",\n \"samples\":[");
    sep = "";
    for (auto& s : c.samples)
    {
        fprintf(f, "%s\"%s\"", sep, esc(s.substr(0, 700)).c_str());
        sep = ",";
    }
    fprintf(f, "],\n \"failures\":[");
    sep = "";
    for (auto& s : c.failures)
    {
        fprintf(f, "%s{\"case\":%lld,\"key\":\"%s\",\"msg\":\"%s\"}", sep, s.cs, esc(s.key).c_str(), esc(s.msg.substr(0, 2500)).c_str());
        sep = ",";
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}
