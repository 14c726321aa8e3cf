#include "vh.hh"
#include <random>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

static uint64_t libc_rand_state = 1; static int libc_rand_bias = 0;
static void vh_rand_state(uint64_t s) { libc_rand_state = s; libc_rand_bias = s % 7 == 0 ? 1 : s % 7 == 1 ? 2 : 0; } // ties: random, always, never
namespace vh {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

struct Progress {            // layout known to the runner (run.py)
    volatile uint32_t magic; // 0x56485052
    volatile uint32_t state; // 0 idle, 1 in a case, 2 timeout, 3 finished
    volatile uint64_t done;
    char scen[64];
    volatile uint64_t idx;
    char text[65536];
};
static Progress local_progress, *P = &local_progress;
static FILE* out = nullptr;
static std::map<std::string, uint64_t> events, maxima;
static std::unordered_set<uint64_t> nontriv;
static std::vector<std::string> samples;
static std::map<std::string, long> scen_done, scen_nontrivial;
static std::string cur_desc, cur_scen;
static uint64_t cur_idx, evaluations, inconclusive, violations;
static std::map<std::string, int> viol_per_scen;
static uint64_t g_seed = 1;
static bool g_thorough = false;
static long g_limit_ms = 20000;

bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
static void sync_text() {
    size_t n = std::min(cur_desc.size(), sizeof(P->text) - 1);
    memcpy(P->text, cur_desc.data(), n); P->text[n] = 0;
}
void desc(const std::string& s) { cur_desc = s; sync_text(); }
void desc_add(const std::string& s) { cur_desc += s; sync_text(); }
void event(const std::string& name, uint64_t n) { events[name] += n; }
void event_max(const std::string& name, uint64_t v) { auto& m = maxima[name]; if (v > m) m = v; }
static bool cur_nontrivial;
void nontrivial(uint64_t h) { nontriv.insert(h ^ hash_str(cur_scen)); cur_nontrivial = true; }
void nontrivial(const std::string& s) { nontrivial(hash_str(s)); }
uint64_t case_index() { return cur_idx; }
void set_rand(uint64_t s) { vh_rand_state(s); }
void sample(const std::string& s) { if (samples.size() < 4) samples.push_back(cur_scen + "#" + std::to_string(cur_idx) + ": " + clip(s, 400)); }
void report(const std::string& key, const std::string& msg) {
    ++violations;
    if (++viol_per_scen[cur_scen] <= 12 && out) {
        fprintf(out, "{\"t\":\"V\",\"scen\":\"%s\",\"idx\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n", cur_scen.c_str(),
                (unsigned long long)cur_idx, jesc(key).c_str(), jesc(clip(msg, 3000)).c_str(), jesc(clip(cur_desc, 6000)).c_str());
        fflush(out);
    }
}
void fail(const std::string& key, const std::string& msg) { report(key, msg); throw Abort(); }

// ---------- library randomness ----------
static RD rd_mode = RD::Random;
static Rng rd_rng(1);
static uint64_t rd_count = 0, rd_total = 0, rd_hostile = 0, rd_prefix = 0;
void set_random_device(RD mode, uint64_t seed) { rd_mode = mode; rd_rng = Rng(seed); rd_count = 0; rd_prefix = 1 + rd_rng.below(48); }
RD random_rd_mode(Rng& R) {
    switch (R.below(8)) { case 0: return RD::Zero; case 1: return RD::Max; case 2: return RD::Small; case 3: return RD::Alternate; default: return RD::Random; }
}
uint64_t random_device_draws() { return rd_total; }
uint32_t rd_next() {
    ++rd_count; ++rd_total;
    // a hostile stream is hostile for a finite prefix only: no Las-Vegas algorithm terminates under
    // a source that is adversarial forever, and the properties do not ask for it
    if (rd_mode == RD::Random || rd_count > rd_prefix) return (uint32_t)rd_rng.next();
    ++rd_hostile;
    switch (rd_mode) {
        case RD::Zero: return 0;
        case RD::Max: return 0xffffffffu;
        case RD::Small: return (uint32_t)rd_rng.below(4);
        case RD::Alternate: return (rd_count & 1) ? 0u : 0xffffffffu;
        default: return (uint32_t)rd_rng.next();
    }
}

static void on_timeout(int) {
    P->state = 2;
    _exit(86);
}
static void arm(long ms) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000;
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void run_case(const Scenario& s, uint64_t k) {
    cur_scen = s.name; cur_idx = k; cur_nontrivial = false;
    snprintf(P->scen, sizeof P->scen, "%s", s.name.c_str());
    P->idx = k; desc(""); P->state = 1;
    Rng R(g_seed * 0x9E3779B97F4A7C15ull ^ hash_str(s.name) ^ (k * 0xD1342543DE82EF95ull + 77));
    set_random_device(RD::Random, R.next());
    vh_rand_state(R.next());
    ++evaluations; scen_done[s.name]++;
    arm(g_limit_ms);
    try { s.fn(R); }
    catch (const Abort&) {}
    catch (const Inconclusive& e) { ++inconclusive; event("inconclusive:" + e.why); }
    catch (const std::exception& e) { report("exception:" + std::string(typeid(e).name()), std::string("unexpected exception: ") + e.what()); }
    catch (...) { report("exception:unknown", "unexpected exception of unknown type"); }
    arm(0);
    if (cur_nontrivial) scen_nontrivial[s.name]++;
    P->state = 0; P->done = evaluations;
}
}
using namespace vh;

// The executable's definitions pre-empt libstdc++/libc ones for code compiled into it.
namespace std {
random_device::result_type random_device::_M_getval() { return vh::rd_next(); }
}
extern "C" {
int rand(void) noexcept { if (libc_rand_bias == 1) return 0x7fffffff; if (libc_rand_bias == 2) return 0; libc_rand_state = libc_rand_state * 6364136223846793005ull + 1442695040888963407ull; return (int)((libc_rand_state >> 33) & 0x7fffffff); }
void srand(unsigned) noexcept {} // seeding by the clock is ignored: the case's own seed decides, so that replays are exact
}

int main(int argc, char** argv) {
    std::string only_scen, outp, progp, from_scen, filter; uint64_t only_idx = 0, from_idx = 0; bool have_only = false, have_from = false, list = false;
    long shard = 0, nshards = 1; double scale = 1.0; long rss_mb = 0; double stop_at = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        auto sp = [&](const std::string& v, std::string& s, uint64_t& k) { auto p = v.rfind('#'); s = v.substr(0, p); k = strtoull(v.c_str() + p + 1, nullptr, 10); };
        if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") g_thorough = val() == "thorough";
        else if (a == "--shard") shard = atol(val().c_str());
        else if (a == "--nshards") nshards = atol(val().c_str());
        else if (a == "--only") { sp(val(), only_scen, only_idx); have_only = true; }
        else if (a == "--from") { sp(val(), from_scen, from_idx); have_from = true; }
        else if (a == "--out") outp = val();
        else if (a == "--progress") progp = val();
        else if (a == "--limit-ms") g_limit_ms = atol(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--filter") filter = val();
        else if (a == "--rss-mb") rss_mb = atol(val().c_str());
        else if (a == "--stop-at") stop_at = atof(val().c_str());
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (list) { for (auto& s : scenarios()) printf("%s %ld %ld\n", s.name.c_str(), s.quick, s.thorough); return 0; }
    if (rss_mb) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)rss_mb << 20; setrlimit(RLIMIT_DATA, &rl); }
    if (!progp.empty()) {
        int fd = open(progp.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) return 2;
        void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) return 2;
        P = (Progress*)m; close(fd);
    }
    P->magic = 0x56485052; P->state = 0;
    out = outp.empty() ? stdout : fopen(outp.c_str(), "a");
    if (!out) return 2;
    signal(SIGPROF, on_timeout);
    bool skipping = have_from, stopped = false;
    // Four passes over the scenarios, a quarter of the cases of each at a time: a run that reaches its deadline (a slow or busy
    // machine) has then exercised every scenario.
    const uint64_t PASSES = have_only ? 1 : 4;
    for (uint64_t pass = 0; pass < PASSES; ++pass) for (auto& s : scenarios()) {
        if (!filter.empty() && s.name.find(filter) == std::string::npos) continue;
        if (have_only) { if (s.name == only_scen) run_case(s, only_idx); continue; }
        long n = (long)((g_thorough ? s.thorough : s.quick) * scale);
        if (n < 1 && (g_thorough ? s.thorough : s.quick) > 0) n = 1;
        uint64_t lo = (uint64_t)n * pass / PASSES, hi = (uint64_t)n * (pass + 1) / PASSES;
        if (skipping) { if (s.name != from_scen || (from_idx ? from_idx - 1 : 0) >= hi) continue; skipping = false; lo = std::max(lo, from_idx); }
        // cases are striped over the shards with a per-scenario offset, so that short scenarios
        // (one or a few directed cases) are spread over the shards too
        uint64_t off = hash_str(s.name) % nshards;
        for (uint64_t k = lo; k < hi; ++k) {
            if ((long)((k + off) % nshards) != shard) continue;
            struct timespec t0, t1; clock_gettime(CLOCK_REALTIME, &t0);
            if (stopped || (stop_at > 0 && t0.tv_sec + t0.tv_nsec * 1e-9 >= stop_at)) { stopped = true; event("cases not run before the deadline"); continue; }
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
            run_case(s, k);
            clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
            uint64_t us = (t1.tv_sec - t0.tv_sec) * 1000000ull + (t1.tv_nsec - t0.tv_nsec) / 1000;
            event("cpu_us:" + s.name, us); event_max("max_case_us:" + s.name, us);
        }
    }
    event("random_device_draws", rd_total); event("random_device_draws hostile", rd_hostile);
    fprintf(out, "{\"t\":\"S\",\"evaluations\":%llu,\"inconclusive\":%llu,\"violations\":%llu,\"events\":{", (unsigned long long)evaluations,
            (unsigned long long)inconclusive, (unsigned long long)violations);
    bool f = true;
    for (auto& e : events) { fprintf(out, "%s\"%s\":%llu", f ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); f = false; }
    fprintf(out, "},\"maxima\":{"); f = true;
    for (auto& e : maxima) { fprintf(out, "%s\"%s\":%llu", f ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); f = false; }
    fprintf(out, "},\"scen\":{"); f = true;
    for (auto& e : scen_done) { fprintf(out, "%s\"%s\":[%ld,%ld]", f ? "" : ",", jesc(e.first).c_str(), e.second, scen_nontrivial[e.first]); f = false; }
    fprintf(out, "},\"samples\":["); f = true;
    for (auto& e : samples) { fprintf(out, "%s\"%s\"", f ? "" : ",", jesc(e).c_str()); f = false; }
    fprintf(out, "],\"nt\":["); f = true;
    for (auto h : nontriv) { fprintf(out, "%s\"%llx\"", f ? "" : ",", (unsigned long long)h); f = false; }
    fprintf(out, "]}\n");
    fflush(out);
    if (out != stdout) fclose(out);
    P->state = 3;
    return 0;
}
