// Common run-time of every driver: seeded randomness, case loop, observation counters,
// violation reports, progress record for the runner (so that a crash, sanitizer report or
// hang is attributed to the exact case), and control of the library's randomness sources.
#ifndef VH_HH
#define VH_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <typeinfo>
#include <exception>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
    typedef uint64_t result_type;
    static constexpr uint64_t min() { return 0; }
    static constexpr uint64_t max() { return ~0ull; }
    uint64_t operator()() { return next(); }
};

// thrown to end a case after a reported violation
struct Abort {};
// thrown to abandon a case because the oracle itself could not decide (counted, not a verdict)
struct Inconclusive { std::string why; };

struct Scenario { std::string name; long quick, thorough; std::function<void(Rng&)> fn; };
std::vector<Scenario>& scenarios();
struct Reg { Reg(const char* n, long q, long t, std::function<void(Rng&)> f) { scenarios().push_back({n, q, t, f}); } };
#define SCENARIO(NAME, QUICK, THOROUGH)                                   \
    static void scen_##NAME(vh::Rng& R);                                  \
    static vh::Reg reg_##NAME(#NAME, QUICK, THOROUGH, scen_##NAME);       \
    static void scen_##NAME([[maybe_unused]] vh::Rng& R)

// current case description: shown with a violation and kept in shared memory for crashes
void desc(const std::string& s);
void desc_add(const std::string& s);
// an observed event (what the monitor actually saw)
void event(const std::string& name, uint64_t n = 1);
void event_max(const std::string& name, uint64_t v);
// this case was non-trivial; hash identifies it up to distinctness
void nontrivial(uint64_t h);
void nontrivial(const std::string& s);
void sample(const std::string& s);
[[noreturn]] void fail(const std::string& key, const std::string& msg);
void report(const std::string& key, const std::string& msg); // violation, case continues
bool thorough();
uint64_t seed();

// library randomness: std::random_device, rand(), time() as seen by the library
enum class RD { Random, Zero, Max, Small, Alternate };
void set_random_device(RD mode, uint64_t seed);
RD random_rd_mode(Rng& R);
uint64_t random_device_draws();

inline uint64_t hash_str(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
template <class T> std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }
inline std::string clip(const std::string& s, size_t n = 1500) { return s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " chars)"; }

#define VCHECK(cond, key, msg)                                            \
    do { if (!(cond)) vh::fail(key, vh::str(msg)); } while (0)
#define VMSG(x) ([&]() { std::ostringstream o__; o__ << x; return o__.str(); }())
#define VREQ(cond, key, x)                                                \
    do { vh::event("checks"); if (!(cond)) vh::fail(key, VMSG(x)); } while (0)
}
#endif
