// Bounded exhaustive exploration ("model checking") engine used by all harnesses.
//
// A scenario is a deterministic function of the choices it draws with Ctx::pick().  The engine runs the
// scenario once per choice sequence and covers *every* sequence (depth first, stateless), or - for
// scenarios that call Ctx::expand(canonical state) - every reachable canonical state and every
// transition out of it (breadth first, explicit state).  Work is spread over forked processes, so the
// code under test is never shared between explorers.  Every failure is re-executed from its recorded
// choices in a fresh process before it is reported.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdint>
#include <cstdarg>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

struct Violation { std::string msg; std::string sig; };
struct Pruned {};   // execution belongs to another shard / state already covered
struct Reject {};   // choice combination outside the driver's alphabet (counts as no execution)

class Engine;

class Ctx {
public:
    // Draws one of n alternatives (0..n-1); the engine covers all of them.
    int pick(int n);
    bool flip() { return pick(2) == 1; }
    template <typename T> const T &oneof(const std::vector<T> &v) { return v[pick((int)v.size())]; }
    // Marks a state of an explicit-state search. Returns normally iff the state is to be expanded
    // further (always true in stateless mode).
    void expand(uint64_t canonical);
    // Coverage bookkeeping
    void step(uint64_t n = 1) { transitions += n; }
    void state(uint64_t hash);
    // Explicit-state mode: true only for the step that leads to a state not yet examined (the steps
    // before it merely replay the history). Always true in stateless mode.
    bool frontier() const { return !bfs || pos >= choice.size(); }
    void reject() { throw Reject{}; }
    // Oracle
    void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    // A failure with a signature that the known-findings file may list.
    void fail_sig(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    bool verbose = false;
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    int tier = 0; // 0 quick, 1 thorough
    bool thorough() const { return tier == 1; }

    // engine internals
    Engine *eng = nullptr;
    std::vector<int> choice, arity;
    size_t pos = 0;
    uint64_t transitions = 0;
    std::string trace;
    bool bfs = false, bfs_arrived = false;
};

using Fn = std::function<void(Ctx &)>;
enum class Mode { Dfs, Bfs };
struct Scenario {
    std::string prop, name;
    Fn fn;
    Mode mode = Mode::Dfs;
    std::string note;       // what the scenario enumerates (goes to the evidence file)
    int tiers = 3;          // bit 0: quick, bit 1: thorough
};
void add(Scenario s);
inline void dfs(std::string prop, std::string name, std::string note, Fn fn, int tiers = 3) {
    add({std::move(prop), std::move(name), std::move(fn), Mode::Dfs, std::move(note), tiers});
}
inline void bfs(std::string prop, std::string name, std::string note, Fn fn, int tiers = 3) {
    add({std::move(prop), std::move(name), std::move(fn), Mode::Bfs, std::move(note), tiers});
}
void assume(const std::string &prop, const std::string &text);   // goes to evidence "assumptions"

// hashing helper
struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash &add(uint64_t v) {
        v *= 0x9E3779B97F4A7C15ull; v ^= v >> 29;
        h = (h ^ v) * 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        return *this;
    }
    Hash &adds(const std::string &s) { for (char c : s) add((unsigned char)c); return add(s.size()); }
    operator uint64_t() const { return h; }
};

const std::string &tmp();   // scratch directory of the run, removed by the caller of the check
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Registered by each harness translation unit.
#define MC_REGISTER(fn) static const int mc_reg_##fn = (fn(), 0)

} // namespace mc
#endif
