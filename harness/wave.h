// References for signal lines: the waveform written out beat by beat, and the toggling-rate estimate.
#ifndef VERIF_WAVE_H
#define VERIF_WAVE_H
#include "mc.h"
#include <DRAMPower/util/bus_types.h>
#include <DRAMPower/util/pin_types.h>
#include <DRAMUtils/config/toggling_rate.h>
#include <map>
#include <vector>
namespace wv {
using DRAMPower::util::bus_stats_t;
inline std::string S(const bus_stats_t &s) {
    return mc::fmt("ones=%llu zeroes=%llu changes=%llu o2z=%llu z2o=%llu", (unsigned long long)s.ones, (unsigned long long)s.zeroes, (unsigned long long)s.bit_changes,
                   (unsigned long long)s.ones_to_zeroes, (unsigned long long)s.zeroes_to_ones);
}
inline uint64_t hashStats(const bus_stats_t &s) { return mc::Hash().add(s.ones).add(s.zeroes).add(s.ones_to_zeroes).add(s.zeroes_to_ones); }

// ---- reference for one parallel bus --------------------------------------------------------------------
struct Wave {
    int width; uint64_t dr; bool idleH;
    std::vector<std::pair<uint64_t, uint64_t>> off;   // [from, to) in beats where the bus is not counted
    std::map<uint64_t, std::vector<bool>> driven;     // beat -> level of every line
    std::vector<bool> at(uint64_t v) const { auto i = driven.find(v); return i != driven.end() ? i->second : std::vector<bool>(width, idleH); }
    bool counted(uint64_t v) const { for (auto &o : off) if (v >= o.first && v < o.second) return false; return true; }
    // data little endian: bit k of the buffer is line k%width of group k/width; groups go out last one first
    void load(uint64_t t, const std::vector<uint8_t> &d, int beats) {
        for (int b = 0; b < beats; ++b) {
            std::vector<bool> l(width);
            for (int j = 0; j < width; ++j) { int k = (beats - 1 - b) * width + j; l[j] = (d[k / 8] >> (k % 8)) & 1; }
            driven[t * dr + b] = l;
        }
    }
    uint64_t next(uint64_t v) const { // first beat after v at which something may change
        uint64_t n = UINT64_MAX; auto i = driven.upper_bound(v); if (i != driven.end()) n = i->first;
        for (auto &o : off) { if (o.first > v) n = std::min(n, o.first); if (o.second > v) n = std::min(n, o.second); }
        return n;
    }
    bus_stats_t stats(uint64_t t) const {
        bus_stats_t s; std::vector<bool> prev(width, idleH);
        bool prevCounted = true;
        for (uint64_t v = 0; v < t * dr; ++v) {
            if (!counted(v)) { prevCounted = false; v = std::min(next(v), t * dr) - 1; continue; }
            if (!prevCounted) prev.assign(width, idleH); // lines rest at idle while not counted
            auto cur = at(v);
            for (int j = 0; j < width; ++j) {
                if (cur[j]) s.ones++; else s.zeroes++;
                if (cur[j] != prev[j]) { s.bit_changes++; if (cur[j]) s.zeroes_to_ones++; else s.ones_to_zeroes++; }
            }
            prev = cur; prevCounted = true;
            if (!driven.count(v)) { const uint64_t n = std::min(next(v), t * dr); (idleH ? s.ones : s.zeroes) += (n - v - 1) * (uint64_t)width; v = n - 1; } // at rest until the next event
        }
        return s;
    }
};

// ---- toggling-rate model ------------------------------------------------------------------------------
struct Tog {
    uint64_t width, dr; double rate, duty; bool idleH; bool on;
    std::vector<std::pair<uint64_t, uint64_t>> off, burst; // beats
    bus_stats_t stats(uint64_t t) const {
        uint64_t T = t * dr, busy = 0, idle = 0;
        for (uint64_t v = 0, n = 0; v < T; v = n) { // [v, n): nothing changes
            n = T; for (auto *l : {&off, &burst}) for (auto &p : *l) { if (p.first > v) n = std::min(n, p.first); if (p.second > v) n = std::min(n, p.second); }
            bool o = false; for (auto &p : off) if (v >= p.first && v < p.second) o = true;
            if (o) continue;
            bool b = false; for (auto &p : burst) if (v >= p.first && v < p.second) b = true;
            if (b) busy += n - v; else idle += n - v;
        }
        bus_stats_t s;
        s.ones = (uint64_t)(busy * duty); s.zeroes = (uint64_t)(busy * (1 - duty)); s.ones_to_zeroes = (uint64_t)(busy * rate / 2);
        if (idleH) s.ones += idle; else s.zeroes += idle;
        s.ones *= width; s.zeroes *= width; s.ones_to_zeroes *= width; s.zeroes_to_ones = s.ones_to_zeroes; s.bit_changes = 2 * s.ones_to_zeroes;
        return s;
    }
    void disable(uint64_t t) { if (!on) return; on = false; off.push_back({t * dr, UINT64_MAX}); if (!burst.empty()) burst.back().second = std::min(burst.back().second, std::max(burst.back().first, t * dr)); }
    void enable(uint64_t t) { if (on) return; on = true; off.back().second = t * dr; }
};

struct Params { double rr, rd, wr, wd; bool ir, iw; };
inline const std::vector<Params> &params() {
    static const std::vector<Params> p = {{0.5, 0.5, 0.25, 0.75, false, false}, {1.0, 0.25, 0.5, 1.0, true, false}, {0.7, 0.3, 0.0, 0.0, false, true}, {0.4, 0.9, 0.8, 0.6, true, true}};
    return p;
}
inline DRAMUtils::Config::ToggleRateDefinition def(const Params &p) {
    using P = DRAMUtils::Config::TogglingRateIdlePattern;
    DRAMUtils::Config::ToggleRateDefinition d; d.togglingRateRead = p.rr; d.togglingRateWrite = p.wr; d.dutyCycleRead = p.rd; d.dutyCycleWrite = p.wd;
    d.idlePatternRead = p.ir ? P::H : P::L; d.idlePatternWrite = p.iw ? P::H : P::L; return d;
}
inline void eq(mc::Ctx &x, const char *what, uint64_t t, const bus_stats_t &g, const bus_stats_t &w) {
    if (!(g == w)) x.fail("%s at t=%d: %s, expected %s", what, (int)t, S(g).c_str(), S(w).c_str());
}

} // namespace wv
#endif
