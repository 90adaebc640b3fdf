// I05: the data-bus-inversion unit: transmitted data, reported inversion states and the level history of
// every inversion pin for all short burst sequences, static and dynamic policy, several chunk geometries.
#include "mc.h"
#include <DRAMPower/util/dbi.h>
#include <DRAMPower/util/dbialgos.h>
#include <map>
#include <memory>
using namespace DRAMPower;
using namespace DRAMPower::util;
namespace {

struct Ev { uint64_t load, t; size_t idx; bool inv, read; };
struct Burst { uint64_t t; bool read; std::vector<uint64_t> in; };

template <typename T> uint64_t toU(T v) { return (uint64_t)v; }
template <typename T> int bits() { return std::numeric_limits<T>::digits; }

// chunkUnits: data units per chunk, lanes: chunks per beat (0: no bus width given), policy 0 static, else dynamic threshold
template <typename T, size_t SUB, PinState IDLE, typename Alg>
void seq(mc::Ctx &x, int lanes, int policy, const std::vector<int> &beatsSet, int depth, const std::vector<uint64_t> &alphabet, const std::vector<int> &gaps, bool dirs, bool toggleEnable = false, bool late = false) {
    using D = DBI<T, SUB, IDLE, Alg>;
    const int ub = bits<T>(), cu = (int)SUB; const uint64_t mask = ub == 64 ? ~0ull : (1ull << ub) - 1;
    std::vector<Ev> ev;
    const size_t BL = 4; // burst length configured on the device: only meaningful without a bus width
    D dbi(lanes ? std::optional<size_t>((size_t)(lanes * cu * ub)) : std::nullopt, BL, [&](timestamp_t l, timestamp_t t, size_t i, bool inv, bool rd) { ev.push_back({l, t, i, inv, rd}); }, true);
    // reference pin histories: (direction, pin) -> beat time -> inverted
    std::map<std::pair<bool, size_t>, std::map<uint64_t, bool>> want;
    uint64_t end[2] = {0, 0}; bool any[2] = {false, false}; std::vector<uint64_t> lastOut[2];
    uint64_t now = 0; bool en = true;
    if (late) { now = x.oneof(std::vector<uint64_t>{(1ull << 32) - 3, (1ull << 33) + 1, 1ull << 50}); x.log("from t=%llu", (unsigned long long)now); }
    for (int i = 0; i < depth; ++i) {
        bool rd = dirs ? x.flip() : true;
        int beats = beatsSet[x.pick((int)beatsSet.size())]; int nch = lanes ? beats * lanes : beats;
        now = std::max(now, end[rd]) + (uint64_t)gaps[x.pick((int)gaps.size())];
        if (toggleEnable && i > 0) { if (x.flip()) { en = !en; dbi.enable(en); } }
        std::vector<T> in; for (int k = 0; k < nch * cu; ++k) in.push_back((T)alphabet[x.pick((int)alphabet.size())]);
        x.log("t=%d %s %d chunks first %llx%s", (int)now, rd ? "read" : "write", nch, (unsigned long long)toU(in[0]), en ? "" : " (off)");
        std::vector<T> keep = in;
        ev.clear();
        auto r = dbi.updateDBI(now, in.size() * (size_t)ub, in.data(), rd); x.step();
        if (in != keep) x.fail("caller's data modified");
        if (dbi.isEnabled() != en) x.fail("enable flag wrong");
        if (!en) { if (r) x.fail("a disabled unit produced data"); if (!ev.empty()) x.fail("a disabled unit moved its pins"); now += (uint64_t)beats; continue; }
        if (!r) x.fail("no data produced");
        // reference
        bool seamless = any[rd] && end[rd] == now;
        std::vector<uint64_t> prev; // previously transmitted units per lane
        std::vector<uint64_t> idleBeat((size_t)std::max(1, lanes) * cu, IDLE == PinState::H ? mask : 0);
        prev = seamless && lanes ? lastOut[rd] : idleBeat;
        std::vector<uint64_t> out((size_t)nch * cu); std::vector<bool> inv((size_t)nch);
        for (int c = 0; c < nch; ++c) {
            int cost = 0, total = cu * ub; int lane = lanes ? c % lanes : 0;
            for (int u = 0; u < cu; ++u) {
                uint64_t v = toU(in[c * cu + u]) & mask;
                if (policy == 0) cost += IDLE == PinState::L ? __builtin_popcountll(v) : ub - __builtin_popcountll(v);
                else if (lanes) cost += __builtin_popcountll(v ^ prev[(size_t)(lane * cu + u)]);
            }
            inv[(size_t)c] = policy == 0 ? 2 * cost > total : lanes && cost > policy;
            for (int u = 0; u < cu; ++u) { uint64_t v = toU(in[c * cu + u]) & mask; out[(size_t)(c * cu + u)] = inv[(size_t)c] ? ~v & mask : v; if (lanes) prev[(size_t)(lane * cu + u)] = out[(size_t)(c * cu + u)]; }
        }
        for (int k = 0; k < nch * cu; ++k) if ((toU((*r)[k]) & mask) != out[(size_t)k]) x.fail("unit %d of the burst at t=%d transmitted as %llx, expected %llx", k, (int)now, (unsigned long long)toU((*r)[k]), (unsigned long long)out[(size_t)k]);
        auto &st = rd ? dbi.getInversionStateRead() : dbi.getInversionStateWrite();
        if (st.size() < (size_t)nch) x.fail("inversion state has %d entries for %d chunks", (int)st.size(), nch);
        for (int c = 0; c < nch; ++c) if (st[(size_t)c] != inv[(size_t)c]) x.fail("reported inversion of chunk %d wrong", c);
        if constexpr (std::is_same_v<T, uint8_t>) if (std::get<1>(dbi.getInvertedData()) != (size_t)nch * cu) x.fail("size of the transmitted data wrong");
        if (dbi.getInvertedDataSize() != (size_t)nch * cu) x.fail("size of the transmitted burst wrong");
        if ((rd ? dbi.getInversionSizeRead() : dbi.getInversionSizeWrite()) != (size_t)nch * cu) x.fail("size of the inversion record wrong");
        // pins: reset events (if any) come first and belong to the gap; then one event per chunk
        auto &pins = want; uint64_t pe = end[rd];
        size_t k = 0; std::map<size_t, bool> down;
        while (k < ev.size() && ev[k].t < now) {
            if (ev[k].read != rd || ev[k].inv || ev[k].t != pe) x.fail("unexpected pin event at t=%d before the burst at t=%d", (int)ev[k].t, (int)now);
            down[ev[k].idx] = true; ++k;
        }
        if (any[rd] && !seamless) {
            size_t np = lanes ? (size_t)lanes : lastOut[rd].size() / (size_t)cu;
            for (size_t p = 0; p < np; ++p) { bool was = lanes ? pins[{rd, p}][pe - 1] : pins[{rd, p}].rbegin()->second; if (was != down.count(p)) x.fail("inversion pin %d %s to rest after the burst that ended at t=%d", (int)p, was ? "does not return" : "is returned", (int)pe); }
        } else if (!down.empty()) x.fail("pins reset although the bursts are seamless");
        if (ev.size() - k != (size_t)nch) x.fail("%d pin events for %d chunks", (int)(ev.size() - k), nch);
        if (!lanes) for (auto it = pins.begin(); it != pins.end();) it = it->first.first == rd ? pins.erase(it) : std::next(it);
        for (int c = 0; c < nch; ++c, ++k) {
            uint64_t et = lanes ? now + (uint64_t)(c / lanes) : now; size_t ei = (size_t)(lanes ? c % lanes : c);
            if (ev[k].t != et || ev[k].idx != ei || ev[k].inv != inv[(size_t)c] || ev[k].read != rd || ev[k].load != now) x.fail("pin event of chunk %d wrong: pin %d t=%d inverted=%d", c, (int)ev[k].idx, (int)ev[k].t, ev[k].inv);
            pins[{rd, ei}][et] = inv[(size_t)c];
        }
        end[rd] = now + (uint64_t)(lanes ? beats : (int)BL); any[rd] = true;
        lastOut[rd] = lanes ? std::vector<uint64_t>(out.end() - lanes * cu, out.end()) : out;
        auto e = dbi.getLastBurstEnd(rd); if (!e || *e != end[rd]) x.fail("burst end wrong");
        x.state(mc::Hash().add(now).add(rd).add(out.back()).add(out.front()).add(nch));
        if (!dirs) continue;
        if (dbi.getLastBurstEnd(!rd).has_value() != any[!rd]) x.fail("other direction's burst end wrong");
    }
    // closing: all inverted pins return to rest
    ev.clear(); uint64_t fin = std::max(end[0], end[1]) + 1; dbi.dispatchResetCallback(fin); x.step();
    for (int rd = 0; rd < 2; ++rd) {
        if (!any[rd] || !lanes) continue;
        for (int p = 0; p < lanes; ++p) {
            int n = 0; for (auto &e : ev) if (e.read == (bool)rd && e.idx == (size_t)p) { ++n; if (e.inv || e.t != end[rd]) x.fail("final pin event wrong"); }
            if (n != (want[{(bool)rd, (size_t)p}][end[rd] - 1] ? 1 : 0)) x.fail("inversion pin %d of the %s side left in the wrong state at the end", p, rd ? "read" : "write");
        }
    }
}

void reg() {
    const std::vector<uint64_t> edge = {0x00, 0xff, 0x0f, 0x1f, 0xe0}, two = {0x07, 0xf8, 0x5a}, e4 = {0x00, 0xff, 0x0f, 0xe1}, all = [] { std::vector<uint64_t> v; for (int i = 0; i < 256; ++i) v.push_back((uint64_t)i); return v; }();
    mc::dfs("I05", "every byte", "every pair of consecutive byte values on one lane, both idle levels, seamless and not", [=](mc::Ctx &x) {
        if (x.flip()) seq<uint8_t, 1, PinState::L, StaticDBI>(x, 1, 0, {1}, 2, all, {0, 1, 3}, false); else seq<uint8_t, 1, PinState::H, StaticDBI>(x, 1, 0, {1}, 2, all, {0, 1, 3}, false); });
    mc::dfs("I05", "bursts", "all sequences of 3 bursts of 1..2 beats on one or two lanes with edge bytes, reads and writes, gaps 0..2, both idle levels", [=](mc::Ctx &x) {
        int lanes = 1 + x.pick(2); auto al = lanes == 2 ? two : edge; std::vector<int> b = lanes == 2 && !x.thorough() ? std::vector<int>{1} : std::vector<int>{1, 2};
        if (x.flip()) seq<uint8_t, 1, PinState::L, StaticDBI>(x, lanes, 0, b, 3, lanes == 2 ? two : x.thorough() ? edge : two, {0, 2}, true); else seq<uint8_t, 1, PinState::H, StaticDBI>(x, lanes, 0, b, 3, lanes == 2 ? two : x.thorough() ? edge : two, {0, 2}, true); });
    mc::dfs("I05", "growing bursts", "bursts whose lengths grow and shrink (1, 5, 8 beats), on one lane, two byte values", [=](mc::Ctx &x) {
        seq<uint8_t, 1, PinState::L, StaticDBI>(x, 1, 0, {1, 3, 5}, x.thorough() ? 3 : 2, {0x01, 0xfe}, {0, 1}, true); });
    mc::dfs("I05", "two-unit chunks", "chunks of two bytes (as used with a 16-bit inversion granularity), all edge-byte pairs, sequences of 2 bursts, with and without a bus width", [=](mc::Ctx &x) {
        int lanes = x.pick(2); if (x.flip()) seq<uint8_t, 2, PinState::L, StaticDBI>(x, lanes, 0, {1, 2}, 2, x.thorough() ? edge : e4, {0, 1}, x.thorough()); else seq<uint8_t, 2, PinState::H, StaticDBI>(x, lanes, 0, {1, 2}, 2, x.thorough() ? edge : e4, {0, 1}, false); });
    mc::dfs("I05", "no bus width", "chunk-indexed operation (no bus width), one-byte chunks, sequences of 3 bursts of 1..3 chunks", [=](mc::Ctx &x) {
        seq<uint8_t, 1, PinState::L, StaticDBI>(x, 0, 0, {1, 2}, 3, two, {0, 2}, true); });
    mc::dfs("I05", "late", "sequences of 3 bursts around 2^32 and later, one lane, two lanes and no bus width, both policies", [=](mc::Ctx &x) {
        int lanes = x.pick(3); const std::vector<uint64_t> al{0x01, 0xfe}; if (x.flip()) seq<uint8_t, 1, PinState::L, StaticDBI>(x, lanes, 0, {1, 2}, 3, al, {0, 2}, true, false, true); else seq<uint8_t, 1, PinState::H, DynamicDBI<4>>(x, lanes, 4, {1}, 3, al, {0, 2}, true, false, true); });
    mc::dfs("I05", "enabling", "enable/disable between bursts", [=](mc::Ctx &x) {
        seq<uint8_t, 1, PinState::H, StaticDBI>(x, 1, 0, {1, 2}, 4, {0x01, 0xfe}, {0, 2}, false, true); });
    mc::dfs("I05", "wide units", "16- and 32-bit units", [=](mc::Ctx &x) {
        const std::vector<uint64_t> w = {0, 0xffff, 0x00ff, 0x01ff, 0x00fe}, v = {0, 0xffffffff, 0x0000ffff, 0x0001ffff, 0x80000000};
        if (x.flip()) seq<uint16_t, 1, PinState::L, StaticDBI>(x, 1, 0, {1, 2}, 2, w, {0, 1}, true); else seq<uint32_t, 1, PinState::H, StaticDBI>(x, 2, 0, {1}, 2, v, {0, 1}, true); });
    mc::dfs("I05", "transition policy", "the transition-minimising policy (threshold 4), all sequences of 2 (thorough: 3) bursts of 1..3 beats, one and two lanes", [=](mc::Ctx &x) {
        int lanes = x.pick(3); auto al = std::vector<uint64_t>{0x00, 0xff, 0x1f}; std::vector<int> b = lanes == 2 ? std::vector<int>{1, 2} : std::vector<int>{1, 3};
        if (x.flip()) seq<uint8_t, 1, PinState::L, DynamicDBI<4>>(x, lanes, 4, b, x.thorough() ? 3 : 2, al, {0, 1}, true); else seq<uint8_t, 1, PinState::H, DynamicDBI<4>>(x, lanes, 4, b, x.thorough() ? 3 : 2, al, {0, 1}, true); });
    mc::assume("I05", "Bursts in one direction do not overlap; without a bus width a burst lasts the configured burst length and holds whole chunks.");
}
MC_REGISTER(reg);
} // namespace
