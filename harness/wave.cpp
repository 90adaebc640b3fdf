// I02, I03, I04, I06: the signal accounting engines (parallel bus, data bus with its toggling-rate mode,
// clock, tri-state pin) against references that expand the driven waveform unit by unit.
#include "mc.h"
#include "wave.h"
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/databus.h>
#include <DRAMPower/util/databus_presets.h>
#include <DRAMPower/util/pin.h>
#include <cmath>
#include <map>
using namespace DRAMPower;
using util::bus_stats_t;
namespace {
using namespace wv;

std::vector<uint8_t> drawData(mc::Ctx &x, int bits) {
    std::vector<uint8_t> d((bits + 7) / 8);
    if (bits <= 6) { d[0] = (uint8_t)x.pick(1 << bits); return d; }
    static const uint8_t pat[4][8] = {{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x01, 0, 0, 0, 0, 0, 0, 0x80}, {0xa5, 0x5a, 0x3c, 0xc3, 0x0f, 0xf0, 0x12, 0x34}, {0xfe, 0x81, 0x7f, 0x10, 0xef, 0x08, 0xf7, 0x00}};
    int p = x.pick(4); for (size_t i = 0; i < d.size(); ++i) d[i] = pat[p][(i + (i / 8)) % 8];
    return d;
}

// a long idle time somewhere in the history: the reference works on compressed time and adds the idle levels
struct Jump {
    int before = -1; uint64_t at = UINT64_MAX, by = 0; bool counted = true;
    void choose(mc::Ctx &x, int depth) { static const std::vector<uint64_t> J{(1ull << 31) - 1, (1ull << 32) - 2, (1ull << 40) + 1}; before = x.pick(depth); by = x.oneof(J); }
    void happen(uint64_t now, bool on) { at = now; counted = on; }
    uint64_t real(uint64_t t) const { return t >= at ? t + by : t; }
    void idle(bus_stats_t &s, uint64_t t, uint64_t dr, uint64_t width, bool high) const { if (t >= at && counted) (high ? s.ones : s.zeroes) += by * dr * width; }
};

template <size_t N> void busSeq(mc::Ctx &x, int width, int depth, const std::vector<uint64_t> &rates, const std::vector<int> &lens, const std::vector<int> &gaps, bool switching, bool late = false) {
    Wave w; w.width = width; w.dr = rates[x.pick((int)rates.size())]; w.idleH = x.flip();
    bool on = switching ? x.flip() : true;
    util::Bus<N> bus(width, w.dr, w.idleH ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L, on);
    if (!on) w.off.push_back({0, UINT64_MAX});
    uint64_t now = 0, busyUntil = 0, lastDisable = 0; bool api64 = false;
    Jump jump; if (late) jump.choose(x, depth); auto R = [&](uint64_t t) { return jump.real(t); };
    auto W = [&](uint64_t t) { auto r = w.stats(t); jump.idle(r, t, w.dr, (uint64_t)width, w.idleH); return r; };
    for (int i = 0; i < depth; ++i) {
        int gap = gaps[x.pick((int)gaps.size())];
        if (jump.before == i) { now = std::max(now, (busyUntil + w.dr - 1) / w.dr) + 1; jump.happen(now, on); x.log("(%llu cycles pass)", (unsigned long long)jump.by); }
        int kind = switching ? x.pick(3) : 0;
        if (kind == 0) {
            now = std::max(now, (busyUntil + w.dr - 1) / w.dr) + (uint64_t)gap;
            int beats = lens[x.pick((int)lens.size())];
            auto d = drawData(x, std::max(1, beats * width));
            api64 = beats * width <= 64 && beats * width > 0 && (i % 2 == 1);
            x.log("t=%d load %d beats first byte %02x", (int)now, beats, d[0]);
            if (api64) { uint64_t v = 0; for (size_t k = 0; k < d.size(); ++k) v |= (uint64_t)d[k] << (8 * k); bus.load(R(now), v, (size_t)beats); }
            else bus.load(R(now), d.data(), (size_t)(beats * width));
            if (on) { w.load(now, d, beats); busyUntil = now * w.dr + beats; }
        } else if (kind == 1) {
            now += gap; x.log("t=%d disable", (int)now);
            if (!on && now < lastDisable) x.reject();
            bus.disable(R(now));
            if (on) { on = false; w.off.push_back({now * w.dr, UINT64_MAX}); lastDisable = now; auto it = w.driven.lower_bound(now * w.dr); w.driven.erase(it, w.driven.end()); busyUntil = std::min(busyUntil, now * w.dr); }
        } else {
            now += gap; x.log("t=%d enable", (int)now);
            if (!on && now <= lastDisable && !(w.off.size() == 1 && w.off[0].first == 0 && now > 0)) x.reject();
            bus.enable(R(now));
            if (!on) { on = true; w.off.back().second = now * w.dr; }
        }
        x.step();
        auto got = bus.get_stats(R(now)), want = W(now); // right at the event
        if (!(got == want)) x.fail("bus width=%d rate=%d idle=%c after event %d, stats(%d): %s but the waveform gives %s", width, (int)w.dr, w.idleH ? 'H' : 'L', i, (int)now, S(got).c_str(), S(want).c_str());
    }
    uint64_t end = (busyUntil + w.dr - 1) / w.dr;
    for (uint64_t t = now; t <= std::max(now, end) + 2; ++t) {
        auto got = bus.get_stats(R(t)), want = W(t); x.step();
        if (!(got == want)) x.fail("bus width=%d rate=%d idle=%c stats(%d): %s but the waveform gives %s", width, (int)w.dr, w.idleH ? 'H' : 'L', (int)t, S(got).c_str(), S(want).c_str());
        x.state(mc::Hash().add(t).add(hashStats(got)).add(width).add(w.dr));
    }
}

// data bus: read and write side, explicit data or toggling estimate, switching at run time
void databus(mc::Ctx &x, int depth, bool switching, bool late = false, const std::vector<int> &widths = {2, 8, 65, 300}) {
    const int wsel = x.pick((int)widths.size()); const int width = widths[(size_t)wsel];
    if (!late && wsel > 0 && depth > 2) depth--;
    const int ps = x.pick((int)params().size()); const uint64_t dr = ps % 2 ? 2 : 4; const Params p0 = params()[ps];
    bool tog = x.flip(); Params p = p0;
    util::DataBusConfig cfg{(size_t)width, (size_t)dr, def(p)};
    auto bus = util::databus_presets::getDataBusPreset(std::move(cfg), tog ? util::DataBusMode::TogglingRate : util::DataBusMode::Bus);
    Wave w[2]; Tog g[2];
    for (int i = 0; i < 2; ++i) {
        w[i].width = width; w[i].dr = dr; w[i].idleH = i ? p.iw : p.ir; if (tog) w[i].off.push_back({0, UINT64_MAX});
        g[i] = Tog{(uint64_t)width, dr, i ? p.wr : p.rr, i ? p.wd : p.rd, i ? p.iw : p.ir, tog, {}, {}}; if (!tog) g[i].off.push_back({0, UINT64_MAX});
    }
    uint64_t now = 0, busy[2] = {0, 0}, lastSwitch = 0;
    Jump jump; bool jumpTog = false; if (late) jump.choose(x, depth); auto R = [&](uint64_t t) { return jump.real(t); };
    auto check = [&](uint64_t t) {
        bus_stats_t a, b, c, d; bus.get_stats(R(t), a, b, c, d); x.step();
        bus_stats_t wa = w[0].stats(t), wb = w[1].stats(t), wc = g[0].stats(t), wd = g[1].stats(t);
        if (jumpTog) { jump.idle(wc, t, dr, (uint64_t)width, g[0].idleH); jump.idle(wd, t, dr, (uint64_t)width, g[1].idleH); }
        else { jump.idle(wa, t, dr, (uint64_t)width, w[0].idleH); jump.idle(wb, t, dr, (uint64_t)width, w[1].idleH); }
        eq(x, "data bus read lines", t, a, wa); eq(x, "data bus write lines", t, b, wb);
        eq(x, "estimated read toggling", t, c, wc); eq(x, "estimated write toggling", t, d, wd);
        x.state(mc::Hash().add(t).add(hashStats(a)).add(hashStats(b)).add(hashStats(c)).add(hashStats(d)));
    };
    for (int i = 0; i < depth; ++i) {
        if (jump.before == i) { for (auto u : busy) now = std::max(now, (u + dr - 1) / dr); now += 1; jump.happen(now, true); jumpTog = tog; x.log("(%llu cycles pass)", (unsigned long long)jump.by); }
        int gap = x.pick(3); now += (uint64_t)gap * (gap == 2 ? 2 : 1);
        int kind = x.pick(switching ? 5 : 3);
        if (kind < 3) {
            int side = kind == 2 ? 0 : kind; bool noData = kind == 2; // kind 2: a read without payload
            now = std::max(now, (busy[side] + dr - 1) / dr);
            int beats = noData ? 3 : x.flip() ? 3 : 8; std::vector<uint8_t> d(8, 0xa5); if (!noData && x.flip()) { d.assign(8, 0); d[0] = 1; d[7] = 0x80; }
            d.resize((size_t)(beats * width + 7) / 8); for (size_t k = 8; k < d.size(); ++k) d[k] = (uint8_t)(d[k % 8] + k);
            x.log("t=%d %s %d beats%s", (int)now, side ? "write" : "read", beats, noData ? " without data" : "");
            if (side) bus.loadWrite(R(now), (size_t)(beats * width), noData ? nullptr : d.data()); else bus.loadRead(R(now), (size_t)(beats * width), noData ? nullptr : d.data());
            if (!tog && !noData) { w[side].load(now, d, beats); busy[side] = now * dr + beats; }
            if (tog) { g[side].burst.push_back({now * dr, now * dr + beats}); busy[side] = now * dr + beats; }
        } else if (kind == 3) {
            x.log("t=%d switch to %s", (int)now, tog ? "data" : "toggling estimate");
            if (tog && now <= lastSwitch) x.reject();
            if (tog) bus.enableBus(R(now)); else bus.enableTogglingRate(R(now));
            for (int s = 0; s < 2; ++s) {
                if (tog) { g[s].disable(now); w[s].off.back().second = now * dr; }
                else { w[s].off.push_back({now * dr, UINT64_MAX}); w[s].driven.erase(w[s].driven.lower_bound(now * dr), w[s].driven.end()); g[s].enable(now); }
                busy[s] = std::min(busy[s], now * dr);
            }
            tog = !tog; lastSwitch = now;
        } else {
            p = params()[(size_t)x.pick(2)]; x.log("t=%d new toggling definition", (int)now); bus.setTogglingRateDefinition(def(p));
            for (int s = 0; s < 2; ++s) { g[s].rate = s ? p.wr : p.rr; g[s].duty = s ? p.wd : p.rd; g[s].idleH = s ? p.iw : p.ir; }
        }
        if (bus.isTogglingRate() != tog || bus.isBus() == tog) x.fail("mode flag wrong");
        if (now > 0) check(now);
    }
    check(now + 1); check(now + 3); check(now + 9);
}

// ---- clock --------------------------------------------------------------------------------------------
void clockSeq(mc::Ctx &x, int depth, bool late = false) {
    const uint64_t rates[] = {1, 2, 4, 8, 3}; uint64_t dr = rates[x.pick(5)]; bool run = x.flip(); util::Clock c(dr, !run);
    uint64_t now = 0, since = 0; std::vector<std::pair<uint64_t, uint64_t>> iv;
    auto want = [&](uint64_t t) {
        uint64_t n = 0; for (auto &i : iv) n += (i.second - i.first) * dr / 2; if (run) n += (t - since) * dr / 2;
        bus_stats_t s; s.ones = s.zeroes = s.ones_to_zeroes = s.zeroes_to_ones = n; s.bit_changes = 2 * n; return s;
    };
    for (int i = 0; i < depth; ++i) {
        static const uint64_t far[] = {0, 1, (1ull << 31) - 1, (1ull << 32) + 1, 1ull << 45}; now += (late ? far[x.pick(5)] : (uint64_t)x.pick(6)) + (run ? 1 : 0); x.log("t=%llu %s", (unsigned long long)now, run ? "stop" : "start");
        eq(x, "clock before the event", now, c.get_stats_at(now), want(now));
        if (run) { c.stop(now); iv.push_back({since, now}); } else { c.start(now); since = now; }
        run = !run; x.step();
        for (uint64_t t = now; t < now + 3; ++t) { eq(x, "clock", t, c.get_stats_at(t), want(t)); x.state(mc::Hash().add(t).add(hashStats(want(t))).add(dr)); }
    }
}

// ---- tri-state pin ------------------------------------------------------------------------------------
void pinSeq(mc::Ctx &x, int depth, bool late = false) {
    using P = util::PinState; const P st[3] = {P::L, P::H, P::Z};
    P init = st[x.pick(3)], idle = st[x.pick(3)]; const size_t dr = x.flip() ? 2 : 1;
    util::Pin<16> pin(init, idle); Jump jump; if (late) jump.choose(x, depth); auto R = [&](uint64_t t) { return jump.real(t); };
    std::map<uint64_t, P> wave; uint64_t now = 0, end = 0; bool first = true, atZero = false;
    auto level = [&](uint64_t v) { auto i = wave.find(v); return i == wave.end() ? idle : i->second; };
    auto want = [&](uint64_t t) {
        bus_stats_t s; P prev = init;
        for (uint64_t v = 0; v < t * dr; ++v) {
            P c = level(v); if (c == P::H) s.ones++; if (c == P::L) s.zeroes++;
            if (prev == P::L && c == P::H) { s.zeroes_to_ones++; s.bit_changes++; }
            if (prev == P::H && c == P::L) { s.ones_to_zeroes++; s.bit_changes++; }
            prev = c;
        }
        if (idle != P::Z) jump.idle(s, t, dr, 1, idle == P::H);
        return s;
    };
    for (int i = 0; i < depth; ++i) {
        uint64_t gap = (uint64_t)x.pick(3); now = first ? gap : std::max(now + 1, (end + dr - 1) / dr + gap);
        if (!first && x.thorough() && x.flip()) now = (end + dr - 1) / dr + 5;
        if (jump.before == i) { now += 1; jump.happen(now, true); now += 1; x.log("(%llu cycles pass)", (unsigned long long)jump.by); }
        int beats = 1 + x.pick(3); x.log("t=%d burst of %d", (int)now, beats);
        auto got0 = pin.get_stats_at(R(now), dr); eq(x, "pin before the burst", now, got0, want(now));
        for (int b = 0; b < beats; ++b) { P v = x.flip() ? P::H : P::L; pin.set(R(now), v, dr); wave[now * dr + (uint64_t)b] = v; x.log("  beat %d %c", b, v == P::H ? 'H' : 'L'); }
        end = now * dr + (uint64_t)beats; first = false; x.step(); (void)atZero;
    }
    for (uint64_t t = now; t <= (end + dr - 1) / dr + 2; ++t) { auto g = pin.get_stats_at(R(t), dr); eq(x, "pin", t, g, want(t)); x.state(mc::Hash().add(t).add(hashStats(g))); }
}
void pinSwitching(mc::Ctx &x) { // driven level by level at consecutive instants
    using P = util::PinState; util::Pin<16> pin(P::L, P::L); std::map<uint64_t, P> wave; uint64_t now = 0;
    for (int i = 0; i < 7; ++i) {
        now += (uint64_t)x.pick(i ? 3 : 2) + (i ? 1 : 0); P v = x.flip() ? P::H : P::L; x.log("t=%d drive %c", (int)now, v == P::H ? 'H' : 'L'); pin.set(now, v); wave[now] = v; x.step();
    }
    bus_stats_t s; P prev = P::L;
    for (uint64_t v = 0; v < now + 3; ++v) { P c = wave.count(v) ? wave[v] : P::L; if (c == P::H) s.ones++; else s.zeroes++; if (c != prev) { s.bit_changes++; if (c == P::H) s.zeroes_to_ones++; else s.ones_to_zeroes++; } prev = c; }
    eq(x, "pin", now + 3, pin.get_stats_at(now + 3), s); x.state(mc::Hash().add(hashStats(s)).add(now));
}

void reg() {
    auto bus = [](const char *prop, const char *name, const char *note, std::function<void(mc::Ctx &)> f, int tiers = 3) { mc::dfs(prop, name, note, f, tiers); };
    bus("I02", "one line", "all sequences of 3 (thorough: 4) loads of 0..3 beats, all data, all gaps 0..2, rates 1, 2, 4, both idle levels", [](mc::Ctx &x) { busSeq<8>(x, 1, x.thorough() ? 4 : 3, {1, 2, 4}, {0, 1, 2, 3}, {0, 1, 2}, false); });
    bus("I02", "three lines", "all sequences of 3 loads of 1..2 beats, all data, gaps 0..1", [](mc::Ctx &x) { busSeq<8>(x, 3, 3, {1, 2}, {1, 2}, {0, 1}, false); });
    bus("I02", "two lines long", "all pairs (thorough: triples) of bursts of 1..3 beats on two lines, all data, gaps 0..3", [](mc::Ctx &x) { busSeq<8>(x, 2, x.thorough() ? 3 : 2, {1, 2, 4}, {1, 2, 3}, {0, 1, 2, 3}, false); });
    bus("I02", "wide", "wide and byte-unaligned buses (9, 16, 27, 33, 64 lines), sequences of 3 bursts of 1..16 beats with edge data patterns", [](mc::Ctx &x) {
        const int ws[] = {9, 16, 27, 33, 64}; int w = ws[x.pick(5)]; busSeq<64>(x, w, 3, {1, 2, 4}, {1, 2, 5, 16}, {0, 1, 7}, false); });
    bus("I02", "on and off", "all sequences of 4 (thorough: 5) of load, disable, enable on a one-line bus, initially on or off", [](mc::Ctx &x) { busSeq<8>(x, 1, x.thorough() ? 5 : 4, {1, 2}, {1, 3}, {0, 1, 2}, true); });
    bus("I02", "long idle times", "sequences of 3 bursts and switches with an idle time of up to 2^40 cycles before any of them", [](mc::Ctx &x) { int k = x.pick(3); if (k == 2) busSeq<64>(x, 27, 2, {1, 4}, {2, 16}, {0, 1}, false, true); else busSeq<8>(x, 1, 3, {1, 2}, {1, 3}, {0, 1}, k == 1, true); });
    bus("I02", "long bursts", "pairs of bursts of up to 64 beats on buses of 1, 8, 12, 64, 65 and 128 lines", [](mc::Ctx &x) {
        static const int ws[] = {1, 8, 12, 64, 65, 128}; int w = ws[x.pick(6)]; if (w == 1) busSeq<8>(x, w, 2, {1, 2, 8}, {24, 31, 32, 33, 48, 64}, {0, 1}, false); else busSeq<128>(x, w, 2, {1, 2, 8}, {24, 31, 32, 33, 48, 64}, {0, 1}, false); });
    mc::assume("I02", "Bursts on one bus do not overlap; a disabled bus is re-enabled strictly after it was disabled.");
    mc::dfs("I03", "fixed mode", "all sequences of 4 (thorough: 5; one fewer on wide buses) reads, writes and payload-free reads, four bus widths (one per storage class), two rates, four parameter sets, both modes", [](mc::Ctx &x) { databus(x, x.thorough() ? 5 : 4, false); });
    mc::dfs("I03", "mode switching", "all sequences of 3 (thorough: 4) reads, writes, mode switches and parameter changes", [](mc::Ctx &x) { databus(x, x.thorough() ? 4 : 3, true); });
    mc::dfs("I03", "storage classes", "pairs of accesses on buses whose widths are around the limits of the storage classes (1, 64, 256, 257, 1024, 1025, 4096 lines)", [](mc::Ctx &x) { databus(x, 2, false, false, {1, 64, 256, 257, 1024, 1025, 4096}); });
    mc::dfs("I03", "long idle times", "sequences of 2 accesses, mode switches and parameter changes with an idle time of up to 2^40 cycles before any of them", [](mc::Ctx &x) { databus(x, 2, true, true, {8, 65}); });
    mc::assume("I03", "Bursts on one direction do not overlap; toggling figures are products of beats and rate, rounded down per figure.");
    mc::dfs("I04", "clock", "all alternations of 6 (thorough: 7) starts and stops with pauses 0..5, rates 1, 2, 3, 4, 8", [](mc::Ctx &x) { clockSeq(x, x.thorough() ? 7 : 5); });
    mc::dfs("I04", "clock, long times", "all alternations of 5 starts and stops with pauses of up to 2^45 cycles", [](mc::Ctx &x) { clockSeq(x, 5, true); });
    mc::assume("I04", "A clock is stopped strictly after it was started.");
    mc::dfs("I06", "bursts", "all sequences of 3 (thorough: 4) bursts of 1..3 beats, every initial and idle level, every data, gaps 0..2, rates 1 and 2", [](mc::Ctx &x) { pinSeq(x, x.thorough() ? 4 : 3); });
    mc::dfs("I06", "single beats", "all sequences of 7 single beats", [](mc::Ctx &x) { pinSwitching(x); });
    mc::dfs("I06", "long idle times", "all sequences of 2 bursts with an idle time of up to 2^40 cycles before either", [](mc::Ctx &x) { pinSeq(x, 2, true); });
    mc::assume("I06", "A pin burst starts after the previous one has ended; driven levels are low or high (idle may be undriven).");
}
MC_REGISTER(reg);
} // namespace
