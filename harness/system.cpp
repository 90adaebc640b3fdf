// Complete devices: questions do not disturb (C08), saving and restoring is transparent (S01).
#include "hist.h"
#include <numeric>
#include <DRAMPower/util/bus.h>
#include <DRAMPower/util/clock.h>
#include <DRAMPower/util/pin.h>
#include <DRAMPower/util/dbi.h>
#include <DRAMPower/util/dbialgos.h>
#include <DRAMPower/util/PatternHandler.h>
namespace {
using namespace hist;
bool wv_eq(const util::bus_stats_t &a, const util::bus_stats_t &b) { return a == b; }

void ask(Dev &d, T64 t, int kind) {
    switch (kind) {
        case 0: d.getWindowStats((timestamp_t)t); break;
        case 1: d.calcCoreEnergy((timestamp_t)t); break;
        case 2: d.calcInterfaceEnergy((timestamp_t)t); break;
        case 3: d.getTotalEnergy((timestamp_t)t); break;
        default: d.getStats(); break;
    }
}
void compareLater(mc::Ctx &x, Dev &ref, Dev &got, T64 end, const char *what) {
    for (T64 t : {end, end + 1, end + 6, end + 14, end + 60}) {
        x.step(2); Report a = report(ref, t, true);
        if (!(a == report(got, t, true))) x.fail("%s: at t=%d%s", what, (int)t, diff(ref, got, t, true).c_str());
    }
}
std::unique_ptr<Dev> fresh(const Opt &o) { return make(o.c, o.tog ? togSim() : config::SimConfig{}); }

// Every history is executed without questions, with questions at every instant, and with one single question.
void questions(mc::Ctx &x, const Opt &o) {
    T64 end; auto h = draw(x, o, end);
    int mode = x.pick(3);
    auto q = fresh(o); auto ref = fresh(o);
    for (auto &s : h) exec(*ref, o.c, s);
    if (mode == 0) { // before, at and after every command, all kinds, twice with identical answers
        T64 last = 0;
        for (size_t i = 0; i < h.size(); ++i) {
            for (T64 t : {last, last + 1, (last + h[i].t) / 2, h[i].t}) if (t >= last && t <= h[i].t) {
                Report a = report(*q, t, true), b = report(*q, t, true); x.step(2);
                if (!(a == b)) x.fail("the same question at t=%d got two different answers:%s", (int)t, diff(*q, *q, t, true).c_str());
                q->getStats();
            }
            exec(*q, o.c, h[i]); last = h[i].t;
        }
        compareLater(x, *ref, *q, end, "after asking at every instant");
    } else if (mode == 1) { // a single question of one kind
        size_t pos = (size_t)x.pick((int)h.size()); static const int K[][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {2, 2}, {3, 1}, {4, 0}}; int k = x.pick(x.thorough() ? 7 : 4); if (!x.thorough() && k == 3) k = 5 - (int)(pos % 2) * 2; int kind = K[k][0], when = K[k][1];
        for (size_t i = 0; i < h.size(); ++i) {
            exec(*q, o.c, h[i]);
            if (i == pos) { T64 nx = i + 1 < h.size() ? h[i + 1].t : h[i].t + 20; T64 t = when == 0 ? h[i].t : when == 1 ? (h[i].t + nx) / 2 : nx; x.log("question %d at t=%d", kind, (int)t); ask(*q, t, kind); }
        }
        compareLater(x, *ref, *q, pos + 1 < h.size() ? end : end + 20, "after one question");
    } else { // increasing questions after the end give the same answers as a single late one
        for (auto &s : h) exec(*q, o.c, s);
        for (T64 t = end; t < end + 24; ++t) { ask(*q, t, 4); ask(*q, t, (int)(t % 4)); x.step(); }
        Report a = report(*ref, end + 24, true);
        if (!(a == report(*q, end + 24, true))) x.fail("after asking at every later instant: at t=%d%s", (int)end + 24, diff(*ref, *q, end + 24, true).c_str());
        std::string s1, s2; x.state(mc::Hash().add((uint64_t)o.c.std).add(a.v.size()).add(std::accumulate(a.v.begin(), a.v.end(), 0ull, [](uint64_t p, uint64_t v) { return p * 31 + v; })));
    }
}

// Every history with a save after every command at which the device says it can be saved.
void saves(mc::Ctx &x, const Opt &o) {
    T64 end; auto h = draw(x, o, end);
    auto a = fresh(o); std::unique_ptr<Dev> chain = fresh(o);
    std::vector<std::pair<int, std::unique_ptr<Dev>>> copies;
    auto save = [&](Dev &d) { std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); d.serialize(s); return s.str(); };
    auto load = [&](const std::string &b) { auto d = fresh(o); std::stringstream s(b, std::ios::in | std::ios::binary); d->deserialize(s); if (!s || s.peek() != EOF) x.fail("restoring did not consume exactly what was saved"); return d; };
    int saved = 0;
    for (size_t i = 0; i <= h.size(); ++i) {
        T64 t = i ? h[i - 1].t : 0; // save point i: after command i
        if (i) { exec(*a, o.c, h[i - 1]); exec(*chain, o.c, h[i - 1]); for (auto &c : copies) exec(*c.second, o.c, h[i - 1]); }
        Report now;
        if (a->isSerializable()) {
            copies.emplace_back((int)i, load(save(*a))); ++saved; x.step(2);
        }
        now = report(*a, t, true);
        if (a->isSerializable() && chain->isSerializable()) chain = load(save(*chain));
        for (auto &c : copies) if (!(now == report(*c.second, t, true))) x.fail("restored after command %d: after command %d at t=%d%s", c.first, (int)i, (int)t, diff(*a, *c.second, t, true).c_str());
        if (!(now == report(*chain, t, true))) x.fail("saved and restored repeatedly: after command %d at t=%d%s", (int)i, (int)t, diff(*a, *chain, t, true).c_str());
    }
    for (T64 t : {end + 1, end + 5, end + 14, end + 60}) {
        Report now = report(*a, t, true);
        for (auto &c : copies) { x.step(); if (!(now == report(*c.second, t, true))) x.fail("restored after command %d: later at t=%d%s", c.first, (int)t, diff(*a, *c.second, t, true).c_str()); }
        if (!(now == report(*chain, t, true))) x.fail("saved and restored repeatedly: later at t=%d%s", (int)t, diff(*a, *chain, t, true).c_str());
    }
    if (!a->isSerializable()) x.fail("still cannot be saved %d cycles after the last command", 60);
    x.state(mc::Hash().add((uint64_t)o.c.std).add((uint64_t)saved).add((uint64_t)end));
}

// ---- components saved and restored on their own ---------------------------------------------------------
template <typename T> void copyState(mc::Ctx &x, const T &from, T &to) {
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); from.serialize(s); to.deserialize(s);
    if (!s || s.peek() != EOF) x.fail("restoring did not consume exactly what was saved");
    std::stringstream again(std::ios::in | std::ios::out | std::ios::binary); (void)again;
}
// Runs n operations on an original; a copy restored after operation k follows from there.
template <typename Mk, typename Op, typename Cmp> void lockstep(mc::Ctx &x, int n, Mk make, Op op, Cmp same) {
    auto a = make(); auto b = make(); bool have = false; decltype(op(0)) first; int at = x.pick(n);
    for (int i = 0; i < n; ++i) {
        auto f = op(i); if (i == 0) first = f; f(*a); if (have) f(*b);
        if (i == at) { if (x.flip()) { auto j = make(); first(*j); copyState(x, *a, *j); b = std::move(j); } else copyState(x, *a, *b); have = true; } // into a fresh and into a used object
        x.step(); if (have) same(*a, *b, i);
    }
    same(*a, *b, n);
}
std::vector<uint8_t> bytes(mc::Ctx &x, size_t n) { static const uint8_t P[4] = {0x00, 0xff, 0x2d, 0x81}; int k = x.pick(4); std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = k < 2 ? P[k] : (uint8_t)(P[k] << (i % 3)); return v; }
template <size_t N> void busSave(mc::Ctx &x, int width) {
    uint64_t dr = x.flip() ? 2 : 1; bool H = x.flip(), on = x.flip(); uint64_t now = 0; int depth = 3;
    lockstep(x, depth, [&] { return std::make_unique<util::Bus<N>>((size_t)width, dr, H ? util::BusIdlePatternSpec::H : util::BusIdlePatternSpec::L, on); },
        [&](int) -> std::function<void(util::Bus<N> &)> {
            int k = x.pick(3); uint64_t t = now; now += 3 + (uint64_t)x.pick(2);
            if (k == 1) return [t](util::Bus<N> &b) { b.disable(t); };
            if (k == 2) return [t](util::Bus<N> &b) { b.enable(t); };
            int beats = 1 + 2 * x.pick(2); auto d = bytes(x, (size_t)(beats * width + 7) / 8); x.log("t=%d load %d beats", (int)t, beats);
            return [t, d, beats, width](util::Bus<N> &b) { b.load(t, d.data(), (size_t)(beats * width)); };
        },
        [&](util::Bus<N> &a, util::Bus<N> &b, int i) { for (uint64_t t = now; t < now + (i == depth ? 3 : 1); ++t) if (!wv_eq(a.get_stats(t), b.get_stats(t))) x.fail("restored bus differs at t=%d after operation %d", (int)t, i); });
}
void dataBusSave(mc::Ctx &x) {
    static const std::vector<size_t> widths = {8, 128, 600, 1152}; const size_t width = x.oneof(widths), dr = 2; bool tog = x.flip(); uint64_t now = 0; const int depth = 3; using B = util::databus_presets::databus_preset_t;
    auto def = *togSim().toggleRateDefinition;
    lockstep(x, depth, [&] { util::DataBusConfig cfg{width, dr, def}; return std::make_unique<B>(util::databus_presets::getDataBusPreset(std::move(cfg), tog ? util::DataBusMode::TogglingRate : util::DataBusMode::Bus)); },
        [&](int) -> std::function<void(B &)> {
            int k = x.pick(5); uint64_t t = now; now += 3 + (uint64_t)x.pick(2);
            if (k == 2) return [t](B &b) { b.enableBus(t); };
            if (k == 3) return [t](B &b) { b.enableTogglingRate(t); };
            if (k == 4) { auto d2 = def; d2.togglingRateRead = 0.9; d2.dutyCycleWrite = 0.1; return [t, d2](B &b) { b.setTogglingRateDefinition(d2); }; }
            auto d = bytes(x, width * 4 / 8);
            return [t, d, k, width](B &b) { if (k) b.loadWrite(t, width * 4, d.data()); else b.loadRead(t, width * 4, d.data()); };
        },
        [&](B &a, B &b, int i) { for (uint64_t t = now; t < now + (i == depth ? 4 : 1); ++t) { util::bus_stats_t s[8]; a.get_stats(t, s[0], s[1], s[2], s[3]); b.get_stats(t, s[4], s[5], s[6], s[7]);
            for (int q = 0; q < 4; ++q) if (!wv_eq(s[q], s[q + 4])) x.fail("restored data bus differs at t=%d after operation %d (%s: %llu/%llu ones instead of %llu)", (int)t, i, q == 0 ? "read" : q == 1 ? "write" : "estimate", (unsigned long long)s[q + 4].ones, (unsigned long long)s[q + 4].zeroes, (unsigned long long)s[q].ones); }
            if (a.isBus() != b.isBus() || a.isTogglingRate() != b.isTogglingRate()) x.fail("restored data bus is in another mode"); });
}
void clockSave(mc::Ctx &x) {
    uint64_t dr = x.flip() ? 2 : 4; const bool init = x.flip(); bool run = init; uint64_t now = 0; const int depth = 4;
    lockstep(x, depth, [&] { return std::make_unique<util::Clock>(dr, !init); },
        [&](int) -> std::function<void(util::Clock &)> { uint64_t t = now; now += (uint64_t)x.pick(3); if (run) { run = false; return [t](util::Clock &c) { c.stop(t); }; } run = true; return [t](util::Clock &c) { c.start(t); }; },
        [&](util::Clock &a, util::Clock &b, int) { for (uint64_t t = now; t < now + 3; ++t) if (!wv_eq(a.get_stats_at(t), b.get_stats_at(t))) x.fail("restored clock differs at t=%d", (int)t); });
}
void pinSave(mc::Ctx &x) {
    using P = util::PinState; static const P L[3] = {P::L, P::H, P::Z}; P init = L[x.pick(3)], idle = L[x.pick(2)]; uint64_t now = 0; const int depth = 3; using Pin = util::Pin<16>;
    lockstep(x, depth, [&] { return std::make_unique<Pin>(init, idle); },
        [&](int) -> std::function<void(Pin &)> { uint64_t t = now; int beats = 1 + x.pick(2); now += (uint64_t)beats + (uint64_t)x.pick(2); int v = x.pick(4);
            return [=](Pin &p) { for (int b = 0; b < beats; ++b) p.set(t, (v >> b) & 1 ? P::H : P::L, 1); }; },
        [&](Pin &a, Pin &b, int) { for (uint64_t t = now / 2; t < now + 3; ++t) if (2 * t >= now && !wv_eq(a.get_stats_at(t, 2), b.get_stats_at(t, 2))) x.fail("restored pin differs at t=%d", (int)t); });
}
template <typename T, typename Alg> void dbiSave(mc::Ctx &x) {
    using namespace DRAMPower::util; using D = DBI<T, 1, PinState::L, Alg>; const int depth = 3; uint64_t now = 0; 
    struct Box { D d; std::vector<std::string> log; std::vector<T> out; bool given = false; Box(): d(std::optional<size_t>(8 * sizeof(T)), 4, [this](timestamp_t l, timestamp_t t, size_t i, bool inv, bool rd) { log.push_back(mc::fmt("%d/%d pin %d %d %s", (int)l, (int)t, (int)i, inv, rd ? "read" : "write")); }, true) {}
        void serialize(std::ostream &s) const { d.serialize(s); } void deserialize(std::istream &s) { d.deserialize(s); log = {"restored"}; } };
    static const T V[4] = {(T)0, (T)~(T)0, (T)0x1f1f1f1f1f1f1f1full, (T)0x8001800180018001ull};
    lockstep(x, depth, [&] { return std::make_unique<Box>(); },
        [&](int) -> std::function<void(Box &)> {
            if (x.flip()) { bool e = x.flip(); uint64_t t = now; (void)t; return [e](Box &b) { b.log.clear(); b.d.enable(e); b.given = false; b.out.clear(); }; }
            bool rd = x.flip(); uint64_t t = now; now += 2 + (uint64_t)x.pick(2); std::vector<T> in = {V[x.pick(4)], V[x.pick(4)]};
            return [=](Box &b) { b.log.clear(); auto r = b.d.updateDBI(t, in.size() * 8 * sizeof(T), in.data(), rd); b.given = (bool)r; b.out.clear(); if (r) b.out.assign(*r, *r + in.size()); };
        },
        [&](Box &a, Box &b, int i) {
            if (a.d.isEnabled() != b.d.isEnabled()) x.fail("restored inversion unit is %s", b.d.isEnabled() ? "on" : "off");
            if (i < depth && !(b.log.size() == 1 && b.log[0] == "restored") && (a.log != b.log || a.given != b.given || a.out != b.out)) x.fail("restored inversion unit: after operation %d: transmits %llx instead of %llx, or moves its pins differently", i, b.out.empty() ? 0ull : (unsigned long long)b.out[0], a.out.empty() ? 0ull : (unsigned long long)a.out[0]);
            if (i == depth) { a.log.clear(); b.log.clear(); a.d.dispatchResetCallback(now + 5); b.d.dispatchResetCallback(now + 5); if (a.log != b.log) x.fail("restored inversion unit rests its pins differently at the end"); }
        });
}
void patternSave(mc::Ctx &x) { // placeholders that repeat the bits sent last
    using namespace DRAMPower::pattern_descriptor; using PH = PatternHandler<CmdType>; const int depth = 3;
    lockstep(x, depth, [&] { auto h = std::make_unique<PH>(PatternEncoderOverrides{{V, PatternEncoderBitSpec::LAST_BIT}, {X, x.bfs ? PatternEncoderBitSpec::L : PatternEncoderBitSpec::H}}, 0b1010101010ull);
            h->registerPattern<CmdType::ACT>({V, BA0, X, V, R0, V}); h->registerPattern<CmdType::PRE>({BA0, V, V, X, pattern_descriptor::H, V}); return h; },
        [&](int) -> std::function<void(PH &)> { int k = x.pick(3); bool b = x.flip(); (void)b; return [k, b](PH &h) { TargetCoordinate t; t.bank = b; t.row = !b; if (k == 2) h.getEncoder().settings.updateSettings({{X, PatternEncoderBitSpec::L}}); else h.getCommandPattern(k ? CmdType::PRE : CmdType::ACT, t); }; },
        [&](PH &a, PH &b, int i) { if (i < depth) return; TargetCoordinate t; for (auto c : {CmdType::ACT, CmdType::PRE}) { auto p = a.getCommandPattern(c, t), q = b.getCommandPattern(c, t); if (p != q) x.fail("restored pattern handler encodes %llx instead of %llx", (unsigned long long)q, (unsigned long long)p); } });
}

void reg() {
    mc::dfs("S01", "bus", "a parallel bus of 3, 64 and 70 lines: all sequences of 3 loads and switches, saved after any of them into a fresh or a used bus", [](mc::Ctx &x) { switch (x.pick(3)) { case 0: busSave<8>(x, 3); break; case 1: busSave<64>(x, 64); break; default: busSave<128>(x, 70); } });
    mc::dfs("S01", "data bus", "the two-direction data bus: all sequences of 3 loads, mode switches and definition changes", dataBusSave);
    mc::dfs("S01", "clock", "all sequences of 4 starts and stops", clockSave);
    mc::dfs("S01", "pin", "all sequences of 3 bursts on a pin", pinSave);
    mc::dfs("S01", "inversion unit", "all sequences of 3 bursts and switches, both policies, units of 8 and 16 bits", [](mc::Ctx &x) { using namespace DRAMPower::util; switch (x.pick(3)) { case 0: dbiSave<uint8_t, StaticDBI>(x); break; case 1: dbiSave<uint8_t, DynamicDBI<4>>(x); break; default: dbiSave<uint16_t, DynamicDBI<8>>(x); } });
    mc::dfs("S01", "pattern handler", "all sequences of 3 encodings and setting changes with placeholders repeating the last bits", patternSave);
    for (Std s : kAll) {
        std::string n = kStdName[s];
        auto two = [&](const char *prop, const char *name, const char *note, std::function<void(mc::Ctx &, Opt &)> setup, void (*run)(mc::Ctx &, const Opt &)) {
            mc::dfs(prop, n + " " + name, note, [=](mc::Ctx &x) { Opt o; o.c = cfg(s, 1); setup(x, o); run(x, o); });
        };
        for (bool q : {true, false}) {
            const char *P = q ? "C08" : "S01"; auto run = q ? questions : saves;
            two(P, "commands", "all legal sequences of 3 (thorough: 4) commands of the standard's alphabet, spacings 4 and 13, starting empty", [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); o.pays = {2}; o.depth = x.thorough() ? 4 : 3; }, run);
            two(P, "open rows", "two rows open, then all legal sequences of 2 (thorough: 3) commands", [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); o.open = true; o.pays = {2}; if (x.thorough()) o.dts = {4, 7, 13}; o.depth = x.thorough() ? 3 : 2; }, run);
            two(P, "ranks", "two ranks, all sequences of 2 (thorough: 3) commands after two activates", [=](mc::Ctx &x, Opt &o) { o.c = cfg(s, 2); o.ops = deviceAlphabet(s, 2); o.open = true; o.pays = {2}; o.depth = x.thorough() ? 3 : 2; }, run);
            two(P, "every bank", "devices of full size: every bank with another one (thorough: every pair): both rows open, then all legal commands (thorough: pairs)", [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); elsewhere(x, o); o.open = true; o.pays = {2}; o.depth = x.thorough() ? 2 : 1; }, run);
            two(P, "late", "two open rows, all legal sequences of 2 commands and feature switches later than 2^33 cycles, both data modes", [=](mc::Ctx &x, Opt &o) { o.tog = x.flip(); o.ops = deviceAlphabet(s, 1); o.open = true; o.pays = {2}; if (s != S5) o.ext = {Ext::dbiOn}; if (s == L6) o.ext.push_back(Ext::meta); o.depth = 2; o.late = (1ll << 33) + 7; }, run);
            two(P, "data", "open rows, all sequences of 3 (thorough: 4) reads and writes with three payloads and inversion switched on or off anywhere", [=](mc::Ctx &x, Opt &o) {
                o.open = true; o.ops = dataAlphabet(); o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = x.thorough() ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 2}; o.depth = x.thorough() ? 4 : 3;
                if (s != S5) o.ext = {Ext::dbiOn, Ext::dbiOff}; if (s == L6) o.ext.push_back(Ext::meta); if (s == L6) o.depth--; }, run);
            two(P, "burst lengths", "open rows, all sequences of 2 (thorough: 3) accesses of every burst length, both data modes, inversion switched on or off anywhere", [=](mc::Ctx &x, Opt &o) {
                o.tog = x.flip(); o.open = true; o.ops = dataAlphabet(); o.ops.resize(2); o.lens = burstLengths(s); o.dts = {burst(o.c, o.lens.back()) + 1}; o.pays = o.tog ? std::vector<int>{-1, 2} : std::vector<int>{1, 2}; o.depth = x.thorough() ? 3 : 2; if (s != S5) o.ext = {Ext::dbiOn, Ext::dbiOff}; }, run);
            two(P, "estimate", "as data, in toggling-rate mode, with and without payload", [=](mc::Ctx &x, Opt &o) {
                o.open = true; o.ops = dataAlphabet(); o.ops.resize(3); o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = {-1, 2}; o.tog = true; o.depth = x.thorough() ? 4 : 3; if (s == L6) o.depth--; }, run);
            if (s == L6) two(P, "switches", "open rows, write clock always on: all sequences of 3 (thorough: 4) accesses, metadata, command parity, and the interface switched off and on", [=](mc::Ctx &x, Opt &o) {
                o.c.wckAlwaysOn = true; o.open = true; o.ops = dataAlphabet(); o.ops.resize(2); o.dts = {burst(o.c) + 3}; o.pays = {0, 2}; o.depth = x.thorough() ? 4 : 3; o.ext = {Ext::dbiOn, Ext::meta, Ext::parity, Ext::off, Ext::on}; }, run);
        }
    }
    mc::assume("C08", "Legal histories; commands at least 4 cycles apart and bursts not overlapping; no question later than the next command.");
    mc::assume("S01", "Legal histories; saved only when the device reports that it can be saved; restored into a device built from the same configuration.");
}
MC_REGISTER(reg);
} // namespace
