// Commands to ranks and banks that do not exist (C09); devices side by side (S02).
#include "hist.h"
namespace {
using namespace hist;

// ---- C09 -------------------------------------------------------------------------------------------------
struct Kind { CmdType t; bool bank; };
std::vector<Kind> kinds(Std s) {
    std::vector<Kind> v; for (auto t : {C::ACT, C::PRE, C::RD, C::WR, C::RDA, C::WRA}) v.push_back({t, true});
    for (auto t : {C::PREA, C::REFA, C::SREFEN, C::SREFEX, C::PDEA, C::PDEP, C::PDXA, C::PDXP}) v.push_back({t, false});
    if (s == S5) { v.push_back({C::REFSB, true}); v.push_back({C::PRESB, true}); }
    if (s == L4 || s == L5) v.push_back({C::REFB, true});
    if (s == L5) { v.push_back({C::REFP2B, true}); v.push_back({C::DSMEN, false}); v.push_back({C::DSMEX, false}); }
    if (s == L6) v.push_back({C::REFDB, true});
    return v;
}
void address(mc::Ctx &x, Std s) {
    Cfg c = cfg(s, 1 + (uint64_t)x.pick(2)); const bool tog = x.flip();
    if (s == L5 && x.flip()) { c.banks = 8; c.groups = 1; }   // a two-bank refresh has no second bank
    Opt o; o.c = c; o.tog = tog; auto mk = [&] { return make(c, tog ? togSim() : config::SimConfig{}); };
    auto k = x.oneof(kinds(s)); const size_t R = c.ranks, B = c.banks; const size_t rank = x.oneof(std::vector<size_t>{0, R - 1, R, R + 1, R + 6, (size_t)1 << 40, ~(size_t)0}), bank = x.oneof(std::vector<size_t>{0, B - 1, B, B + 1, 4 * B, (size_t)1 << 40, ~(size_t)0});
    bool bad = rank >= R || (k.bank && bank >= B); size_t second = (bank + 8) % 16;
    if (k.t == C::REFDB) { second = x.oneof(std::vector<size_t>{0, B - 1, B, ~(size_t)0}); bad = bad || second >= B; }
    if (k.t == C::REFP2B) bad = bad || second >= B;
    if (!bad) x.reject();
    // where in the history, and in which state, the command arrives
    Alphabet ops; per(ops, {C::ACT, C::RDA, C::WR}, {0, 1}, 1); rankOps(ops, {C::PREA, C::REFA, C::PDEA, C::PDXA, C::PDEP, C::PDXP, C::SREFEN}, 1);
    o.ops = ops; o.open = true; o.dts = {4}; o.pays = {2}; o.depth = x.thorough() ? 2 : 1; T64 end; auto h = draw(x, o, end); const int at = x.pick((int)h.size() + 1);
    auto d = mk(), ref = mk(); T64 t = 0;
    for (int i = 0; i <= (int)h.size(); ++i) {
        if (i == at) {
            TargetCoordinate tc; tc.bank = bank; tc.rank = rank; tc.bankGroup = 0; tc.row = 1; tc.column = 8; Command cmd((timestamp_t)(i ? h[(size_t)i - 1].t + 2 : 0), k.t, tc);
            if (isData(k.t) && !tog) { cmd.data = payload(c, 2).data(); cmd.sz_bits = payBits(c); }
            bool threw = false; x.step(); x.log("t=%d %s rank %zu bank %zu: must be rejected", (int)cmd.timestamp, CmdTypeUtil::to_string(k.t), rank, bank);
            try { if (k.t == C::REFDB) { LPDDR6TargetCoordinate l(tc); l.dbank = second; static_cast<LPDDR6 &>(*d).getCore().doCommand(LPDDR6Command(cmd.timestamp, k.t, l)); } else d->doCommand(cmd); } catch (const std::exception &) { threw = true; }
            if (!threw) x.fail("%s: %s for rank %zu, bank %zu%s is executed although the memory has %zu ranks of %zu banks", kStdName[s], CmdTypeUtil::to_string(k.t), rank, bank, k.t == C::REFDB ? mc::fmt(" and %zu", second).c_str() : "", R, B);
        }
        if (i < (int)h.size()) { t = h[(size_t)i].t; exec(*d, c, h[(size_t)i]); exec(*ref, c, h[(size_t)i]); x.step(); }
    }
    for (auto later : {t + 2, t + 9, t + 60}) { x.step(2); SimulationStats a = ref->getWindowStats((timestamp_t)later), b = d->getWindowStats((timestamp_t)later); Report ra, rb; put(ra, a); put(rb, b);
        if (!(ra == rb)) x.fail("%s: a rejected %s (rank %zu, bank %zu) changes the statistics at t=%d:%s", kStdName[s], CmdTypeUtil::to_string(k.t), rank, bank, (int)later, [&] { auto p = report(*ref, later, false, true), q = report(*d, later, false, true); std::string m; for (size_t i = 0; i < p.v.size(); ++i) if (p.v[i] != q.v[i] && m.size() < 300 && p.n[i] != "lastCommand") m += mc::fmt(" %s %lld instead of %lld", p.n[i].c_str(), (long long)q.v[i], (long long)p.v[i]); return m; }().c_str()); }
}

// ---- S02 -------------------------------------------------------------------------------------------------
// The second device: a short fixed history, its lifetime and its steps interleaved with the first one in every possible way.
std::vector<Step> other(Std s, int kind) {
    auto mk = [](CmdType t, int bank, T64 at, int pay = -1) { Step k; k.o = {t, 0, bank}; k.t = at; k.pay = pay; return k; };
    Step on; on.e = Ext::dbiOn; on.t = 12;
    switch (kind) {
        case 0: { std::vector<Step> v = {mk(C::ACT, 1, 1), mk(C::WR, 1, 40, 3), mk(C::RDA, 1, 80, 1)}; return v; }
        case 1: { std::vector<Step> v = {mk(C::REFA, 0, 2), mk(C::ACT, 0, 45), mk(C::PRE, 0, 70)}; return v; }
        default: { Step m; m.e = s == L6 ? Ext::meta : Ext::none; m.t = 13; std::vector<Step> v = {on, mk(C::ACT, 0, 14), mk(C::WRA, 0, 50, 2)}; if (s == L6) v.insert(v.begin() + 1, m); return v; }
    }
}
void beside(mc::Ctx &x, Std s) {
    Opt o; o.c = cfg(s, 1); o.ops = deviceAlphabet(s, 1); o.open = true; o.pays = {2}; o.dts = {13}; o.depth = x.thorough() ? 2 : 1; o.tog = x.flip(); if (s != S5 && !o.tog) o.ext = {Ext::dbiOn};
    const Std s2 = x.flip() ? s : x.oneof(kAll); Cfg c2 = cfg(s2, 1); c2.tRAS += 3; c2.RFC += 9; const bool tog2 = x.flip(); T64 end; auto h = draw(x, o, end); auto g = other(s2, x.pick(3));
    auto sim1 = o.tog ? togSim() : config::SimConfig{}, sim2 = tog2 ? togSim() : config::SimConfig{};
    auto a1 = make(o.c, sim1); for (auto &k : h) exec(*a1, o.c, k); Report want = report(*a1, end + 60, true);
    Report want2; { auto b1 = make(c2, sim2); for (auto &k : g) exec(*b1, c2, k); want2 = report(*b1, g.back().t + 60, true); }
    // interleave: the second device is created, used and destroyed between the steps of the first
    std::unique_ptr<Dev> a, b; size_t i = 0, j = 0; bool made = false; const bool drop = x.flip();
    while (i < h.size() + 1 || j < g.size() + 1) {
        bool first = j > g.size() ? true : i > h.size() ? false : x.flip(); x.step();
        if (first) { if (i == 0) a = make(o.c, sim1); else exec(*a, o.c, h[i - 1]); ++i; }
        else { if (j == 0) { b = make(c2, sim2); made = true; } else exec(*b, c2, g[j - 1]); ++j; if (j > g.size()) { if (!(want2 == report(*b, g.back().t + 60, true))) x.fail("%s beside %s: the second device reports other results", kStdName[s], kStdName[s2]); if (drop) b.reset(); } }
    }
    (void)made; auto fin = report(*a, end + 60, true);
    if (!(want == fin)) x.fail("%s beside %s: the results differ:%s", kStdName[s], kStdName[s2], diff(*a1, *a, end + 60, true).c_str());
}

// ---- copies -------------------------------------------------------------------------------------------
const char *const kWays[] = {"copy made, original kept", "copy made, original driven differently", "copy made, original destroyed", "copy assigned over a used device", "copy assigned over a used device, original driven differently",
    "moved into a new device", "moved over a used device", "original of a copy that is driven differently", "copied over itself", "moved after every command"};
// Known findings: the callbacks of the inversion unit and of the extensions keep pointing to the device that was copied.
// Only entries such a callback can reach may differ, and only in those histories; anything else is another violation.
void differs(mc::Ctx &x, const Opt &o, Dev &ref, Dev &d, T64 t, bool ext, bool inverting, bool switched, const std::string &where) {
    auto r = report(ref, t, true, true, ext), g = report(d, t, true, true, ext); if (r == g) return;
    auto has = [](const std::string &n, const char *p) { return n.rfind(p, 0) == 0; }; bool lines = inverting, all = switched;
    for (size_t i = 0; i < r.v.size(); ++i) if (r.v[i] != g.v[i]) { auto &n = r.n[i]; bool e = has(n, "I.") || n == "E.total", inv = has(n, "readDBI") || has(n, "writeDBI"), bus = has(n, "readBus") || has(n, "writeBus") || has(n, "ext."); lines = lines && (e || inv); all = all && (e || inv || bus); }
    const std::string m = mc::fmt("%s: %s: at t=%d%s", kStdName[o.c.std], where.c_str(), (int)t, diff(ref, d, t, true, ext).c_str()), s = kStdName[o.c.std];
    if (all) x.fail_sig("copied " + s + ": extension switched after the copy", "%s", m.c_str()); else if (lines) x.fail_sig("copied " + s + ": inversion lines", "%s", m.c_str()); else x.fail("%s", m.c_str());
}
template <typename D, typename M> void copiesOf(mc::Ctx &x, const Opt &o, const M &ms, const M &otherMs, bool inv) {
    auto sim = o.tog ? togSim() : config::SimConfig{}; T64 end = 0; auto h = draw(x, o, end); const int at = x.pick((int)h.size() + 1), way = inv ? x.oneof(std::vector<int>{0, 3, 7, 8}) : x.pick(10);
    auto fresh = [&] { return std::make_unique<D>(ms, sim); }; auto ref = fresh(), d = fresh(); std::unique_ptr<D> side; std::vector<std::unique_ptr<D>> kept;
    auto used = [&] { auto u = std::make_unique<D>(otherMs, config::SimConfig{}); Step k; k.o = {C::ACT, 0, 1}; k.t = 1; exec(*u, o.c, k); k.o = {C::WR, 0, 1}; k.t = 30; k.pay = 1; exec(*u, o.c, k); k.o = {C::REFA, 0, 0}; return u; };
    auto harass = [&](T64 t) { if (!side) return; for (auto k : {C::ACT, C::WRA}) for (int b = 0; b < (k == C::ACT ? 2 : 1); ++b) { TargetCoordinate tc; tc.bank = (size_t)b; Command c((timestamp_t)t, k, tc); if (isData(k)) { c.data = payload(o.c, 1).data(); c.sz_bits = payBits(o.c); } side->doCoreCommand(c); } side->getWindowStats((timestamp_t)t); };
    x.log("%s after command %d", kWays[way], at); const bool taken = way == 0 || way == 3; bool on = false, late = false;
    for (int i = 0; i <= (int)h.size(); ++i) {
        if (i == at) switch (way) {
            case 0: case 2: { auto n = std::make_unique<D>(*d); if (way == 0) kept.push_back(std::move(d)); d = std::move(n); break; }
            case 1: { auto n = std::make_unique<D>(*d); side = std::move(d); d = std::move(n); break; }
            case 3: case 4: { auto u = used(); *u = *d; if (way == 4) side = std::move(d); else kept.push_back(std::move(d)); d = std::move(u); break; }
            case 5: { auto n = std::make_unique<D>(std::move(*d)); d = std::move(n); break; }
            case 6: { auto u = used(); *u = std::move(*d); d = std::move(u); break; }
            case 7: side = std::make_unique<D>(*d); break;
            case 8: { D &same = *d; *d = same; break; }
            default: break;
        }
        if (way == 9) d = std::make_unique<D>(std::move(*d));
        if (i < (int)h.size()) { if (h[(size_t)i].e != Ext::none) { on = true; late = late || i >= at; } exec(*ref, o.c, h[(size_t)i]); exec(*d, o.c, h[(size_t)i]); if (i >= at && !inv) harass(h[(size_t)i].t); x.step(2); }
        if (i < at) continue;
        const T64 t = i ? h[(size_t)i - (i == (int)h.size())].t : 0; auto r = report(*ref, t, true, false, inv), g = report(*d, t, true, false, inv); x.state(mc::Hash().add((int)o.c.std).add(way).add(i).add((uint64_t)t));
        if (!(r == g)) { differs(x, o, *ref, *d, t, inv, taken && on, taken && late, mc::fmt("%s after command %d: after command %d", kWays[way], at, i)); return; }
    }
    for (T64 t : {end + 2, end + 9, end + 60}) { x.step(); harass(t); if (!(report(*ref, t, true, false, inv) == report(*d, t, true, false, inv))) { differs(x, o, *ref, *d, t, inv, taken && on, taken && late, mc::fmt("%s after command %d", kWays[way], at)); return; } }
}
void copies(mc::Ctx &x, Opt o, bool inv = false) {
    Cfg v = o.c; v.tRAS += 3; v.RFC += 9; v.ranks = 1;
    switch (o.c.std) {
        case S4: copiesOf<DDR4>(x, o, MemSpecDDR4(spec4(o.c)), MemSpecDDR4(spec4(v)), inv); break;
        case S5: copiesOf<DDR5>(x, o, MemSpecDDR5(spec5(o.c)), MemSpecDDR5(spec5(v)), inv); break;
        case L4: copiesOf<LPDDR4>(x, o, MemSpecLPDDR4(specL4(o.c)), MemSpecLPDDR4(specL4(v)), inv); break;
        case L5: copiesOf<LPDDR5>(x, o, MemSpecLPDDR5(specL5(o.c)), MemSpecLPDDR5(specL5(v)), inv); break;
        default: copiesOf<LPDDR6>(x, o, MemSpecLPDDR6(specL6(o.c)), MemSpecLPDDR6(specL6(v)), inv);
    }
}

// ---- core and interface driven on their own -----------------------------------------------------------------
// Every order in which the commands of a history can reach the core and the interface of one device.
void apart(mc::Ctx &x, Opt o) {
    auto sim = o.tog ? togSim() : config::SimConfig{}; T64 end = 0; auto h = draw(x, o, end); auto ref = make(o.c, sim), d = make(o.c, sim); const bool one = x.pick(2); // one: a second device whose parts see only their own commands
    for (auto &k : h) exec(*ref, o.c, k);
    size_t i = 0, j = 0; std::unique_ptr<Dev> core, bus; if (one) { core = make(o.c, sim); bus = make(o.c, sim); }
    while (i < h.size() || j < h.size()) {
        const bool toCore = i < h.size() && (j == h.size() || (one ? i <= j : x.flip())); const Step &k = toCore ? h[i] : h[j]; x.step(); x.log("%s: %s", toCore ? "core" : "interface", show(k).c_str());
        if (toCore) { ++i; if (k.e == Ext::none) (one ? core : d)->doCoreCommand(command(o.c, k)); }
        else { ++j; if (k.e == Ext::none) (one ? bus : d)->doInterfaceCommand(command(o.c, k)); else exec(one ? *bus : *d, o.c, k); }
        if (i == j) x.state(mc::Hash().add((int)o.c.std).add((int)i).add(one));
        T64 tc = 0, ti = 0; for (size_t k = 0; k < i; ++k) if (h[k].e == Ext::none) tc = h[k].t; for (size_t k = 0; k < j; ++k) if (h[k].e == Ext::none) ti = h[k].t;
        auto last = [&](Dev &v, T64 want, const char *what) { if ((T64)v.getLastCommandTime() != want) x.fail("%s: %s: the last command was at %d, reported as %d", kStdName[o.c.std], what, (int)want, (int)v.getLastCommandTime()); };
        if (one) { last(*core, tc, "core alone"); last(*bus, ti, "interface alone"); } else last(*d, std::max(tc, ti), "core and interface driven separately");
    }
    for (T64 t : {end, end + 1, end + 5, end + 60}) {
        x.step();
        if (!one) { if (!(report(*ref, t, true) == report(*d, t, true))) x.fail("%s: core and interface driven separately: at t=%d%s", kStdName[o.c.std], (int)t, diff(*ref, *d, t, true).c_str()); continue; }
        SimulationStats r = ref->getWindowStats((timestamp_t)t), c = core->getWindowStats((timestamp_t)t), b = bus->getWindowStats((timestamp_t)t); Report rr, g; put(rr, r);
        std::vector<CycleStats> bank = c.bank, total = c.rank_total; // merged strobe statistics are the interface's
        for (size_t k = 0; k < bank.size(); ++k) bank[k].prepos = b.bank[k].prepos; for (size_t k = 0; k < total.size(); ++k) total[k].prepos = b.rank_total[k].prepos;
        b.bank = bank; b.rank_total = total; put(g, b); if (!(rr == g)) x.fail("%s: at t=%d a device whose core alone (interface alone) executed the commands reports other bank (line) statistics", kStdName[o.c.std], (int)t);
    }
}
void reg() {
    for (Std s : kAll) {
        mc::dfs("C09", kStdName[s], "every command of the standard with every combination of existing and missing ranks and banks (just beyond, far beyond, the largest value), at every position of every short history with 1 or 2 ranks, payloads and toggling rates", [s](mc::Ctx &x) { address(x, s); });
        mc::dfs("S02", kStdName[s], "every short history of one device, every interleaving of its steps with the creation, three histories and the destruction of a second device of every standard", [s](mc::Ctx &x) { beside(x, s); });
        mc::dfs("S03", std::string(kStdName[s]) + " commands", "all legal sequences of 2 (thorough: 3) commands from two open rows on two ranks, both data modes; after any of them the device is copied, assigned or moved in ten ways and the other device is used, changed or destroyed", [s](mc::Ctx &x) { Opt o; o.c = cfg(s, 2); o.ops = deviceAlphabet(s, 2); o.open = true; o.pays = {2}; o.depth = x.thorough() ? 3 : 2; o.tog = x.flip(); copies(x, o); });
        mc::dfs("S03", std::string(kStdName[s]) + " data", "all sequences of 2 (thorough: 3) accesses with two payloads, close and far apart, likewise", [s](mc::Ctx &x) { Opt o; o.c = cfg(s, 1); o.ops = dataAlphabet(); o.open = true; o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = {1, 2}; o.depth = x.thorough() ? 3 : 2; copies(x, o); });
        if (s != S5) mc::dfs("S03", std::string(kStdName[s]) + " inversion", "as data with inversion switched on or off anywhere", [s](mc::Ctx &x) { Opt o; o.c = cfg(s, 1); o.ops = dataAlphabet(); o.ops.resize(2); o.open = true; o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = {1, 2}; o.depth = 2; o.ext = {Ext::dbiOn}; copies(x, o, true); });
        mc::dfs("S04", std::string(kStdName[s]) + " commands", "all legal sequences of 2 (thorough: 3) commands from two open rows on two ranks; every order in which these commands can reach core and interface, and devices that execute only one half", [s](mc::Ctx &x) { Opt o; o.c = cfg(s, 2); o.ops = deviceAlphabet(s, 2); o.open = true; o.pays = {2}; o.dts = x.thorough() ? std::vector<T64>{7} : std::vector<T64>{4, 13}; o.depth = x.thorough() ? 3 : 2; apart(x, o); });
        mc::dfs("S04", std::string(kStdName[s]) + " data", "all sequences of 2 accesses and inversion switches, close and far apart, with and without payload, both data modes, likewise", [s](mc::Ctx &x) { Opt o; o.c = cfg(s, 1); o.ops = dataAlphabet(); o.open = true; o.dts = {burst(o.c), burst(o.c) + 3}; o.tog = x.flip(); o.pays = o.tog ? std::vector<int>{-1} : std::vector<int>{1, 2}; if (s != S5 && !o.tog) o.ext = {Ext::dbiOn}; o.depth = 2; apart(x, o); });
    }
    mc::assume("C09", "the bank group and row fields are not checked by the library and not varied; a rejected command may still move the time of the last command");
    mc::assume("S03", "Extensions are used and asked only on copies whose original still exists: the known findings make a moved device, or a copy that outlives its original, call into freed memory.");
    mc::assume("S02", "devices are used from one thread");
}
MC_REGISTER(reg);
} // namespace
