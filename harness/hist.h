// Histories of complete devices: commands with payload, feature switches, and everything a device reports.
#ifndef VERIF_HIST_H
#define VERIF_HIST_H
#include "model.h"
#include <sstream>
#include <map>
#include <cstring>
namespace hist {
using namespace mdl;
using DRAMPower::Command;

// ---- everything a device reports, as a flat list of named numbers ------------------------------------
struct Report {
    std::vector<uint64_t> v;
    std::vector<std::string> n; bool named = false;
    void u(const char *name, uint64_t x) { v.push_back(x); if (named) n.push_back(pre + name); }
    void d(const char *name, double x) { uint64_t b; std::memcpy(&b, &x, 8); u(name, b); }
    std::string pre;
    bool operator==(const Report &o) const { return v == o.v; }
};
inline void put(Report &r, const char *name, const DRAMPower::util::bus_stats_t &s) {
    std::string save = r.pre; if (r.named) r.pre += std::string(name) + ".";
    r.u("ones", s.ones); r.u("zeroes", s.zeroes); r.u("changes", s.bit_changes); r.u("o2z", s.ones_to_zeroes); r.u("z2o", s.zeroes_to_ones); r.pre = save;
}
inline void put(Report &r, const CycleStats &c) {
    auto &k = c.counter; r.u("act", k.act); r.u("pre", k.pre); r.u("reads", k.reads); r.u("writes", k.writes); r.u("refA", k.refAllBank); r.u("refB", k.refPerBank); r.u("ref2", k.refPerTwoBanks);
    r.u("refD", k.refDualBanks); r.u("refS", k.refSameBank); r.u("rdA", k.readAuto); r.u("wrA", k.writeAuto);
    auto &y = c.cycles; r.u("cyc.act", y.act); r.u("cyc.pre", y.pre); r.u("cyc.pda", y.powerDownAct); r.u("cyc.pdp", y.powerDownPre); r.u("cyc.sref", y.selfRefresh); r.u("cyc.dsm", y.deepSleepMode);
    auto &p = c.prepos; r.u("rdMerged", p.readMerged); r.u("rdMergedT", p.readMergedTime); r.u("wrMerged", p.writeMerged); r.u("wrMergedT", p.writeMergedTime); r.u("rdSeamless", p.readSeamless); r.u("wrSeamless", p.writeSeamless);
}
inline void put(Report &r, const SimulationStats &s) {
    for (size_t i = 0; i < s.bank.size(); ++i) { if (r.named) r.pre = mc::fmt("bank[%d].", (int)i); put(r, s.bank[i]); }
    for (size_t i = 0; i < s.rank_total.size(); ++i) { if (r.named) r.pre = mc::fmt("rank[%d].", (int)i); put(r, s.rank_total[i]); }
    r.pre.clear();
    put(r, "commandBus", s.commandBus); put(r, "readBus", s.readBus); put(r, "writeBus", s.writeBus); put(r, "clock", s.clockStats); put(r, "wClock", s.wClockStats);
    put(r, "readDQS", s.readDQSStats); put(r, "writeDQS", s.writeDQSStats); put(r, "tog.read", s.togglingStats.read); put(r, "tog.write", s.togglingStats.write);
    put(r, "readDBI", s.readDBI); put(r, "writeDBI", s.writeDBI);
}
inline void put(Report &r, const energy_t &e) {
    for (size_t i = 0; i < e.bank_energy.size(); ++i) {
        if (r.named) r.pre = mc::fmt("E.bank[%d].", (int)i);
        auto &b = e.bank_energy[i]; r.d("total", b.total());
    }
    r.pre.clear(); r.d("E.act_shared", e.E_bg_act_shared); r.d("E.PDNA", e.E_PDNA); r.d("E.PDNP", e.E_PDNP); r.d("E.sref", e.E_sref); r.d("E.dsm", e.E_dsm); r.d("E.refab", e.E_refab);
}
inline void put(Report &r, const interface_energy_info_t &e) {
    r.d("I.c.dyn", e.controller.dynamicEnergy); r.d("I.c.stat", e.controller.staticEnergy); r.d("I.d.dyn", e.dram.dynamicEnergy); r.d("I.d.stat", e.dram.staticEnergy);
}
inline Report report(Dev &d, T64 t, bool energy, bool named = false, bool ext = true) {
    Report r; r.named = named; r.u("lastCommand", d.getLastCommandTime());   // before any question of this report
    put(r, d.getWindowStats((timestamp_t)t));
    if (energy) { put(r, d.calcCoreEnergy((timestamp_t)t)); put(r, d.calcInterfaceEnergy((timestamp_t)t)); r.d("E.total", d.getTotalEnergy((timestamp_t)t)); }
    if (!ext) return r;
    if (auto e = d.getExtensionManager().getExtension<extensions::DBI>().lock()) r.u("ext.dbi", e->isEnabled());
    if (auto e = d.getExtensionManager().getExtension<extensions::MetaData>().lock()) { auto [a, b] = e->getMetaData(); r.u("ext.meta1", a); r.u("ext.meta2", b); }
    return r;
}
inline std::string diff(Dev &a, Dev &b, T64 t, bool energy, bool ext = true) {
    Report x = report(a, t, energy, true, ext), y = report(b, t, energy, true, ext); std::string s; int k = 0;
    if (x.v.size() != y.v.size()) return mc::fmt("%d entries instead of %d", (int)y.v.size(), (int)x.v.size());
    for (size_t i = 0; i < x.v.size() && k < 6; ++i) if (x.v[i] != y.v[i]) { ++k; s += mc::fmt("%s %s: %lld instead of %lld", k > 1 ? "," : "", x.n[i].c_str(), (long long)y.v[i], (long long)x.v[i]); }
    return s;
}

// ---- steps ---------------------------------------------------------------------------------------------
enum class Ext { none, dbiOn, dbiOff, meta, off, on, parity };   // off, on, parity: LPDDR6 interface switched off, on, command parity on
struct Step { Op o{CmdType::NOP}; T64 t = 0; Ext e = Ext::none; int pay = -1; uint64_t len = 0; }; // len: beats, 0: the device's own
using Buf = std::vector<uint8_t>;
inline size_t payBits(const Cfg &c, uint64_t len = 0) { if (!len) len = c.BL; return c.std == L6 ? len / 24 * 256 : len * c.width * c.devices; }
inline const Buf &payload(const Cfg &c, int kind, uint64_t len = 0) { // stays valid; 0 zeros, 1 ones, 2 mostly costly in odd bytes, 3 ramp
    static std::map<std::pair<size_t, int>, Buf> m; const size_t bits = payBits(c, len); auto &b = m[{bits, kind}];
    if (b.empty()) { b.resize((bits + 7) / 8); for (size_t i = 0; i < b.size(); ++i) b[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? (i % 2 ? 0xfd : 0x10) : (uint8_t)(i * 37 + 5); }
    return b;
}
inline bool isRead(CmdType t) { return t == CmdType::RD || t == CmdType::RDA; }
inline bool isData(CmdType t) { return isRead(t) || t == CmdType::WR || t == CmdType::WRA; }
inline Command command(const Cfg &c, const Step &s) {
    TargetCoordinate tc; tc.bank = (size_t)s.o.bank; tc.rank = (size_t)s.o.rank; tc.bankGroup = c.groups ? (size_t)s.o.bank / (c.banks / c.groups) : 0;
    tc.row = 0x155; tc.column = 0x2a8;
    Command k((timestamp_t)s.t, s.o.t, tc);
    if (isData(s.o.t) && s.pay >= 0) k.data = payload(c, s.pay, s.len).data();
    if (isData(s.o.t) && (s.pay >= 0 || s.len)) k.sz_bits = payBits(c, s.len);
    return k;
}
inline void exec(Dev &d, const Cfg &c, const Step &s) {
    if (s.e == Ext::dbiOn || s.e == Ext::dbiOff) { if (auto e = d.getExtensionManager().getExtension<extensions::DBI>().lock()) e->enable((timestamp_t)s.t, s.e == Ext::dbiOn); return; }
    if (s.e == Ext::meta) { if (auto e = d.getExtensionManager().getExtension<extensions::MetaData>().lock()) e->setMetaData(0x8421, 0x7e01); return; }
    if (s.e == Ext::off) { static_cast<LPDDR6 &>(d).getInterface().disable((timestamp_t)s.t); return; }
    if (s.e == Ext::on) { static_cast<LPDDR6 &>(d).getInterface().enable((timestamp_t)s.t); return; }
    if (s.e == Ext::parity) { static_cast<LPDDR6 &>(d).getInterface().setParityCheckMode(true); return; }
    if (s.o.t != CmdType::NOP) d.doCommand(command(c, s));
}
inline std::string show(const Step &s) {
    if (s.e != Ext::none) return mc::fmt("t=%d %s", (int)s.t, s.e == Ext::dbiOn ? "inversion on" : s.e == Ext::dbiOff ? "inversion off" : s.e == Ext::meta ? "metadata" : s.e == Ext::off ? "interface off" : s.e == Ext::on ? "interface on" : "parity on");
    return mc::fmt("t=%d %s%s", (int)s.t, mdl::show(s.o).c_str(), isData(s.o.t) ? mc::fmt(s.len ? " payload %d of %d beats" : " payload %d", s.pay, (int)s.len).c_str() : "");
}
inline Cfg cfg(Std s, uint64_t ranks) { // timings long enough for implied commands to stay pending over several commands
    Cfg c = base(s); c.ranks = ranks; c.tRAS = 12; c.tRCD = 6; c.tRCDw = 7; c.tRP = 5; c.RTP = 4; c.WL = 3; c.WR = 6; c.RFC = 15; c.RFCs = 11; c.RFC2 = 17; c.RFC4 = 13; return c;
}
inline T64 burst(const Cfg &c, uint64_t len = 0) { if (!len) len = c.BL; return (T64)((len + c.DR - 1) / c.DR); }
inline std::vector<uint64_t> burstLengths(Std s) { switch (s) { case S4: return {8, 4}; case S5: return {16, 8, 32}; case L4: case L5: return {16, 32}; default: return {24, 48}; } }
inline config::SimConfig togSim() {
    config::SimConfig s; DRAMUtils::Config::ToggleRateDefinition t; t.togglingRateRead = 0.4; t.togglingRateWrite = 0.7; t.dutyCycleRead = 0.3; t.dutyCycleWrite = 0.6;
    t.idlePatternRead = DRAMUtils::Config::TogglingRateIdlePattern::H; t.idlePatternWrite = DRAMUtils::Config::TogglingRateIdlePattern::L; s.toggleRateDefinition = t; return s;
}
struct Opt { Cfg c; Alphabet ops; std::vector<Ext> ext; std::vector<int> pays{0, 2}; std::vector<uint64_t> lens{0}; std::vector<T64> dts{4, 13}; bool tog = false; int depth = 3; bool open = false; T64 late = 0; int b0 = 0, b1 = 1; };

// Draws a legal history: commands at least 4 cycles apart (the longest command), bursts not overlapping.
inline std::vector<Step> draw(mc::Ctx &x, const Opt &o, T64 &end) {
    std::vector<Step> h; Model m(o.c); T64 free = 0, now = 0;
    auto place = [&](const Op &op, int pay, uint64_t len = 0) { m.apply(op); Step s; s.o = op; s.t = now; s.pay = pay; s.len = len; h.push_back(s); if (isData(op.t)) free = now + std::max(burst(o.c), burst(o.c, len)); };
    if (o.open) { place({CmdType::ACT, 0, o.b0}, -1); now = 4; m.advance(now); place({CmdType::ACT, 0, o.b1}, -1); }
    for (int i = 0; i < o.depth; ++i) {
        T64 dt = x.oneof(o.dts); now = h.empty() ? dt - o.dts[0] : now + dt; m.advance(now);
        std::vector<int> can; for (size_t k = 0; k < o.ops.size(); ++k) { auto &op = o.ops[k]; if (m.legal(op) && (!isData(op.t) || now >= free)) can.push_back((int)k); }
        if (can.empty() && o.ext.empty()) break;
        int k = x.pick((int)(can.size() + o.ext.size()));
        if (k >= (int)can.size()) { Step s; s.t = now; s.e = o.ext[(size_t)k - can.size()]; h.push_back(s); }
        else { const Op op = o.ops[(size_t)can[(size_t)k]]; const int pay = isData(op.t) ? x.oneof(o.pays) : -1; place(op, pay, isData(op.t) ? x.oneof(o.lens) : 0); }
        x.log("%s", show(h.back()).c_str());
    }
    if (o.late) { for (auto &s : h) s.t += o.late; now += o.late; x.log("all of it %lld cycles later", (long long)o.late); }
    end = now; return h;
}
inline Alphabet deviceAlphabet(Std s, int ranks) {
    Alphabet a; per(a, {C::ACT, C::RDA, C::WRA}, {0, 1}, 1); per(a, {C::RD, C::WR, C::PRE}, {0}, 1); rankOps(a, {C::PREA, C::REFA, C::PDEA, C::PDXA, C::PDEP, C::PDXP, C::SREFEN, C::SREFEX}, 1);
    if (s == S5) { a.push_back({C::REFSB, 0, 0}); a.push_back({C::PRESB, 0, 1}); }
    if (s == L4) a.push_back({C::REFB, 0, 0});
    if (s == L5) { a.push_back({C::REFB, 0, 1}); a.push_back({C::REFP2B, 0, 0}); rankOps(a, {C::DSMEN, C::DSMEX}, 1); }
    if (s == L6) a.push_back({C::REFDB, 0, 0, 8});
    if (ranks > 1) { a.push_back({C::ACT, 1, 0}); a.push_back({C::RDA, 1, 0}); a.push_back({C::PDEA, 1, 0}); }
    return a;
}
// The same on two other banks of a device of full size.
inline void elsewhere(mc::Ctx &x, Opt &o) {
    const Std s = o.c.std; o.c.banks = s == S5 ? 32 : s == L4 ? 8 : 16; o.c.groups = s == S5 ? 8 : s == L4 ? 1 : 4; const int N = (int)o.c.banks;
    o.b0 = x.pick(N); o.b1 = x.thorough() ? (o.b0 + 1 + x.pick(N - 1)) % N : o.b0 ^ (o.b0 % 2 ? N / 2 : 1);
    for (auto &k : o.ops) { if (k.t == C::REFDB) { k.bank = o.b0; k.dbank = (o.b0 + 8) % 16; } else k.bank = k.bank ? o.b1 : o.b0; }
}
inline Alphabet dataAlphabet() { Alphabet a; per(a, {C::RD, C::WR, C::RDA}, {0}, 1); a.push_back({C::WR, 0, 1}); return a; }
} // namespace hist
#endif
