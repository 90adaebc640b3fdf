// Energy: core formulas (E01), interface formulas (E02), totals and reports (E03), parameter derivation (E04).
// The reference below is derived from the raw memory specification only; it shares nothing with the device's own
// parameter classes or calculations.
#include "hist.h"
#include <cmath>
#include <iostream>
namespace {
using namespace hist;
using json = nlohmann::json;

// ---- reference parameters, straight from the raw specification ------------------------------------------
struct Dom { double V, I0, I2N, I3N, I4R, I4W, I5, I5s, I6, I2P, I3P, I6DS, beta; };
struct Line { bool on = false; double R = 1, E = 0; };
struct Par {
    Std s; uint64_t B, G, R, D, W, rows, cols, BL, DR, RAS, RCD, RCDw, RP, RTP, WL, WR, AL = 0, RFC, RFCs = 0, REFI = 0, WCK2CK = 1, caRate, dqsRate, dqRate; double tCK, vddq, rho = 1;
    uint64_t offRD, offWR, burst; bool mbg = false, wckOn = false; std::vector<Dom> dom;
    Line ck, wck, ca, rdq, wdq, rdqs, wdqs, rdbi, wdbi; double preR0 = 0, preW0 = 0, preR1 = 0, preW1 = 0; uint64_t preR01 = 0, preW01 = 0, preR10 = 0, preW10 = 0, ccdR = 0, ccdW = 0;
    double sigma = 1; bool pasr = false; uint64_t pasrMode = 0; uint64_t specBanks, specGroups;
};
template <typename M> void common(Par &p, const M &m) {
    auto &a = m.memarchitecturespec; p.B = p.specBanks = a.nbrOfBanks; p.G = p.specGroups = a.nbrOfBankGroups; p.R = a.nbrOfRanks; p.D = a.nbrOfDevices < 1 ? 1 : a.nbrOfDevices; p.W = a.width;
    p.rows = a.nbrOfRows; p.cols = a.nbrOfColumns; p.BL = a.burstLength; p.DR = a.dataRate;
    auto &t = m.memtimingspec; p.tCK = t.tCK; p.RAS = t.RAS; p.WL = t.WL; p.WR = t.WR; p.vddq = m.mempowerspec.vddq;
    if (m.bankwisespec && m.bankwisespec->factRho) p.rho = *m.bankwisespec->factRho;
    auto &i = m.memimpedancespec;
    p.ck = {i.ck_termination, i.ck_R_eq, i.ck_dyn_E}; p.ca = {i.ca_termination, i.ca_R_eq, i.ca_dyn_E}; p.rdq = {i.rdq_termination, i.rdq_R_eq, i.rdq_dyn_E};
    p.wdq = {i.wdq_termination, i.wdq_R_eq, i.wdq_dyn_E}; p.rdqs = {i.rdqs_termination, i.rdqs_R_eq, i.rdqs_dyn_E};
    p.caRate = p.s >= L5 ? 2 : 1; p.dqsRate = p.dqRate = p.DR; p.burst = p.DR ? p.BL / p.DR : 0;
}
#define WDQS(p, i) p.wdqs = {i.wdqs_termination, i.wdqs_R_eq, i.wdqs_dyn_E}
#define DBIL(p, i) p.wdbi = {i.wdbi_termination, i.wdbi_R_eq, i.wdbi_dyn_E}; p.rdbi = {i.rdbi_termination, i.rdbi_R_eq, i.rdbi_dyn_E}
#define WCKL(p, i) p.wck = {i.wck_termination, i.wck_R_eq, i.wck_dyn_E}
Par par(const DRAMUtils::MemSpec::MemSpecDDR4 &m) {
    Par p; p.s = S4; common(p, m); auto &t = m.memtimingspec; auto &q = m.mempowerspec; auto &i = m.memimpedancespec; WDQS(p, i); DBIL(p, i); p.vddq = q.vddq;
    p.RCD = p.RCDw = t.RCD; p.RTP = t.RTP; p.RP = t.RP; p.AL = t.AL;
    using RM = DRAMUtils::MemSpec::RefModeTypeDDR4; auto rm = m.memarchitecturespec.RefMode; int k = rm == RM::REF_MODE_2 ? 1 : rm == RM::REF_MODE_4 ? 2 : 0;
    p.RFC = k == 1 ? t.RFC2 : k == 2 ? t.RFC4 : t.RFC1;
    double b5[] = {q.idd5B, q.idd5F2, q.idd5F4}, p5[] = {q.ipp5B, q.ipp5F2, q.ipp5F4};
    p.dom = {{q.vdd, q.idd0, q.idd2n, q.idd3n, q.idd4r, q.idd4w, b5[k], 0, q.idd6n, q.idd2p, q.idd3p, 0, q.iBeta_vdd.value_or(q.idd0)},
             {q.vpp, q.ipp0, q.ipp2n, q.ipp3n, q.ipp4r, q.ipp4w, p5[k], 0, q.ipp6n, q.ipp2p, q.ipp3p, 0, q.iBeta_vpp.value_or(q.ipp0)}};
    p.offRD = p.AL + p.RTP; p.offWR = p.WL + p.burst + p.WR;
    auto &z = m.prepostamble; p.preR0 = z.read_zeroes; p.preW0 = z.write_zeroes; p.preR1 = z.read_ones; p.preW1 = z.write_ones; p.preR01 = z.read_zeroes_to_ones; p.preW01 = z.write_zeroes_to_ones;
    p.preR10 = z.read_ones_to_zeroes; p.preW10 = z.write_ones_to_zeroes; p.ccdR = z.readMinTccd; p.ccdW = z.writeMinTccd; return p;
}
Par par(const DRAMUtils::MemSpec::MemSpecDDR5 &m) {
    Par p; p.s = S5; common(p, m); auto &t = m.memtimingspec; auto &q = m.mempowerspec; auto &i = m.memimpedancespec; WDQS(p, i);
    p.RCD = p.RCDw = t.RCD; p.RTP = t.RTP; p.RP = t.RP; p.RFCs = t.RFCsb_slr;
    bool f = m.memarchitecturespec.RefMode == DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_2; p.RFC = f ? t.RFC2_slr : t.RFC1_slr;
    p.dom = {{q.vdd, q.idd0, q.idd2n, q.idd3n, q.idd4r, q.idd4w, f ? q.idd5f : q.idd5b, q.idd5c, q.idd6n, q.idd2p, q.idd3p, 0, q.iBeta_vdd.value_or(q.idd0)},
             {q.vpp, q.ipp0, q.ipp2n, q.ipp3n, q.ipp4r, q.ipp4w, f ? q.ipp5f : q.ipp5b, q.ipp5c, q.ipp6n, q.ipp2p, q.ipp3p, 0, q.iBeta_vpp.value_or(q.ipp0)}};
    p.offRD = p.RTP; p.offWR = p.WL + p.burst + p.WR; auto &d = m.dataratespec; p.caRate = d ? d->ca_bus_rate : 2; p.dqRate = d ? d->dq_bus_rate : 2; p.dqsRate = d ? d->dqs_bus_rate : 2; return p;
}
Par par(const DRAMUtils::MemSpec::MemSpecLPDDR4 &m) {
    Par p; p.s = L4; common(p, m); auto &t = m.memtimingspec; auto &q = m.mempowerspec; auto &i = m.memimpedancespec; WDQS(p, i); DBIL(p, i);
    p.RCD = p.RCDw = t.RCD; p.RTP = t.RTP; p.RP = t.RPpb; p.RFCs = t.RFCpb; p.RFC = t.RFCab; p.REFI = t.REFI;
    p.dom = {{q.vdd1, q.idd01, q.idd2n1, q.idd3n1, q.idd4r1, q.idd4w1, q.idd51, q.idd5pb1, q.idd61, q.idd2p1, q.idd3p1, 0, q.iBeta_vdd1.value_or(q.idd01)},
             {q.vdd2, q.idd02, q.idd2n2, q.idd3n2, q.idd4r2, q.idd4w2, q.idd52, q.idd5pb2, q.idd62, q.idd2p2, q.idd3p2, 0, q.iBeta_vdd2.value_or(q.idd02)}};
    p.offRD = p.BL == 16 ? p.RTP : 8 + p.RTP; p.offWR = p.WL + p.BL / 2 + p.WR + 1;
    if (m.bankwisespec) { auto &b = *m.bankwisespec; p.sigma = b.factSigma.value_or(1); p.pasr = b.hasPASR.value_or(false);
        p.pasrMode = b.pasrMode && *b.pasrMode != DRAMUtils::MemSpec::pasrModesType::Invalid ? (uint64_t)*b.pasrMode : 0; }
    return p;
}
#define DOM(v, S, pb) {q.v, q.idd0##S, q.idd2n##S, q.idd3n##S, q.idd4r##S, q.idd4w##S, q.idd5##S, q.pb##S, q.idd6##S, q.idd2p##S, q.idd3p##S, q.idd6ds##S, q.iBeta_##v.value_or(q.idd0##S)}
template <typename M> void lp56(Par &p, const M &m) {
    auto &t = m.memtimingspec; WCKL(p, m.memimpedancespec); p.WCK2CK = t.WCK2CK; p.RTP = t.RBTP; p.RP = t.RPpb; p.RFC = t.RFCab; p.REFI = t.REFI; p.wckOn = m.memarchitecturespec.WCKalwaysOn;
    p.burst = p.BL / (p.DR * p.WCK2CK); p.offRD = p.burst + p.RTP; p.offWR = p.WL + p.burst + 1 + p.WR;
}
Par par(const DRAMUtils::MemSpec::MemSpecLPDDR5 &m) {
    Par p; p.s = L5; common(p, m); lp56(p, m); auto &t = m.memtimingspec; auto &q = m.mempowerspec; auto &i = m.memimpedancespec; DBIL(p, i); p.RCD = p.RCDw = t.RCD_S; p.RFCs = t.RFCpb;
    p.dom = {DOM(vdd1, 1, idd5pb), DOM(vdd2h, 2h, idd5pb), DOM(vdd2l, 2l, idd5pb)};
    bool ok = (p.B == 16 && (p.G <= 1 || p.G == 4)) || (p.B == 8 && p.G <= 1); if (!ok) { p.B = 16; p.G = 1; } p.mbg = p.G == 4; return p;
}
Par par(const DRAMUtils::MemSpec::MemSpecLPDDR6 &m) {
    Par p; p.s = L6; common(p, m); lp56(p, m); auto &t = m.memtimingspec; auto &q = m.mempowerspec; p.RCD = t.RCD_r; p.RCDw = t.RCD_w; p.RFCs = t.RFCdb;
    p.dom = {DOM(vdd1, 1, idd5pdb), DOM(vdd2c, 2c, idd5pdb), DOM(vdd2d, 2d, idd5pdb)}; return p;
}

// ---- reference core energy -----------------------------------------------------------------------------
enum { E_ACT, E_PRE, E_BGA, E_BGP, E_RD, E_WR, E_RDA, E_WRA, E_PRDA, E_PWRA, E_RAB, E_RPB, E_RSB, E_R2B, E_RDB, E_N };
const char *const kE[E_N] = {"ACT", "PRE", "BG_ACT", "BG_PRE", "RD", "WR", "RDA", "WRA", "PRE_RDA", "PRE_WRA", "REF_AB", "REF_PB", "REF_SB", "REF_2B", "REF_DB"};
struct Core { std::vector<std::array<double, E_N>> bank; double shared = 0, pdna = 0, pdnp = 0, sref = 0, dsm = 0, refab = 0; };
std::array<double, E_N> flat(const energy_info_t &e) {
    return {e.E_act, e.E_pre, e.E_bg_act, e.E_bg_pre, e.E_RD, e.E_WR, e.E_RDA, e.E_WRA, e.E_pre_RDA, e.E_pre_WRA, e.E_ref_AB, e.E_ref_PB, e.E_ref_SB, e.E_ref_2B, e.E_ref_DB};
}
Core coreRef(const Par &p, const SimulationStats &st) {
    Core c; c.bank.resize(p.B * p.R * p.D); for (auto &b : c.bank) b.fill(0);
    bool lp = isLP(p.s); double T = p.tCK, tRAS = p.RAS * T, tRP = p.RP * T, tRFC = p.RFC * T, tRFCs = p.RFCs * T, B = (double)p.B;
    double tBurst = (double)p.BL / (double)p.DR * (p.s >= L5 ? T / p.WCK2CK : T);
    for (auto &d : p.dom) {
        double Irho, I1, IB;
        if (lp) { I1 = d.I3N; Irho = (B * p.rho * I1 + (1 - p.rho) * d.I2N) / (B * p.rho + 1 - p.rho); IB = Irho + B * (I1 - Irho); }
        else { IB = d.I3N; Irho = p.rho * (IB - d.I2N) + d.I2N; I1 = (IB + (B - 1) * Irho) / B; }
        double I2 = Irho + 2 * (I1 - Irho), IBG = Irho + (double)p.G * (I1 - Irho);
        double Iacc = p.s <= S5 ? IB : p.s == L4 ? I1 : p.s == L6 || p.mbg ? I2 : I1; // background while other banks of the access are open
        double Ith = (d.I0 * (tRAS + tRP) - d.beta * tRP) / tRAS;
        double refi8 = p.REFI * T / 8, Ips = lp ? (d.I5s * refi8 - d.I2N * (refi8 - tRFCs)) / tRFCs : d.I5s;
        for (uint64_t r = 0; r < p.R; ++r) {
            auto &k = st.rank_total[r].cycles; double D = (double)p.D;
            c.shared += d.V * Irho * k.act * T * D; c.pdna += d.V * d.I3P * k.powerDownAct * T * D; c.pdnp += d.V * d.I2P * k.powerDownPre * T * D; c.sref += d.V * d.I6 * k.selfRefresh * T * D;
            if (p.s >= L5) c.dsm += d.V * d.I6DS * k.deepSleepMode * T * D;
            for (uint64_t dv = 0; dv < p.D; ++dv) for (uint64_t b = 0; b < p.B; ++b) {
                auto &n = st.bank[r * p.B + b].counter; auto &y = st.bank[r * p.B + b].cycles; auto &e = c.bank[(r * p.D + dv) * p.B + b];
                double ePre = d.V * (d.beta - d.I2N) * tRP;
                e[E_ACT] += d.V * (Ith - I1) * tRAS * n.act; e[E_PRE] += ePre * n.pre; e[E_PRDA] += ePre * n.readAuto; e[E_PWRA] += ePre * n.writeAuto;
                e[E_BGA] += d.V * (I1 - Irho) * y.act * T; e[E_BGP] += d.V * d.I2N * k.pre * T / B;
                double rd = d.V * (d.I4R - Iacc) * tBurst, wr = d.V * (d.I4W - Iacc) * tBurst;
                e[E_RD] += rd * n.reads; e[E_RDA] += rd * n.readAuto; e[E_WR] += wr * n.writes; e[E_WRA] += wr * n.writeAuto;
                e[E_RAB] += d.V * (d.I5 - IB) * tRFC * n.refAllBank / B;
                if (p.s == S5) e[E_RSB] += d.V * (d.I5s - IBG) * tRFCs * n.refSameBank / (double)p.G;
                if (p.s == L4 || p.s == L5) e[E_RPB] += d.V * (Ips - I1) * tRFCs * n.refPerBank;
                if (p.s == L5) e[E_R2B] += 0.5 * d.V * (Ips - I2) * tRFCs * n.refPerTwoBanks;
                if (p.s == L6) e[E_RDB] += 0.5 * d.V * (Ips - I2) * tRFCs * n.refDualBanks;
            }
        }
    }
    return c;
}
// ---- reference interface energy --------------------------------------------------------------------------
struct Ifc { double cs = 0, cd = 0, ds = 0, dd = 0; };
Ifc ifcRef(const Par &p, const SimulationStats &s, bool fromBanks) {
    Ifc e; bool lp = isLP(p.s);
    auto add = [&](double &st, double &dy, const util::bus_stats_t &b, const Line &l, double t) { if (l.on) st += p.vddq * p.vddq / l.R * t * (double)(lp ? b.ones : b.zeroes); dy += l.E * (double)b.zeroes_to_ones; };
    auto ctl = [&](const util::bus_stats_t &b, const Line &l, double t) { add(e.cs, e.cd, b, l, t); };
    auto drm = [&](const util::bus_stats_t &b, const Line &l, double t) { add(e.ds, e.dd, b, l, t); };
    double T = p.tCK, q = T / (double)p.DR;
    ctl(s.clockStats, p.ck, T / 2); ctl(s.commandBus, p.ca, T / (double)(p.s >= L5 ? 2 : 1));
    if (p.s >= L5) ctl(s.wClockStats, p.wck, T / (double)p.WCK2CK / 2);
    ctl(s.writeBus, p.wdq, q); drm(s.readBus, p.rdq, q); ctl(s.togglingStats.write, p.wdq, q); drm(s.togglingStats.read, p.rdq, q);
    double dq = T / (double)(p.s == S5 ? p.dqsRate : p.DR); drm(s.readDQSStats, p.rdqs, dq); if (p.s <= L4) ctl(s.writeDQSStats, p.wdqs, dq);
    if (p.s == S4 || p.s == L4 || p.s == L5) { drm(s.readDBI, p.rdbi, q); ctl(s.writeDBI, p.wdbi, q); }
    if (p.s == S4) {
        double rd = 0, wr = 0, pairs = p.W == 16 ? 2 : 1;
        for (auto &b : s.bank) { rd += (double)(b.counter.reads + b.counter.readAuto); wr += (double)(b.counter.writes + b.counter.writeAuto); }
        for (auto &r : s.rank_total) { rd -= (double)r.prepos.readSeamless; wr -= (double)r.prepos.writeSeamless; }
        if (p.rdqs.on) { e.ds += p.vddq * p.vddq / p.rdqs.R * T * p.preR0 * pairs * rd; e.dd += p.rdqs.E * (double)p.preR01 * pairs * rd; }
        if (p.wdqs.on) { e.cs += p.vddq * p.vddq / p.wdqs.R * T * p.preW0 * pairs * wr; e.cd += p.wdqs.E * (double)p.preW01 * pairs * wr; }
    }
    return e;
}
// scale: sum of the magnitudes the value was computed from (differences of large energies cancel)
bool close(double a, double b, double scale = 0) { double m = std::max({std::fabs(a), std::fabs(b), scale * 1e-3}); return a == b || std::fabs(a - b) <= 1e-9 * m; }

struct Unit { Cfg c; Par p; std::shared_ptr<Dev> d; };
template <typename F> void tweak(Cfg &c, DRAMUtils::MemSpec::MemSpecDDR4 *, F) {}
// A device built from a specification that `edit` may change; the reference parameters come from the same specification.
template <typename F> Unit unit(const Cfg &c, F edit, const config::SimConfig &sim = {}) {
    Unit u; u.c = c;
    auto go = [&](auto m, auto mk) { edit(m); u.p = par(m); u.d = mk(m); };
    switch (c.std) {
        case S4: go(spec4(c), [&](auto &m) { return std::make_shared<DDR4>(MemSpecDDR4(m), sim); }); break;
        case S5: go(spec5(c), [&](auto &m) { return std::make_shared<DDR5>(MemSpecDDR5(m), sim); }); break;
        case L4: go(specL4(c), [&](auto &m) { return std::make_shared<LPDDR4>(MemSpecLPDDR4(m), sim); }); break;
        case L5: go(specL5(c), [&](auto &m) { return std::make_shared<LPDDR5>(MemSpecLPDDR5(m), sim); }); break;
        default: go(specL6(c), [&](auto &m) { return std::make_shared<LPDDR6>(MemSpecLPDDR6(m), sim); }); break;
    }
    return u;
}
struct NoEdit { template <typename M> void operator()(M &) const {} };

std::vector<Cfg> shapes(Std s, bool thorough) {
    std::vector<Cfg> v; auto put = [&](uint64_t B, uint64_t G, uint64_t R, uint64_t D, uint64_t BL, uint64_t DR, int vary, int mode, double rho, double tCK, uint64_t wck) {
        Cfg c; c.std = s; c.banks = B; c.groups = G; c.ranks = R; c.devices = D; c.BL = BL; c.DR = DR; c.vary = vary; c.refmode = mode; c.haveRho = rho >= 0; c.rho = rho; c.tCK = tCK; c.WCK2CK = wck;
        c.tRAS = 33; c.tRP = 13; c.RFC = 210; c.RFC2 = 160; c.RFC4 = 120; c.RFCs = 90; c.REFI = 3900; c.width = s == L6 ? 12 : 8; v.push_back(c); };
    uint64_t b1 = s == L5 ? 16 : 4, g1 = s == L5 ? 4 : 2, BL = s == L6 ? 24 : 16;
    put(b1, g1, 1, 1, BL, 2, 0, 1, -1, 1.0, 2); put(b1, g1, 2, 2, BL, 2, 1, 2, 0.5, 0.625, 4); put(s == L5 ? 8 : 8, s == L5 ? 1 : 4, 2, 1, s == L6 ? 48 : 8, 2, 2, 4, 0.0, 1.25, 2);
    put(16, s == L5 ? 1 : 4, 1, 3, BL, s >= L5 ? 4 : 2, 3, 1, 0.8, 0.75, 4); put(s == L5 ? 16 : 2, 1, 3, 1, s == L6 ? 24 : 32, 1, 5, 2, 1.0, 1.0, 1);
    if (thorough) { put(16, 4, 2, 2, BL, 2, 7, 1, 0.25, 0.4, 4); put(s == L5 ? 16 : 32, s == L5 ? 4 : 8, 1, 1, s == L6 ? 48 : 16, 2, 4, 4, 0.6, 2.0, 2); put(16, 1, 4, 1, BL, 2, 6, 2, -1, 1.0, 2); }
    return v;
}
SimulationStats zero(const Par &p) { SimulationStats s; s.bank.resize(p.B * p.R); s.rank_total.resize(p.R); return s; }
uint64_t *counterField(command_stats_t &c, int i) { uint64_t *f[] = {&c.act, &c.pre, &c.reads, &c.writes, &c.refAllBank, &c.refPerBank, &c.refPerTwoBanks, &c.refDualBanks, &c.refSameBank, &c.readAuto, &c.writeAuto}; return f[i]; }
uint64_t *cycleField(cycles_t &c, int i) { uint64_t *f[] = {&c.act, &c.pre, &c.powerDownAct, &c.powerDownPre, &c.selfRefresh, &c.deepSleepMode}; return f[i]; }
const char *const kStat[] = {"act", "pre", "reads", "writes", "refAllBank", "refPerBank", "refPerTwoBanks", "refDualBanks", "refSameBank", "readAuto", "writeAuto",
    "cycles.act", "cycles.pre", "cycles.powerDownAct", "cycles.powerDownPre", "cycles.selfRefresh", "cycles.deepSleepMode"};
uint64_t *statField(CycleStats &c, int i) { return i < 11 ? counterField(c.counter, i) : cycleField(c.cycles, i - 11); }

void compareCore(mc::Ctx &x, const Par &p, const energy_t &e, const SimulationStats &st, const char *what) {
    Core r = coreRef(p, st); x.step();
    if (e.bank_energy.size() != r.bank.size()) x.fail("%s: %d bank entries instead of %d (banks %d, devices %d, ranks %d)", what, (int)e.bank_energy.size(), (int)r.bank.size(), (int)p.B, (int)p.D, (int)p.R);
    double sc = 0; for (auto &b : r.bank) for (double v : b) sc = std::max(sc, std::fabs(v));
    for (size_t i = 0; i < r.bank.size(); ++i) { auto f = flat(e.bank_energy[i]); for (int k = 0; k < E_N; ++k) if (!close(f[k], r.bank[i][k]))
        x.fail("%s: entry %d (rank %d device %d bank %d) %s energy %.12g instead of %.12g", what, (int)i, (int)(i / p.B / p.D), (int)(i / p.B % p.D), (int)(i % p.B), kE[k], f[k], r.bank[i][k]); }
    auto one = [&](const char *n, double got, double want) { if (!close(got, want)) x.fail("%s: %s energy %.12g instead of %.12g", what, n, got, want); };
    one("shared active background", e.E_bg_act_shared, r.shared); one("active power-down", e.E_PDNA, r.pdna); one("precharge power-down", e.E_PDNP, r.pdnp); one("self-refresh", e.E_sref, r.sref);
    one("deep sleep", e.E_dsm, r.dsm); one("rank-level refresh", e.E_refab, r.refab);
}
void compareIfc(mc::Ctx &x, const Par &p, const interface_energy_info_t &e, const SimulationStats &st, const char *what) {
    Ifc r = ifcRef(p, st, true); x.step();
    auto one = [&](const char *n, double got, double want) { if (!close(got, want)) x.fail("%s: %s energy %.12g instead of %.12g", what, n, got, want); };
    one("controller static", e.controller.staticEnergy, r.cs); one("controller dynamic", e.controller.dynamicEnergy, r.cd); one("DRAM static", e.dram.staticEnergy, r.ds); one("DRAM dynamic", e.dram.dynamicEnergy, r.dd);
}
uint64_t hashCore(const energy_t &e) { mc::Hash h; for (auto &b : e.bank_energy) for (double v : flat(b)) { uint64_t u; std::memcpy(&u, &v, 8); h.add(u); } double d = e.total(); uint64_t u; std::memcpy(&u, &d, 8); return h.add(u); }

// One or two statistics switched on, everything else zero.
void basis(mc::Ctx &x, Std s, int n) {
    auto sh = shapes(s, x.thorough()); size_t ci = (size_t)x.pick((int)sh.size()); Unit u = unit(sh[ci], NoEdit{}); const Par &p = u.p; auto st = zero(p);
    std::string w = std::string(kStdName[s]);
    static const uint64_t vals[] = {1, 7, 1000003};
    for (int k = 0; k < n; ++k) {
        std::vector<int> pos; size_t nb = st.bank.size(); // banks: first, second, last of first rank, first and last of last rank
        for (size_t b : {(size_t)0, (size_t)1, (size_t)p.B - 1, (size_t)(p.R - 1) * p.B, nb - 1}) if (std::find(pos.begin(), pos.end(), (int)b) == pos.end()) pos.push_back((int)b);
        if (n > 1 && !x.thorough()) pos.resize(2);
        int where = x.pick((int)(pos.size() + p.R)), f = x.pick(17); uint64_t v = vals[n > 1 ? k : x.pick(3)];
        CycleStats &c = where < (int)pos.size() ? st.bank[(size_t)pos[(size_t)where]] : st.rank_total[(size_t)where - pos.size()];
        *statField(c, f) += v;
        w += where < (int)pos.size() ? mc::fmt(", bank entry %d %s=%d", pos[(size_t)where], kStat[f], (int)v) : mc::fmt(", rank %d %s=%d", (int)(where - pos.size()), kStat[f], (int)v);
    }
    x.log("%s (%s)", w.c_str(), u.c.str().c_str());
    auto e = u.d->calcCoreEnergyStats(st); compareCore(x, p, e, st, w.c_str()); x.state(hashCore(e));
}
// Interface: each line group's each statistic alone and in pairs, every termination switch.
util::bus_stats_t *line(SimulationStats &s, int i) { util::bus_stats_t *f[] = {&s.commandBus, &s.readBus, &s.writeBus, &s.clockStats, &s.wClockStats, &s.readDBI, &s.writeDBI, &s.togglingStats.read, &s.togglingStats.write, &s.readDQSStats, &s.writeDQSStats}; return f[i]; }
const char *const kLine[] = {"commandBus", "readBus", "writeBus", "clock", "wClock", "readDBI", "writeDBI", "toggling read", "toggling write", "readDQS", "writeDQS"};
const char *const kBus[] = {"ones", "zeroes", "changes", "ones to zeroes", "zeroes to ones"};
uint64_t *busField(util::bus_stats_t &b, int i) { uint64_t *f[] = {&b.ones, &b.zeroes, &b.bit_changes, &b.ones_to_zeroes, &b.zeroes_to_ones}; return f[i]; }
// termination: 0 all on, 1 all off, 2+k only k on, 11+k all but k on
struct Term { int t; int w = 8; template <typename M> void operator()(M &m) const {
    json j; to_json(j, m.memimpedancespec); int k = 0; for (auto &[key, v] : j.items()) if (v.is_boolean()) { v = t == 0 ? true : t == 1 ? false : t < 11 ? k == t - 2 : k != t - 11; ++k; }
    from_json(j, m.memimpedancespec); m.memarchitecturespec.width = (uint64_t)w; } };
int terms(Std s) { Cfg c; c.std = s; json j; switch (s) { case S4: to_json(j, spec4(c).memimpedancespec); break; case S5: to_json(j, spec5(c).memimpedancespec); break; case L4: to_json(j, specL4(c).memimpedancespec); break; case L5: to_json(j, specL5(c).memimpedancespec); break; default: to_json(j, specL6(c).memimpedancespec); }
    int k = 0; for (auto &[key, v] : j.items()) k += v.is_boolean(); return k; }
void ifcBasis(mc::Ctx &x, Std s, int n) {
    auto sh = shapes(s, x.thorough()); size_t ci = (size_t)x.pick((int)sh.size()); int nt = terms(s), t = 0;
    if (n == 1) { t = x.pick(2 + 2 * nt); if (t >= 2 + nt) t = 11 + (t - 2 - nt); } else t = x.pick(2);
    static const int wd[] = {8, 4, 16}; Term tm{t, s == L6 ? 12 : s == S4 ? wd[x.pick(3)] : 8};
    Unit u = unit(sh[ci], tm); auto st = zero(u.p); std::string w = mc::fmt("%s termination setting %d", kStdName[s], t); static const uint64_t vals[] = {1, 5, 1000003};
    for (int k = 0; k < n; ++k) { int l = x.pick(11), f = x.pick(5); uint64_t v = n > 1 ? vals[k] : vals[x.pick(3)]; *busField(*line(st, l), f) += v; w += mc::fmt(", %s %s=%d", kLine[l], kBus[f], (int)v); }
    x.log("%s (%s)", w.c_str(), u.c.str().c_str());
    compareIfc(x, u.p, u.d->calcInterfaceEnergyStats(st), st, w.c_str()); x.state(mc::Hash().adds(w).add(ci));
}
// DDR4 pre- and postambles: accesses and seamless accesses per rank, every termination setting, width 4/8/16; elsewhere counters must not matter.
void ifcPrepost(mc::Ctx &x, Std s) {
    auto sh = shapes(s, false); size_t ci = (size_t)x.pick((int)sh.size()); static const int wd[] = {4, 8, 16}; int t = x.pick(4); int tset[] = {0, 1, 2 + 5, 11 + 5};
    Term tm{tset[t], s == L6 ? 12 : wd[x.pick(3)]}; Unit u = unit(sh[ci], tm); const Par &p = u.p; auto st = zero(p); std::string w = kStdName[s];
    for (int k = 0; k < 2; ++k) {
        static const int F[] = {2, 3, 9, 10}; int f = F[x.pick(4)]; uint64_t r = (uint64_t)x.pick((int)p.R), v = x.flip() ? 6 : 2, sl = (uint64_t)x.pick(3);
        *counterField(st.bank[r * p.B + (uint64_t)k].counter, f) += v; *counterField(st.rank_total[r].counter, f) += v; (f == 2 || f == 9 ? st.rank_total[r].prepos.readSeamless : st.rank_total[r].prepos.writeSeamless) += sl;
        w += mc::fmt(", rank %d %s=%d seamless %d", (int)r, kStat[f], (int)v, (int)sl);
    }
    int m = x.pick(4); auto &q = st.rank_total[0].prepos; if (m == 1) q.readMerged = 3; if (m == 2) q.writeMerged = 3, q.writeMergedTime = 7; if (m == 3) q.readMergedTime = 5;
    x.log("%s", w.c_str()); compareIfc(x, p, u.d->calcInterfaceEnergyStats(st), st, w.c_str()); x.state(mc::Hash().adds(w).add(ci).add((uint64_t)t));
}
// Along histories of complete devices: reported energies are the formulas applied to the reported statistics.
void along(mc::Ctx &x, Opt o, bool core) {
    T64 end; auto h = draw(x, o, end); Unit u = unit(o.c, NoEdit{}, o.tog ? togSim() : config::SimConfig{});
    for (auto &s : h) exec(*u.d, o.c, s);
    for (T64 t : {end, end + 1, end + 9, end + 50}) {
        auto st = u.d->getWindowStats((timestamp_t)t); std::string w = mc::fmt("%s at t=%d", kStdName[o.c.std], (int)t);
        if (core) compareCore(x, u.p, u.d->calcCoreEnergy((timestamp_t)t), st, w.c_str()); else compareIfc(x, u.p, u.d->calcInterfaceEnergy((timestamp_t)t), st, w.c_str());
        auto a = u.d->calcCoreEnergyStats(st); auto b = u.d->calcInterfaceEnergyStats(st); double tot = a.total() + b.total();
        if (!close(u.d->getTotalEnergy((timestamp_t)t), tot)) x.fail("%s: total energy %.12g instead of %.12g", w.c_str(), u.d->getTotalEnergy((timestamp_t)t), tot);
        x.state(hashCore(a));
    }
}

// ---- E03 ---------------------------------------------------------------------------------------------------
double *infoField(energy_info_t &e, int i) { double *f[] = {&e.E_act, &e.E_pre, &e.E_bg_act, &e.E_bg_pre, &e.E_RD, &e.E_WR, &e.E_RDA, &e.E_WRA, &e.E_pre_RDA, &e.E_pre_WRA, &e.E_ref_AB, &e.E_ref_PB, &e.E_ref_SB, &e.E_ref_2B, &e.E_ref_DB}; return f[i]; }
double *topField(energy_t &e, int i) { double *f[] = {&e.E_bg_act_shared, &e.E_PDNA, &e.E_PDNP, &e.E_sref, &e.E_dsm, &e.E_refab}; return f[i]; }
const char *const kTop[] = {"E_bg_act_shared", "E_PDNA", "E_PDNP", "E_sref", "E_dsm", "E_refab"};
double part(uint64_t k) { return 1.0 + 0.125 * (double)(k % 97) + (double)(1ull << (k % 20)); } // distinct
void checkSums(mc::Ctx &x, const energy_t &e) {
    double tot = 0; std::array<double, E_N> per{}; double scale = 0;
    for (size_t i = 0; i < e.bank_energy.size(); ++i) {
        auto f = flat(e.bank_energy[i]); double b = 0; for (int k = 0; k < E_N; ++k) { per[(size_t)k] += f[(size_t)k]; if (k != E_PRDA && k != E_PWRA) b += f[(size_t)k]; scale += std::fabs(f[(size_t)k]); }
        if (!close(e.bank_energy[i].total(), b)) x.fail("total of entry %d is %.12g, its parts sum up to %.12g", (int)i, e.bank_energy[i].total(), b);
        tot += b;
    }
    energy_t &m = const_cast<energy_t &>(e); for (int k = 0; k < 6; ++k) tot += *topField(m, k);
    if (!close(e.total(), tot, scale)) x.fail("total %.12g, its parts sum up to %.12g", e.total(), tot);
    auto ag = flat(e.aggregated_bank_energy()); per[E_BGA] += e.E_bg_act_shared;
    for (int k = 0; k < E_N; ++k) if (!close(ag[(size_t)k], per[(size_t)k])) x.fail("aggregated %s %.12g, entries sum up to %.12g", kE[k], ag[(size_t)k], per[(size_t)k]);
    json_t j; e.to_json(j);
    for (int k = 0; k < 6; ++k) if (!j.contains(kTop[k]) || j[kTop[k]].get<double>() != *topField(m, k)) x.fail("JSON %s differs from the record", kTop[k]);
    if (!j.contains("BankEnergy") || j["BankEnergy"].size() != e.bank_energy.size() || j.size() != 7) x.fail("JSON does not list every bank entry exactly once, or has other headings");
    for (size_t i = 0; i < e.bank_energy.size(); ++i) { auto f = flat(e.bank_energy[i]); auto &b = j["BankEnergy"][i]; if (b.size() != E_N) x.fail("JSON bank entry %d has %d headings", (int)i, (int)b.size());
        for (int k = 0; k < E_N; ++k) if (!b.contains(kE[k]) || b[kE[k]].get<double>() != f[(size_t)k]) x.fail("JSON bank entry %d %s differs from the record", (int)i, kE[k]); }
    x.step();
}
void sums(mc::Ctx &x) { // records with 0..3 banks, one, two or all parts set
    int nb = x.pick(4); energy_t e((size_t)nb); int kind = x.pick(4), cells = nb * E_N + 6; if (nb == 3 && kind == 2) x.reject();
    auto set = [&](int c, double v) { if (c < nb * E_N) *infoField(e.bank_energy[(size_t)(c / E_N)], c % E_N) = v; else *topField(e, c - nb * E_N) = v; };
    if (kind == 0) for (int c = 0; c < cells; ++c) set(c, part((uint64_t)c));
    if (kind == 1) { int c = x.pick(cells); set(c, x.flip() ? 3.5 : -1.25); }
    if (kind == 2) { int a = x.pick(cells), b = x.pick(cells); set(a, 2.0); set(b, 7.5); }
    if (kind == 3) { int a = x.pick(cells); for (int c = 0; c < cells; ++c) if (c != a) set(c, part((uint64_t)c)); }
    checkSums(x, e); x.state(mc::Hash().add((uint64_t)nb).add((uint64_t)kind).add((uint64_t)(e.total() * 1000)));
}
void ifcSums(mc::Ctx &x) {
    interface_energy_info_t a, b; auto fld = [](interface_energy_info_t &e, int i) -> double & { switch (i) { case 0: return e.controller.dynamicEnergy; case 1: return e.controller.staticEnergy; case 2: return e.dram.dynamicEnergy; default: return e.dram.staticEnergy; } };
    static const double v[] = {0, 1.5, -2.25, 1e6}; double sa = 0, sb = 0; double A[4], B[4];
    for (int i = 0; i < 4; ++i) { fld(a, i) = A[i] = v[x.pick(4)]; sa += A[i]; }
    for (int i = 0; i < 4; ++i) { fld(b, i) = B[i] = v[x.pick(x.thorough() ? 4 : 2)] * 2; sb += B[i]; }
    if (!close(a.total(), sa)) x.fail("interface total %.12g, parts %.12g", a.total(), sa);
    json_t j; a.to_json(j); static const char *K[][2] = {{"controller", "dynamicEnergy"}, {"controller", "staticEnergy"}, {"dram", "dynamicEnergy"}, {"dram", "staticEnergy"}};
    for (int i = 0; i < 4; ++i) if (!j.contains(K[i][0]) || !j[K[i][0]].contains(K[i][1]) || j[K[i][0]][K[i][1]].get<double>() != A[i]) x.fail("JSON %s %s differs from the record", K[i][0], K[i][1]);
    auto c = a + b; auto d = a; d += b; for (int i = 0; i < 4; ++i) if (fld(c, i) != A[i] + B[i] || fld(d, i) != A[i] + B[i] || fld(a, i) != A[i]) x.fail("sum of two records is wrong in part %d", i);
    x.step(3); x.state(mc::Hash().add((uint64_t)(sa * 100)).add((uint64_t)(sb * 100)));
}
void infoSums(mc::Ctx &x) { // += adds part by part
    energy_info_t a, b; int i = x.pick(E_N), k = x.pick(E_N); *infoField(a, i) = 3; *infoField(b, k) = 4; auto c = a; c += b; auto f = flat(c);
    for (int n = 0; n < E_N; ++n) if (f[(size_t)n] != (n == i ? 3 : 0) + (n == k ? 4 : 0)) x.fail("adding %s to %s changes %s to %g", kE[k], kE[i], kE[n], f[(size_t)n]);
    x.step(); x.state(mc::Hash().add((uint64_t)i).add((uint64_t)k));
}
// Shapes: exactly one entry per bank, device and rank, rank-major; a statistic of one bank shows up in its entries only.
void place(mc::Ctx &x, Std s) {
    Cfg c; c.std = s; c.banks = s == L5 ? (x.flip() ? 16 : 8) : (uint64_t)(1 << x.pick(5)); c.groups = s == L5 ? 1 : c.banks > 4 ? 4 : 1; c.ranks = (uint64_t)x.pick(3) + 1; c.devices = (uint64_t)x.pick(4); c.width = s == L6 ? 12 : 8; c.BL = s == L6 ? 24 : 16; c.REFI = 3900; c.RFCs = 90;
    c.vary = 1; Unit u = unit(c, NoEdit{}); auto st = zero(u.p); uint64_t r = (uint64_t)x.pick((int)c.ranks), b = (uint64_t)x.pick((int)c.banks); st.bank[r * c.banks + b].counter.reads = 1 + r * 100 + b; st.bank[r * c.banks + b].cycles.act = 5;
    auto e = u.d->calcCoreEnergyStats(st); uint64_t D = std::max<uint64_t>(1, c.devices);
    if (e.bank_energy.size() != c.banks * D * c.ranks) x.fail("%s: %d entries for %d banks, %d devices, %d ranks", kStdName[s], (int)e.bank_energy.size(), (int)c.banks, (int)D, (int)c.ranks);
    for (size_t i = 0; i < e.bank_energy.size(); ++i) { bool mine = i / (c.banks * D) == r && i % c.banks == b; if ((e.bank_energy[i].E_RD != 0) != mine) x.fail("%s: a read of rank %d bank %d shows in entry %d: %g (banks %d devices %d ranks %d)", kStdName[s], (int)r, (int)b, (int)i, e.bank_energy[i].E_RD, (int)c.banks, (int)D, (int)c.ranks); }
    checkSums(x, e); auto w = u.d->getWindowStats(100); auto a = u.d->getCLIArchitectureConfig();
    if (w.bank.size() != c.banks * c.ranks || w.rank_total.size() != c.ranks) x.fail("%s: statistics have %d banks and %d ranks", kStdName[s], (int)w.bank.size(), (int)w.rank_total.size());
    if ((uint64_t)a.bankCount != c.banks || (uint64_t)a.rankCount != c.ranks || (uint64_t)a.deviceCount != D) x.fail("%s: reported shape %d banks %d ranks %d devices, configured %d %d %d", kStdName[s], (int)a.bankCount, (int)a.rankCount, (int)a.deviceCount, (int)c.banks, (int)c.ranks, (int)D);
    x.step(); x.state(mc::Hash().add((uint64_t)s).add(e.bank_energy.size()).add(r).add(b));
}
void alongSums(mc::Ctx &x, Opt o) { T64 end; auto h = draw(x, o, end); auto d = make(o.c); for (auto &s : h) exec(*d, o.c, s); auto e = d->calcCoreEnergy((timestamp_t)end + 20); checkSums(x, e); x.state(hashCore(e)); }

// ---- E04 ---------------------------------------------------------------------------------------------------
using KV = std::vector<std::pair<std::string, double>>;
template <typename Spec> void kvCommon(KV &v, const Spec &m) {
    v = {{"banks", m.numberOfBanks}, {"groups", m.numberOfBankGroups}, {"ranks", m.numberOfRanks}, {"devices", m.numberOfDevices}, {"rows", m.numberOfRows}, {"columns", m.numberOfColumns}, {"burstLength", m.burstLength}, {"dataRate", m.dataRate}, {"width", m.bitWidth},
        {"tCK", m.memTimingSpec.tCK}, {"tRAS", m.memTimingSpec.tRAS}, {"tRP", m.memTimingSpec.tRP}, {"tWL", m.memTimingSpec.tWL}, {"tWR", m.memTimingSpec.tWR}, {"rho", m.bwParams.bwPowerFactRho}, {"vddq", m.vddq},
        {"offsetRD", m.prechargeOffsetRD}, {"offsetWR", m.prechargeOffsetWR}, {"domains", (double)m.memPowerSpec.size()}};
    json j; to_json(j, m.memImpedanceSpec); for (auto &[k, x] : j.items()) v.push_back({k, x.is_boolean() ? (double)x.template get<bool>() : x.template get<double>()});
}
template <typename Raw> void kvRef(KV &v, const Par &p, const Raw &raw) {
    v = {{"banks", p.B}, {"groups", p.G}, {"ranks", p.R}, {"devices", p.D}, {"rows", p.rows}, {"columns", p.cols}, {"burstLength", p.BL}, {"dataRate", p.DR}, {"width", p.W}, {"tCK", p.tCK}, {"tRAS", p.RAS}, {"tRP", p.RP}, {"tWL", p.WL}, {"tWR", p.WR},
        {"rho", p.rho}, {"vddq", p.vddq}, {"offsetRD", p.offRD}, {"offsetWR", p.offWR}, {"domains", (double)p.dom.size()}};
    json j; to_json(j, raw.memimpedancespec); for (auto &[k, x] : j.items()) v.push_back({k, x.is_boolean() ? (double)x.template get<bool>() : x.template get<double>()});
}
void kvDom(KV &v, size_t i, const Dom &d, bool lp, bool second) {
    std::string n = "domain " + std::to_string(i) + " "; for (auto &[k, x] : KV{{"V", d.V}, {"I0", d.I0}, {"I2N", d.I2N}, {"I3N", d.I3N}, {"I4R", d.I4R}, {"I4W", d.I4W}, {"I5", d.I5}, {"I6", d.I6}, {"I2P", d.I2P}, {"I3P", d.I3P}, {"beta", d.beta}, {"I5s", d.I5s}, {"I6DS", d.I6DS}}) v.push_back({n + k, x});
}
template <typename M> Dom domDDR(const M &q) { return {q.vXX, q.iXX0, q.iXX2N, q.iXX3N, q.iXX4R, q.iXX4W, q.iXX5X, 0, q.iXX6N, q.iXX2P, q.iXX3P, 0, q.iBeta}; }
template <typename M> Dom domLP(const M &q) { return {q.vDDX, q.iDD0X, q.iDD2NX, q.iDD3NX, q.iDD4RX, q.iDD4WX, q.iDD5X, 0, q.iDD6X, q.iDD2PX, q.iDD3PX, 0, q.iBeta}; }
KV device(const MemSpecDDR4 &m) { KV v; kvCommon(v, m); for (size_t i = 0; i < m.memPowerSpec.size(); ++i) kvDom(v, i, domDDR(m.memPowerSpec[i]), false, false);
    auto &t = m.memTimingSpec; auto &z = m.prePostamble; KV e{{"tRCD", t.tRCD}, {"tRTP", t.tRTP}, {"tAL", t.tAL}, {"tRFC", t.tRFC}, {"tBurst", t.tBurst}, {"pR0", z.read_zeroes}, {"pW0", z.write_zeroes}, {"pR1", z.read_ones}, {"pW1", z.write_ones}, {"pR01", z.read_zeroes_to_ones}, {"pW01", z.write_zeroes_to_ones}, {"pR10", z.read_ones_to_zeroes}, {"pW10", z.write_ones_to_zeroes}, {"ccdR", z.readMinTccd}, {"ccdW", z.writeMinTccd}};
    v.insert(v.end(), e.begin(), e.end()); return v; }
KV device(const MemSpecDDR5 &m) { KV v; kvCommon(v, m); for (size_t i = 0; i < m.memPowerSpec.size(); ++i) { auto d = domDDR(m.memPowerSpec[i]); d.I5s = m.memPowerSpec[i].iXX5C; kvDom(v, i, d, false, false); }
    auto &t = m.memTimingSpec; KV e{{"tRCD", t.tRCD}, {"tRTP", t.tRTP}, {"tRFC", t.tRFC}, {"tRFCs", t.tRFCsb}, {"tBurst", t.tBurst}, {"caRate", m.dataRateSpec.commandBusRate}, {"dqRate", m.dataRateSpec.dataBusRate}, {"dqsRate", m.dataRateSpec.dqsBusRate}, {"perGroup", m.banksPerGroup}};
    v.insert(v.end(), e.begin(), e.end()); return v; }
KV device(const MemSpecLPDDR4 &m) { KV v; kvCommon(v, m); for (size_t i = 0; i < m.memPowerSpec.size(); ++i) { auto d = domLP(m.memPowerSpec[i]); d.I5s = m.memPowerSpec[i].iDD5PBX; kvDom(v, i, d, true, false); }
    auto &t = m.memTimingSpec; KV e{{"tRCD", t.tRCD}, {"tRTP", t.tRTP}, {"tRFC", t.tRFC}, {"tRFCs", t.tRFCPB}, {"tREFI", t.tREFI}, {"sigma", m.bwParams.bwPowerFactSigma}, {"pasr", m.bwParams.flgPASR}, {"pasrMode", m.bwParams.pasrMode}};
    v.insert(v.end(), e.begin(), e.end()); return v; }
KV device(const MemSpecLPDDR5 &m) { KV v; kvCommon(v, m); for (size_t i = 0; i < m.memPowerSpec.size(); ++i) { auto d = domLP(m.memPowerSpec[i]); d.I5s = m.memPowerSpec[i].iDD5PBX; d.I6DS = m.memPowerSpec[i].iDD6DSX; kvDom(v, i, d, true, true); }
    auto &t = m.memTimingSpec; KV e{{"tRCD", t.tRCD}, {"tRTP", t.tRBTP}, {"tRFC", t.tRFC}, {"tRFCs", t.tRFCPB}, {"tREFI", t.tREFI}, {"tWCK", t.tWCK}, {"WCK2CK", t.WCKtoCK}, {"tBurst", t.tBurst}, {"wckOn", m.wckAlwaysOnMode}, {"arch", m.bank_arch == MemSpecLPDDR5::MBG ? 1 : m.bank_arch == MemSpecLPDDR5::M8B ? 2 : 0}};
    v.insert(v.end(), e.begin(), e.end()); return v; }
KV device(const MemSpecLPDDR6 &m) { KV v; kvCommon(v, m); for (size_t i = 0; i < m.memPowerSpec.size(); ++i) { auto d = domLP(m.memPowerSpec[i]); d.I5s = m.memPowerSpec[i].iDD5PDBX; d.I6DS = m.memPowerSpec[i].iDD6DSX; kvDom(v, i, d, true, true); }
    auto &t = m.memTimingSpec; KV e{{"tRCD", t.tRCDR}, {"tRCDw", t.tRCDW}, {"tRTP", t.tRBTP}, {"tRFC", t.tRFCAB}, {"tRFCs", t.tRFCDB}, {"tREFI", t.tREFI}, {"tWCK", t.tWCK}, {"WCK2CK", t.WCKtoCK}, {"tBurst", t.tBurst}, {"wckOn", m.wckAlwaysOnMode}, {"perGroup", m.banksPerGroup}};
    v.insert(v.end(), e.begin(), e.end()); return v; }
template <typename Raw> KV expected(const Raw &raw) {
    Par p = par(raw); KV v; kvRef(v, p, raw); for (size_t i = 0; i < p.dom.size(); ++i) kvDom(v, i, p.dom[i], false, false); KV e;
    switch (p.s) {
        case S4: e = {{"tRCD", p.RCD}, {"tRTP", p.RTP}, {"tAL", p.AL}, {"tRFC", p.RFC}, {"tBurst", p.burst}, {"pR0", p.preR0}, {"pW0", p.preW0}, {"pR1", p.preR1}, {"pW1", p.preW1}, {"pR01", p.preR01}, {"pW01", p.preW01}, {"pR10", p.preR10}, {"pW10", p.preW10}, {"ccdR", p.ccdR}, {"ccdW", p.ccdW}}; break;
        case S5: e = {{"tRCD", p.RCD}, {"tRTP", p.RTP}, {"tRFC", p.RFC}, {"tRFCs", p.RFCs}, {"tBurst", p.burst}, {"caRate", p.caRate}, {"dqRate", p.dqRate}, {"dqsRate", p.dqsRate}, {"perGroup", p.B / p.G}}; break;
        case L4: e = {{"tRCD", p.RCD}, {"tRTP", p.RTP}, {"tRFC", p.RFC}, {"tRFCs", p.RFCs}, {"tREFI", p.REFI}, {"sigma", p.sigma}, {"pasr", p.pasr}, {"pasrMode", p.pasrMode}}; break;
        case L5: e = {{"tRCD", p.RCD}, {"tRTP", p.RTP}, {"tRFC", p.RFC}, {"tRFCs", p.RFCs}, {"tREFI", p.REFI}, {"tWCK", p.tCK / (double)p.WCK2CK}, {"WCK2CK", p.WCK2CK}, {"tBurst", p.burst}, {"wckOn", p.wckOn}, {"arch", p.B == 8 ? 2 : p.mbg ? 1 : 0}}; break;
        default: e = {{"tRCD", p.RCD}, {"tRCDw", p.RCDw}, {"tRTP", p.RTP}, {"tRFC", p.RFC}, {"tRFCs", p.RFCs}, {"tREFI", p.REFI}, {"tWCK", p.tCK / (double)p.WCK2CK}, {"WCK2CK", p.WCK2CK}, {"tBurst", p.burst}, {"wckOn", p.wckOn}, {"perGroup", p.B / p.G}};
    }
    v.insert(v.end(), e.begin(), e.end()); return v;
}
void leaves(const json &j, const std::string &path, std::vector<std::string> &out) {
    for (auto &[k, v] : j.items()) { if (v.is_object()) leaves(v, path + "/" + k, out); else if (v.is_number() || v.is_boolean()) out.push_back(path + "/" + k); }
}
template <typename MS, typename Raw> void compareSpec(mc::Ctx &x, const Raw &raw, const std::string &what) {
    std::ostringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf()); KV got; { MS m(raw); got = device(m); if (m.memoryId != raw.memoryId || m.memoryType != raw.id) { std::cout.rdbuf(old); x.fail("%s: identification not taken over", what.c_str()); } }
    std::cout.rdbuf(old); KV want = expected(raw); x.step();
    if (got.size() != want.size()) x.fail("%s: %d parameters instead of %d", what.c_str(), (int)got.size(), (int)want.size());
    for (size_t i = 0; i < want.size(); ++i) if (!close(got[i].second, want[i].second)) x.fail("%s: %s is %.12g instead of %.12g", what.c_str(), want[i].first.c_str(), got[i].second, want[i].second);
    mc::Hash h; for (auto &kv : got) h.add((uint64_t)(kv.second * 4096)); x.state(h);
}
template <typename MS, typename Raw> void fields(mc::Ctx &x, const Raw &base, Std s) {
    int opt = x.pick(8); Raw raw = base; // optional parts present or missing
    json full; to_json(full, raw); std::vector<std::string> paths; leaves(full, "", paths);
    if (x.flip()) { // one field changed
        int k = x.pick((int)paths.size()); auto ptr = json::json_pointer(paths[(size_t)k]); json j = full; double d = x.flip() ? 1 : 3;
        if (j[ptr].is_boolean()) j[ptr] = !j[ptr].template get<bool>(); else if (j[ptr].is_number_float()) j[ptr] = j[ptr].template get<double>() * (d + 0.25) + 0.5; else j[ptr] = j[ptr].template get<uint64_t>() + (uint64_t)d;
        if (paths[(size_t)k].find("nbrOfDevices") != std::string::npos && d == 3) j[ptr] = 0;
        if (opt) x.reject(); from_json(j, raw); x.log("%s %s", kStdName[s], paths[(size_t)k].c_str()); compareSpec<MS>(x, raw, std::string(kStdName[s]) + " with " + paths[(size_t)k] + " changed");
    } else {
        json j = full; auto &bw = j["bankwisespec"]; 
        if (opt & 1) { if (bw.is_object()) bw.erase("factRho"); } if (opt & 2) j.erase("bankwisespec");
        if (opt & 4) { for (auto k : {"iBeta_vdd", "iBeta_vpp", "iBeta_vdd1", "iBeta_vdd2", "iBeta_vdd2h", "iBeta_vdd2l", "iBeta_vdd2c", "iBeta_vdd2d"}) if (j["mempowerspec"].contains(k) && x.flip()) j["mempowerspec"].erase(k); if (j.contains("dataratespec") && x.flip()) j.erase("dataratespec"); }
        Raw r2; from_json(j, r2); compareSpec<MS>(x, r2, mc::fmt("%s with optional parts %d missing", kStdName[s], opt));
    }
}
Cfg specCfg(Std s, int mode) { Cfg c; c.std = s; c.refmode = mode; c.vary = 1; c.haveRho = true; c.rho = 0.37; c.banks = 16; c.groups = 4; c.ranks = 2; c.devices = 2; c.BL = s == L6 ? 24 : 16; c.width = s == L6 ? 12 : 8; c.tRAS = 33; c.tRCD = 14; c.tRCDw = 9; c.tRP = 13; c.RTP = 7; c.WL = 11; c.WR = 17; c.AL = 4; c.RFC = 210; c.RFC2 = 160; c.RFC4 = 120; c.RFCs = 90; c.REFI = 3900; c.tCK = 0.625; c.wckAlwaysOn = true; c.WCK2CK = 4; return c; }
void specFields(mc::Ctx &x, Std s) {
    int mode = s <= S5 ? (int[]){1, 2, 4, 0}[x.pick(s == S4 ? 4 : 2)] : 1; Cfg c = specCfg(s, mode);
    switch (s) { case S4: fields<MemSpecDDR4>(x, spec4(c), s); break; case S5: fields<MemSpecDDR5>(x, spec5(c), s); break; case L4: { auto m = specL4(c); m.bankwisespec->factSigma = 0.77; m.bankwisespec->hasPASR = x.flip(); m.bankwisespec->pasrMode = (DRAMUtils::MemSpec::pasrModesType)3; fields<MemSpecLPDDR4>(x, m, s); break; }
        case L5: fields<MemSpecLPDDR5>(x, specL5(c), s); break; default: fields<MemSpecLPDDR6>(x, specL6(c), s); }
}
void specShapes(mc::Ctx &x, Std s) { // architecture, burst and rate combinations
    Cfg c = specCfg(s, 1); c.banks = (uint64_t)(2 << x.pick(5)); c.groups = (uint64_t)(1 << x.pick(4)); if (c.groups > c.banks) x.reject(); c.ranks = (uint64_t)x.pick(3) + 1; c.devices = (uint64_t)x.pick(3);
    static const uint64_t BLs[] = {8, 16, 24, 32, 48}; c.BL = BLs[x.pick(5)]; c.DR = (uint64_t)(1 << x.pick(3)); c.WCK2CK = s >= L5 ? (uint64_t)(1 << x.pick(3)) : 2; c.wckAlwaysOn = s >= L5 && x.flip(); c.vary = 2;
    switch (s) { case S4: compareSpec<MemSpecDDR4>(x, spec4(c), c.str()); break; case S5: compareSpec<MemSpecDDR5>(x, spec5(c), c.str()); break; case L4: compareSpec<MemSpecLPDDR4>(x, specL4(c), c.str()); break; case L5: compareSpec<MemSpecLPDDR5>(x, specL5(c), c.str()); break; default: compareSpec<MemSpecLPDDR6>(x, specL6(c), c.str()); }
}
void specVariant(mc::Ctx &x) { // the variant lookup returns the specification that was put in
    Std s = x.oneof(kAll); int vary = x.pick(4); Cfg c = specCfg(s, 1); c.vary = vary;
    auto go = [&](auto raw, auto tag) { DRAMUtils::MemSpec::MemSpecVariant v; v.setVariant(raw); using MS = decltype(tag); KV got; { std::ostringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf()); got = device(MS::type::from_memspec(v)); std::cout.rdbuf(old); } KV want = expected(raw); if (got != want) for (size_t i = 0; i < want.size(); ++i) if (!close(got[i].second, want[i].second)) x.fail("%s from variant: %s is %.12g instead of %.12g", kStdName[s], want[i].first.c_str(), got[i].second, want[i].second); };
    switch (s) { case S4: go(spec4(c), std::common_type<MemSpecDDR4>{}); break; case S5: go(spec5(c), std::common_type<MemSpecDDR5>{}); break; case L4: go(specL4(c), std::common_type<MemSpecLPDDR4>{}); break; case L5: go(specL5(c), std::common_type<MemSpecLPDDR5>{}); break; default: go(specL6(c), std::common_type<MemSpecLPDDR6>{}); }
    x.step(); x.state(mc::Hash().add((uint64_t)s).add((uint64_t)vary));
}
void pasr(mc::Ctx &x) { // LPDDR4 partial-array self-refresh: the banks of the mode's diagram (eight banks)
    int mode = x.pick(9); bool on = x.flip(); Cfg c = specCfg(L4, 1); c.banks = 8; auto m = specL4(c); if (mode < 8) m.bankwisespec->pasrMode = (DRAMUtils::MemSpec::pasrModesType)mode; m.bankwisespec->hasPASR = on; MemSpecLPDDR4 d(m);
    static const int lo[] = {0, 0, 0, 0, 2, 4, 6, 7, 0}, hi[] = {8, 4, 2, 1, 8, 8, 8, 8, 8};
    for (int b = 0; b < 8; ++b) { bool want = on && b >= lo[mode] && b < hi[mode], got = d.bwParams.isBankActiveInPasr((unsigned)b); if (got != want) x.fail("PASR mode %d %s: bank %d active %d instead of %d", mode, on ? "on" : "off", b, got, want); }
    x.step(8); x.state(mc::Hash().add((uint64_t)mode).add(on));
}
void reg() {
    for (Std s : kAll) {
        std::string n = kStdName[s];
        mc::dfs("E01", n + "-single", "every statistic of selected banks and ranks alone, three magnitudes, all parameter sets", [s](mc::Ctx &x) { basis(x, s, 1); });
        mc::dfs("E01", n + "-pairs", "every pair of statistics of two banks and all ranks, all parameter sets", [s](mc::Ctx &x) { basis(x, s, 2); });
        mc::dfs("E02", n + "-single", "every line statistic alone, three magnitudes, every termination setting, all parameter sets and widths", [s](mc::Ctx &x) { ifcBasis(x, s, 1); });
        mc::dfs("E02", n + "-pairs", "every pair of line statistics, terminations on and off", [s](mc::Ctx &x) { ifcBasis(x, s, 2); });
        mc::dfs("E02", n + "-prepost", "accesses and seamless accesses of the ranks, merged counters, terminations, widths", [s](mc::Ctx &x) { ifcPrepost(x, s); });
        mc::dfs("E03", n + "-place", "all device shapes: one entry per bank, device and rank, each bank alone", [s](mc::Ctx &x) { place(x, s); });
        mc::dfs("E04", n + "-fields", "every numeric field changed alone in every refresh mode; every combination of missing optional parts", [s](mc::Ctx &x) { specFields(x, s); });
        mc::dfs("E04", n + "-shapes", "all combinations of architecture, burst length, data rate and clock ratio", [s](mc::Ctx &x) { specShapes(x, s); });
        auto opt = [s](mc::Ctx &x, int ranks, bool data) { Opt o; o.c = cfg(s, (uint64_t)ranks); o.ops = data ? dataAlphabet() : deviceAlphabet(s, ranks); o.depth = x.thorough() ? 4 : 3; o.open = true; o.pays = {-1, 2}; if (data) o.dts = {4, 5, 13}; return o; };
        mc::dfs("E01", n + "-histories", "all legal command sequences to depth 3 (thorough 4): reported energies against the formulas on the reported statistics", [opt](mc::Ctx &x) { along(x, opt(x, 2, false), true); });
        mc::dfs("E02", n + "-histories", "all legal access sequences with and without payload, data and toggling mode", [opt](mc::Ctx &x) { bool tog = x.flip(); Opt o = opt(x, x.flip() ? 2 : 1, true); o.tog = tog; if (o.c.std == L6) o.pays = {0, 2}; along(x, o, false); });
        mc::dfs("E03", n + "-histories", "totals, per-cause totals and JSON of the energies after all legal sequences", [opt](mc::Ctx &x) { Opt o = opt(x, 2, false); o.depth = 2; o.c.devices = (uint64_t)x.pick(2) + 1; alongSums(x, o); });
    }
    mc::dfs("E03", "records", "records of 0-3 banks with one, two, all but one and all parts set", sums);
    mc::dfs("E03", "interface-records", "interface energy records, sums and JSON", ifcSums);
    mc::dfs("E03", "bank-records", "adding two bank records, each pair of parts", infoSums);
    mc::dfs("E04", "variant", "lookup of each standard's specification in the variant", specVariant);
    mc::dfs("E04", "pasr", "banks active in each partial-array self-refresh mode", pasr);
    mc::assume("E01", "burst length divisible by the data rate (the code divides integers)");
    mc::assume("E04", "LPDDR4 partial-array modes on eight banks, as in the standard's diagrams");
}
MC_REGISTER(reg);
} // namespace
