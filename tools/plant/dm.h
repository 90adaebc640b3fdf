// Builds devices of every supported standard from small, explicit memory specifications.
#ifndef VERIF_DEV_H
#define VERIF_DEV_H
#include <cstdio>
#include <cmath>
#include <cstring>
#include <sstream>
#include <vector>
#include <string>
#include <DRAMPower/standards/ddr4/DDR4.h>
#include <DRAMPower/standards/ddr5/DDR5.h>
#include <DRAMPower/standards/lpddr4/LPDDR4.h>
#include <DRAMPower/standards/lpddr5/LPDDR5.h>
#include <DRAMPower/standards/lpddr6/LPDDR6.h>
#include <DRAMPower/standards/lpddr6/LPDDR6Command.h>
#include <DRAMUtils/memspec/MemSpec.h>
#include <memory>

namespace dev {
using namespace DRAMPower;
using Dev = dram_base<CmdType>;
enum Std { S4, S5, L4, L5, L6 };
static const char *const kStdName[] = {"DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6"};
static const std::vector<Std> kAll = {S4, S5, L4, L5, L6};
inline bool isLP(Std s) { return s >= L4; }

// One flat description; every standard picks the fields it knows.
struct Cfg {
    Std std = S4;
    uint64_t banks = 4, groups = 2, ranks = 1, devices = 1, width = 8, BL = 8, DR = 2;
    uint64_t tRAS = 5, tRCD = 3, tRCDw = 3, tRP = 2, RTP = 2, WL = 1, WR = 2, AL = 0;
    uint64_t RFC = 6, RFCs = 4;      // all-bank and per-bank/same-bank/dual-bank refresh
    uint64_t RFC2 = 7, RFC4 = 5;     // other refresh modes
    int refmode = 1;
    uint64_t WCK2CK = 2, REFI = 80;
    bool wckAlwaysOn = false;
    double tCK = 1.0;
    double rho = 1.0; bool haveRho = false;
    int vary = 0;                    // perturbs every electrical parameter
    bool term = true;
};

// Distinct values for every electrical parameter: a swapped parameter changes some result.
struct Num { int n; int vary; double operator()(double base) { ++n; return base + 0.37 * n + 0.11 * ((n * 7) % 13) + vary * 0.53 * ((n * 5) % 11); } };

template <typename A> void arch(A &a, const Cfg &c) {
    a.nbrOfBanks = c.banks; a.nbrOfRows = 1024; a.nbrOfColumns = 1024; a.nbrOfDevices = c.devices; a.burstLength = c.BL;
    a.dataRate = c.DR; a.width = c.width; a.nbrOfBankGroups = c.groups; a.nbrOfRanks = c.ranks;
}
template <typename I> void imp_common(I &i, const Cfg &c, Num &n) {
    i.ck_termination = i.ca_termination = i.rdq_termination = i.wdq_termination = i.rdqs_termination = c.term;
    i.ck_R_eq = n(40); i.ck_dyn_E = n(1) * 1e-3; i.ca_R_eq = n(50); i.ca_dyn_E = n(2) * 1e-3; i.rdq_R_eq = n(60); i.rdq_dyn_E = n(3) * 1e-3;
    i.wdq_R_eq = n(70); i.wdq_dyn_E = n(4) * 1e-3; i.rdqs_R_eq = n(80); i.rdqs_dyn_E = n(5) * 1e-3;
}
inline DRAMUtils::MemSpec::MemSpecDDR4 spec4(const Cfg &c) {
    DRAMUtils::MemSpec::MemSpecDDR4 m; Num n{0, c.vary};
    m.memoryId = "verif"; arch(m.memarchitecturespec, c);
    m.memarchitecturespec.RefMode = c.refmode == 2 ? DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_2 : c.refmode == 4 ? DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_4
        : c.refmode == 1 ? DRAMUtils::MemSpec::RefModeTypeDDR4::REF_MODE_1 : DRAMUtils::MemSpec::RefModeTypeDDR4::INVALID;
    auto &t = m.memtimingspec; t.tCK = c.tCK; t.RAS = c.tRAS; t.RCD = c.tRCD; t.RTP = c.RTP; t.WL = c.WL; t.WR = c.WR; t.RP = c.tRP; t.AL = c.AL;
    t.RFC1 = c.RFC; t.RFC2 = c.RFC2; t.RFC4 = c.RFC4;
    auto &p = m.mempowerspec; p.vdd = n(1.2); p.vpp = n(2.5); p.vddq = n(1.1);
    p.idd0 = n(60); p.idd2n = n(30); p.idd3n = n(45); p.idd4r = n(130); p.idd4w = n(120); p.idd6n = n(22); p.idd2p = n(20); p.idd3p = n(25);
    p.idd5B = n(210); p.idd5F2 = n(180); p.idd5F4 = n(160); p.ipp0 = n(6); p.ipp2n = n(3); p.ipp3n = n(4); p.ipp4r = n(7); p.ipp4w = n(8); p.ipp6n = n(2);
    p.ipp2p = n(1); p.ipp3p = n(1.5); p.ipp5B = n(20); p.ipp5F2 = n(18); p.ipp5F4 = n(16);
    if (c.vary & 1) { p.iBeta_vdd = n(50); p.iBeta_vpp = n(5); }
    if (c.haveRho) { m.bankwisespec.emplace(); m.bankwisespec->factRho = c.rho; }
    auto &i = m.memimpedancespec; imp_common(i, c, n);
    i.wdqs_termination = i.wdbi_termination = i.rdbi_termination = c.term;
    i.wdqs_R_eq = n(90); i.wdqs_dyn_E = n(6) * 1e-3; i.wdbi_R_eq = n(95); i.wdbi_dyn_E = n(7) * 1e-3; i.rdbi_R_eq = n(97); i.rdbi_dyn_E = n(8) * 1e-3;
    auto &q = m.prepostamble; q.read_zeroes = 2; q.write_zeroes = 3; q.read_ones = 2; q.write_ones = 1; q.read_zeroes_to_ones = 1; q.write_zeroes_to_ones = 2;
    q.read_ones_to_zeroes = 3; q.write_ones_to_zeroes = 1; q.readMinTccd = 1; q.writeMinTccd = 2;
    return m;
}
inline DRAMUtils::MemSpec::MemSpecDDR5 spec5(const Cfg &c) {
    DRAMUtils::MemSpec::MemSpecDDR5 m; Num n{0, c.vary};
    m.memoryId = "verif"; arch(m.memarchitecturespec, c);
    m.memarchitecturespec.RefMode = c.refmode == 2 ? DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_2 : DRAMUtils::MemSpec::RefModeTypeDDR5::REF_MODE_1;
    auto &t = m.memtimingspec; t.tCK = c.tCK; t.RAS = c.tRAS; t.RCD = c.tRCD; t.RTP = c.RTP; t.WL = c.WL; t.WR = c.WR; t.RP = c.tRP;
    t.RFCsb_slr = c.RFCs; t.RFC1_slr = c.RFC; t.RFC2_slr = c.RFC2;
    auto &p = m.mempowerspec; p.vdd = n(1.1); p.vpp = n(1.8); p.vddq = n(1.1);
    p.idd0 = n(60); p.idd2n = n(30); p.idd3n = n(45); p.idd4r = n(130); p.idd4w = n(120); p.idd6n = n(22); p.idd2p = n(20); p.idd3p = n(25);
    p.idd5b = n(210); p.idd5c = n(150); p.idd5f = n(180); p.ipp0 = n(6); p.ipp2n = n(3); p.ipp3n = n(4); p.ipp4r = n(7); p.ipp4w = n(8); p.ipp6n = n(2);
    p.ipp2p = n(1); p.ipp3p = n(1.5); p.ipp5b = n(20); p.ipp5c = n(15); p.ipp5f = n(18);
    if (c.vary & 1) { p.iBeta_vdd = n(50); p.iBeta_vpp = n(5); }
    if (c.haveRho) { m.bankwisespec.emplace(); m.bankwisespec->factRho = c.rho; }
    auto &i = m.memimpedancespec; imp_common(i, c, n); i.wdqs_termination = c.term; i.wdqs_R_eq = n(90); i.wdqs_dyn_E = n(6) * 1e-3;
    m.dataratespec.emplace(); m.dataratespec->ca_bus_rate = 1; m.dataratespec->dq_bus_rate = c.DR; m.dataratespec->dqs_bus_rate = c.DR;
    return m;
}
inline DRAMUtils::MemSpec::MemSpecLPDDR4 specL4(const Cfg &c) {
    DRAMUtils::MemSpec::MemSpecLPDDR4 m; Num n{0, c.vary};
    m.memoryId = "verif"; arch(m.memarchitecturespec, c);
    auto &t = m.memtimingspec; t.tCK = c.tCK; t.RAS = c.tRAS; t.RCD = c.tRCD; t.RL = 4; t.RTP = c.RTP; t.WL = c.WL; t.WR = c.WR; t.RPpb = c.tRP;
    t.RFCpb = c.RFCs; t.RFCab = c.RFC; t.REFI = c.REFI;
    auto &p = m.mempowerspec; p.vdd1 = n(1.8); p.vdd2 = n(1.1); p.vddq = n(1.1);
    p.idd01 = n(60); p.idd2n1 = n(30); p.idd3n1 = n(45); p.idd4r1 = n(130); p.idd4w1 = n(120); p.idd51 = n(210); p.idd61 = n(22); p.idd2p1 = n(20); p.idd3p1 = n(25); p.idd5pb1 = n(90);
    p.idd02 = n(70); p.idd2n2 = n(35); p.idd3n2 = n(55); p.idd4r2 = n(140); p.idd4w2 = n(125); p.idd52 = n(220); p.idd62 = n(24); p.idd2p2 = n(21); p.idd3p2 = n(27); p.idd5pb2 = n(95);
    if (c.vary & 1) { p.iBeta_vdd1 = n(50); p.iBeta_vdd2 = n(55); }
    if (c.haveRho) { m.bankwisespec.emplace(); m.bankwisespec->factRho = c.rho; }
    auto &i = m.memimpedancespec; imp_common(i, c, n);
    i.wdqs_termination = i.wdbi_termination = i.rdbi_termination = c.term;
    i.wdqs_R_eq = n(90); i.wdqs_dyn_E = n(6) * 1e-3; i.wdbi_R_eq = n(95); i.wdbi_dyn_E = n(7) * 1e-3; i.rdbi_R_eq = n(97); i.rdbi_dyn_E = n(8) * 1e-3;
    return m;
}
inline DRAMUtils::MemSpec::MemSpecLPDDR5 specL5(const Cfg &c) {
    DRAMUtils::MemSpec::MemSpecLPDDR5 m; Num n{0, c.vary};
    m.memoryId = "verif"; arch(m.memarchitecturespec, c); m.memarchitecturespec.WCKalwaysOn = c.wckAlwaysOn;
    auto &t = m.memtimingspec; t.tCK = c.tCK; t.WCK2CK = c.WCK2CK; t.RAS = c.tRAS; t.RCD_S = c.tRCD; t.RBTP = c.RTP; t.WL = c.WL; t.WR = c.WR; t.RPpb = c.tRP;
    t.RFCpb = c.RFCs; t.RFCab = c.RFC; t.REFI = c.REFI;
    auto &p = m.mempowerspec; p.vdd1 = n(1.8); p.vdd2h = n(1.05); p.vdd2l = n(0.9); p.vddq = n(0.5);
#define VERIF_DOM(S) p.idd0##S = n(60); p.idd2n##S = n(30); p.idd3n##S = n(45); p.idd4r##S = n(130); p.idd4w##S = n(120); p.idd5##S = n(210); p.idd6##S = n(22); \
    p.idd2p##S = n(20); p.idd3p##S = n(25); p.idd6ds##S = n(9);
    VERIF_DOM(1) VERIF_DOM(2h) VERIF_DOM(2l)
    p.idd5pb1 = n(90); p.idd5pb2h = n(95); p.idd5pb2l = n(97);
    if (c.vary & 1) { p.iBeta_vdd1 = n(50); p.iBeta_vdd2h = n(55); p.iBeta_vdd2l = n(52); }
    if (c.haveRho) { m.bankwisespec.emplace(); m.bankwisespec->factRho = c.rho; }
    auto &i = m.memimpedancespec; imp_common(i, c, n);
    i.wck_termination = i.wdbi_termination = i.rdbi_termination = c.term;
    i.wck_R_eq = n(90); i.wck_dyn_E = n(6) * 1e-3; i.wdbi_R_eq = n(95); i.wdbi_dyn_E = n(7) * 1e-3; i.rdbi_R_eq = n(97); i.rdbi_dyn_E = n(8) * 1e-3;
    return m;
}
inline DRAMUtils::MemSpec::MemSpecLPDDR6 specL6(const Cfg &c) {
    DRAMUtils::MemSpec::MemSpecLPDDR6 m; Num n{0, c.vary};
    m.memoryId = "verif"; arch(m.memarchitecturespec, c); m.memarchitecturespec.WCKalwaysOn = c.wckAlwaysOn;
    auto &t = m.memtimingspec; t.tCK = c.tCK; t.WCK2CK = c.WCK2CK; t.RAS = c.tRAS; t.RCD_r = c.tRCD; t.RCD_w = c.tRCDw; t.RBTP = c.RTP; t.WL = c.WL; t.WR = c.WR; t.RPpb = c.tRP;
    t.RFCdb = c.RFCs; t.RFCab = c.RFC; t.REFI = c.REFI;
    auto &p = m.mempowerspec; p.vdd1 = n(1.8); p.vdd2c = n(1.05); p.vdd2d = n(0.9); p.vddq = n(0.5);
    VERIF_DOM(1) VERIF_DOM(2c) VERIF_DOM(2d)
    p.idd5pdb1 = n(90); p.idd5pdb2c = n(95); p.idd5pdb2d = n(97);
    if (c.vary & 1) { p.iBeta_vdd1 = n(50); p.iBeta_vdd2c = n(55); p.iBeta_vdd2d = n(52); }
    if (c.haveRho) { m.bankwisespec.emplace(); m.bankwisespec->factRho = c.rho; }
    auto &i = m.memimpedancespec; imp_common(i, c, n); i.wck_termination = c.term; i.wck_R_eq = n(90); i.wck_dyn_E = n(6) * 1e-3;
    return m;
}
inline std::unique_ptr<Dev> make(const Cfg &c, const config::SimConfig &sim = {}) {
    switch (c.std) {
        case S4: return std::make_unique<DDR4>(MemSpecDDR4(spec4(c)), sim);
        case S5: return std::make_unique<DDR5>(MemSpecDDR5(spec5(c)), sim);
        case L4: return std::make_unique<LPDDR4>(MemSpecLPDDR4(specL4(c)), sim);
        case L5: return std::make_unique<LPDDR5>(MemSpecLPDDR5(specL5(c)), sim);
        default: return std::make_unique<LPDDR6>(MemSpecLPDDR6(specL6(c)), sim);
    }
}
} // namespace dev
using namespace DRAMPower;
static int g_bad = 0;
#define EXPECT(what, got, want) do { double g_ = (double)(got), w_ = (double)(want); if (!(std::fabs(g_ - w_) <= 1e-9 * std::fabs(w_))) { \
    std::printf("%s: got %.12g, expected %.12g\n", what, g_, w_); g_bad = 1; } } while (0)
struct Cmd { timestamp_t t; CmdType c; uint64_t bank = 0, group = 0, rank = 0, row = 0, col = 0; };
inline void run(dev::Dev &d, const std::vector<Cmd> &l) { for (auto &c : l) d.doCommand(Command{c.t, c.c, {c.bank, c.group, c.rank, c.row, c.col}}); }
#endif
