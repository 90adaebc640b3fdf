// I01, I07: what every device puts on its command bus, data, strobe, inversion and clock lines, compared with
// waveforms written out beat by beat from an independent table of the command encodings.
#include "mc.h"
#include "dev.h"
#include "wave.h"
#include "lp6.h"
#include <DRAMPower/util/extensions.h>
#include <cstring>
using namespace dev;
using namespace wv;
namespace {

struct Enc { CmdType t; const char *bits; };
// One string per command, most significant bit of the first beat first; '|' only separates beats for the reader.
const std::vector<Enc> kDDR4 = {
    {CmdType::ACT, "L L R16 R15 R14 BG0 BG1 BA0 BA1 V V V R12 R17 R13 R11 R10 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9"},
    {CmdType::PRE, "L H L H L BG0 BG1 BA0 BA1 V V V V V V V L V V V V V V V V V V"},
    {CmdType::PREA, "L H L H L V V V V V V V V V V V H V V V V V V V V V V"},
    {CmdType::REFA, "L H L L H V V V V V V V V V V V V V V V V V V V V V V"},
    {CmdType::RD, "L H H L H BG0 BG1 BA0 BA1 V V V V V V V L C0 C1 C2 C3 C4 C5 C6 C7 C8 C9"},
    {CmdType::RDA, "L H H L H BG0 BG1 BA0 BA1 V V V V V V V H C0 C1 C2 C3 C4 C5 C6 C7 C8 C9"},
    {CmdType::WR, "L H H L L BG0 BG1 BA0 BA1 V V V V V V V L C0 C1 C2 C3 C4 C5 C6 C7 C8 C9"},
    {CmdType::WRA, "L H H L L BG0 BG1 BA0 BA1 V V V V V V V H C0 C1 C2 C3 C4 C5 C6 C7 C8 C9"},
    {CmdType::SREFEN, "L H L L H V V V V V V V V V V V V V V V V V V V V V V"},
    {CmdType::SREFEX, "H X X X X X X X X X X X X X X X X X X X X X X X X X X | L H H H H V V V V V V V V V V V V V V V V V V V V V V"},
    {CmdType::PDEA, "H X X X X X X X X X X X X X X X X X X X X X X X X X X"},
    {CmdType::PDEP, "H X X X X X X X X X X X X X X X X X X X X X X X X X X"},
    {CmdType::PDXA, "H X X X X X X X X X X X X X X X X X X X X X X X X X X"},
    {CmdType::PDXP, "H X X X X X X X X X X X X X X X X X X X X X X X X X X"}};
const std::vector<Enc> kDDR5 = {
    {CmdType::ACT, "L L R0 R1 R2 R3 BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 | R4 R5 R6 R7 R8 R9 R10 R11 R12 R13 R14 R15 R16 CID3"},
    {CmdType::PRE, "H H L H H CID3 BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2"},
    {CmdType::RD, "H L H H H H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 | C2 C3 C4 C5 C6 C7 C8 C9 C10 V H V V CID3"},
    {CmdType::RDA, "H L H H H H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 | C2 C3 C4 C5 C6 C7 C8 C9 C10 V L V V CID3"},
    {CmdType::WR, "H L H H L H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 | V C3 C4 C5 C6 C7 C8 C9 C10 V H H V CID3"},
    {CmdType::WRA, "H L H H L H BA0 BA1 BG0 BG1 BG2 CID0 CID1 CID2 | V C3 C4 C5 C6 C7 C8 C9 C10 V L H V CID3"},
    {CmdType::PRESB, "H H L H L CID3 BA0 BA1 V V H CID0 CID1 CID2"},
    {CmdType::REFSB, "H H L L H CID3 BA0 BA1 V V H CID0 CID1 CID2"},
    {CmdType::REFA, "H H L L H CID3 V V V V L CID0 CID1 CID2"},
    {CmdType::PREA, "H H L H L CID3 V V V V L CID0 CID1 CID2"},
    {CmdType::SREFEN, "H H H L H V V V V H L V V V"},
    {CmdType::SREFEX, "H H H H H V V V V V V V V V"},
    {CmdType::PDEA, "H H H L H V V V V V H L V V"},
    {CmdType::PDEP, "H H H L H V V V V V H L V V"},
    {CmdType::PDXA, "H H H H H V V V V V V V V V"},
    {CmdType::PDXP, "H H H H H V V V V V V V V V"},
    {CmdType::NOP, "H H H H H V V V V V V V V V"}};
const std::vector<Enc> kLP4 = {
    {CmdType::ACT, "H L R12 R13 R14 R15 | BA0 BA1 BA2 R16 R10 R11 | R17 R18 R6 R7 R8 R9 | R0 R1 R2 R3 R4 R5"},
    {CmdType::PRE, "L L L L H L | BA0 BA1 BA2 V V V"},
    {CmdType::PREA, "L L L L H H | V V V V V V"},
    {CmdType::REFB, "L L L H L L | BA0 BA1 BA2 V V V"},
    {CmdType::RD, "L H L L L BL | BA0 BA1 BA2 V C9 L | L H L L H C8 | C2 C3 C4 C5 C6 C7"},
    {CmdType::RDA, "L H L L L BL | BA0 BA1 BA2 V C9 H | L H L L H C8 | C2 C3 C4 C5 C6 C7"},
    {CmdType::WR, "L L H L L BL | BA0 BA1 BA2 V C9 L | L H L L H C8 | C2 C3 C4 C5 C6 C7"},
    {CmdType::WRA, "L L H L L BL | BA0 BA1 BA2 V C9 H | L H L L H C8 | C2 C3 C4 C5 C6 C7"},
    {CmdType::REFA, "L L L H L H | V V V V V V"},
    {CmdType::SREFEN, "L L L H H V | V V V V V V"},
    {CmdType::SREFEX, "L L H L H V | V V V V V V"},
    {CmdType::PDEA, ""}, {CmdType::PDXA, ""}, {CmdType::PDEP, ""}, {CmdType::PDXP, ""}};
// b3 / b4: the bank positions that depend on the bank organisation
const std::vector<Enc> kLP5 = {
    {CmdType::ACT, "H H H R14 R15 R16 R17 | BA0 BA1 b3 b4 R11 R12 R13 | H H L R7 R8 R9 R10 | R0 R1 R2 R3 R4 R5 R6"},
    {CmdType::PRE, "L L L H H H H | BA0 BA1 b3 b4 V V L"},
    {CmdType::PREA, "L L L H H H H | V V g0 g1 V V H"},
    {CmdType::REFB, "L L L H H H L | BA0 BA1 b3 V V V L"},
    {CmdType::REFP2B, "L L L H H H L | BA0 BA1 b3 V V V L"},
    {CmdType::RD, "H L L C0 C3 C4 C5 | BA0 BA1 b3 b4 C1 C2 L"},
    {CmdType::RDA, "H L L C0 C3 C4 C5 | BA0 BA1 b3 b4 C1 C2 H"},
    {CmdType::WR, "L H H C0 C3 C4 C5 | BA0 BA1 b3 b4 C1 C2 L"},
    {CmdType::WRA, "L H H C0 C3 C4 C5 | BA0 BA1 b3 b4 C1 C2 H"},
    {CmdType::REFA, "L L L H H H L | V V g0 V V V H"},
    {CmdType::SREFEN, "L L L H L H H | V V V V V L L"},
    {CmdType::SREFEX, "L L L H L H L | V V V V V V V"},
    {CmdType::PDEA, "L L L H L H H | V V V V V L H"}, {CmdType::PDEP, "L L L H L H H | V V V V V L H"},
    {CmdType::PDXA, "L L L H L H L | V V V V V V V"}, {CmdType::PDXP, "L L L H L H L | V V V V V V V"},
    {CmdType::DSMEN, "L L L H L H H | V V V V V H L"}, {CmdType::DSMEX, "L L L H L H L | V V V V V V V"}};
const std::vector<Enc> kLP6 = {
    {CmdType::NOP, "L L L PAR | L L L V | X X X X | X X X X"},
    {CmdType::PDEA, "L L L PAR | L H L V | X X X X | X X X X"}, {CmdType::PDEP, "L L L PAR | L H L V | X X X X | X X X X"},
    {CmdType::PDXA, "V X X X | V X X X | V X X X | V X X X"}, {CmdType::PDXP, "V X X X | V X X X | V X X X | V X X X"},
    {CmdType::SREFEN, "L L L PAR | L L H H | X X X X | X X X X"}, {CmdType::SREFEX, "L L L PAR | L H H V | X X X X | X X X X"},
    {CmdType::PRE, "L L L PAR | H H V SC | V V V L | BA0 BA1 BG0 BG1"}, {CmdType::PREA, "L L L PAR | H H V SC | V V V H | X X X X"},
    {CmdType::REFDB, "L L L PAR | H L L SC | DBG0 DBG1 V L | BA0 BA1 BG0 BG1"}, {CmdType::REFA, "L L L PAR | H L L SC | X X V H | X X X X"},
    {CmdType::ACT, "H H H PAR | H R15 R16 SC | R11 R12 R13 R14 | BA0 BA1 BG0 BG1 | H H H PAR | L R8 R9 R10 | R4 R5 R6 R7 | R0 R1 R2 R3"},
    {CmdType::WR, "BL L H PAR | C0 C1 L SC | C2 C3 C4 C5 | BA0 BA1 BG0 BG1"}, {CmdType::WRA, "BL L H PAR | C0 C1 H SC | C2 C3 C4 C5 | BA0 BA1 BG0 BG1"},
    {CmdType::RD, "BL H L PAR | C0 C1 L SC | C2 C3 C4 C5 | BA0 BA1 BG0 BG1"}, {CmdType::RDA, "BL H L PAR | C0 C1 H SC | C2 C3 C4 C5 | BA0 BA1 BG0 BG1"}};
const std::vector<Enc> &table(Std s) { switch (s) { case S4: return kDDR4; case S5: return kDDR5; case L4: return kLP4; case L5: return kLP5; default: return kLP6; } }
const int kCaWidth[] = {27, 14, 6, 7, 4}; const uint64_t kCaRate[] = {1, 1, 1, 2, 2};
bool isData(CmdType t) { return t == CmdType::RD || t == CmdType::RDA || t == CmdType::WR || t == CmdType::WRA; }
bool isRead(CmdType t) { return t == CmdType::RD || t == CmdType::RDA; }

struct CaCtx { Std s; int arch /* LPDDR5: 0 bank groups, 1 8 banks, 2 16 banks */; uint64_t len; bool parity; uint64_t groups; uint64_t sub = 0; };
std::vector<bool> encode(const CaCtx &k, const Enc &e, const TargetCoordinate &c) {
    std::vector<std::string> tok; { std::istringstream is(e.bits); std::string w; while (is >> w) if (w != "|") tok.push_back(w); }
    const bool rd = isRead(e.t), ddr = k.s == S4 || k.s == S5;
    std::vector<bool> out;
    for (size_t i = 0; i < tok.size(); ++i) {
        std::string w = tok[i];
        auto num = [&](size_t n) { return (uint64_t)atoi(w.c_str() + n); };
        if (w == "b3") w = k.arch == 0 ? "BG0" : "BA2";
        if (w == "b4") w = k.arch == 0 ? "BG1" : k.arch == 1 ? "L" : "BA3";
        if (w == "g0") w = k.arch == 0 ? "BG0" : "V";
        if (w == "g1") w = k.arch == 0 ? "BG1" : "V";
        bool b = false;
        if (w == "H") b = true;
        else if (w == "L" || w == "PAR") b = false;
        else if (w == "V" || w == "X") b = ddr;
        else if (w.compare(0, 3, "CID") == 0) b = true;
        else if (w == "SC") b = k.sub == 1;
        else if (w == "BL") b = k.s == L4 ? k.len == 32 : k.len == 24;
        else if (w.compare(0, 3, "DBG") == 0) b = ((((c.bank + 8) % 16) / k.groups) >> num(3)) & 1;
        else if (w.compare(0, 2, "BA") == 0) b = (c.bank >> num(2)) & 1;
        else if (w.compare(0, 2, "BG") == 0) b = (c.bankGroup >> num(2)) & 1;
        else if (w[0] == 'R') b = (c.row >> num(1)) & 1;
        else if (w[0] == 'C') {
            uint64_t n = num(1); b = (c.column >> n) & 1;
            switch (k.s) {
                case S4: if (n == 2) b = !rd && k.len != 4; if (n < 2) b = !rd; break;
                case S5: if (n == 3) b = !rd && k.len != 8; if (n == 2) b = !rd; if (n == 10 && k.len == 32) b = false; break;
                case L4: if (n == 2 || n == 3 || (n == 4 && k.len == 32)) b = false; break;
                case L5: if (n == 0 && k.len == 32) b = false; break;
                case L6: if (n == 0 && k.len != 24) b = false; break;
            }
        } else { fprintf(stderr, "bad token %s\n", w.c_str()); abort(); }
        out.push_back(b);
    }
    if (k.parity) for (size_t i = 0; i < tok.size(); ++i) if (tok[i] == "PAR") { bool p = false; for (size_t j = i / 16 * 16; j < i / 16 * 16 + 16; ++j) if (j != i) p ^= out[j]; out[i] = p; }
    return out;
}

struct CaBus { // reference of the command bus
    Wave w; uint64_t busy = 0;
    explicit CaBus(Std s) { w.width = kCaWidth[s]; w.dr = kCaRate[s]; w.idleH = s == S4 || s == S5; }
    void drive(uint64_t t, const std::vector<bool> &bits) {
        uint64_t n = bits.size() / (uint64_t)w.width;
        for (uint64_t b = 0; b < n; ++b) {
            std::vector<bool> l((size_t)w.width); for (int j = 0; j < w.width; ++j) l[(size_t)j] = bits[b * (uint64_t)w.width + (uint64_t)(w.width - 1 - j)];
            w.driven[t * w.dr + b] = l;
        }
        if (n) busy = t * w.dr + n;
    }
    uint64_t freeAt() const { return (busy + w.dr - 1) / w.dr; }
};

Cfg base(Std s) {
    Cfg c; c.std = s; c.ranks = 2; c.banks = 4; c.groups = 2; c.width = 8; c.BL = 8; c.DR = 2;
    if (s == S5) { c.BL = 16; }
    if (s == L4) { c.BL = 16; }
    if (s == L5) { c.BL = 16; c.banks = 16; c.groups = 1; c.DR = 2; c.WCK2CK = 2; }
    if (s == L6) { c.BL = 24; c.width = 12; c.banks = 16; c.groups = 4; c.DR = 2; c.WCK2CK = 2; }
    return c;
}
std::vector<uint64_t> lengths(Std s) { switch (s) { case S4: return {8, 4, 0}; case S5: return {16, 8, 32, 0}; case L4: case L5: return {16, 32, 0}; default: return {24, 48, 0}; } }
uint64_t payloadBits(Std s, uint64_t len, uint64_t lines) { return s == L6 ? len / 24 * 256 : len * lines; }
config::SimConfig togSim(const Params &p) { config::SimConfig sc; sc.toggleRateDefinition = def(p); return sc; }

uint8_t zeros[512];
void setArch(Cfg &c, int arch) { if (c.std == L5) { c.banks = arch == 1 ? 8 : 16; c.groups = arch == 0 ? 4 : 1; } }

struct CmdPick { const Enc *e; TargetCoordinate c; uint64_t len; };

// every command, every single address bit
void single(mc::Ctx &x, Std s) {
    Cfg c = base(s); CaCtx k{s, 2, 0, false, c.groups};
    if (s == L5) { k.arch = x.pick(3); setArch(c, k.arch); }
    if (s == L6) { if (x.flip()) c.groups = k.groups = 1; k.parity = x.flip(); c.wckAlwaysOn = k.parity; }
    switch (x.pick(4)) { // none of this may reach the command bus, except the default burst length
        case 1: c.BL = s == S4 ? 4 : s == L6 ? 48 : 32; break;
        case 2: c.DR = s >= L5 ? 8 : 1; c.WCK2CK = s >= L5 ? 4 : c.WCK2CK; break;
        case 3: if (s != L6) { c.devices = 2; c.width = 16; } c.ranks = 4; break;
    }
    bool tog = x.flip();
    auto d = make(c, tog ? togSim(params()[0]) : config::SimConfig{});
    if (s == L6 && k.parity) static_cast<LPDDR6 *>(d.get())->getInterface().setParityCheckMode(true);
    const Enc &e = x.oneof(table(s));
    uint64_t len = 0; if (isData(e.t)) len = x.oneof(lengths(s));
    if (e.t == CmdType::REFP2B && k.arch == 1) x.reject();
    const uint64_t fill = x.flip() ? ~0ull : 0; const int bit = x.pick(1 + 5 + 4 + 19 + 11);
    uint64_t f[4] = {fill & 31, fill & 15, fill & 0x7ffff, fill & 0x7ff};
    if (bit > 28 + 0) f[3] ^= 1ull << (bit - 29); else if (bit > 9) f[2] ^= 1ull << (bit - 10); else if (bit > 5) f[1] ^= 1ull << (bit - 6); else if (bit > 0) f[0] ^= 1ull << (bit - 1);
    TargetCoordinate tc{f[0], f[1], (size_t)(x.pick(2) * (c.ranks - 1)), f[2], f[3]};
    if (s == L6 && e.t == CmdType::REFDB && ((tc.bank + 8) % 16) % k.groups != 0) tc.bank &= ~3ull;
    uint64_t t0 = x.thorough() ? (uint64_t)x.pick(4) : (uint64_t)x.pick(2) * 3;
    Command cmd{t0, e.t, tc}; uint64_t lines = c.width * c.devices;
    if (len) { cmd.data = zeros; cmd.sz_bits = payloadBits(s, len, lines); } else cmd.sz_bits = 0;
    k.len = len ? len : tog || s == L6 ? c.BL : 0;
    CaBus ca(s); ca.drive(t0, encode(k, e, tc));
    x.log("%s t=%d %s bank %x group %x row %x column %x length %d", kStdName[s], (int)t0, CmdTypeUtil::to_string(e.t), (int)f[0], (int)f[1], (int)f[2], (int)f[3], (int)len);
    try { d->doInterfaceCommand(cmd); } catch (const std::exception &ex) { x.fail("%s %s: the command bus rejects the command (%s)", kStdName[s], CmdTypeUtil::to_string(e.t), ex.what()); }
    for (uint64_t t = t0; t <= std::max(t0, ca.freeAt()) + 2; ++t) {
        auto g = d->getWindowStats(t).commandBus; x.step();
        if (!(g == ca.w.stats(t))) x.fail("%s %s command bus at t=%d: %s, its encoding gives %s", kStdName[s], CmdTypeUtil::to_string(e.t), (int)t, S(g).c_str(), S(ca.w.stats(t)).c_str());
        x.state(mc::Hash().add((int)s).add((uint64_t)e.t).add(t).add(hashStats(g)));
    }
}
// sequences of commands
void sequence(mc::Ctx &x, Std s, int depth, bool late = false) {
    Cfg c = base(s); CaCtx k{s, 2, 0, false, c.groups};
    if (s == L5) { k.arch = x.pick(2) * 2; setArch(c, k.arch); }
    if (s == L6) { k.parity = c.wckAlwaysOn = x.flip(); }
    auto d = make(c); if (k.parity) static_cast<LPDDR6 *>(d.get())->getInterface().setParityCheckMode(true);
    CaBus ca(s); uint64_t now = 0, dataFree = 0; const int jump = late ? x.pick(depth) : -1;
    for (int i = 0; i < depth; ++i) {
        const Enc &e = x.oneof(table(s));
        TargetCoordinate tc = x.flip() ? TargetCoordinate{4, 1, 1, 0x15555, 0x2a8} : TargetCoordinate{0x8, 2, 0, 0x2aaaa, 0x557};
        auto ls = lengths(s); uint64_t len = isData(e.t) ? x.oneof(ls) : 0;
        uint64_t gap = (uint64_t)x.pick(2) * 2; now = std::max(now, ca.freeAt()) + gap; if (i == jump) now += (1ull << 33) + 1;
        if (isData(e.t)) now = std::max(now, dataFree);
        Command cmd{now, e.t, tc}; cmd.sz_bits = 0; if (len) { cmd.data = zeros; cmd.sz_bits = payloadBits(s, len, c.width); dataFree = now + len / c.DR; }
        k.len = len ? len : s == L6 ? c.BL : 0; ca.drive(now, encode(k, e, tc));
        x.log("t=%d %s length %d", (int)now, CmdTypeUtil::to_string(e.t), (int)len);
        try { d->doInterfaceCommand(cmd); } catch (const std::exception &ex) { x.fail("%s %s: the command bus rejects the command (%s)", kStdName[s], CmdTypeUtil::to_string(e.t), ex.what()); }
        x.step();
        if (ca.w.stats(now) == d->getWindowStats(now).commandBus) continue;
        x.fail("%s command bus at t=%d: %s, encodings give %s", kStdName[s], (int)now, S(d->getWindowStats(now).commandBus).c_str(), S(ca.w.stats(now)).c_str());
    }
    for (uint64_t t : {ca.freeAt(), ca.freeAt() + 1, ca.freeAt() + 3}) {
        if (t < now) continue;
        auto g = d->getWindowStats(t).commandBus; x.step();
        if (!(g == ca.w.stats(t))) x.fail("%s command bus at t=%d: %s, encodings give %s", kStdName[s], (int)t, S(g).c_str(), S(ca.w.stats(t)).c_str());
        x.state(mc::Hash().add((int)s).add(t).add(hashStats(g)));
    }
}

// ---- I07 ----------------------------------------------------------------------------------------------
struct Lines { // clock-like line: intervals in cycles
    uint64_t rate; std::vector<std::pair<uint64_t, uint64_t>> iv;
    bus_stats_t stats(uint64_t t, uint64_t mult) const {
        uint64_t n = 0; for (auto &i : iv) if (i.first < t) n += (std::min(t, i.second) - i.first) * rate;
        bus_stats_t r; r.ones = r.zeroes = r.ones_to_zeroes = r.zeroes_to_ones = n / 2 * mult; r.bit_changes = 2 * r.ones_to_zeroes; return r;
    }
};
struct Acc { const char *name; CmdType t; };

void fillPayload(std::vector<uint8_t> &d, int kind) {
    static const uint8_t edge[] = {0x00, 0xff, 0x1f, 0xe0, 0x0f, 0xf1, 0x81, 0x7e, 0x01, 0xfe};
    for (size_t i = 0; i < d.size(); ++i) switch (kind) {
        case 0: d[i] = 0x00; break; case 1: d[i] = 0xff; break; case 2: d[i] = edge[(i * 3 + i / 4) % 10]; break; default: d[i] = (uint8_t)(i * 37 + 11); break;
    }
}

struct AccOpt { Cfg c; bool dbi = false, tog = false; int ps = 0; bool metaSet = false; };

void accesses(mc::Ctx &x, AccOpt o, int depth, const std::vector<uint64_t> &lens, const std::vector<int> &payloads, const std::vector<uint64_t> &gaps, bool ranks) {
    const Cfg &c = o.c; const Std s = c.std; const uint64_t DR = c.DR, lines = c.width * c.devices; const bool ddr = s == S4 || s == S5;
    const Params p = params()[(size_t)o.ps];
    auto d = make(c, o.tog ? togSim(p) : config::SimConfig{});
    if (o.dbi) { auto e = d->getExtensionManager().getExtension<extensions::DBI>(); if (!e.lock()) x.fail("no inversion extension"); if (!e.lock()->enable(0, true)) x.fail("inversion refused"); }
    uint16_t meta[2] = {0, 0};
    if (o.metaSet) { meta[0] = 0x8421; meta[1] = 0x7e01; d->getExtensionManager().getExtension<extensions::MetaData>().lock()->setMetaData(meta[0], meta[1]); }
    Wave w[2]; Tog g[2]; Lines dqs[2]; Lines wck{DR / c.WCK2CK, {}}, ck{2, {{0, UINT64_MAX}}};
    for (int i = 0; i < 2; ++i) {
        w[i].width = (int)lines; w[i].dr = DR; w[i].idleH = o.tog ? (i ? p.iw : p.ir) : ddr; if (o.tog) w[i].off.push_back({0, UINT64_MAX});
        g[i] = Tog{lines, DR, i ? p.wr : p.rr, i ? p.wd : p.rd, i ? p.iw : p.ir, o.tog, {}, {}}; if (!o.tog) g[i].off.push_back({0, UINT64_MAX});
        dqs[i].rate = DR;
    }
    if (c.wckAlwaysOn) wck.iv.push_back({0, UINT64_MAX});
    const size_t pins = s == S4 || s == L4 || s == L5 ? lines / 8 : 0; std::vector<Wave> dp[2];
    for (int i = 0; i < 2; ++i) for (size_t k = 0; k < pins; ++k) { Wave v; v.width = 1; v.dr = DR; v.idleH = s == S4; dp[i].push_back(v); }
    std::vector<uint64_t> lastEnd[2], seam[2]; for (int i = 0; i < 2; ++i) { lastEnd[i].assign(c.ranks, 0); seam[i].assign(c.ranks, 0); }
    uint64_t now = 0, free = 0;
    std::vector<std::vector<uint8_t>> keep; keep.reserve(8);
    auto check = [&](uint64_t t) {
        auto st = d->getWindowStats(t); x.step();
        auto E = [&](const char *what, const bus_stats_t &got, const bus_stats_t &want) { if (!(got == want)) x.fail("%s %s at t=%d: %s, expected %s", kStdName[s], what, (int)t, S(got).c_str(), S(want).c_str()); };
        E("read lines", st.readBus, w[0].stats(t)); E("write lines", st.writeBus, w[1].stats(t));
        E("estimated read toggling", st.togglingStats.read, g[0].stats(t)); E("estimated write toggling", st.togglingStats.write, g[1].stats(t));
        E("clock", st.clockStats, ck.stats(t, 2));
        uint64_t pairs = ddr || s == L4 ? (c.width == 16 ? 4 : 2) : 2;
        if (t >= free) { // a strobe books the whole burst when the access is issued: compared outside bursts only
        E("read strobe", st.readDQSStats, dqs[0].stats(t, pairs)); E("write strobe", st.writeDQSStats, s == L5 || s == L6 ? bus_stats_t{} : dqs[1].stats(t, pairs));
        E("write clock", st.wClockStats, s == L5 || s == L6 ? wck.stats(t, 2) : bus_stats_t{});
        }
        for (int i = 0; i < 2; ++i) { bus_stats_t sum; for (auto &v : dp[i]) sum += v.stats(t); E(i ? "write inversion pins" : "read inversion pins", i ? st.writeDBI : st.readDBI, sum); }
        if (s == S4) for (uint64_t r = 0; r < c.ranks; ++r) {
            auto &q = st.rank_total[r].prepos;
            if (q.readSeamless != seam[0][r] || q.writeSeamless != seam[1][r]) x.fail("rank %d: %d/%d seamless reads/writes, expected %d/%d", (int)r, (int)q.readSeamless, (int)q.writeSeamless, (int)seam[0][r], (int)seam[1][r]);
        }
        x.state(mc::Hash().add((int)s).add(t).add(hashStats(st.readBus)).add(hashStats(st.writeBus)).add(hashStats(st.readDBI)).add(hashStats(st.readDQSStats)));
    };
    for (int i = 0; i < depth; ++i) {
        int side = x.pick(2); bool ap = i == 0 && x.thorough() ? x.flip() : i == 1;
        uint64_t r = ranks ? (uint64_t)x.pick((int)c.ranks) : 0;
        uint64_t len = x.oneof(lens); now = free + x.oneof(gaps);
        Command cmd{now, side ? (ap ? CmdType::WRA : CmdType::WR) : (ap ? CmdType::RDA : CmdType::RD), {0, 0, r, 0, 0}}; cmd.sz_bits = 0;
        uint64_t beats = len;
        if (len) {
            keep.emplace_back((payloadBits(s, len, lines) + 7) / 8); auto &buf = keep.back(); fillPayload(buf, x.oneof(payloads));
            cmd.data = buf.data(); cmd.sz_bits = payloadBits(s, len, lines);
        } else beats = o.tog ? c.BL : 0;
        x.log("t=%d %s rank %d %d beats, first bytes %02x %02x", (int)now, side ? "write" : "read", (int)r, (int)len, len ? cmd.data[0] : 0, len ? cmd.data[1] : 0);
        std::vector<uint8_t> orig = len ? keep.back() : std::vector<uint8_t>{};
        if (len && !o.tog) {
            std::vector<uint8_t> tx = orig; uint32_t flags = 0;
            if (o.dbi) {
                size_t unit = s == L6 ? 2 : 1;
                for (size_t ch = 0; ch * unit < tx.size(); ++ch) {
                    int ones = 0; for (size_t u = 0; u < unit; ++u) ones += __builtin_popcount(tx[ch * unit + u]);
                    bool inv = s == S4 ? (int)(8 * unit) - ones > (int)(4 * unit) : ones > (int)(4 * unit);
                    if (inv) for (size_t u = 0; u < unit; ++u) tx[ch * unit + u] ^= 0xff;
                    if (inv && s == L6) flags |= 1u << ch;
                    if (pins) dp[side][ch % pins].driven[now * DR + ch / pins] = {s == S4 ? !inv : inv};
                }
            }
            if (s == L6) for (uint64_t h = 0; h < len / 24; ++h) { auto b = lp6Beats(tx.data(), (int)h, meta[h], flags); for (size_t q = 0; q < 24; ++q) { std::vector<bool> l(12); for (size_t j = 0; j < 12; ++j) l[j] = b[q][11 - j]; w[side].driven[now * DR + h * 24 + q] = l; } }
            else w[side].load(now, tx, (int)len);
        }
        if (o.tog) g[side].burst.push_back({now * DR, now * DR + beats});
        uint64_t dur = beats / DR;
        dqs[side].iv.push_back({now, now + dur}); if (!c.wckAlwaysOn) wck.iv.push_back({now, now + dur});
        if (s == S4) { if (lastEnd[side][r] == now) seam[side][r]++; lastEnd[side][r] = now + dur; }
        free = now + (beats + DR - 1) / DR;
        try { d->doInterfaceCommand(cmd); } catch (const std::exception &ex) { x.fail("command rejected: %s", ex.what()); }
        if (len && keep.back() != orig) x.fail("the caller's payload was modified");
        if (now) check(now);
    }
    if (x.flip()) { d->doInterfaceCommand({free + 1, CmdType::END_OF_SIMULATION}); check(free + 1); check(free + 3); return; }
    for (uint64_t t = now + 1; t <= free + 2; ++t) check(t);
}

void reg() {
    for (Std s : kAll) {
        std::string n = kStdName[s];
        mc::dfs("I01", n + " commands", "every command with every address bit on its own (set or cleared), every burst length, bank organisations, parity, both data modes, other burst lengths, data rates, widths and ranks of the device", [=](mc::Ctx &x) { single(x, s); });
        mc::dfs("I01", n + " sequences", "all sequences of 2 (thorough: 3) commands, two addresses, every burst length, back to back or spaced", [=](mc::Ctx &x) { sequence(x, s, x.thorough() ? 3 : 2); });
        mc::dfs("I01", n + " late", "all sequences of 2 commands with more than 2^33 cycles before the first or between them", [=](mc::Ctx &x) { sequence(x, s, 2, true); });
        mc::dfs("I07", n + " payload", "all sequences of 2 reads/writes, every burst length, four payloads, gaps 0..2 (thorough: 3, two lengths, three payloads, two gaps), inversion on and off, statistics at every cycle", [=](mc::Ctx &x) {
            AccOpt o; o.c = base(s); if (s != S5) o.dbi = x.flip(); if (s == L6) o.metaSet = x.flip(); if (s >= L5) o.c.wckAlwaysOn = x.flip();
            if (x.thorough()) accesses(x, o, 3, s == L6 ? std::vector<uint64_t>{24, 48} : std::vector<uint64_t>{lengths(s)[0], lengths(s)[1]}, {1, 2, 3}, {0, 2}, s == S4); else accesses(x, o, 2, lengths(s), {0, 1, 2, 3}, {0, 1, 2}, s == S4); });
        mc::dfs("I07", n + " geometry", "devices and widths: two x8, one x16 (x12 for LPDDR6), x4 where inversion is off; all sequences of 2 accesses", [=](mc::Ctx &x) {
            AccOpt o; o.c = base(s); o.c.ranks = 1; if (s >= L5) o.c.wckAlwaysOn = x.flip();
            if (s == L6) { o.dbi = x.flip(); } else { int k = x.pick(3); o.c.width = k == 1 ? 16 : k == 2 ? 4 : 8; o.c.devices = k == 0 ? 2 : 1; if (s != S5 && k != 2) o.dbi = x.flip(); }
            if (s == L5 && x.flip()) { o.c.DR = x.flip() ? 8 : 4; o.c.WCK2CK = o.c.DR / (1 + (uint64_t)x.pick(2)); }
            if (s == L6 && x.flip()) { o.c.DR = 4; o.c.WCK2CK = 2; }
            if (s <= L4 && x.flip()) { o.c.DR = 4; }
            accesses(x, o, 2, {lengths(s)[0]}, {1, 2, 3}, {0, 2}, false); });
        if (s != L6) mc::dfs("I07", n + " wide", "interfaces of 72 to 1152 lines (9 x8, 8 x16, 8 x64, 9 x64, 32 x32, 18 x64): all sequences of 2 (thorough: 3) accesses, inversion on and off, both data modes", [=](mc::Ctx &x) {
            static const std::vector<std::pair<int, int>> W = {{8, 9}, {16, 8}, {64, 8}, {64, 9}, {32, 32}, {64, 18}}; auto &w = x.oneof(W);
            AccOpt o; o.c = base(s); o.c.ranks = 1; o.c.width = (uint64_t)w.first; o.c.devices = (uint64_t)w.second; o.tog = x.flip(); if (s != S5) o.dbi = x.flip();
            accesses(x, o, x.thorough() ? 3 : 2, {lengths(s)[0]}, x.thorough() ? std::vector<int>{1, 2} : std::vector<int>{1, 3}, {0, 2}, false); });
        mc::dfs("I07", n + " estimate", "toggling-rate mode: all sequences of 3 reads/writes with and without payload, four parameter sets", [=](mc::Ctx &x) {
            AccOpt o; o.c = base(s); o.tog = true; o.ps = x.pick(4); o.c.ranks = 1; if (s != S5 && x.flip()) o.dbi = true;
            accesses(x, o, 3, {lengths(s)[0], 0}, {2}, {0, 2}, false); });
        mc::dfs("I07", n + " late", "all sequences of 3 accesses of two payloads with more than 2^33 cycles before, between or after them, both data modes, inversion on and off", [=](mc::Ctx &x) {
            AccOpt o; o.c = base(s); o.c.ranks = 1; o.tog = x.flip(); if (s != S5) o.dbi = x.flip(); if (s >= L5) o.c.wckAlwaysOn = x.flip();
            accesses(x, o, 3, {lengths(s)[0]}, {1, 2}, {0, (1ull << 33) + 2}, false); });
    }
    mc::dfs("I07", "DDR4 seamless", "all sequences of 4 reads and writes on two ranks, burst lengths 4 and 8, gaps 0..1: pre- and postambles", [](mc::Ctx &x) {
        AccOpt o; o.c = base(S4); accesses(x, o, x.thorough() ? 5 : 4, {8, 4}, {2}, {0, 1}, true); });
    for (Std s : {S4, L4, L5}) mc::dfs("I07", std::string(kStdName[s]) + " inversion pins", "all sequences of 3 (thorough: 4) accesses with inversion, seamless and spaced, payloads inverted in the first, last, every and no beat", [=](mc::Ctx &x) {
        AccOpt o; o.c = base(s); o.dbi = true; accesses(x, o, x.thorough() ? 4 : 3, {lengths(s)[0]}, {0, 1, 2}, x.thorough() ? std::vector<uint64_t>{0, 1} : std::vector<uint64_t>{0, 1, 3}, false); });
    mc::assume("I01", "Commands do not overlap on the command bus. V, X bits: high on DDR4/DDR5, low on LPDDR; chip identifiers high.");
    mc::assume("I07", "Bursts do not overlap; inversion pins carry the chunks in payload order, data lines the last group first. A strobe books its burst when the access is issued, so strobes are compared outside bursts.");
}
MC_REGISTER(reg);
} // namespace
