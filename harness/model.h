// Reference machine of the core (bank and rank states cycle by cycle), command legality and alphabets.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include "dev.h"
#include <algorithm>
namespace mdl {
using namespace dev;
using T64 = int64_t;

struct Cyc { T64 act = 0, pre = 0, pda = 0, pdp = 0, sref = 0, dsm = 0; };
struct Cnt { T64 act = 0, pre = 0, reads = 0, writes = 0, ra = 0, wa = 0, refA = 0, refB = 0, ref2 = 0, refD = 0, refS = 0; };

struct MBank {
    bool open = false;      // row open
    T64 refEnd = 0;         // refresh in progress while now < refEnd
    T64 apAt = -1;          // pending auto-precharge
    T64 ghost = -1;         // auto-precharge that a precharge has overtaken: the bank takes no new command before it
    T64 lastAct = -1;     // begin of the current/last active interval
    T64 lastPre = -1;
    bool resume = false;    // re-opens when the rank leaves active power-down
    Cyc cyc; Cnt cnt;
};
struct MRank {
    std::vector<MBank> b;
    int pd = 0;             // 0 none, 1 PDA, 2 PDP (in effect)
    int pdCmd = 0;          // command accepted (possibly deferred)
    T64 entryAt = -1, exitAt = -1;
    T64 srefAt = -1; bool sref = false, dsm = false;
    T64 srefSince = 0;
    Cyc cyc;
};

struct Op { CmdType t; int rank = 0, bank = 0, dbank = 0; T64 dt = 0; };

// ---- reference machine ------------------------------------------------------------------------------
struct Model {
    Cfg c; T64 now = 0;
    std::vector<MRank> r;
    // Starting late: everything is precharged up to the first cycle of interest.
    explicit Model(const Cfg &c_, T64 start = 0) : c(c_), now(start) { r.resize(c.ranks); for (auto &x : r) { x.b.resize(c.banks); x.cyc.pre = start; for (auto &y : x.b) y.cyc.pre = start; } }

    T64 tburst() const { return c.std >= L5 ? (T64)(c.BL / (c.DR * c.WCK2CK)) : (T64)(c.BL / c.DR); }
    T64 rdOff() const {
        switch (c.std) { case S4: return c.AL + c.RTP; case S5: return c.RTP; case L4: return c.BL == 16 ? c.RTP : 8 + c.RTP; default: return tburst() + c.RTP; }
    }
    T64 wrOff() const {
        switch (c.std) { case S4: case S5: return tburst() + c.WL + c.WR; case L4: return c.WL + c.BL / 2 + c.WR + 1; default: return c.WL + tburst() + 1 + c.WR; }
    }
    T64 rfcAll() const {
        if (c.std == S4) return c.refmode == 2 ? c.RFC2 : c.refmode == 4 ? c.RFC4 : c.RFC;
        if (c.std == S5) return c.refmode == 2 ? c.RFC2 : c.RFC;
        return c.RFC;
    }
    T64 trcd() const { return c.std == L6 ? std::max(c.tRCD, c.tRCDw) : c.tRCD; }
    bool refreshing(const MBank &b) const { return now < b.refEnd; }
    void closeRow(MBank &b, T64 t) { if (b.apAt > t) b.ghost = b.apAt; b.open = false; b.cnt.pre++; b.lastPre = t; b.apAt = -1; }

    void settle() { // events due at the current cycle
        for (auto &R : r) {
            for (auto &b : R.b) { if (b.apAt == now && b.apAt >= 0) closeRow(b, now); if (b.ghost <= now) b.ghost = -1; }
            if (R.entryAt == now) {
                R.pd = R.pdCmd; R.entryAt = -1;
                if (R.pd == 1) for (auto &b : R.b) b.resume = b.open;
            }
            if (R.exitAt == now && R.pd) {
                if (R.pd == 1) for (auto &b : R.b) b.resume = false;
                R.pd = 0; R.pdCmd = 0; R.exitAt = -1;
            }
            if (R.srefAt == now) { R.sref = true; R.srefAt = -1; R.srefSince = now; }
        }
    }
    void account(T64 n) { // attribute the cycles [now, now+n), in which nothing happens
        for (auto &R : r) {
            bool any = false;
            auto put = [&](Cyc &y, bool active) {
                if (R.sref) (R.dsm ? y.dsm : y.sref) += n;
                else if (R.pd == 1) y.pda += n;
                else if (R.pd == 2) y.pdp += n;
                else if (active) y.act += n;
                else y.pre += n;
            };
            for (auto &b : R.b) { bool a = b.open || refreshing(b); any |= a; put(b.cyc, a); }
            put(R.cyc, any);
        }
    }
    T64 next(T64 to) const { // the first cycle after now, up to `to`, in which something happens
        T64 n = to; auto at = [&](T64 t) { if (t > now && t < n) n = t; };
        for (auto &R : r) { at(R.entryAt); at(R.exitAt); at(R.srefAt); for (auto &b : R.b) { at(b.refEnd); at(b.apAt); at(b.ghost); } }
        return n;
    }
    void advance(T64 to) { settle(); while (now < to) { const T64 n = next(to); account(n - now); now = n; settle(); } }

    bool rankFree(const MRank &R) const { return !R.pdCmd && !R.sref && R.srefAt < 0; }
    bool idle(const MBank &b) const { return !b.open && !refreshing(b) && b.ghost < 0; }
    bool allIdle(const MRank &R) const { for (auto &b : R.b) if (!idle(b)) return false; return true; }
    static bool allClosed(const MRank &R) { for (auto &b : R.b) if (b.open) return false; return true; }
    static bool anyOpen(const MRank &R) { return !allClosed(R); }
    static bool anyAp(const MRank &R) { for (auto &b : R.b) if (b.apAt >= 0 || b.ghost >= 0) return true; return false; }
    std::vector<int> sameBank(int bank) const {
        std::vector<int> v; int per = (int)(c.banks / c.groups);
        for (int g = 0; g < (int)c.groups; ++g) v.push_back(g * per + bank % per);
        return v;
    }
    std::vector<int> twoBanks(int bank) const { return {bank, (bank + 8) % 16}; }

    bool legal(const Op &o) const {
        const MRank &R = r[o.rank]; const MBank &b = R.b[o.bank];
        switch (o.t) {
            case CmdType::NOP: return true;
            case CmdType::ACT: return rankFree(R) && idle(b);
            case CmdType::RD: case CmdType::WR: case CmdType::RDA: case CmdType::WRA: return rankFree(R) && b.open && b.apAt < 0;
            case CmdType::PRE: return rankFree(R) && !refreshing(b);
            case CmdType::PREA: if (!rankFree(R)) return false; for (auto &x : R.b) if (refreshing(x)) return false; return true;
            case CmdType::PRESB: if (!rankFree(R)) return false; for (int i : sameBank(o.bank)) if (refreshing(R.b[i])) return false; return true;
            case CmdType::REFA: case CmdType::SREFEN: return rankFree(R) && allIdle(R);
            case CmdType::REFB: return rankFree(R) && idle(b);
            case CmdType::REFSB: if (!rankFree(R)) return false; for (int i : sameBank(o.bank)) if (!idle(R.b[i])) return false; return true;
            case CmdType::REFP2B: if (!rankFree(R)) return false; for (int i : twoBanks(o.bank)) if (!idle(R.b[i])) return false; return true;
            case CmdType::REFDB: return rankFree(R) && idle(b) && idle(R.b[o.dbank]);
            case CmdType::PDEA: return rankFree(R) && anyOpen(R) && !anyAp(R);
            case CmdType::PDEP: return rankFree(R) && allClosed(R) && !anyAp(R);
            case CmdType::PDXA: return R.pdCmd == 1 && R.exitAt < 0;
            case CmdType::PDXP: return R.pdCmd == 2 && R.exitAt < 0;
            case CmdType::SREFEX: return R.sref && !R.dsm;
            case CmdType::DSMEN: return R.sref && !R.dsm;
            case CmdType::DSMEX: return R.sref && R.dsm;
            default: return false;
        }
    }
    void refresh(MBank &b, T64 len) { b.refEnd = now + len; }
    void apply(const Op &o) { // at time now
        MRank &R = r[o.rank]; MBank &b = R.b[o.bank];
        auto ap = [&](T64 off) { b.apAt = std::max(b.lastAct + (T64)c.tRAS, now + off); };
        switch (o.t) {
            case CmdType::ACT: b.open = true; b.lastAct = now; b.cnt.act++; break;
            case CmdType::RD: b.cnt.reads++; break;
            case CmdType::WR: b.cnt.writes++; break;
            case CmdType::RDA: b.cnt.ra++; ap(rdOff()); break;
            case CmdType::WRA: b.cnt.wa++; ap(wrOff()); break;
            case CmdType::PRE: if (b.open) closeRow(b, now); break;
            case CmdType::PREA: for (auto &x : R.b) if (x.open) closeRow(x, now); break;
            case CmdType::PRESB: for (int i : sameBank(o.bank)) if (R.b[i].open) closeRow(R.b[i], now); break;
            case CmdType::REFA: case CmdType::SREFEN:
                for (auto &x : R.b) { x.cnt.refA++; refresh(x, rfcAll()); }
                if (o.t == CmdType::SREFEN) R.srefAt = now + rfcAll();
                break;
            case CmdType::REFB: b.cnt.refB++; refresh(b, c.RFCs); break;
            case CmdType::REFSB: for (int i : sameBank(o.bank)) { R.b[i].cnt.refS++; refresh(R.b[i], c.RFCs); } break;
            case CmdType::REFP2B: for (int i : twoBanks(o.bank)) { R.b[i].cnt.ref2++; refresh(R.b[i], c.RFCs); } break;
            case CmdType::REFDB: for (int i : {o.bank, o.dbank}) { R.b[i].cnt.refD++; refresh(R.b[i], c.RFCs); } break;
            case CmdType::PDEA: case CmdType::PDEP: {
                R.pdCmd = o.t == CmdType::PDEA ? 1 : 2;
                T64 e = now;
                for (auto &x : R.b) {
                    if (x.cnt.act) e = std::max(e, x.lastAct + trcd());
                    if (x.cnt.pre) e = std::max(e, x.lastPre + (T64)c.tRP);
                    e = std::max(e, x.refEnd);
                }
                R.entryAt = e; break;
            }
            case CmdType::PDXA: case CmdType::PDXP: R.exitAt = std::max(now, R.entryAt); break;
            case CmdType::SREFEX: R.sref = false; break;
            case CmdType::DSMEN: R.dsm = true; break;
            case CmdType::DSMEX: R.dsm = false; break;
            default: break;
        }
        settle();
    }
    // Time-relative abstraction. Everything that can influence the future accounting: per-bank status,
    // remaining times of pending events, and ages up to the longest constraint that looks back.
    uint64_t canon(int cntCap) const {
        mc::Hash h; T64 la = std::max<T64>(c.tRAS, trcd()) + 1, lp = c.tRP + 1;
        for (auto &R : r) {
            h.add(R.pd).add(R.pdCmd).add(R.entryAt < 0 ? 99 : R.entryAt - now).add(R.exitAt < 0 ? 99 : R.exitAt - now);
            h.add(R.srefAt < 0 ? 99 : R.srefAt - now).add(R.sref).add(R.dsm);
            for (auto &b : R.b) {
                h.add(b.open).add(std::max<T64>(0, b.refEnd - now)).add(b.apAt < 0 ? 99 : b.apAt - now).add(b.ghost < 0 ? 99 : b.ghost - now);
                h.add(b.lastAct < 0 ? 98 : std::min(la, now - b.lastAct)).add(b.lastPre < 0 ? 98 : std::min(lp, now - b.lastPre)).add(b.resume);
                h.add(std::min<T64>(cntCap, b.cnt.act)).add(std::min<T64>(cntCap, b.cnt.pre));
            }
        }
        return h;
    }
};

inline void send(Dev &d, const Cfg &c, const Op &o, T64 t) {
    if (o.t == CmdType::NOP) return;
    TargetCoordinate tc; tc.bank = (size_t)o.bank; tc.rank = (size_t)o.rank;
    tc.bankGroup = c.groups ? (size_t)o.bank / (c.banks / c.groups) : 0;
    if (o.t == CmdType::REFDB && c.std == L6 && o.dbank != (o.bank + 8) % 16) {
        LPDDR6TargetCoordinate l(tc); l.dbank = (size_t)o.dbank;
        static_cast<LPDDR6 &>(d).getCore().doCommand(LPDDR6Command((timestamp_t)t, o.t, l));
    } else d.doCoreCommand(Command((timestamp_t)t, o.t, tc));
}
inline std::string show(const Op &o) {
    return mc::fmt("%s r%d b%d%s", CmdTypeUtil::to_string(o.t), o.rank, o.bank, o.t == CmdType::REFDB ? mc::fmt("+%d", o.dbank).c_str() : "");
}

using Alphabet = std::vector<Op>;
inline T64 longest(const Cfg &c) { return (T64)(c.tRAS + c.tRCD + c.RFC + c.RFC2 + c.RFCs + c.WL + c.WR + c.BL + c.RTP + 20); }

inline void per(Alphabet &a, std::initializer_list<CmdType> ts, std::initializer_list<int> banks, int ranks) {
    for (int r = 0; r < ranks; ++r) for (auto t : ts) for (int b : banks) a.push_back({t, r, b});
}
inline void rankOps(Alphabet &a, std::initializer_list<CmdType> ts, int ranks) { for (int r = 0; r < ranks; ++r) for (auto t : ts) a.push_back({t, r, 0}); }
using C = CmdType;
inline void smallRefresh(Alphabet &a, Std s, int ranks) {
    for (int r = 0; r < ranks; ++r) switch (s) {
        case S5: a.push_back({C::REFSB, r, 0}); a.push_back({C::REFSB, r, 1}); break;
        case L4: a.push_back({C::REFB, r, 0}); a.push_back({C::REFB, r, 1}); break;
        case L5: a.push_back({C::REFB, r, 0}); a.push_back({C::REFB, r, 1}); a.push_back({C::REFP2B, r, 0}); break;
        case L6: a.push_back({C::REFDB, r, 0, 8}); a.push_back({C::REFDB, r, 0, 1}); break;
        default: break;
    }
}
inline Cfg base(Std s) {
    Cfg c; c.std = s;
    switch (s) {
        case S4: c.banks = 2; c.groups = 1; c.BL = 8; c.AL = 1; break;
        case S5: c.banks = 4; c.groups = 2; c.BL = 8; break;
        case L4: c.banks = 2; c.groups = 1; c.BL = 16; break;
        case L5: c.banks = 16; c.groups = 1; c.BL = 16; break;
        case L6: c.banks = 16; c.groups = 4; c.BL = 24; c.tRCDw = 4; c.width = 12; c.DR = 2; c.WCK2CK = 2; break;
    }
    return c;
}
// A second set of timings in which the order of the constraints is different.
inline Cfg alt(Std s) {
    Cfg c = base(s); c.tRAS = 4; c.tRCD = 2; c.tRCDw = 1; c.tRP = 3; c.RTP = 5; c.WL = 2; c.WR = 1; c.AL = s == S4 ? 2 : 0; c.RFC = 5; c.RFCs = 3; c.RFC2 = 4; c.RFC4 = 3; c.refmode = 2;
    if (s == L4) c.BL = 32;
    if (s == L5) { c.BL = 32; c.WCK2CK = 4; }
    if (s == L6) { c.BL = 48; }
    if (s == S4) c.BL = 4;
    if (s == S5) { c.banks = 4; c.groups = 1; c.BL = 16; }
    return c;
}

// Every refresh mode and burst length, every timing (thorough: and pair of timings) raised above the others, several geometries.
inline Cfg variant(mc::Ctx &x) {
    Std s = (Std)x.pick(5); Cfg c = base(s); c.ranks = 2;
    static const std::vector<int> bl[] = {{8, 4}, {16, 8}, {16, 32}, {16, 32}, {24, 48}}; c.BL = (uint64_t)x.oneof(bl[s]);
    if (s == S4) c.refmode = x.oneof(std::vector<int>{1, 2, 4}); if (s == S5) c.refmode = 1 + x.pick(2);
    if (s >= L5) c.WCK2CK = x.flip() ? 2 : 4;
    static const int geo[][2] = {{0, 0}, {16, 4}, {16, 1}, {8, 1}}; const int n = s == L6 ? 1 : s == L5 ? 4 : 3; const int g = x.pick(n);   // quick: one dimension at a time
    if (g) { c.banks = (uint64_t)geo[g][0]; c.groups = (uint64_t)geo[g][1]; }
    std::vector<uint64_t *> t = {&c.tRAS, &c.tRCD, &c.tRP, &c.RTP, &c.WL, &c.WR, &c.RFC};
    if (s == S4) { t.push_back(&c.AL); t.push_back(&c.RFC2); t.push_back(&c.RFC4); } else t.push_back(&c.RFCs);
    if (s == S5) t.push_back(&c.RFC2); if (s == L6) t.push_back(&c.tRCDw);
    const int a = g && !x.thorough() ? 0 : x.pick((int)t.size() + 1), b = a && x.thorough() ? x.pick(a + 1) : 0; if (a) *t[(size_t)a - 1] += 23; if (b && b != a) *t[(size_t)b - 1] += 11;
    return c;
}

inline Alphabet fullAlphabet(Std s, int ranks) {
    using C = CmdType;
        Alphabet a; per(a, {C::ACT, C::PRE, C::RDA, C::WRA}, {0, 1}, ranks); rankOps(a, {C::PREA, C::REFA, C::PDEA, C::PDXA, C::PDEP, C::PDXP, C::SREFEN, C::SREFEX}, ranks);
        smallRefresh(a, s, ranks); if (s == S5) a.push_back({C::PRESB, 0, 0}); if (s == L5) rankOps(a, {C::DSMEN, C::DSMEX}, ranks);
        return a;
}
} // namespace mdl
#endif
