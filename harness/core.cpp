// C01..C07: the core (bank/rank state and command accounting) of all five standards against a
// cycle-by-cycle reference machine, driven by every protocol-legal command sequence of a small device.
#include "model.h"
using namespace mdl;

namespace {
using C = CmdType;

enum Field { Act = 1, Pre = 2, Pda = 4, Pdp = 8, Sref = 16, Dsm = 32, Counters = 64, Sum = 128, RankToo = 256 };

// ---- device side ------------------------------------------------------------------------------------
void compare(mc::Ctx &x, Dev &d, const Model &mm, int mask, T64 at, const char *when) {
    Model m = mm; m.advance(at);
    auto s = d.getWindowStats((timestamp_t)at);
    size_t nb = m.c.banks;
    if (s.bank.size() != nb * m.c.ranks) x.fail("%s: %zu bank entries reported, expected %zu", when, s.bank.size(), nb * (size_t)m.c.ranks);
    if (s.rank_total.size() != m.c.ranks) x.fail("%s: %zu rank entries reported", when, s.rank_total.size());
    auto cyc = [&](const char *what, size_t i, const cycles_t &g, const Cyc &e, int mk) {
#define F(bit, name, exp) if ((mk & bit) && g.name != (uint64_t)e.exp) \
        x.fail("%s t=%lld %s %zu: %s is %llu cycles, expected %lld (act %lld pre %lld pda %lld pdp %lld sref %lld dsm %lld)", when, (long long)at, what, i, #name, \
            (unsigned long long)g.name, (long long)e.exp, (long long)e.act, (long long)e.pre, (long long)e.pda, (long long)e.pdp, (long long)e.sref, (long long)e.dsm);
        F(Act, act, act) F(Pre, pre, pre) F(Pda, powerDownAct, pda) F(Pdp, powerDownPre, pdp) F(Sref, selfRefresh, sref) F(Dsm, deepSleepMode, dsm)
#undef F
        if (mk & Sum) {
            uint64_t parts[] = {g.act, g.pre, g.powerDownAct, g.powerDownPre, g.selfRefresh, g.deepSleepMode};
            uint64_t sum = 0;
            for (auto p : parts) { sum += p; if (p > (uint64_t)at) x.fail("%s t=%lld %s %zu: a state is credited %llu cycles, more than have elapsed", when, (long long)at, what, i, (unsigned long long)p); }
            if (sum != (uint64_t)at) x.fail("%s t=%lld %s %zu: states add up to %llu cycles (act %llu pre %llu pda %llu pdp %llu sref %llu dsm %llu)", when, (long long)at, what, i,
                (unsigned long long)sum, (unsigned long long)g.act, (unsigned long long)g.pre, (unsigned long long)g.powerDownAct, (unsigned long long)g.powerDownPre,
                (unsigned long long)g.selfRefresh, (unsigned long long)g.deepSleepMode);
        }
    };
    for (size_t r = 0; r < m.c.ranks; ++r) {
        for (size_t b = 0; b < nb; ++b) {
            const auto &g = s.bank[r * nb + b]; const auto &e = m.r[r].b[b];
            cyc("bank", r * nb + b, g.cycles, e.cyc, mask);
            if (mask & Counters) {
#define F(name, exp) if (g.counter.name != (uint64_t)e.cnt.exp) x.fail("%s t=%lld bank %zu: counter %s is %llu, expected %lld", when, (long long)at, r * nb + b, #name, \
        (unsigned long long)g.counter.name, (long long)e.cnt.exp);
                F(act, act) F(pre, pre) F(reads, reads) F(writes, writes) F(readAuto, ra) F(writeAuto, wa) F(refAllBank, refA) F(refPerBank, refB)
                F(refPerTwoBanks, ref2) F(refDualBanks, refD) F(refSameBank, refS)
#undef F
            }
        }
        if (mask & RankToo) cyc("rank", r, s.rank_total[r].cycles, m.r[r].cyc, mask);
    }
}

struct Setup { Cfg c; Alphabet a; int mask; int cntCap = 1; T64 horizon = 0; };

void execOp(mc::Ctx &x, Dev &d, Model &m, const Op &o) {
    m.advance(m.now + o.dt);
    x.log("t=%lld %s", (long long)m.now, o.t == CmdType::NOP ? "(one cycle passes)" : show(o).c_str());
    send(d, m.c, o, m.now); m.apply(o); x.step();
}

// Explicit-state search: one cycle passes, or any legal command at the current cycle.
void explore(mc::Ctx &x, const Setup &s) {
    x.log("device: %s", s.c.str().c_str());
    auto d = make(s.c); Model m(s.c);
    x.expand(m.canon(s.cntCap));
    std::vector<Op> menu;
    for (;;) {
        menu.clear(); menu.push_back({CmdType::NOP, 0, 0, 0, 1});
        for (auto &o : s.a) if (m.legal(o)) menu.push_back(o);
        execOp(x, *d, m, menu[(size_t)x.pick((int)menu.size())]);
        if (x.frontier()) {
            compare(x, *d, m, s.mask, m.now, "now");
            compare(x, *d, m, s.mask, m.now + longest(s.c), "later");
        }
        x.expand(m.canon(s.cntCap));
    }
}
// Stateless search of bounded depth with a menu of delays before each command.
void sequences(mc::Ctx &x, const Setup &s, int depth, const std::vector<int> &delays, bool perStep) {
    x.log("device: %s", s.c.str().c_str());
    auto d = make(s.c); Model m(s.c);
    std::vector<Op> menu;
    for (int i = 0; i < depth; ++i) {
        int dt = delays[(size_t)x.pick((int)delays.size())];
        { Model n = m; n.advance(m.now + dt); menu.clear(); for (auto &o : s.a) if (n.legal(o)) menu.push_back(o); }
        menu.push_back({CmdType::NOP});
        Op o = menu[(size_t)x.pick((int)menu.size())]; o.dt = dt;
        execOp(x, *d, m, o);
        x.state(m.canon(9));
        if (perStep) compare(x, *d, m, s.mask, m.now, "now");
    }
    compare(x, *d, m, s.mask, m.now, "now");
    compare(x, *d, m, s.mask, m.now + longest(s.c), "later");
}

// ---- alphabets ----------------------------------------------------------------------------------------
void both(const char *prop, const char *name, const char *note, const std::function<Setup(Std, bool)> &mk, const std::vector<Std> &stds, int dfsQuick, int dfsThorough,
          const std::vector<int> &delays, bool bfs = true) {
    for (Std s : stds) for (bool alt : {false, true}) {
        std::string nm = std::string(kStdName[s]) + (alt ? " timing B " : " timing A ") + name;
        if (bfs) mc::bfs(prop, nm + " reachable states", note, [=](mc::Ctx &x) { explore(x, mk(s, alt)); }, alt ? 2 : 3);
        mc::dfs(prop, nm + " sequences", std::string(note) + mc::fmt(" (stateless: all sequences of %d, thorough %d, commands with every delay from the menu)", dfsQuick, dfsThorough),
                [=](mc::Ctx &x) { Setup st = mk(s, alt); sequences(x, st, x.thorough() ? dfsThorough : dfsQuick, delays, false); });
    }
}

// Short histories over many configurations, on the first or last bank of the first or last rank, early or very late.
void variants(const char *prop, const char *name, int mask, const std::function<Alphabet(Std)> &al, int quick, int thorough) {
    mc::dfs(prop, std::string("configurations ") + name, "every refresh mode and burst length, every timing (thorough: every pair of timings) raised, several geometries, first and last bank and rank, start at 0 and beyond 2^33: all short "
            "legal sequences with short and long gaps (late: of more than 2^33 cycles)", [=](mc::Ctx &x) {
        Cfg c = variant(x); const int rank = x.pick(2); const bool far = x.flip(); const T64 start = far ? (T64(1) << 33) + 7 : 0;
        Alphabet a = al(c.std); const int last = (int)c.banks - 1; std::vector<Op> menu;
        for (auto &o : a) { o.rank = rank; if (o.t == C::REFDB) { o.bank = o.bank ? 9 : 0; o.dbank = (o.bank + 8) % 16; } else if (o.t == C::REFP2B) o.bank = o.bank ? 9 : 0; else if (o.bank) o.bank = last; }
        x.log("device: %s", c.str().c_str());
        auto d = make(c); Model m(c, start);
        const int depth = x.thorough() ? thorough : quick;
        for (int i = 0; i < depth; ++i) {
            const T64 dt = i == 0 ? 1 : x.flip() ? 2 : far ? (T64(1) << 33) + 40 : 40;
            { Model n = m; n.advance(m.now + dt); menu.clear(); for (auto &o : a) if (o.t == C::REFP2B && c.banks != 16) continue; else if (n.legal(o)) menu.push_back(o); }
            if (menu.empty()) x.reject();
            Op o = menu[(size_t)x.pick((int)menu.size())]; o.dt = dt; execOp(x, *d, m, o); x.state(m.canon(9));
        }
        compare(x, *d, m, mask, m.now, "now"); compare(x, *d, m, mask, m.now + longest(c) + 90, "later");
    });
}

// Short histories on every bank and every pair of banks of devices of full size with three ranks.
void everyBank(const char *prop, const char *name, int mask, const std::function<Alphabet(Std)> &al, int quick, int thorough) {
    for (Std s : kAll) mc::dfs(prop, std::string(kStdName[s]) + " every bank " + name, std::string("devices of full size, three ranks: every bank with three others (thorough: every pair of banks, every rank), from both rows closed or open: all legal sequences of ") + std::to_string(quick) + " (thorough: " + std::to_string(thorough) + ") commands", [=](mc::Ctx &x) {
        Cfg c = base(s); c.ranks = 3; c.banks = s == S5 ? 32 : s == L4 ? 8 : 16; c.groups = s == S5 ? 8 : s == L4 ? 1 : s == L5 && x.flip() ? 1 : 4; const int N = (int)c.banks;
        const int b0 = x.pick(N), b1 = x.thorough() ? (b0 + 1 + x.pick(N - 1)) % N : x.oneof(std::vector<int>{b0 ^ 1, b0 ^ (N / 2), N - 1 - b0}), rank = x.thorough() ? x.pick(3) : (b0 + b1) % 3;
        auto d = make(c); Model m(c); Alphabet a = al(s); std::vector<Op> menu; const int other = (rank + 1) % 3;
        for (auto &o : a) { o.rank = rank; if (o.t == C::REFDB) { const bool far = o.dbank == 8; o.bank = o.bank ? b1 : b0; o.dbank = far ? (o.bank + 8) % 16 : b1 != o.bank ? b1 : b0; } else o.bank = o.bank ? b1 : b0; }
        execOp(x, *d, m, Op{C::ACT, other, b1, 0, 1});
        if (x.flip()) for (int b : {b0, b1}) execOp(x, *d, m, Op{C::ACT, rank, b, 0, 1});
        for (int i = 0; i < (x.thorough() ? thorough : quick); ++i) {
            const T64 dt = i == 0 ? 8 : x.flip() ? 2 : 40;
            { Model n = m; n.advance(m.now + dt); menu.clear(); for (auto &o : a) if (n.legal(o)) menu.push_back(o); }
            if (menu.empty()) x.reject();
            Op o = menu[(size_t)x.pick((int)menu.size())]; o.dt = dt; execOp(x, *d, m, o);
        }
        x.state(m.canon(9)); compare(x, *d, m, mask, m.now, "now"); compare(x, *d, m, mask, m.now + longest(c), "later");
    });
}

// Every bank of every rank in use at once: as many pending implied precharges as the device has banks.
void crowd(const char *prop, int mask) {
    for (Std s : kAll) mc::dfs(prop, std::string(kStdName[s]) + " all banks at once", "devices of full size with one to four ranks: all banks opened and closed again in three orders, by auto-precharging accesses or precharges, at every spacing from a menu, up to four rounds with all precharges pending", [=](mc::Ctx &x) {
        Cfg c = base(s); c.ranks = 1 + (uint64_t)x.pick(4); c.banks = s == S5 ? 32 : s == L4 ? 8 : 16; c.groups = s == S5 ? 8 : s == L4 ? 1 : 4; c.tRAS = x.flip() ? 5 : 300; c.RFC = 20;
        const int N = (int)c.banks, R = (int)c.ranks; auto d = make(c); Model m(c); static const std::vector<T64> G{1, 2, 9};
        for (int round = 0; round < (x.thorough() ? 4 : 2); ++round) {
            const T64 gap = x.oneof(G); const int order = round && !x.thorough() ? 0 : x.pick(3), kind = round && !x.thorough() ? 0 : x.pick(4); const bool across = x.flip();
            auto bank = [&](int i) { if (order == 0) return i; if (order == 1) return N - 1 - i; return (i * 5 + 3) % N; };
            auto each = [&](auto f) { for (int k = 0; k < N * R; ++k) { const int r = across ? k % R : k / N, b = bank(across ? k / R : k % N); f(r, b, k); } };
            auto go = [&](C t, int r, int b, T64 dt) { { Model n = m; n.advance(m.now + dt); if (!n.legal(Op{t, r, b})) return; } execOp(x, *d, m, Op{t, r, b, 0, dt}); };
            each([&](int r, int b, int) { go(C::ACT, r, b, gap); });
            each([&](int r, int b, int k) { go(kind == 0 ? C::RDA : kind == 1 ? C::WRA : kind == 2 ? (k % 2 ? C::RDA : C::WRA) : C::PRE, r, b, gap); });
            compare(x, *d, m, mask, m.now, "all pending"); x.state(m.canon(1));
            if (x.flip()) m.advance(m.now + longest(c) + 300); // otherwise the next round meets pending precharges
        }
        compare(x, *d, m, mask, m.now + 3, "soon"); compare(x, *d, m, mask, m.now + longest(c) + 400, "later");
    });
}

// ---- C07: isolation -----------------------------------------------------------------------------------
bool sameBankStats(const SimulationStats &a, const SimulationStats &b, size_t i) { return a.bank[i].counter == b.bank[i].counter && a.bank[i].cycles == b.bank[i].cycles; }
std::string cyc(const cycles_t &c) { return mc::fmt("act %llu pre %llu pda %llu pdp %llu sref %llu dsm %llu", (unsigned long long)c.act, (unsigned long long)c.pre, (unsigned long long)c.powerDownAct,
    (unsigned long long)c.powerDownPre, (unsigned long long)c.selfRefresh, (unsigned long long)c.deepSleepMode); }
void isolation(mc::Ctx &x, const Setup &s, int depth, const std::vector<int> &delays, bool banks) {
    x.log("device: %s", s.c.str().c_str());
    auto d = make(s.c); Model m(s.c);
    std::vector<std::pair<T64, Op>> hist; std::vector<Op> menu;
    for (int i = 0; i < depth; ++i) {
        int dt = delays[(size_t)x.pick((int)delays.size())];
        { Model n = m; n.advance(m.now + dt); menu.clear(); for (auto &o : s.a) if (n.legal(o)) menu.push_back(o); }
        if (menu.empty()) x.reject();
        Op o = menu[(size_t)x.pick((int)menu.size())]; o.dt = dt;
        execOp(x, *d, m, o); hist.push_back({m.now, o}); x.state(m.canon(9));
    }
    T64 end[] = {m.now, m.now + longest(s.c)};
    SimulationStats full[2] = {d->getWindowStats((timestamp_t)end[0]), d->getWindowStats((timestamp_t)end[1])};
    auto against = [&](const char *what, const std::function<bool(const Op &)> &keep, const std::function<bool(size_t)> &bankSel, int rankSel) {
        auto p = make(s.c);
        for (auto &h : hist) if (keep(h.second)) send(*p, s.c, h.second, h.first);
        for (int k = 0; k < 2; ++k) {
            auto q = p->getWindowStats((timestamp_t)end[k]);
            for (size_t i = 0; i < q.bank.size(); ++i) if (bankSel(i) && !sameBankStats(q, full[k], i))
                x.fail("%s: bank %zu at t=%lld: with the other traffic (act# %llu pre# %llu; %s), without it (act# %llu pre# %llu; %s)", what, i, (long long)end[k],
                       (unsigned long long)full[k].bank[i].counter.act, (unsigned long long)full[k].bank[i].counter.pre, cyc(full[k].bank[i].cycles).c_str(),
                       (unsigned long long)q.bank[i].counter.act, (unsigned long long)q.bank[i].counter.pre, cyc(q.bank[i].cycles).c_str());
            if (rankSel >= 0 && !(q.rank_total[(size_t)rankSel].cycles == full[k].rank_total[(size_t)rankSel].cycles))
                x.fail("%s: rank %d at t=%lld: with the other traffic %s, without it %s", what, rankSel, (long long)end[k], cyc(full[k].rank_total[(size_t)rankSel].cycles).c_str(),
                       cyc(q.rank_total[(size_t)rankSel].cycles).c_str());
        }
    };
    if (!banks) for (int r = 0; r < (int)s.c.ranks; ++r)
        against("commands to another rank changed this rank", [=](const Op &o) { return o.rank == r; }, [&](size_t i) { return i / s.c.banks == (size_t)r; }, r);
    else {
        std::vector<int> used; for (auto &o : s.a) if (std::find(used.begin(), used.end(), o.bank) == used.end()) used.push_back(o.bank);
        for (int b : used)
            against("commands to another bank changed this bank", [=](const Op &o) { return o.bank == b || o.t == C::PREA || o.t == C::REFA; }, [=](size_t i) { return i == (size_t)b; }, -1);
    }
}

void reg() {
    const std::vector<int> D = {1, 3, 12};
    auto full = [](Std s, int ranks) { return fullAlphabet(s, ranks); };
    // C01 conservation: every command class
    both("C01", "all command classes", "every legal ordering of ACT, PRE, PREA, RDA, WRA, every refresh kind, power-down and self-refresh entry/exit on two banks",
         [=](Std s, bool b) { Setup t{b ? alt(s) : base(s), full(s, 1), Sum | RankToo}; return t; }, kAll, 4, 5, D);
    variants("C01", "", Sum | RankToo, [=](Std s) { return full(s, 1); }, 3, 4);
    everyBank("C01", "", Sum | RankToo, [=](Std s) { return full(s, 1); }, 2, 3);
    mc::assume("C01", "Commands are protocol-legal: ACT and refresh only on precharged idle banks, accesses only on open banks, power-down and self-refresh entry in the matching bank state, only the matching exit command while in a low-power state.");
    // C02 counters
    both("C02", "all command classes", "every legal ordering of all commands on two banks, all counters of all banks compared",
         [=](Std s, bool b) { Alphabet a = full(s, 1); per(a, {C::RD, C::WR}, {0, 1}, 1); return Setup{b ? alt(s) : base(s), a, Counters}; }, kAll, 4, 5, D);
    variants("C02", "", Counters, [=](Std s) { Alphabet a = full(s, 1); per(a, {C::RD, C::WR}, {0}, 1); return a; }, 3, 4);
    everyBank("C02", "", Counters, [=](Std s) { Alphabet a = full(s, 1); per(a, {C::RD, C::WR}, {0}, 1); return a; }, 2, 3);
    mc::assume("C02", "Commands are protocol-legal (see C01).");
    // C03 active/precharged residency
    both("C03", "row commands", "every legal ordering of ACT, PRE, PREA, PRESB, RD, WR, RDA, WRA on two (stateless: three) banks",
         [=](Std s, bool b) {
             Alphabet a; per(a, {C::ACT, C::PRE, C::RDA, C::WRA, C::RD, C::WR}, {0, 1}, 1); rankOps(a, {C::PREA}, 1);
             if (s == S5) { a.push_back({C::PRESB, 0, 0}); a.push_back({C::PRESB, 0, 1}); }
             return Setup{b ? alt(s) : base(s), a, Act | Pre | RankToo, 2};
         }, kAll, 4, 5, D);
    variants("C03", "", Act | Pre | RankToo, [](Std s) { Alphabet a; per(a, {C::ACT, C::PRE, C::RDA, C::WRA}, {0, 1}, 1); rankOps(a, {C::PREA}, 1); if (s == S5) a.push_back({C::PRESB, 0, 1}); return a; }, 3, 5);
    everyBank("C03", "", Act | Pre | RankToo, [](Std s) { Alphabet a; per(a, {C::ACT, C::PRE, C::RDA, C::WRA}, {0, 1}, 1); rankOps(a, {C::PREA}, 1); if (s == S5) a.push_back({C::PRESB, 0, 1}); return a; }, 3, 4);
    crowd("C03", Act | Pre | RankToo | Counters);
    mc::assume("C03", "Commands are protocol-legal; no refresh, power-down or self-refresh (those are C04..C06).");
    // C04 refresh
    both("C04", "refresh", "every legal ordering of ACT, PRE and every refresh kind, on banks that share and do not share the refresh target",
         [=](Std s, bool b) {
             Alphabet a; per(a, {C::ACT, C::PRE, C::RDA}, {0, 1}, 1); rankOps(a, {C::REFA}, 1); smallRefresh(a, s, 1);
             if (s == L6) a.push_back({C::REFDB, 0, 1, 0});
             if (s == L5) a.push_back({C::REFP2B, 0, 9});
             return Setup{b ? alt(s) : base(s), a, Act | Pre | Counters | RankToo};
         }, kAll, 4, 5, D);
    variants("C04", "", Act | Pre | Counters | RankToo, [](Std s) { Alphabet a; per(a, {C::ACT, C::PRE}, {0}, 1); rankOps(a, {C::REFA}, 1); smallRefresh(a, s, 1); return a; }, 3, 5);
    everyBank("C04", "", Act | Pre | Counters | RankToo, [](Std s) { Alphabet a; per(a, {C::ACT, C::PRE}, {0}, 1); rankOps(a, {C::REFA}, 1); smallRefresh(a, s, 1); return a; }, 2, 3);
    mc::assume("C04", "Refresh commands only address precharged, idle banks.");
    for (Std s : {S5, L4, L5, L6}) mc::dfs("C04", std::string(kStdName[s]) + " refresh targets", "every bank as target of every bank-level refresh kind after every other, all banks compared, 8- and 16-bank devices and group counts", [=](mc::Ctx &x) {
        Cfg c = base(s); const int geo[][2] = {{16, 4}, {16, 1}, {8, 1}, {8, 2}, {16, 2}, {32, 8}};
        int g = x.pick(s == L5 ? 3 : s == L6 ? 2 : 6); c.banks = (uint64_t)geo[g][0]; c.groups = (uint64_t)geo[g][1];
        auto d = make(c); Model m(c);
        for (int i = 0; i < 2; ++i) {
            Op o; o.dt = x.pick(2) ? 1 : 9; int kinds = s == L5 ? (c.banks == 16 ? 3 : 2) : 2; int k = x.pick(kinds);
            o.bank = k == 0 ? 0 : x.pick((int)c.banks); o.t = k == 0 ? C::REFA : s == S5 ? C::REFSB : s == L4 ? C::REFB : s == L6 ? C::REFDB : k == 1 ? C::REFB : C::REFP2B;
            if (o.t == C::REFDB) { o.dbank = x.pick(2) ? (o.bank + 8) % 16 : (o.bank + 3) % 16; }
            { Model n = m; n.advance(m.now + o.dt); if (!n.legal(o)) x.reject(); }
            execOp(x, *d, m, o); x.state(m.canon(9));
        }
        compare(x, *d, m, Act | Pre | Counters | RankToo, m.now + 2, "soon"); compare(x, *d, m, Act | Pre | Counters | RankToo, m.now + 30, "later");
    });
    // C05 power-down
    both("C05", "power-down", "every legal ordering of ACT, PRE, RDA, refreshes and power-down entry/exit; exits at, before and after a deferred entry",
         [=](Std s, bool b) {
             Alphabet a; per(a, {C::ACT, C::PRE}, {0, 1}, 1); per(a, {C::RDA}, {0}, 1); rankOps(a, {C::REFA, C::PDEA, C::PDXA, C::PDEP, C::PDXP}, 1); smallRefresh(a, s, 1);
             return Setup{b ? alt(s) : base(s), a, Act | Pre | Pda | Pdp | RankToo};
         }, kAll, 5, 6, {1, 4});
    variants("C05", "", Act | Pre | Pda | Pdp | RankToo, [](Std s) { Alphabet a; per(a, {C::ACT, C::PRE}, {0}, 1); rankOps(a, {C::REFA, C::PDEA, C::PDXA, C::PDEP, C::PDXP}, 1); smallRefresh(a, s, 1); return a; }, 4, 5);
    everyBank("C05", "", Act | Pre | Pda | Pdp | RankToo, [](Std s) { Alphabet a; per(a, {C::ACT, C::PRE}, {0}, 1); rankOps(a, {C::REFA, C::PDEA, C::PDXA, C::PDEP, C::PDXP}, 1); smallRefresh(a, s, 1); return a; }, 3, 4);
    mc::assume("C05", "Active power-down is entered with an open row and no auto-precharge pending, precharge power-down with all rows closed; only the matching exit command is issued while in power-down.");
    // C06 self-refresh
    both("C06", "self-refresh", "every legal ordering of ACT, PRE, REFA, PDEP/PDXP, self-refresh (and for LPDDR5 deep-sleep) entry/exit",
         [=](Std s, bool b) {
             Alphabet a; per(a, {C::ACT, C::PRE}, {0, 1}, 1); rankOps(a, {C::REFA, C::SREFEN, C::SREFEX, C::PDEP, C::PDXP}, 1);
             if (s == L5) rankOps(a, {C::DSMEN, C::DSMEX}, 1);
             return Setup{b ? alt(s) : base(s), a, Act | Pre | Pda | Pdp | Sref | Dsm | RankToo | Counters};
         }, kAll, 5, 6, {1, 4, 8});
    variants("C06", "", Act | Pre | Pda | Pdp | Sref | Dsm | RankToo | Counters, [](Std s) { Alphabet a; per(a, {C::ACT}, {0}, 1); rankOps(a, {C::REFA, C::SREFEN, C::SREFEX, C::PDEP, C::PDXP}, 1); if (s == L5) rankOps(a, {C::DSMEN, C::DSMEX}, 1); return a; }, 4, 5);
    everyBank("C06", "", Act | Pre | Pda | Pdp | Sref | Dsm | RankToo | Counters, [](Std s) { Alphabet a; per(a, {C::ACT}, {0}, 1); rankOps(a, {C::REFA, C::SREFEN, C::SREFEX, C::PDEP, C::PDXP}, 1); if (s == L5) rankOps(a, {C::DSMEN, C::DSMEX}, 1); return a; }, 4, 5);
    mc::assume("C06", "Self-refresh is entered with all banks idle and left only after it has taken effect; deep sleep is entered and left within self-refresh.");
    // C07 isolation
    for (Std s : kAll) {
        mc::dfs("C07", std::string(kStdName[s]) + " ranks", "all sequences of commands to two ranks (all command classes) compared with the same device receiving only one rank's commands", [=](mc::Ctx &x) {
            Cfg c = base(s); c.ranks = 2; Setup t{c, full(s, 2), 0}; isolation(x, t, x.thorough() ? 5 : 4, x.thorough() ? std::vector<int>{1, 9} : std::vector<int>{2, 9}, false);
        });
        mc::dfs("C07", std::string(kStdName[s]) + " banks", "all sequences of row commands to three banks compared with the same device receiving only one bank's (and rank-wide) commands", [=](mc::Ctx &x) {
            Cfg c = base(s); if (c.banks == 2) c.banks = 4; Setup t{c, {}, 0}; per(t.a, {C::ACT, C::PRE, C::RDA, C::WRA, C::RD}, {0, 1, 3}, 1); rankOps(t.a, {C::PREA, C::REFA}, 1);
            isolation(x, t, x.thorough() ? 6 : 5, {1, 6}, true);
        });
    }
    mc::assume("C07", "Bank isolation is stated without power-down, whose entry time legitimately depends on all banks of the rank.");
}
MC_REGISTER(reg);
} // namespace
