// Only relative time matters (S05): the same history started later differs by exactly the idle time before it.
#include "hist.h"
#include <cmath>
namespace {
using namespace hist;
std::unique_ptr<Dev> fresh(const Opt &o) { return make(o.c, o.tog ? togSim() : config::SimConfig{}); }
Report stats(Dev &d, T64 t, bool named = false) { Report r; r.named = named; put(r, d.getWindowStats((timestamp_t)t)); return r; }

// An idle device: what every entry gains per cycle, and that it gains it in every cycle.
void idle(mc::Ctx &x, const Opt &o, const std::vector<T64> &times) {
    auto d = fresh(o); Report r0 = stats(*d, 0, true), r1 = stats(*d, 1), r2 = stats(*d, 2), r3 = stats(*d, 3), r4 = stats(*d, 4); // a write clock's period may be two cycles
    for (T64 t : times) {
        x.step(); Report r = stats(*fresh(o), t);
        for (size_t i = 0; i < r.v.size(); ++i) {
            const bool odd = t % 2; const uint64_t first = odd ? r1.v[i] : r2.v[i], per = (odd ? r3.v[i] : r4.v[i]) - first; const bool est = r0.n[i].compare(0, 4, "tog.") == 0;   // the estimate is rounded
            const uint64_t want = first + per * (uint64_t)((t - (odd ? 1 : 2)) / 2); if (r.v[i] != want && !est) x.fail("an idle device's %s is %lld at t=%lld instead of %lld (%lld at 1, %lld at 2)", r0.n[i].c_str(), (long long)r.v[i], (long long)t, (long long)want, (long long)r1.v[i], (long long)r2.v[i]);
        }
    }
    x.state(mc::Hash().add((int)o.c.std).add(o.tog).add(o.c.width).add(o.c.ranks));
}
// History at its own time and delayed; every entry of every later report differs by the idle device's entry.
void delayed(mc::Ctx &x, const Opt &o, const std::vector<T64> &offs, bool restore) {
    T64 end; auto h = draw(x, o, end); const T64 base = 10; T64 off = x.oneof(offs); if (o.c.wckAlwaysOn) off += off % 2; x.log("delayed by %lld", (long long)off);
    auto a = fresh(o), b = fresh(o), i0 = fresh(o), i1 = fresh(o);
    const Report f0 = stats(*i0, base, true), f1 = stats(*i1, base + off);
    auto compare = [&](T64 t) {
        Report p = stats(*a, base + t), q = stats(*b, base + t + off); x.step(2);
        for (size_t i = 0; i < p.v.size(); ++i) {
            const int64_t got = (int64_t)(q.v[i] - p.v[i]), want = (int64_t)(f1.v[i] - f0.v[i]); const bool est = f0.n[i].compare(0, 4, "tog.") == 0;
            const double tol = est ? 4 + 1e-14 * std::fabs((double)want) : 0; // every estimate is a rounded product
            if (got != want && std::fabs((double)got - (double)want) > tol) x.fail("%lld cycles after the start, delayed by %lld: %s is %lld, without delay %lld: the delay adds %lld instead of %lld", (long long)t, (long long)off, f0.n[i].c_str(), (long long)q.v[i], (long long)p.v[i], (long long)got, (long long)want);
        }
        const T64 la = (T64)a->getLastCommandTime(), lb = (T64)b->getLastCommandTime();
        if (!(la == 0 && lb == 0) && lb - la != off) x.fail("%lld cycles after the start: last command at %lld without delay, at %lld delayed by %lld", (long long)t, (long long)la, (long long)lb, (long long)off);
        // energies: the idle device's energy over the delay comes on top
        auto E = [&](Dev &d, T64 at) { auto c = d.calcCoreEnergy((timestamp_t)at); auto f = d.calcInterfaceEnergy((timestamp_t)at); return std::array<double, 3>{c.total(), f.total(), d.getTotalEnergy((timestamp_t)at)}; };
        auto ea = E(*a, base + t), eb = E(*b, base + t + off), e0 = E(*i0, base), e1 = E(*i1, base + off); static const char *W[] = {"core energy", "interface energy", "total energy"};
        for (int k = 0; k < 3; ++k) { const double want = ea[k] + (e1[k] - e0[k]); if (!(std::fabs(eb[k] - want) <= 1e-10 * std::fabs(want) + 1e-10 * std::fabs(eb[k]))) x.fail("%lld cycles after the start, delayed by %lld: %s is %.17g instead of %.17g", (long long)t, (long long)off, W[k], eb[k], want); }
    };
    for (size_t i = 0; i < h.size(); ++i) {
        Step p = h[i], q = h[i]; p.t += base; q.t += base + off; exec(*a, o.c, p); exec(*b, o.c, q); compare(h[i].t);
        if (restore && b->isSerializable()) { std::stringstream s(std::ios::in | std::ios::out | std::ios::binary); b->serialize(s); auto n = fresh(o); n->deserialize(s); b = std::move(n); compare(h[i].t); }
    }
    for (T64 t : {1, 2, 6, 14, 60}) compare(end + t);
    x.state(mc::Hash().add((int)o.c.std).add((uint64_t)end).add((uint64_t)h.size()).add((uint64_t)off));
}
// S06: one short history, brought back to rest and repeated many times; after the second round every round adds the same.
std::vector<Step> round(mc::Ctx &x, const Opt &o, T64 &period) {
    T64 end; auto h = draw(x, o, end); Model m(o.c); for (auto &k : h) if (k.e == Ext::none && k.o.t != C::NOP) { m.advance(k.t); m.apply(k.o); }
    T64 t = end + longest(o.c); auto put = [&](C c, int r) { m.advance(t); const Op op{c, r, 0}; if (!m.legal(op)) return; m.apply(op); Step k; k.o = op; k.t = t; h.push_back(k); t += longest(o.c); };
    for (int r = 0; r < (int)o.c.ranks; ++r) { for (C c : {C::PDXA, C::PDXP, C::DSMEX, C::SREFEX}) put(c, r); if (Model::anyOpen(m.r[(size_t)r])) put(C::PREA, r); }
    m.advance(t); for (auto &R : m.r) if (!m.allIdle(R) || !m.rankFree(R)) x.fail("harness: the device does not come to rest");
    period = t + 8; period += period % 2; return h;
}
void repeated(mc::Ctx &x, const Opt &o, int n, bool restore) {
    T64 P; auto h = round(x, o, P); auto d = fresh(o); Report r[3]; Report names = stats(*d, 0, true); double e[3] = {}; T64 now = 0; x.log("repeated %d times, every %lld cycles", n, (long long)P);
    auto once = [&] { for (auto k : h) { k.t += now; exec(*d, o.c, k); } now += P; };
    auto energy = [&] { return d->getTotalEnergy((timestamp_t)now); };
    for (int i = 0; i < 3; ++i) { once(); r[i] = stats(*d, now); e[i] = energy(); x.step((int)h.size()); }
    for (int i = 3; i < n; ++i) {
        once();
        if (restore && i % 7 == 0 && d->isSerializable()) { std::stringstream q(std::ios::in | std::ios::out | std::ios::binary); d->serialize(q); auto f = fresh(o); f->deserialize(q); d = std::move(f); }
    }
    Report got = stats(*d, now); x.step(n * (int)h.size());
    for (size_t i = 0; i < got.v.size(); ++i) {
        const int64_t per = (int64_t)(r[2].v[i] - r[1].v[i]), want = (int64_t)r[1].v[i] + per * (n - 2); const bool est = names.n[i].compare(0, 4, "tog.") == 0; // estimates are rounded products
        if (est ? std::fabs((double)((int64_t)got.v[i] - want)) > 2.5 * (n + 4) * (double)(o.c.width * o.c.devices) : (int64_t)got.v[i] != want)
            x.fail("%s is %lld after %d rounds instead of %lld (%lld after two, %lld after three)", names.n[i].c_str(), (long long)got.v[i], n, (long long)want, (long long)r[1].v[i], (long long)r[2].v[i]);
    }
    const double want = e[1] + (e[2] - e[1]) * (n - 2), have = energy(); if (!o.tog && !(std::fabs(have - want) <= 1e-8 * std::fabs(want))) x.fail("the total energy is %.17g after %d rounds instead of %.17g (%.17g after two, %.17g after three)", have, n, want, e[1], e[2]);
    x.state(mc::Hash().add((int)o.c.std).add((uint64_t)P).add((uint64_t)h.size()).add(n));
}
void repeats() {
    for (Std s : kAll) {
        const std::string n = kStdName[s];
        auto two = [&](const char *name, const char *note, int many, std::function<void(mc::Ctx &, Opt &)> setup, bool restore = false) { mc::dfs("S06", n + " " + name, note, [=](mc::Ctx &x) { Opt o; o.c = cfg(s, 1); setup(x, o); repeated(x, o, many, restore); }); };
        two("commands", "all legal sequences of 2 (thorough: 3) commands on two ranks from closed and open rows, brought to rest and repeated 300 times", 300, [=](mc::Ctx &x, Opt &o) { o.c = cfg(s, 2); o.ops = deviceAlphabet(s, 2); o.pays = {2}; o.open = x.flip(); o.depth = x.thorough() ? 3 : o.open ? 1 : 2; });
        two("data", "all sequences of 2 (thorough: 3) accesses and feature switches with open rows, repeated 300 times, both data modes", 300, [=](mc::Ctx &x, Opt &o) { o.tog = x.flip(); o.open = true; o.ops = dataAlphabet(); o.ops.resize(2); o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = {o.tog ? -1 : 0, 2}; if (s >= L5) o.c.wckAlwaysOn = x.flip(); o.depth = x.thorough() ? 3 : 2; if (s != S5) o.ext = {Ext::dbiOn, Ext::dbiOff}; if (s == L6) o.ext = {Ext::dbiOn, Ext::meta}; });
        two("many", "every command from closed and open rows, repeated 70000 times", 70000, [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); o.pays = {2}; o.open = x.flip(); o.depth = 1; });
        two("restored", "every command from open rows, repeated 300 times, saved and restored every seventh time", 300, [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); o.pays = {2}; o.open = true; if (s != S5) o.ext = {Ext::dbiOn}; o.depth = x.thorough() ? 2 : 1; }, true);
    }
    mc::assume("S06", "Legal histories that bring the device back to rest; a round takes an even number of cycles; energies compared to a relative 1e-8; estimated line counts to within rounding.");
}
// S07: exchanging two ranks, or the banks of every rank along one address bit, throughout a history renames the results and nothing else.
// These exchanges generate all permutations of ranks and all exchanges of bank address bits' values.
void renamed(mc::Ctx &x, const Opt &o) {
    const int R = (int)o.c.ranks, N = (int)o.c.banks, D = (int)o.c.devices; int bits = 0; while ((1 << bits) < N) ++bits;
    T64 end; auto h = draw(x, o, end); const int g = x.pick(bits + R - 1); const int mask = g < bits ? 1 << g : 0, r0 = g < bits ? 0 : g - bits;
    auto rk = [&](int r) { return g < bits ? r : r == r0 ? r0 + 1 : r == r0 + 1 ? r0 : r; };
    if (mask) x.log("bank address bit %d inverted", g); else x.log("ranks %d and %d exchanged", r0, r0 + 1);
    auto a = fresh(o), b = fresh(o);
    auto compare = [&](T64 t) {
        SimulationStats p = a->getWindowStats((timestamp_t)t), q = b->getWindowStats((timestamp_t)t), w = p; x.step(2); if (p.bank.size() != (size_t)(R * N) || p.rank_total.size() != (size_t)R) x.fail("%d banks and %d ranks reported", (int)p.bank.size(), (int)p.rank_total.size());
        for (int r = 0; r < R; ++r) { w.rank_total[(size_t)rk(r)] = p.rank_total[(size_t)r]; for (int k = 0; k < N; ++k) w.bank[(size_t)(rk(r) * N + (k ^ mask))] = p.bank[(size_t)(r * N + k)]; }
        if (mask) w.commandBus = q.commandBus; // it carries the bank addresses
        Report e, f; put(e, w); put(f, q);
        if (!(e == f)) { Report n; n.named = true; put(n, w); for (size_t i = 0; i < e.v.size(); ++i) if (e.v[i] != f.v[i]) x.fail("at %lld %s is %lld instead of %lld", (long long)t, n.n[i].c_str(), (long long)f.v[i], (long long)e.v[i]); }
        energy_t ea = a->calcCoreEnergy((timestamp_t)t), eb = b->calcCoreEnergy((timestamp_t)t);
        auto near = [&](double u, double v, const char *what, int i) { if (!(std::fabs(u - v) <= 1e-11 * std::fabs(v))) x.fail("at %lld %s %d is %.17g instead of %.17g", (long long)t, what, i, u, v); };
        for (int r = 0; r < R; ++r) for (int d = 0; d < D; ++d) for (int k = 0; k < N; ++k) near(eb.bank_energy[(size_t)((rk(r) * D + d) * N + (k ^ mask))].total(), ea.bank_energy[(size_t)((r * D + d) * N + k)].total(), "the energy of bank", (r * D + d) * N + k);
        near(eb.total(), ea.total(), "core energy", 0); if (!mask) near(b->calcInterfaceEnergy((timestamp_t)t).total(), a->calcInterfaceEnergy((timestamp_t)t).total(), "interface energy", 0);
        if (a->getLastCommandTime() != b->getLastCommandTime()) x.fail("last command at %lld and %lld", (long long)a->getLastCommandTime(), (long long)b->getLastCommandTime());
    };
    for (auto k : h) {
        exec(*a, o.c, k);
        if (k.e == Ext::none) { k.o.rank = rk(k.o.rank); switch (k.o.t) { case C::ACT: case C::PRE: case C::RD: case C::RDA: case C::WR: case C::WRA: case C::PRESB: case C::REFSB: case C::REFB: case C::REFP2B: case C::REFDB: k.o.bank ^= mask; k.o.dbank ^= mask; break; default: break; } }
        exec(*b, o.c, k); compare(k.t);
    }
    for (T64 t : {3, 11, 60}) compare(end + t);
    mc::Hash H; H.add((int)o.c.std).add(g); for (auto &k : h) H.add((uint64_t)k.t).add((int)k.o.t).add(k.o.rank).add(k.o.bank).add((int)k.e).add(k.pay); x.state(H);
}
void renames() {
    for (Std s : kAll) {
        const std::string n = kStdName[s];
        auto big = [=](Opt &o, int ranks, int devices) { o.c = cfg(s, (uint64_t)ranks); o.c.devices = s == L6 ? 1 : (uint64_t)devices; o.c.banks = s == S5 ? 32 : s == L4 ? 8 : 16; o.c.groups = s == S5 ? 8 : s == L4 ? 1 : 4; o.open = true; o.b0 = 1; o.b1 = (int)o.c.banks - 2; };
        auto two = [&](const char *name, const char *note, std::function<void(mc::Ctx &, Opt &)> setup) { mc::dfs("S07", n + " " + name, note, [=](mc::Ctx &x) { Opt o; setup(x, o); renamed(x, o); }); };
        two("commands", "all legal sequences of 2 (thorough: 3) commands on two banks of two ranks of full size, two activated rows", [=](mc::Ctx &x, Opt &o) {
            big(o, 2, 2); o.ops = deviceAlphabet(s, 2); for (auto &k : o.ops) if (k.t != C::REFDB) k.bank = k.bank ? o.b1 : o.b0; o.pays = {2}; o.open = x.flip(); o.depth = x.thorough() ? 3 : 2; });
        two("ranks", "row commands, refreshes and power-down entries on three ranks, all sequences of 3 (thorough: 4)", [=](mc::Ctx &x, Opt &o) {
            big(o, 3, 1);
            Alphabet a; for (int r = 0; r < 3; ++r) for (C c : {C::ACT, C::RDA, C::REFA, C::PDEA}) a.push_back({c, r, c == C::ACT ? o.b1 : c == C::RDA ? o.b0 : 0}); o.ops = a; o.pays = {2}; o.dts = {8, 13}; o.depth = x.thorough() ? 4 : 3; });
        two("data", "accesses on two ranks and two banks, back to back and spaced, with payloads, inversion switched on or off, both data modes", [=](mc::Ctx &x, Opt &o) {
            big(o, 2, 1); o.tog = x.flip(); o.ops = {{C::RD, 0, o.b0}, {C::WR, 0, o.b1}, {C::RDA, 0, o.b1}, {C::ACT, 1, o.b1}, {C::WRA, 1, o.b1}}; o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = {o.tog ? -1 : 0, 2}; if (s != S5) o.ext = {Ext::dbiOn}; o.depth = x.thorough() ? 4 : 3; });
    }
    mc::assume("S07", "Legal histories; commands at least 4 cycles apart and bursts not overlapping; the number of banks is a power of two.");
}
// S08: everything that can be asked in more than one way has one answer, and driving a device in one call or another is the same.
void agree(mc::Ctx &x, const Opt &o) {
    T64 end; auto h = draw(x, o, end); auto a = fresh(o), b = fresh(o); T64 last = 0; x.step((int)h.size());
    auto same = [&](const char *what, T64 t, const Report &p, const Report &q) { if (!(p == q)) for (size_t i = 0; i < p.v.size(); ++i) if (p.v[i] != q.v[i]) x.fail("%s differ at t=%lld in entry %d: %llu and %llu", what, (long long)t, (int)i, (unsigned long long)p.v[i], (unsigned long long)q.v[i]); };
    auto all = [](const energy_t &e) { Report r; for (auto &k : e.bank_energy) { r.d("", k.E_act); r.d("", k.E_pre); r.d("", k.E_bg_act); r.d("", k.E_bg_pre); r.d("", k.E_RD); r.d("", k.E_WR); r.d("", k.E_RDA); r.d("", k.E_WRA); r.d("", k.E_pre_RDA); r.d("", k.E_pre_WRA); r.d("", k.E_ref_AB); r.d("", k.E_ref_PB); r.d("", k.E_ref_SB); r.d("", k.E_ref_2B); r.d("", k.E_ref_DB); } put(r, e); return r; };
    auto check = [&](T64 t) {
        x.step(8); const timestamp_t T = (timestamp_t)t;
        if ((T64)a->getLastCommandTime() != last || (T64)b->getLastCommandTime() != last) x.fail("the last command was at %lld, reported are %lld and %lld", (long long)last, (long long)a->getLastCommandTime(), (long long)b->getLastCommandTime());
        SimulationStats s = a->getWindowStats(T); Report w, v; put(w, s); put(v, b->getWindowStats(T)); same("one command call and the other", t, w, v);
        if (t == last) { Report g; put(g, a->getStats()); same("statistics and statistics at the last command", t, w, g); }
        Report e = all(a->calcCoreEnergy(T)), f = all(a->calcCoreEnergyStats(s)); same("core energy and core energy of the statistics", t, e, f);
        Report i, j; put(i, a->calcInterfaceEnergy(T)); put(j, a->calcInterfaceEnergyStats(s)); same("interface energy and interface energy of the statistics", t, i, j);
        Report k = all(fresh(o)->calcCoreEnergyStats(s)), l; put(l, fresh(o)->calcInterfaceEnergyStats(s)); same("core energy on this and on a fresh device", t, e, k); same("interface energy on this and on a fresh device", t, i, l);
        const double want = a->calcCoreEnergy(T).total() + a->calcInterfaceEnergy(T).total(), got = a->getTotalEnergy(T); if (!(std::fabs(want - got) <= 1e-12 * std::fabs(want))) x.fail("the total energy at t=%lld is %.17g instead of %.17g", (long long)t, got, want);
        auto arch = a->getCLIArchitectureConfig(); if (arch.rankCount != o.c.ranks || arch.bankCount != o.c.banks || arch.deviceCount != o.c.devices) x.fail("%d ranks, %d banks, %d devices reported", (int)arch.rankCount, (int)arch.bankCount, (int)arch.deviceCount);
    };
    check(0);
    for (auto &k : h) {
        if (k.e == Ext::none && k.o.t != C::NOP) { a->doCommand(command(o.c, k)); b->doCoreInterfaceCommand(command(o.c, k)); last = k.t; } else { exec(*a, o.c, k); exec(*b, o.c, k); }
        check(k.t);
    }
    for (T64 t : {1, 9, 50}) check(end + t);
    mc::Hash H; H.add((int)o.c.std).add(o.tog); for (auto &k : h) H.add((uint64_t)k.t).add((int)k.o.t).add(k.o.rank).add(k.o.bank).add((int)k.e).add(k.pay); x.state(H);
}
void agreement() {
    for (Std s : kAll) {
        const std::string n = kStdName[s];
        auto two = [&](const char *name, const char *note, std::function<void(mc::Ctx &, Opt &)> setup) { mc::dfs("S08", n + " " + name, note, [=](mc::Ctx &x) { Opt o; o.c = cfg(s, 2); setup(x, o); agree(x, o); }); };
        two("commands", "all legal sequences of 2 (thorough: 3) commands on two ranks from closed and open rows, both data modes", [=](mc::Ctx &x, Opt &o) { if (s != L6) o.c.devices = 2; o.tog = x.flip(); o.ops = deviceAlphabet(s, 2); o.pays = {o.tog ? -1 : 2}; o.open = x.flip(); o.depth = x.thorough() ? 3 : 2; });
        two("data", "all sequences of 3 (thorough: 4) accesses and feature switches with open rows, both data modes", [=](mc::Ctx &x, Opt &o) { o.tog = x.flip(); o.open = true; o.ops = dataAlphabet(); o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = {o.tog ? -1 : 0, 2}; if (s != S5) o.ext = {Ext::dbiOn, Ext::dbiOff}; o.depth = x.thorough() ? 4 : 3; if (!x.thorough()) o.ops.resize(3); });
    }
    mc::assume("S08", "Legal histories; commands at least 4 cycles apart and bursts not overlapping.");
}
void reg() {
    repeats(); renames(); agreement();
    static const std::vector<T64> OFF{1, 7, (1ll << 32) - 14, (1ll << 33) + 3}, FEW{3, (1ll << 33) + 3};
    for (Std s : kAll) {
        const std::string n = kStdName[s];
        mc::dfs("S05", n + " idle", "devices of every width, rank count and data mode that receive nothing, at times up to 2^40", [s](mc::Ctx &x) {
            Opt o; o.c = cfg(s, 1 + (uint64_t)x.pick(2)); o.tog = x.flip(); if (s != L6) o.c.width = x.oneof(std::vector<uint64_t>{4, 8, 16, 64}); if (s >= L5) { o.c.DR = o.c.WCK2CK = x.flip() ? 2 : 4; o.c.wckAlwaysOn = x.flip(); }
            idle(x, o, {1, 2, 3, 4, 5, 16, 17, 1000, 65535, 65536, (1ll << 31) + 1, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, 1ll << 33, (1ll << 40) + 12345}); });
        auto two = [&](const char *name, const char *note, std::function<void(mc::Ctx &, Opt &)> setup, bool restore = false) { mc::dfs("S05", n + " " + name, note, [=](mc::Ctx &x) { Opt o; o.c = cfg(s, 1); setup(x, o); delayed(x, o, x.thorough() ? OFF : FEW, restore); }); };
        two("commands", "all legal sequences of 2 (thorough: 3) commands of the standard's alphabet from all closed and two open rows, delayed by few cycles and by more than 2^33", [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); o.pays = {2}; o.open = x.flip(); o.depth = x.thorough() ? 3 : 2; });
        two("ranks", "two ranks, all sequences of 2 (thorough: 3) commands after two activates", [=](mc::Ctx &x, Opt &o) { o.c = cfg(s, 2); o.ops = deviceAlphabet(s, 2); o.open = true; o.pays = {2}; o.depth = x.thorough() ? 3 : 2; });
        two("data", "open rows, all sequences of 3 (thorough: 4) reads and writes with two payloads and inversion switched on or off anywhere, back to back and spaced, both data modes", [=](mc::Ctx &x, Opt &o) {
            o.tog = x.flip(); o.open = true; o.ops = dataAlphabet(); o.ops.resize(2); if (s >= L5) o.c.wckAlwaysOn = x.flip(); o.dts = {burst(o.c), burst(o.c) + 3}; o.pays = o.tog ? std::vector<int>{-1, 2} : std::vector<int>{0, 2}; o.depth = x.thorough() ? 4 : 3; if (s != S5) o.ext = {Ext::dbiOn, Ext::dbiOff}; if (s == L6) o.ext = {Ext::dbiOn, Ext::meta}; });
        two("restored", "all sequences of 2 (thorough: 3) commands from two open rows; the late device is saved and restored wherever that is allowed", [=](mc::Ctx &x, Opt &o) { o.ops = deviceAlphabet(s, 1); o.open = true; o.pays = {2}; if (s != S5) o.ext = {Ext::dbiOn}; o.depth = x.thorough() ? 3 : 2; }, true);
    }
    mc::assume("S05", "Legal histories beginning at least 10 cycles after time zero; commands at least 4 cycles apart and bursts not overlapping; energies compared to a relative 1e-10, estimated line counts to within rounding.");
}
MC_REGISTER(reg);
} // namespace
