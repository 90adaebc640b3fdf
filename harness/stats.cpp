// U09: statistics records. The reference is the table of leaves below, written out member by member.
#include "mc.h"
#include "DRAMPower/data/stats.h"
#include <sstream>
#include <cstring>
#include <functional>
namespace {
using namespace DRAMPower;
using U = uint64_t;
const U kBig = ((U)1 << 33) + 7;
struct Leaf { std::string path; std::function<U *(SimulationStats &)> at; size_t slot; };
const size_t kSlots = 55 + 6 * 23; // lines, three banks, three ranks
struct Member { const char *name; U *(*at)(CycleStats &); };
#define M(g, f) Member{"/" #g "/" #f, [](CycleStats &c) { return &c.g.f; }}
const Member kCycle[] = {M(counter, act), M(counter, pre), M(counter, reads), M(counter, writes), M(counter, refAllBank), M(counter, refPerBank), M(counter, refPerTwoBanks), M(counter, refDualBanks), M(counter, refSameBank), M(counter, readAuto), M(counter, writeAuto),
    M(cycles, act), M(cycles, pre), M(cycles, powerDownAct), M(cycles, powerDownPre), M(cycles, selfRefresh), M(cycles, deepSleepMode),
    M(prepos, readMerged), M(prepos, readMergedTime), M(prepos, writeMerged), M(prepos, writeMergedTime), M(prepos, readSeamless), M(prepos, writeSeamless)};
#undef M
struct BusMember { const char *name; U *(*at)(util::bus_stats_t &); };
#define M(f) BusMember{"/" #f, [](util::bus_stats_t &c) { return &c.f; }}
const BusMember kBus[] = {M(ones), M(zeroes), M(bit_changes), M(ones_to_zeroes), M(zeroes_to_ones)};
#undef M
struct BusOf { const char *name; util::bus_stats_t *(*at)(SimulationStats &); };
#define M(f) BusOf{"/" #f, [](SimulationStats &s) { return &s.f; }}
const BusOf kLines[] = {M(commandBus), M(readBus), M(writeBus), M(clockStats), M(wClockStats), M(readDBI), M(writeDBI), M(readDQSStats), M(writeDQSStats),
    BusOf{"/togglingStats/read", [](SimulationStats &s) { return &s.togglingStats.read; }}, BusOf{"/togglingStats/write", [](SimulationStats &s) { return &s.togglingStats.write; }}};
#undef M
const std::vector<Leaf> &leaves(size_t banks, size_t ranks) {
    static std::vector<Leaf> all[4][4]; auto &v = all[banks][ranks]; if (!v.empty()) return v; size_t n = 0;
    for (auto &l : kLines) for (auto &b : kBus) v.push_back({std::string(l.name) + b.name, [&l, &b](SimulationStats &s) { return b.at(*l.at(s)); }, n++});
    for (size_t i = 0; i < banks; ++i) for (auto &m : kCycle) v.push_back({mc::fmt("/bank/%zu%s", i, m.name), [i, &m](SimulationStats &s) { return m.at(s.bank[i]); }, n++});
    n = 55 + 3 * 23;
    for (size_t i = 0; i < ranks; ++i) for (auto &m : kCycle) v.push_back({mc::fmt("/rank_total/%zu%s", i, m.name), [i, &m](SimulationStats &s) { return m.at(s.rank_total[i]); }, n++});
    return v;
}
SimulationStats blank(size_t banks, size_t ranks) { SimulationStats s; s.bank.resize(banks); s.rank_total.resize(ranks); return s; }
struct Ref { U v[kSlots] = {}; bool has[kSlots] = {}; bool operator==(const Ref &o) const { return !std::memcmp(v, o.v, sizeof v) && !std::memcmp(has, o.has, sizeof has); } };
void plus(Ref &a, const Ref &b) { for (size_t k = 0; k < kSlots; ++k) { a.v[k] += b.v[k]; a.has[k] = a.has[k] || b.has[k]; } }
Ref read(SimulationStats &s) { Ref r; if (s.bank.size() > 3 || s.rank_total.size() > 3) { r.has[0] = false; return r; } for (auto &l : leaves(s.bank.size(), s.rank_total.size())) { r.v[l.slot] = *l.at(s); r.has[l.slot] = true; } return r; }
void same(mc::Ctx &x, const std::function<std::string()> &what, const Ref &want, const Ref &got) {
    x.step(); if (want == got) return;
    for (auto &l : leaves(3, 3)) { const size_t k = l.slot; if (want.has[k] != got.has[k]) x.fail("%s: %s %s", what().c_str(), got.has[k] ? "unexpected" : "missing", l.path.c_str()); else if (want.v[k] != got.v[k]) x.fail("%s: %s is %llu instead of %llu", what().c_str(), l.path.c_str(), (unsigned long long)got.v[k], (unsigned long long)want.v[k]); }
}
void same(mc::Ctx &x, const char *what, const Ref &want, const Ref &got) { same(x, [&] { return std::string(what); }, want, got); }
// a record with at most one field set; the index of "none" is the number of fields
SimulationStats one(size_t banks, size_t ranks, size_t k, U v) { auto s = blank(banks, ranks); auto &l = leaves(banks, ranks); if (k < l.size()) *l[k].at(s) = v; return s; }

size_t size(mc::Ctx &x) { static const std::vector<size_t> few{0, 2, 3}, all{0, 1, 2, 3}; return x.oneof(x.thorough() ? all : few); }
void add(mc::Ctx &x) {
    const size_t ba = size(x), bb = size(x), ra = size(x), rb = size(x); const U va = x.flip() ? 1 : kBig;
    const size_t na = leaves(ba, ra).size(), nb = leaves(bb, rb).size(), i = (size_t)x.pick((int)na + 1);
    auto start = one(ba, ra, i, va); const Ref A = read(start); x.log("%zu banks, %zu ranks: %s = %llu", ba, ra, i < na ? leaves(ba, ra)[i].path.c_str() : "nothing", (unsigned long long)va);
    for (size_t j = 0; j <= nb; ++j) {
        auto a = start, b = one(bb, rb, j, 3); const Ref B = read(b); a += b; Ref want = A; plus(want, B);
        same(x, [&] { return mc::fmt("added to a record of %zu banks, %zu ranks with %s = 3", bb, rb, j < nb ? leaves(bb, rb)[j].path.c_str() : "nothing"); }, want, read(a)); same(x, "the added record", B, read(b));
        // saying the same sum twice
        if (j == i || j == nb) { a += b; Ref twice = want; plus(twice, B); same(x, "added twice", twice, read(a)); }
    }
}
void equal(mc::Ctx &x) {
    const size_t ba = size(x), bb = size(x), ra = size(x), rb = size(x); const size_t na = leaves(ba, ra).size(), nb = leaves(bb, rb).size(), i = (size_t)x.pick((int)na + 1);
    auto a = one(ba, ra, i, kBig); const Ref A = read(a);
    for (size_t j = 0; j <= nb; ++j) for (U v : {kBig, kBig + 1, (U)7, (U)0}) {
        auto b = one(bb, rb, j, v); const bool want = A == read(b); x.step();
        if ((a == b) != want || (b == a) != want) x.fail("%zu/%zu banks, %zu/%zu ranks: a record with field %zu set and one with field %zu = %llu compare as %s", ba, bb, ra, rb, i, j, (unsigned long long)v, want ? "different" : "equal");
        for (size_t k = 0; k < std::min(ba, bb); ++k) {
            bool w = true; for (auto &m : kCycle) w = w && *m.at(a.bank[k]) == *m.at(b.bank[k]);
            if ((a.bank[k] == b.bank[k]) != w || (a.bank[k].counter == b.bank[k].counter && a.bank[k].cycles == b.bank[k].cycles && a.bank[k].prepos == b.bank[k].prepos) != w) x.fail("bank records with field %zu and field %zu = %llu compare as %s", i, j, (unsigned long long)v, w ? "different" : "equal");
        }
    }
}
void json(mc::Ctx &x) {
    const size_t B = size(x), R = size(x), n = leaves(B, R).size(), i = (size_t)x.pick((int)n + 1), j = (size_t)x.pick((int)n + 1); auto s = one(B, R, i, kBig); if (j < n) *leaves(B, R)[j].at(s) += 5;
    const Ref A = read(s); json_t out = s; x.step();
    for (auto &l : leaves(B, R)) { auto &k = l.path; const U v = A.v[l.slot]; nlohmann::json::json_pointer p(k); if (!out.contains(p)) x.fail("exported record lacks %s", k.c_str()); else if (out.at(p).get<U>() != v) x.fail("exported record has %s = %s instead of %llu", k.c_str(), out.at(p).dump().c_str(), (unsigned long long)v); }
    if (out.flatten().size() < n) x.fail("fields are missing from the exported record");
    SimulationStats back = out.get<SimulationStats>(); same(x, "exported and imported", A, read(back));
    auto into = one(2, 1, n ? i % n % 55 : 0, 99); nlohmann::from_json(out, into); same(x, "imported over another record", A, read(into));
}
void save(mc::Ctx &x) {
    const int n = (int)std::size(kCycle); CycleStats c, d; const int i = x.pick(n + 1), j = x.pick(n + 1), k = x.pick(n + 1); if (i < n) *kCycle[i].at(c) = kBig; if (j < n) *kCycle[j].at(c) += 5; if (k < n) *kCycle[k].at(d) = 77;
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); c.serialize(ss); ss << "tail"; d.deserialize(ss); x.step();
    for (auto &m : kCycle) if (*m.at(c) != *m.at(d)) x.fail("restored record has %s = %llu instead of %llu", m.name, (unsigned long long)*m.at(d), (unsigned long long)*m.at(c));
    std::string rest; ss >> rest; if (rest != "tail") x.fail("restoring reads %s", rest.empty() ? "more than was saved" : "less than was saved");
}
void bus(mc::Ctx &x) {
    const int n = (int)std::size(kBus); util::bus_stats_t a, b; const U V[] = {0, 1, 3, kBig}; U va[5], vb[5];
    const int i = x.pick(n), j = x.pick(n), k = x.pick(n), l = x.pick(n); for (int m = 0; m < n; ++m) va[m] = vb[m] = 0; const U p = x.oneof(std::vector<U>(V, V + 4)), q = x.oneof(std::vector<U>(V, V + 4)), f = x.oneof(std::vector<U>{0, 1, 2, 5});
    va[i] = p; va[j] += 10; vb[k] = q; vb[l] += 20; for (int m = 0; m < n; ++m) { *kBus[m].at(a) = va[m]; *kBus[m].at(b) = vb[m]; }
    auto is = [&](const char *what, util::bus_stats_t s, auto want) { x.step(); for (int m = 0; m < n; ++m) if (*kBus[m].at(s) != want(m)) x.fail("%s: %s is %llu instead of %llu", what, kBus[m].name, (unsigned long long)*kBus[m].at(s), (unsigned long long)want(m)); };
    is("sum", a + b, [&](int m) { return va[m] + vb[m]; }); is("left operand", a, [&](int m) { return va[m]; }); is("right operand", b, [&](int m) { return vb[m]; });
    is("multiple", a * f, [&](int m) { return va[m] * f; }); is("multiple", f * a, [&](int m) { return va[m] * f; });
    auto c = a; c += b; c *= f; is("in place", c, [&](int m) { return (va[m] + vb[m]) * f; });
    bool eq = true; for (int m = 0; m < n; ++m) eq = eq && va[m] == vb[m]; if ((a == b) != eq) x.fail("line statistics compare as %s", eq ? "different" : "equal");
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); a.serialize(ss); c.deserialize(ss); is("restored", c, [&](int m) { return va[m]; });
    json_t o = a; is("exported and imported", o.get<util::bus_stats_t>(), [&](int m) { return va[m]; }); for (int m = 0; m < n; ++m) if (o.at(nlohmann::json::json_pointer(kBus[m].name)).get<U>() != va[m]) x.fail("exported %s differs", kBus[m].name);
}
void reg() {
    mc::dfs("U09", "sums", "records of 0, 2 and 3 (thorough: 0..3) banks and ranks each: every field of the left with every field of the right record, two values", add);
    mc::dfs("U09", "comparison", "every field of one with every field of the other record, records of different sizes, equal, near and zero values", equal);
    mc::dfs("U09", "export", "every pair of fields through JSON and back, into a fresh and a used record", json);
    mc::dfs("U09", "save", "every pair of fields saved and restored into a record with another field set", save);
    mc::dfs("U09", "line statistics", "every combination of fields and values: sum, multiple, comparison, save, export", bus);
}
MC_REGISTER(reg);
} // namespace
