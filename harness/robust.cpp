// R01: legal use of complete devices under address and undefined-behaviour sanitizers, with the library's own assertions enabled.
#include "mc.h"
#include "hist.h"
#include <sstream>
extern "C" const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:handle_abort=0:detect_stack_use_after_return=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=1"; }
namespace {
using namespace hist;

void ask(Dev &d, T64 t, bool full) {
    report(d, t, true);
    if (!full) return;
    auto e = d.calcCoreEnergy((timestamp_t)t); e.aggregated_bank_energy(); json_t j; e.to_json(j); d.calcInterfaceEnergy((timestamp_t)t).to_json(j); (void)d.getStats();
}
void devices(mc::Ctx &x, Opt o, bool restore) {
    o.tog = x.flip(); T64 end = 0; auto h = draw(x, o, end); auto sim = o.tog ? togSim() : config::SimConfig{}; auto d = make(o.c, sim);
    try {
        for (auto &s : h) {
            exec(*d, o.c, s); x.step(); mc::Hash k; for (auto v : report(*d, s.t, false).v) k.add(v); x.state(k);
            if (restore && d->isSerializable()) { std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary); d->serialize(ss); auto n = make(o.c, sim); n->deserialize(ss); d = std::move(n); }
        }
        for (T64 t : {0, 1, 9, 60}) ask(*d, end + t, t == 60);
    } catch (const std::exception &e) { x.fail("%s: a legal history ends with an exception: %s", kStdName[o.c.std], e.what()); }
}
// the core alone takes commands at any distance
void cores(mc::Ctx &x, const Cfg &c, int depth, std::vector<T64> dts) {
    auto a = fullAlphabet(c.std, 1); if (c.std == S4 || c.std == L4) per(a, {C::RD, C::WR}, {0}, 1);
    Model m(c); auto d = make(c); T64 now = 0; x.log("%s", kStdName[c.std]);
    try {
        for (int i = 0; i < depth; ++i) {
            now += x.oneof(dts); m.advance(now); std::vector<int> can; for (size_t k = 0; k < a.size(); ++k) if (m.legal(a[k])) can.push_back((int)k);
            if (can.empty()) { x.log("t=%d nothing is legal", (int)now); continue; }
            const Op &op = a[(size_t)can[(size_t)x.pick((int)can.size())]]; x.log("t=%d %s", (int)now, mdl::show(op).c_str()); m.apply(op); send(*d, c, op, now); x.step(); x.state(mc::Hash().add(m.canon(2)).add((int)c.std));
        }
        m.advance(now + longest(c)); for (T64 t : {0, 1, 5}) d->getWindowStats((timestamp_t)(now + t)); d->getWindowStats((timestamp_t)(now + longest(c)));
    } catch (const std::exception &e) { x.fail("%s: a legal history ends with an exception: %s", kStdName[c.std], e.what()); }
}
void reg() {
    for (Std s : kAll) {
        const std::string n = kStdName[s];
        auto opt = [s](mc::Ctx &x) {
            Opt o; o.c = cfg(s, 2); o.ops = deviceAlphabet(s, 2); o.pays = {-1, 2}; o.ext = {Ext::dbiOn, Ext::dbiOff}; if (s == S5) o.ext = {};
            if (s == L6) { o.c.wckAlwaysOn = x.flip(); o.ext = {Ext::dbiOn, Ext::meta, Ext::off, Ext::on}; if (o.c.wckAlwaysOn) o.ext.push_back(Ext::parity); } o.depth = x.thorough() ? 3 : 2; o.dts = {4, 13}; o.open = x.flip(); return o; };
        mc::dfs("R01", n + " histories", "all legal sequences of 2 (thorough: 3) commands and feature switches, with and without payload, from all closed and two open rows, both data modes; everything asked after every step, devices saved and restored wherever that is allowed", [opt](mc::Ctx &x) { Opt o = opt(x); devices(x, o, x.flip()); });
        mc::dfs("R01", n + " data", "all sequences of 3 (thorough: 4) accesses with and without payload and feature switches, back to back and spaced", [s](mc::Ctx &x) {
            Opt o; o.c = cfg(s, 1); o.ops = dataAlphabet(); o.ops.pop_back(); o.open = true; o.pays = {-1, 1, 3}; o.ext = {Ext::dbiOn, Ext::dbiOff}; if (s == S5) o.ext = {}; if (s == L6) o.ext = {Ext::dbiOn, Ext::meta}; o.depth = x.thorough() ? 4 : 3; o.dts = {(T64)std::max<T64>(4, burst(o.c)), 13}; devices(x, o, false); });
        mc::dfs("R01", n + " burst lengths", "all sequences of 3 (thorough: 4) accesses of every burst length, with and without payload and inversion", [s](mc::Ctx &x) {
            Opt o; o.c = cfg(s, 1); o.ops = dataAlphabet(); o.ops.resize(2); o.open = true; o.lens = burstLengths(s); o.pays = {-1, 2}; if (s != S5) o.ext = {Ext::dbiOn}; o.depth = x.thorough() ? 4 : 3; o.dts = {burst(o.c, o.lens.back())}; devices(x, o, x.flip()); });
        mc::dfs("R01", n + " shapes", "pairs of accesses and feature switches on devices of three (thorough: five) widths, every burst length, rate, number of devices and ranks (quick: up to 32 data lines)", [s](mc::Ctx &x) {
            Opt o; o.c = cfg(s, 1 + (uint64_t)x.pick(2) * 3); static const std::vector<uint64_t> W{4, 8, 16, 32, 64}, few{4, 16, 64}; o.c.width = s == L6 ? 12 : x.oneof(x.thorough() ? W : few); o.c.devices = s == L6 ? 1 : x.oneof(std::vector<uint64_t>{1, 2, 8});
            static const std::vector<uint64_t> BL[] = {{8, 4}, {16, 8, 32}, {16, 32}, {16, 32}, {24, 48}}; o.c.BL = x.oneof(BL[s]); if (s >= L5) { o.c.DR = o.c.WCK2CK = x.flip() ? 2 : 4; } else o.c.DR = x.flip() ? 2 : 4;
            if (s >= L5) o.c.wckAlwaysOn = x.flip();
            o.ops = dataAlphabet(); o.open = true; if (s != S5 && (s == L6 || o.c.width * o.c.devices % 8 == 0)) o.ext = {Ext::dbiOn}; o.pays = {-1, 3}; o.depth = 2; o.dts = {16}; if (!x.thorough() && o.c.width * o.c.devices > 32) x.reject(); devices(x, o, x.thorough() || o.c.ranks == 1); });
        mc::dfs("R01", n + " core spacings", "all legal sequences of 3 commands of every kind at distances of 1 and 8 (thorough: also 0 and 2) cycles, two timing sets", [s](mc::Ctx &x) { cores(x, x.flip() ? alt(s) : mdl::base(s), 3, x.thorough() ? std::vector<T64>{0, 1, 2, 8} : std::vector<T64>{1, 8}); });
    }
    mc::assume("R01", "Legal command sequences as in the core and interface properties; command-bus words and bursts do not overlap; LPDDR6 devices have 12 data lines.");
}
MC_REGISTER(reg);
} // namespace
