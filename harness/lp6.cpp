// P01: LPDDR6 bursts: where every payload bit, metadata bit and inversion flag ends up.
#include "model.h"
#include "wave.h"
#include "lp6.h"
using namespace DRAMPower;
using namespace DRAMPower::util;
using namespace dev;
using namespace wv;
namespace {
// One burst's sources: payload bits, metadata (16 per half), inversion flags (16 per half).
struct Src { std::vector<uint8_t> data; uint16_t meta[2] = {0, 0}; uint32_t flags = 0; bool haveFlags = true; int halves = 1;
    int count() const { return halves * (256 + 16) + (haveFlags ? halves * 16 : 0); }
    void flip(int k) { int p = halves * 256, m = halves * 16; if (k < p) data[(size_t)k / 8] ^= (uint8_t)(1 << k % 8); else if (k < p + m) meta[(k - p) / 16] ^= (uint16_t)(1u << (k - p) % 16); else flags ^= 1u << (k - p - m); }
    std::string name(int k) const { int p = halves * 256, m = halves * 16; return k < 0 ? "nothing" : k < p ? mc::fmt("payload bit %d", k) : k < p + m ? mc::fmt("metadata bit %d.%d", (k - p) / 16, (k - p) % 16) : mc::fmt("inversion flag %d", k - p - m); }
};
void fill(Src &s, int kind) {
    s.data.assign((size_t)s.halves * 32, 0);
    for (size_t i = 0; i < s.data.size(); ++i) s.data[i] = kind == 0 ? 0 : kind == 1 ? 0xff : (uint8_t)(i * 37 + 11 + (i >> 3));
    for (int h = 0; h < 2; ++h) s.meta[h] = h >= s.halves || kind == 0 ? 0 : kind == 1 ? 0xffff : h ? 0x7e01 : 0x8421;
    uint32_t f = kind == 0 ? 0 : kind == 1 ? 0xffffffffu : 0xa5c30f96u; s.flags = s.halves == 1 ? f & 0xffff : f; if (!s.haveFlags) s.flags = 0;
}
// The beats the bus drives: the last 12-bit group of the stream goes out first, bit 11 of a group is the first line.
std::vector<std::vector<bool>> beatsOf(const uint8_t *d, int halves) {
    int n = halves * 24; std::vector<std::vector<bool>> out; for (int b = 0; b < n; ++b) { std::vector<bool> l(12); for (int dq = 0; dq < 12; ++dq) { int k = (n - 1 - b) * 12 + 11 - dq; l[(size_t)dq] = (d[k / 8] >> (k % 8)) & 1; } out.push_back(l); } return out;
}
std::vector<std::vector<bool>> want(const Src &s) { std::vector<std::vector<bool>> r; for (int h = 0; h < s.halves; ++h) for (auto &l : lp6Beats(s.data.data(), h, s.meta[h], s.flags)) r.push_back(l); return r; }
using Fmt = LPDDR6Interface::DataFormatter;
std::vector<std::vector<bool>> run(mc::Ctx &x, Fmt &f, const Src &s) {
    std::vector<bool> inv((size_t)s.halves * 16); for (size_t i = 0; i < inv.size(); ++i) inv[i] = s.flags >> i & 1;
    f.m_metaData = {s.meta[0], s.meta[1]}; auto keep = s.data;
    auto [p, n] = f.formatData(s.data.data(), s.data.size() * 8, s.haveFlags ? std::make_optional(std::reference_wrapper<const std::vector<bool>>(inv)) : std::nullopt); x.step();
    if (n != (size_t)s.halves * 288) { x.fail("burst of %d bits instead of %d", (int)n, s.halves * 288); return {}; }
    if (s.data != keep) x.fail("the payload was modified"); return beatsOf(p, s.halves);
}
void match(mc::Ctx &x, const std::vector<std::vector<bool>> &got, const Src &s, const char *what) {
    auto w = want(s); if (got.size() != w.size()) { x.fail("%s: %d beats", what, (int)got.size()); return; }
    for (size_t b = 0; b < w.size(); ++b) for (size_t q = 0; q < 12; ++q) if (got[b][q] != w[b][q]) { x.fail("%s: beat %d line %d is %d", what, (int)b, (int)q, (int)got[b][q]); return; }
}
void positions(mc::Ctx &x) {
    Src s; s.halves = 1 + x.pick(2); s.haveFlags = x.flip(); fill(s, x.pick(3)); Src t = s; int k = x.pick(s.count()); t.flip(k); x.log("%d half bursts, %s flipped", s.halves, s.name(k).c_str());
    Fmt f; auto a = run(x, f, s), b = run(x, f, t); match(x, a, s, "before"); match(x, b, t, s.name(k).c_str());
    int diff = 0; for (size_t i = 0; i < a.size() && i < b.size(); ++i) for (size_t q = 0; q < 12; ++q) diff += a[i][q] != b[i][q]; if (diff != 1) x.fail("%s changes %d positions of the burst", s.name(k).c_str(), diff);
}
void pairs(mc::Ctx &x) {
    Src s; s.halves = 1 + x.pick(2); if (!x.thorough() && s.halves == 2) x.reject(); fill(s, x.pick(x.thorough() ? 3 : 1)); int n = s.count(), k = x.pick(n), l = x.pick(n); if (l <= k) x.reject(); s.flip(k); s.flip(l); x.log("%d half bursts: %s and %s", s.halves, s.name(k).c_str(), s.name(l).c_str());
    Fmt f; match(x, run(x, f, s), s, "pair");
}
void reuse(mc::Ctx &x) { // one formatter for a sequence of bursts: nothing of an earlier burst remains
    Fmt f; for (int i = 0; i < (x.thorough() ? 4 : 3); ++i) { Src s; s.halves = 1 + x.pick(2); s.haveFlags = x.flip(); fill(s, x.pick(3)); if (s.halves == 1 && x.flip()) s.meta[1] = 0xffff; x.log("burst %d: %d halves%s first byte %02x", i, s.halves, s.haveFlags ? "" : " without flags", s.data[0]); match(x, run(x, f, s), s, "burst in a sequence"); }
}
void estimated(mc::Ctx &x) { Fmt f; int h = 1 + x.pick(2); f.m_metaData = {(uint16_t)(x.flip() ? 0xffff : 0), 0}; bool fl = x.flip(); std::vector<bool> inv(32, true); auto [p, n] = f.formatData(nullptr, (size_t)h * 256, fl ? std::make_optional(std::reference_wrapper<const std::vector<bool>>(inv)) : std::nullopt); x.step(); if (p != nullptr || n != (size_t)h * 288) x.fail("a burst without content occupies %d bits instead of %d", (int)n, h * 288); }
// The complete device: one burst with a single payload bit set or cleared, statistics at every cycle.
void device(mc::Ctx &x) {
    Cfg c = mdl::base(L6); Src s; s.halves = 1 + x.pick(2); bool rd = x.flip(), dbi = x.flip(), meta = x.flip(); s.haveFlags = dbi; int kind = x.pick(2); fill(s, kind); s.flags = 0; s.meta[0] = s.meta[1] = 0;
    int k = x.pick(s.halves * 256); s.flip(k); if (meta) { s.meta[0] = (uint16_t)(1u << k % 16); s.meta[1] = (uint16_t)~(1u << k / 16 % 16); }
    auto d = make(c, {}); auto &m = d->getExtensionManager(); if (dbi && !m.getExtension<extensions::DBI>().lock()->enable(0, true)) { x.fail("inversion refused"); return; }
    if (meta) m.getExtension<extensions::MetaData>().lock()->setMetaData(s.meta[0], s.meta[1]);
    Src tx = s; if (dbi) for (size_t ch = 0; ch * 2 < tx.data.size(); ++ch) { int ones = __builtin_popcount(tx.data[ch * 2]) + __builtin_popcount(tx.data[ch * 2 + 1]); if (ones > 8) { tx.data[ch * 2] ^= 0xff; tx.data[ch * 2 + 1] ^= 0xff; tx.flags |= 1u << ch; } }
    x.log("%s of %d beats, %s, inversion %d metadata %d", rd ? "read" : "write", s.halves * 24, s.name(k).c_str(), dbi, meta);
    auto orig = s.data; Command cmd{0, rd ? CmdType::RD : CmdType::WR, {0, 0, 0, 0, 0}, s.data.data(), s.data.size() * 8}; d->doInterfaceCommand(cmd); if (s.data != orig) x.fail("the caller's payload was modified");
    Wave w; w.width = 12; w.dr = c.DR; w.idleH = false; auto b = want(tx); for (size_t i = 0; i < b.size(); ++i) w.driven[i] = b[i]; Wave idle; idle.width = 12; idle.dr = c.DR; idle.idleH = false;
    uint64_t end = (uint64_t)s.halves * 24 / c.DR + 2; for (uint64_t t = 1; t <= end; ++t) { auto st = d->getWindowStats(t); x.step(); auto &g = rd ? st.readBus : st.writeBus, &o = rd ? st.writeBus : st.readBus; auto ws = w.stats(t); if (!(g == ws)) { x.fail("t=%d: %s instead of %s", (int)t, S(g).c_str(), S(ws).c_str()); return; } if (!(o == idle.stats(t))) x.fail("t=%d: the other direction %s", (int)t, S(o).c_str()); }
    x.state(mc::Hash().add(k).add(kind).add(rd).add(dbi).add(meta).add(s.halves));
}
void reg() {
    mc::dfs("P01", "every source at its position", "each payload bit, metadata bit and inversion flag flipped in three base contents, both burst lengths, with and without flags: the whole burst, and exactly one position changes", positions);
    mc::dfs("P01", "pairs of sources", "every pair of sources set together (thorough: both burst lengths and three base contents)", pairs);
    mc::dfs("P01", "sequences of bursts", "all sequences of 3 (thorough: 4) bursts of both lengths, three contents, with and without flags, through one formatter", reuse);
    mc::dfs("P01", "bursts without content", "both lengths, metadata and flags set or not: length only", estimated);
    mc::dfs("P01", "single bits through the device", "each payload bit set or cleared, reads and writes, both lengths, inversion and metadata on and off: data-line statistics at every cycle", device);
}
MC_REGISTER(reg);
} // namespace
