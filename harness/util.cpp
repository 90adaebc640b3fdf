// U01-U08: the building blocks: bit sets, interval counters, deferred commands, pattern encoder, extension
// managers, command router and command names, each run over every short sequence of its operations next to
// a plain reference.
#include "hist.h"
#include <DRAMPower/util/dynamic_bitset.h>
#include <DRAMPower/util/sub_bitset.h>
#include <DRAMPower/util/binary_ops.h>
#include <DRAMPower/util/cycle_stats.h>
#include <DRAMPower/util/ImplicitCommandHandler.h>
#include <DRAMPower/util/PatternHandler.h>
#include <DRAMPower/util/Router.h>
#include <DRAMPower/util/RegisterHelper.h>
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_manager_static.h>
#include <DRAMPower/util/extensions.h>
#include <DRAMPower/command/Pattern.h>
#include <array>
#include <functional>
#include <set>
#include <sstream>
using namespace DRAMPower;
using namespace DRAMPower::util;
using namespace hist;
namespace {
using Bits = std::vector<bool>;
std::string str(const Bits &b) { std::string s; for (size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0'; return s.empty() ? "(empty)" : s; }
uint64_t low(const Bits &b) { uint64_t v = 0; for (size_t i = 0; i < b.size() && i < 64; ++i) if (b[i]) v |= 1ull << i; return v; }
Bits patt(size_t n, int kind) { Bits b(n); for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? false : kind == 1 ? true : kind == 2 ? i % 2 == 0 : i % 3 == 2; return b; }
size_t ones(const Bits &b) { size_t k = 0; for (bool x : b) k += x; return k; }

// ---- U01 ---------------------------------------------------------------------------------------------
template <size_t B> dynamic_bitset<B> built(const Bits &b) { dynamic_bitset<B> r; for (bool x : b) r.push_back(x); return r; }
template <size_t B> void sameDyn(mc::Ctx &x, const dynamic_bitset<B> &a, const Bits &m, const char *what) {
    x.step();
    if (a.size() != m.size()) { x.fail("%s: size %d instead of %d", what, (int)a.size(), (int)m.size()); return; }
    if (a.count() != ones(m)) x.fail("%s: count %d of %s", what, (int)a.count(), str(m).c_str());
    for (size_t i = 0; i < m.size(); ++i) if (a[i] != m[i]) { x.fail("%s: bit %d is %d in %s", what, (int)i, (int)a[i], str(m).c_str()); return; }
    auto same = built<B>(m);
    if (!(a == same) || a != same || !(same == a)) x.fail("%s: differs from a bitset built bit by bit with the same %d bits %s", what, (int)m.size(), str(m).c_str());
    constexpr size_t O = B == 8 ? 32 : 8;
    auto other = built<O>(m);
    if (!(a == other) || a != other || !(other == a)) x.fail("%s: differs from a bitset of another block size with the same bits %s", what, str(m).c_str());
    if (m.size() <= 64) { if (!(a == (unsigned long)low(m)) || a != (unsigned long)low(m)) x.fail("%s: differs from its own value %llx (%d bits)", what, (unsigned long long)low(m), (int)m.size()); }
    for (size_t i : std::set<size_t>{0, m.size() / 2, m.size() - 1}) if (i < m.size()) { // one bit off is unequal
        Bits f = m; f[i] = !f[i]; auto g = built<B>(f); if (a == g || !(a != g)) x.fail("%s: equals %s", what, str(f).c_str());
        auto h = built<O>(f); if (a == h || !(a != h)) x.fail("%s: equals %s of another block size", what, str(f).c_str());
        if (m.size() <= 64 && (a == (unsigned long)low(f) || !(a != (unsigned long)low(f)))) x.fail("%s: equals value %llx", what, (unsigned long long)low(f));
    }
    Bits l = m; l.push_back(false); auto g = built<B>(l); if (a == g || g == a) x.fail("%s: equals a longer bitset", what);
    // read-only operators
    Bits n = m; n.flip(); auto inv = ~a; if (inv.size() != m.size() || inv.count() != m.size() - ones(m)) x.fail("%s: ~ has %d of %d ones", what, (int)inv.count(), (int)m.size());
    if (!(inv == built<B>(n))) x.fail("%s: ~ is not the complement of %s", what, str(m).c_str());
    for (size_t i = 0; i < m.size(); ++i) if (inv[i] != n[i]) { x.fail("%s: bit %d of ~", what, (int)i); break; }
}
template <size_t B> void dynSeq(mc::Ctx &x, const std::vector<size_t> &sizes, int depth) {
    size_t n = x.oneof(sizes); int init = x.pick(4);
    Bits m; dynamic_bitset<B> a;
    const uint64_t vals[3] = {5, ~0ull, 0x8000000100000081ull};
    if (init == 0) { m.assign(n, false); a = dynamic_bitset<B>(n); }
    else { uint64_t v = vals[init - 1]; m.assign(n, false); for (size_t i = 0; i < n && i < 64; ++i) m[i] = v >> i & 1; a = dynamic_bitset<B>(n, v); }
    x.log("size %d initial %s", (int)n, str(m).c_str());
    sameDyn(x, a, m, "construction");
    for (int d = 0; d < depth; ++d) {
        std::vector<size_t> idx; for (size_t i : std::set<size_t>{0, B - 1, B, m.size() - 1}) if (i < m.size()) idx.push_back(i);
        int k = x.pick(12 + 3 * (int)idx.size()); std::string what; Bits r;
        switch (k) {
        case 0: a.push_back(false); m.push_back(false); what = "push_back(0)"; break;
        case 1: a.push_back(true); m.push_back(true); what = "push_back(1)"; break;
        case 2: a.set(); m.assign(m.size(), true); what = "set()"; break;
        case 3: a.reset(); m.assign(m.size(), false); what = "reset()"; break;
        case 4: a.flip(); m.flip(); what = "flip()"; break;
        case 5: a.clear(); m.clear(); what = "clear()"; break;
        case 6: a = ~a; m.flip(); what = "~"; break;
        case 7: r = patt(m.size(), 2); a ^= built<B>(r); for (size_t i = 0; i < m.size(); ++i) m[i] = m[i] != r[i]; what = "^= alternating"; break;
        case 8: r = patt(m.size(), 3); a = a & built<B>(r); for (size_t i = 0; i < m.size(); ++i) m[i] = m[i] && r[i]; what = "& every third"; break;
        case 9: r = patt(m.size(), 2); a |= built<B>(r); for (size_t i = 0; i < m.size(); ++i) m[i] = m[i] || r[i]; what = "|= alternating"; break;
        case 10: { r = patt(m.size(), 1); dynamic_bitset<B> f(m.size()); f.set(); a = a ^ f; m.flip(); what = "^ ones"; break; }
        case 11: { dynamic_bitset<B> f(m.size()); f.flip(); auto c = a; c &= f; a = c | dynamic_bitset<B>(m.size()); what = "(& ones) | zeros"; break; }
        default: {
            size_t i = idx[(size_t)(k - 12) / 3]; int o = (k - 12) % 3;
            if (o == 2) { a.flip(i); m[i] = !m[i]; what = mc::fmt("flip(%d)", (int)i); } else { a.set(i, o == 1); m[i] = o == 1; what = mc::fmt("set(%d,%d)", (int)i, o); }
        } }
        x.log("%s", what.c_str()); sameDyn(x, a, m, what.c_str());
    }
}
void u01() {
    const char *N = "constructors, then every sequence of element, whole-set, growth and bitwise operations; compared with a boolean vector, a freshly built bitset, another block size and its integer value after every operation";
    mc::dfs("U01", "dynamic bitset, blocks of 8", N, [](mc::Ctx &x) { dynSeq<8>(x, {0, 1, 3, 7, 8, 9, 15, 16, 17}, x.thorough() ? 4 : 3); });
    mc::dfs("U01", "dynamic bitset, blocks of 64", N, [](mc::Ctx &x) { dynSeq<64>(x, {0, 1, 31, 63, 64, 65, 127, 128}, x.thorough() ? 4 : 3); });
    mc::dfs("U01", "dynamic bitset, blocks of 32", N, [](mc::Ctx &x) { dynSeq<32>(x, {5, 32, 33, 64, 70}, x.thorough() ? 4 : 3); });
    mc::dfs("U01", "dynamic bitset, blocks of 3 and 1", N, [](mc::Ctx &x) { if (x.flip()) dynSeq<3>(x, {0, 1, 2, 3, 4, 6, 7}, x.thorough() ? 5 : 3); else dynSeq<1>(x, {0, 1, 2, 5}, x.thorough() ? 4 : 3); });
    mc::dfs("U01", "all values of small bitsets", "every pair of values of every size up to 4 bits: comparison and every bitwise operator", [](mc::Ctx &x) {
        size_t n = 1 + (size_t)x.pick(4); unsigned p = (unsigned)x.pick(1 << n), q = (unsigned)x.pick(1 << n); auto mk = [&](unsigned v) { Bits b(n); for (size_t i = 0; i < n; ++i) b[i] = v >> i & 1; return b; };
        unsigned mask = (1u << n) - 1; x.log("size %d values %x and %x", (int)n, p, q);
        dynamic_bitset<3> a(n, p), b(n, q); if ((a == b) != (p == q) || (a != b) == (p == q)) x.fail("comparison");
        sameDyn(x, a ^ b, mk(p ^ q), "^"); sameDyn(x, a & b, mk(p & q), "&"); sameDyn(x, a | b, mk(p | q), "|"); sameDyn(x, ~a, mk(~p & mask), "~");
        sameDyn(x, a, mk(p), "left operand"); sameDyn(x, b, mk(q), "right operand"); auto c = a; c ^= b; sameDyn(x, c ^ b, mk(p), "^ twice");
    });
}
MC_REGISTER(u01);

// ---- U02 ---------------------------------------------------------------------------------------------
template <typename F> bool throwsRange(F f) { try { f(); } catch (const std::out_of_range &) { return true; } return false; }
template <size_t M> void sameSub(mc::Ctx &x, sub_bitset<M> a, const Bits &m, const char *what) {
    x.step();
    if (a.size() != m.size()) { x.fail("%s: width %d instead of %d", what, (int)a.size(), (int)m.size()); return; }
    if (a.count() != ones(m)) x.fail("%s: count %d of %s", what, (int)a.count(), str(m).c_str());
    const auto &ca = a;
    for (size_t i = 0; i < m.size(); ++i) if (a[i] != m[i] || ca[i] != m[i]) { x.fail("%s: bit %d of %s", what, (int)i, str(m).c_str()); return; }
    for (size_t i : {m.size(), m.size() + 1, M, M + 7}) if (i >= m.size()) {
        if (!throwsRange([&] { (void)a[i]; }) || !throwsRange([&] { (void)ca[i]; })) x.fail("%s: reads bit %d of %d", what, (int)i, (int)m.size());
        if (!throwsRange([&] { a.set(i, true); })) x.fail("%s: sets bit %d of %d", what, (int)i, (int)m.size());
        if (!throwsRange([&] { a.flip(i); })) x.fail("%s: flips bit %d of %d", what, (int)i, (int)m.size());
    }
    sub_bitset<M> same(m.size()); for (size_t i = 0; i < m.size(); ++i) same.set(i, m[i]);
    if (!(a == same) || a != same) x.fail("%s: differs from a bitset set bit by bit to %s", what, str(m).c_str());
    if (m.size() <= 64) if (!(a == (unsigned long)low(m)) || a != (unsigned long)low(m)) x.fail("%s: differs from its value", what);
    for (size_t i : std::set<size_t>{0, m.size() / 2, m.size() - 1}) if (i < m.size()) { auto g = same; g.flip(i); if (a == g || !(a != g)) x.fail("%s: equals the bitset with bit %d flipped", what, (int)i); }
    if (m.size() < M) { sub_bitset<M> g(m.size() + 1); for (size_t i = 0; i < m.size(); ++i) g.set(i, m[i]); if (a == g || !(a != g)) x.fail("%s: equals a wider bitset", what); }
    Bits n = m; n.flip(); auto inv = ~a; if (inv.size() != m.size() || inv.count() != ones(n)) x.fail("%s: ~ has %d ones of %d", what, (int)inv.count(), (int)m.size());
    for (size_t i = 0; i < m.size(); ++i) if (inv[i] != n[i]) { x.fail("%s: bit %d of ~", what, (int)i); break; }
}
template <size_t M> void subSeq(mc::Ctx &x, const std::vector<size_t> &widths, int depth) {
    size_t n = x.oneof(widths); int init = x.pick(4); const uint64_t vals[3] = {5, ~0ull, 0x8000000100000081ull};
    Bits m(n, false); sub_bitset<M> a;
    if (init == 0) a = sub_bitset<M>(n); else { for (size_t i = 0; i < n && i < 64; ++i) m[i] = vals[init - 1] >> i & 1; a = sub_bitset<M>(n, vals[init - 1]); }
    x.log("capacity %d width %d initial %s", (int)M, (int)n, str(m).c_str()); sameSub(x, a, m, "construction");
    auto mk = [&](int kind) { sub_bitset<M> r(n); Bits p = patt(n, kind); for (size_t i = 0; i < n; ++i) r.set(i, p[i]); return r; };
    for (int d = 0; d < depth; ++d) {
        std::vector<size_t> idx; for (size_t i : std::set<size_t>{0, n / 2, n - 1}) if (i < n) idx.push_back(i);
        int k = x.pick(8 + 3 * (int)idx.size()); std::string what; Bits r = patt(n, 2);
        switch (k) {
        case 0: a.set(); m.assign(n, true); what = "set()"; break;
        case 1: a.reset(); m.assign(n, false); what = "reset()"; break;
        case 2: a.flip(); m.flip(); what = "flip()"; break;
        case 3: a = ~a; m.flip(); what = "~"; break;
        case 4: a ^= mk(2); for (size_t i = 0; i < n; ++i) m[i] = m[i] != r[i]; what = "^="; break;
        case 5: a = a & mk(2); for (size_t i = 0; i < n; ++i) m[i] = m[i] && r[i]; what = "&"; break;
        case 6: a |= mk(2); for (size_t i = 0; i < n; ++i) m[i] = m[i] || r[i]; what = "|="; break;
        case 7: { sub_bitset<M> f(n); f.set(); a = (a ^ f) | sub_bitset<M>(n); m.flip(); what = "^ ones"; break; }
        default: {
            size_t i = idx[(size_t)(k - 8) / 3]; int o = (k - 8) % 3;
            if (o == 2) { a.flip(i); m[i] = !m[i]; what = mc::fmt("flip(%d)", (int)i); } else { a.set(i, o == 1); m[i] = o == 1; what = mc::fmt("set(%d,%d)", (int)i, o); }
        } }
        x.log("%s", what.c_str()); sameSub(x, a, m, what.c_str());
    }
}
template <typename T> void binops(mc::Ctx &x, T p, T q, int bits) {
    size_t z2o = 0, o2z = 0, c = 0, n = 0; auto bit = [&](T v, int i) { return (bool)(((uint64_t)v) >> i & 1); };
    for (int i = 0; i < bits; ++i) { z2o += !bit(p, i) && bit(q, i); o2z += bit(p, i) && !bit(q, i); c += bit(p, i) != bit(q, i); n += bit(p, i); }
    x.step(4);
    if (BinaryOps::popcount(p) != n) x.fail("popcount(%llx)=%d", (unsigned long long)p, (int)BinaryOps::popcount(p));
    if (BinaryOps::zero_to_ones(p, q) != z2o) x.fail("zero_to_ones(%llx,%llx)=%d", (unsigned long long)p, (unsigned long long)q, (int)BinaryOps::zero_to_ones(p, q));
    if (BinaryOps::one_to_zeroes(p, q) != o2z) x.fail("one_to_zeroes(%llx,%llx)=%d", (unsigned long long)p, (unsigned long long)q, (int)BinaryOps::one_to_zeroes(p, q));
    if (BinaryOps::bit_changes(p, q) != c) x.fail("bit_changes(%llx,%llx)=%d", (unsigned long long)p, (unsigned long long)q, (int)BinaryOps::bit_changes(p, q));
}
template <size_t N> void binopsSet(mc::Ctx &x, const std::bitset<N> &p, const std::bitset<N> &q) {
    size_t z2o = 0, o2z = 0, c = 0; for (size_t i = 0; i < N; ++i) { z2o += !p[i] && q[i]; o2z += p[i] && !q[i]; c += p[i] != q[i]; }
    x.step(4); if (BinaryOps::popcount(p) != p.count() || BinaryOps::zero_to_ones(p, q) != z2o || BinaryOps::one_to_zeroes(p, q) != o2z || BinaryOps::bit_changes(p, q) != c) x.fail("bit counts of %s and %s", p.to_string().c_str(), q.to_string().c_str());
    if (util::to_string(p) != "[" + p.to_string() + "]") x.fail("text of %s is %s", p.to_string().c_str(), util::to_string(p).c_str());
}
void u02() {
    const char *N = "constructors, then every sequence of element, whole-set and bitwise operations with every out-of-range index probed; compared with a boolean vector after every operation";
    mc::dfs("U02", "fixed-capacity bitset, capacity 9", N, [](mc::Ctx &x) { subSeq<9>(x, {0, 1, 2, 5, 8, 9}, x.thorough() ? 4 : 3); });
    mc::dfs("U02", "fixed-capacity bitset, capacity 1", N, [](mc::Ctx &x) { subSeq<1>(x, {0, 1}, 3); });
    mc::dfs("U02", "fixed-capacity bitset, capacity 64", N, [](mc::Ctx &x) { subSeq<64>(x, {0, 1, 31, 32, 63, 64}, x.thorough() ? 4 : 3); });
    mc::dfs("U02", "fixed-capacity bitset, capacity 70", N, [](mc::Ctx &x) { subSeq<70>(x, {3, 64, 65, 69, 70}, x.thorough() ? 4 : 3); });
    mc::dfs("U02", "width limits", "widths around the capacity: wider bitsets are refused; a default bitset is empty", [](mc::Ctx &x) {
        size_t w = (size_t)x.pick(14); bool val = x.flip(); x.log("width %d of 9", (int)w); x.step();
        bool t = throwsRange([&] { if (val) sub_bitset<9> s(w, 3); else sub_bitset<9> s(w); }); if (t != (w > 9)) x.fail("width %d %s", (int)w, t ? "refused" : "accepted");
        sub_bitset<9> e; if (e.size() != 0 || e.count() != 0) x.fail("default bitset is not empty");
    });
    mc::dfs("U02", "all pairs of 8-bit values", "population and transition counts of every pair of 8-bit values, unsigned types of 8 to 64 bits", [](mc::Ctx &x) {
        unsigned p = (unsigned)x.pick(256), q = (unsigned)x.pick(256); x.log("%x %x", p, q);
        binops<uint8_t>(x, (uint8_t)p, (uint8_t)q, 8); binops<uint16_t>(x, (uint16_t)(p << 8 | q), (uint16_t)(q << 8 | p), 16);
        binops<uint32_t>(x, p << 24 | q, q << 24 | p, 32); binops<uint64_t>(x, (uint64_t)p << 56 | q, (uint64_t)q << 56 | p, 64);
        binopsSet<8>(x, std::bitset<8>(p), std::bitset<8>(q));
    });
    mc::dfs("U02", "wide values", "population and transition counts of all pairs of single bits, blocks and complements up to 70 bits", [](mc::Ctx &x) {
        auto draw = [&] { int i = x.pick(64), k = x.pick(3); uint64_t v = k == 0 ? 1ull << i : k == 1 ? ~(1ull << i) : (i == 63 ? ~0ull : (1ull << (i + 1)) - 1); return v; };
        uint64_t p = draw(), q = draw(); x.log("%llx %llx", (unsigned long long)p, (unsigned long long)q);
        binops<uint64_t>(x, p, q, 64); binops<uint32_t>(x, (uint32_t)p, (uint32_t)q, 32);
        std::bitset<70> a(p), b(q); a <<= 6; binopsSet<70>(x, a, b); binopsSet<70>(x, ~a, b);
    });
}
MC_REGISTER(u02);

// ---- U03 ---------------------------------------------------------------------------------------------
void intervals(mc::Ctx &x, int depth, const std::vector<uint64_t> &gaps, bool serial) {
    using I = interval_counter<uint64_t>;
    I a; uint64_t now = 0, total = 0, start = 0, end = 0; bool open = false, closed = false;
    if (x.flip()) { a = I(now); open = true; x.log("constructed running at 0"); }
    auto check = [&](const char *what) {
        x.step(); if (a.is_open() != open || a.is_closed() != closed) x.fail("%s: open %d closed %d instead of %d %d", what, a.is_open(), a.is_closed(), open, closed);
        if (a.get_count() != total) x.fail("%s: accumulated %llu instead of %llu", what, (unsigned long long)a.get_count(), (unsigned long long)total);
        for (uint64_t q : {now, now + 1, now + 5}) { uint64_t w = total + (open ? q - start : 0); if (a.get_count_at(q) != w) x.fail("%s: running time at %llu is %llu instead of %llu", what, (unsigned long long)q, (unsigned long long)a.get_count_at(q), (unsigned long long)w); }
        if (open || closed) { if (a.get_start() != start) x.fail("%s: start %llu instead of %llu", what, (unsigned long long)a.get_start(), (unsigned long long)start); }
        if (closed && a.get_end() != end) x.fail("%s: end %llu instead of %llu", what, (unsigned long long)a.get_end(), (unsigned long long)end);
        if (serial) { std::stringstream s; a.serialize(s); I b(77); if (total % 2) b.close_interval(99); b.deserialize(s);
            if (b.is_open() != open || b.is_closed() != closed || b.get_count() != a.get_count() || b.get_start() != a.get_start() || b.get_end() != a.get_end()) x.fail("%s: restored counter differs", what);
            a = b; }
    };
    check("construction");
    for (int d = 0; d < depth; ++d) {
        now += x.oneof(gaps); int k = x.pick(open ? 3 : 5);
        if (k == 0) { // end; ending what does not run changes nothing
            uint64_t want = open ? now - start : 0, got = a.close_interval(now); x.log("t=%d end", (int)now); if (got != want) x.fail("ending reports %llu instead of %llu", (unsigned long long)got, (unsigned long long)want);
            if (open) { total += want; end = now; open = false; closed = true; }
            check("end");
        } else if (k == 1) { a.start_interval_if_not_running(now); x.log("t=%d start if not running", (int)now); if (!open) { open = true; closed = false; start = now; } check("start if not running"); }
        else if (k == 2) { a.add(3); total += 3; x.log("t=%d add 3", (int)now); check("add"); }
        else if (k == 3) { a.start_interval(now); x.log("t=%d start", (int)now); open = true; closed = false; start = now; check("start"); }
        else { a.reset_interval(); x.log("t=%d forget the interval", (int)now); closed = false; check("reset"); }
    }
}
void u03() {
    mc::dfs("U03", "interval counter", "every sequence of start, start-if-not-running, end, add and reset at all small gaps (also no gap), queried now and later after every operation", [](mc::Ctx &x) { intervals(x, x.thorough() ? 7 : 5, {0, 1, 3}, false); });
    mc::dfs("U03", "interval counter, saved and restored", "the same sequences, the counter replaced by its restored copy after every operation", [](mc::Ctx &x) { intervals(x, x.thorough() ? 7 : 6, {0, 2}, true); });
    mc::dfs("U03", "interval counter, large times", "the same sequences with steps near the end of the time range", [](mc::Ctx &x) { intervals(x, 4, {1, 1ull << 33, 1ull << 61}, false); });
}
MC_REGISTER(u03);

// ---- U04 ---------------------------------------------------------------------------------------------
struct Ref { uint64_t due; int id; int nest; };
template <bool CTX> void deferred(mc::Ctx &x, int depth, int maxIns) {
    struct Context { std::vector<std::pair<int, uint64_t>> ran; int tag = 42; } cx;
    using H = std::conditional_t<CTX, ImplicitCommandHandler<Context>, ImplicitCommandHandler<void>>;
    // the scale of the times: small ones, ones around powers of two that narrower arithmetic would fold, and far apart ones
    static const std::vector<std::pair<uint64_t, uint64_t>> scales{{1, 0}, {1, (1ull << 31) - 2}, {1, (1ull << 32) - 2}, {1, (1ull << 63) - 2}, {1ull << 29, 0}, {1ull << 30, 0}, {1ull << 31, 0}, {1ull << 32, 0}, {(1ull << 53) + 1, 0}, {1ull << 58, 0}};
    auto [unit, base] = x.oneof(scales); x.log("unit %llu start %llu", (unsigned long long)unit, (unsigned long long)base);
    H h; int ids = 0; std::vector<Ref> ref; std::vector<std::pair<int, uint64_t>> want; uint64_t now = base, last = 12345, lastWant = 12345; int ins = 0;
    std::vector<uint64_t> payload; // capture something with a destructor so that a functor destroyed while running shows
    std::function<void(uint64_t, int, int, int)> put = [&](uint64_t due, int id, int nest, int childId) {
        auto body = [&, unit = unit, due, id, nest, childId, guard = std::vector<uint64_t>{due, (uint64_t)id, 7}](int tag) {
            if (tag != 42) cx.ran.push_back({-1, 0});
            if (nest >= 0) put(due + (uint64_t)nest * unit, childId, -1, 0);
            cx.ran.push_back({(int)guard.at(1), guard.at(0)}); if (guard.at(2) != 7) cx.ran.push_back({-2, 0});
        };
        if constexpr (CTX) h.addImplicitCommand(due, [body](Context &c) { body(c.tag); }); else h.addImplicitCommand(due, [body] { body(42); });
    };
    auto refPut = [&](Ref r) { size_t i = 0; while (i < ref.size() && ref[i].due <= r.due) ++i; ref.insert(ref.begin() + (long)i, r); };
    for (int d = 0; d < depth; ++d) {
        int k = x.pick(ins < maxIns ? 2 : 1);
        if (k == 1) {
            static const std::vector<uint64_t> dues{0, 1, 3}; static const std::vector<int> nests{-1, 0, 2}; uint64_t due = now + x.oneof(dues) * unit; int nest = x.oneof(nests); int id = ++ids; ++ins;
            x.log("t=%llu command %d due %llu%s", (unsigned long long)now, id, (unsigned long long)due, nest < 0 ? "" : mc::fmt(" defers %d %d units later", id + 100, nest).c_str());
            put(due, id, nest, id + 100); refPut({due, id, nest});
        } else {
            static const std::vector<uint64_t> adv{0, 1, 4}; now += x.oneof(adv) * unit; x.log("process until %llu", (unsigned long long)now);
            if constexpr (CTX) h.processImplicitCommandQueue(cx, now, last); else h.processImplicitCommandQueue(now, last);
            while (!ref.empty() && ref.front().due <= now) { Ref r = ref.front(); ref.erase(ref.begin()); want.push_back({r.id, r.due}); lastWant = r.due; if (r.nest >= 0) refPut({r.due + (uint64_t)r.nest * unit, r.id + 100, -1}); }
        }
        x.step();
        if (cx.ran != want) { std::string g; for (auto &p : cx.ran) g += mc::fmt(" %d@%d", p.first, (int)p.second); std::string w; for (auto &p : want) w += mc::fmt(" %d@%d", p.first, (int)p.second); x.fail("ran%s instead of%s", g.c_str(), w.c_str()); return; }
        if (last != lastWant) x.fail("time of the last deferred command %llu instead of %llu", (unsigned long long)last, (unsigned long long)lastWant);
        if (h.implicitCommandCount() != ref.size()) x.fail("%d commands pending instead of %d", (int)h.implicitCommandCount(), (int)ref.size());
    }
}
void u04() {
    const char *N = "every schedule of up to N insertions (due now, soon or later, some deferring another command when they run) and processing instants; order, number of runs, last time and pending count against a stably sorted list";
    mc::dfs("U04", "deferred commands", N, [](mc::Ctx &x) { deferred<false>(x, x.thorough() ? 7 : 5, x.thorough() ? 5 : 4); });
    mc::dfs("U04", "deferred commands with context", N, [](mc::Ctx &x) { deferred<true>(x, x.thorough() ? 7 : 5, x.thorough() ? 5 : 4); });
    mc::dfs("U04", "many pending commands", "queues of up to 40 commands in ascending, descending and interleaved request order, processed in every pair of instants", [](mc::Ctx &x) {
        ImplicitCommandHandler<void> h; int n = 1 + x.pick(40), order = x.pick(3); uint64_t cut = (uint64_t)x.pick(12); std::vector<std::pair<uint64_t, int>> ran, want; uint64_t last = 0; x.log("%d commands order %d cut %d", n, order, (int)cut);
        for (int i = 0; i < n; ++i) { uint64_t due = order == 0 ? (uint64_t)i / 4 : order == 1 ? (uint64_t)(n - i) / 4 : (uint64_t)(i * 7 % 11); want.push_back({due, i}); h.addImplicitCommand(due, [&ran, due, i] { ran.push_back({due, i}); }); }
        std::stable_sort(want.begin(), want.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (uint64_t t : {cut, (uint64_t)100}) { h.processImplicitCommandQueue(t, last); x.step(); size_t k = 0; while (k < want.size() && want[k].first <= t) ++k;
            if (ran != std::vector<std::pair<uint64_t, int>>(want.begin(), want.begin() + (long)k)) x.fail("%d commands ran at %d instead of %d, or out of order", (int)ran.size(), (int)t, (int)k);
            if (h.implicitCommandCount() != want.size() - k) x.fail("%d pending instead of %d", (int)h.implicitCommandCount(), (int)(want.size() - k));
            if (k && last != want[k - 1].first) x.fail("last time %d instead of %d", (int)last, (int)want[k - 1].first); }
    });
}
MC_REGISTER(u04);

// ---- U05 ---------------------------------------------------------------------------------------------
namespace pd = pattern_descriptor;
using PD = pd::t;
enum Fld { fConst, fHold, fBank, fGroup, fRow, fCol };
struct DI { PD d; const char *name; Fld f; int arg; bool over; }; // arg: constant or default value, or bit number
const std::vector<DI> &descs() {
    static std::vector<DI> v = [] {
        std::vector<DI> r{{pd::H, "H", fConst, 1, false}, {pd::L, "L", fConst, 0, false}, {pd::V, "V", fHold, 0, true}, {pd::X, "X", fHold, 0, true}, {pd::AP, "AP", fHold, 0, true}, {pd::BL, "BL", fHold, 1, true},
            {pd::CID0, "CID0", fHold, 1, true}, {pd::CID1, "CID1", fHold, 1, true}, {pd::CID2, "CID2", fHold, 1, true}, {pd::CID3, "CID3", fHold, 1, true}};
        static const PD ba[] = {pd::BA0, pd::BA1, pd::BA2, pd::BA3, pd::BA4, pd::BA5, pd::BA6, pd::BA7, pd::BA8}; for (int i = 0; i < 9; ++i) r.push_back({ba[i], "BA", fBank, i, false});
        static const PD bg[] = {pd::BG0, pd::BG1, pd::BG2}; for (int i = 0; i < 3; ++i) r.push_back({bg[i], "BG", fGroup, i, false});
        static const PD c[] = {pd::C0, pd::C1, pd::C2, pd::C3, pd::C4, pd::C5, pd::C6, pd::C7, pd::C8, pd::C9, pd::C10, pd::C11, pd::C12, pd::C13, pd::C14, pd::C15, pd::C16};
        for (int i = 0; i < 17; ++i) r.push_back({c[i], "C", fCol, i, i <= 4 || i == 10});
        static const PD w[] = {pd::R0, pd::R1, pd::R2, pd::R3, pd::R4, pd::R5, pd::R6, pd::R7, pd::R8, pd::R9, pd::R10, pd::R11, pd::R12, pd::R13, pd::R14, pd::R15, pd::R16, pd::R17, pd::R18, pd::R19, pd::R20, pd::R21, pd::R22, pd::R23};
        for (int i = 0; i < 24; ++i) r.push_back({w[i], "R", fRow, i, false});
        return r;
    }(); return v;
}
std::string dn(const DI &d) { return d.f >= fBank ? mc::fmt("%s%d", d.name, d.arg) : d.name; }
// the coordinates worth distinguishing: nothing, everything, every single bit, and everything but one bit
const int kBits[4] = {9, 3, 24, 17};
TargetCoordinate coord(int k) {
    size_t f[4] = {0, 0, 0, 0}; int n = 9 + 3 + 24 + 17;
    if (k == 1) for (int j = 0; j < 4; ++j) f[j] = (1ull << kBits[j]) - 1;
    else if (k >= 2) { bool inv = k - 2 >= n; int b = (k - 2) % n; if (inv) for (int j = 0; j < 4; ++j) f[j] = (1ull << kBits[j]) - 1; for (int j = 0; j < 4; ++j) { if (b < kBits[j]) { f[j] ^= 1ull << b; break; } b -= kBits[j]; } }
    TargetCoordinate t; t.bank = f[0]; t.bankGroup = f[1]; t.row = f[2]; t.column = f[3]; return t;
}
constexpr int kCoords = 2 + 2 * (9 + 3 + 24 + 17);
using Over = std::map<PD, PatternEncoderBitSpec>;
uint64_t refEncode(const TargetCoordinate &t, const std::vector<const DI *> &p, const Over &o, uint64_t last) {
    uint64_t r = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        size_t pos = p.size() - 1 - i; bool b = false; auto &d = *p[i];
        size_t src = d.f == fBank ? t.bank : d.f == fGroup ? t.bankGroup : d.f == fRow ? t.row : t.column;
        b = d.f <= fHold ? d.arg != 0 : (src >> d.arg & 1) != 0;
        if (d.over) if (auto it = o.find(d.d); it != o.end()) { if (it->second == PatternEncoderBitSpec::H) b = true; else if (it->second == PatternEncoderBitSpec::L) b = false; else if (it->second == PatternEncoderBitSpec::LAST_BIT) b = last >> pos & 1; }
        if (b) r |= 1ull << pos;
    }
    return r;
}
const PatternEncoderBitSpec kSpecs[3] = {PatternEncoderBitSpec::L, PatternEncoderBitSpec::H, PatternEncoderBitSpec::LAST_BIT};
const uint64_t kLast[4] = {0, ~0ull, 0xAAAAAAAAAAAAAAAAull, 0x3333333333333333ull};
void compareEnc(mc::Ctx &x, const TargetCoordinate &t, const std::vector<const DI *> &p, const Over &o, uint64_t last) {
    std::vector<PD> v; for (auto *d : p) v.push_back(d->d);
    PatternEncoderOverrides s; for (auto &[d, b] : o) s.updateSettings({{d, b}});
    PatternEncoder e(s); uint64_t got = e.encode(t, v, last), want = refEncode(t, p, o, last); x.step();
    if (got != want) { std::string n; for (auto *d : p) n += " " + dn(*d); x.fail("pattern%s, bank %zx group %zx row %zx column %zx, last %llx%s: %llx instead of %llx", n.c_str(), t.bank, t.bankGroup, t.row, t.column, (unsigned long long)last, o.empty() ? "" : " with overrides", (unsigned long long)got, (unsigned long long)want); }
}
void u05() {
    mc::dfs("U05", "every descriptor at every position", "one descriptor at every position of patterns of length 1 to 64 between constants; every single coordinate bit and its complement", [](mc::Ctx &x) {
        auto &D = descs(); const DI &d = D[(size_t)x.pick((int)D.size())]; static const std::vector<int> lens{1, 2, 3, 7, 14, 32, 33, 64}; int n = x.oneof(lens), pos = x.pick(n), bg = x.pick(2);
        std::vector<const DI *> p((size_t)n, &D[(size_t)bg]); p[(size_t)pos] = &d; x.log("%s at %d of %d", dn(d).c_str(), pos, n);
        for (int k = 0; k < kCoords; ++k) compareEnc(x, coord(k), p, {}, kLast[k % 4]);
    });
    mc::dfs("U05", "overrides", "every overridable descriptor, every override value on it or on another one, every last pattern", [](mc::Ctx &x) {
        std::vector<const DI *> H; for (auto &d : descs()) if (d.over) H.push_back(&d);
        const DI &d = *x.oneof(H), &e = *x.oneof(H); auto b = kSpecs[x.pick(3)]; int lp = x.pick(4); static const std::vector<int> lens{1, 3, 14, 64}; int n = x.oneof(lens); x.log("%s, override on %s to %d", dn(d).c_str(), dn(e).c_str(), (int)b);
        for (int pos = 0; pos < n; ++pos) { std::vector<const DI *> p((size_t)n, &descs()[1]); p[(size_t)pos] = &d; if (n > 1) p[(size_t)((pos + 1) % n)] = &e; for (int k : {0, 1}) compareEnc(x, coord(k), p, {{e.d, b}}, kLast[lp]); }
    });
    mc::dfs("U05", "pairs and triples of descriptors", "all ordered pairs (thorough: also triples with a third from the placeholders), overrides on the first, edge coordinates", [](mc::Ctx &x) {
        auto &D = descs(); std::vector<const DI *> p{&D[(size_t)x.pick((int)D.size())], &D[(size_t)x.pick((int)D.size())]}; if (x.thorough()) p.push_back(&D[(size_t)x.pick(10)]);
        int b = x.pick(4); Over o; if (b && p[0]->over) o[p[0]->d] = kSpecs[b - 1]; else if (b) x.reject();
        for (int k : {0, 1}) for (uint64_t l : {0ull, 1ull, 2ull, 7ull}) compareEnc(x, coord(k), p, o, l);
        for (int k = 2; k < kCoords; k += 5) compareEnc(x, coord(k), p, o, 5);
    });
    mc::dfs("U05", "override settings", "every sequence of three updates, removals and queries of override settings", [](mc::Ctx &x) {
        static const std::vector<PD> K{pd::V, pd::X, pd::C10}; Over m; PatternEncoderOverrides s; if (x.flip()) { s = PatternEncoderOverrides{{pd::V, PatternEncoderBitSpec::H}, {pd::X, PatternEncoderBitSpec::LAST_BIT}}; m = {{pd::V, PatternEncoderBitSpec::H}, {pd::X, PatternEncoderBitSpec::LAST_BIT}}; }
        for (int i = 0; i < 3; ++i) {
            PD d = x.oneof(K); int k = x.pick(4);
            if (k < 3) { s.updateSettings({{d, kSpecs[k]}}); m[d] = kSpecs[k]; } else { bool had = m.erase(d) > 0; if (s.removeSetting(d) != had) x.fail("removal reports %d", !had); }
            x.step(); for (PD q : K) { auto it = m.find(q); if (s.hasSetting(q) != (it != m.end())) x.fail("setting present %d", s.hasSetting(q)); if (s.getSetting(q) != (it == m.end() ? PatternEncoderBitSpec::INVALID : it->second)) x.fail("setting %d", (int)s.getSetting(q)); }
            if (s.getSettings().size() != m.size()) x.fail("%d settings instead of %d", (int)s.getSettings().size(), (int)m.size());
        }
    });
    mc::dfs("U05", "pattern memory of the handler", "every sequence of commands, bare coordinates and unregistered commands through one handler with last-pattern placeholders, with a save and restore at every point", [](mc::Ctx &x) {
        auto &D = descs(); auto by = [&](PD d) { for (auto &e : D) if (e.d == d) return &e; return (const DI *)nullptr; };
        Over o{{pd::V, PatternEncoderBitSpec::LAST_BIT}, {pd::C10, PatternEncoderBitSpec::LAST_BIT}}; static const uint64_t inits[2] = {0, ~0ull}; uint64_t last = inits[x.pick(2)];
        PatternEncoderOverrides s{{pd::V, PatternEncoderBitSpec::LAST_BIT}, {pd::C10, PatternEncoderBitSpec::LAST_BIT}}; PatternHandler<CmdType> h(s, last);
        const std::vector<PD> p1{pd::H, pd::V, pd::BA1, pd::V, pd::R3}, p2{pd::V, pd::V, pd::C10, pd::BG0, pd::V, pd::L, pd::X}, p3{pd::V, pd::H, pd::V};
        h.registerPattern<CmdType::ACT>(p1); h.registerPattern<CmdType::RD>({pd::V, pd::V, pd::C10, pd::BG0, pd::V, pd::L, pd::X});
        for (int i = 0; i < (x.thorough() ? 5 : 4); ++i) {
            int k = x.pick(5); TargetCoordinate t = coord(x.pick(2)); x.step();
            if (k == 3) { bool thrown = false; try { (void)h.getCommandPattern(CmdType::WR, t); } catch (const std::exception &) { thrown = true; } if (!thrown) x.fail("a command without pattern is encoded"); thrown = false; try { (void)h.getCoordinatePattern(t, {}); } catch (const std::exception &) { thrown = true; } if (!thrown) x.fail("an empty pattern is encoded"); continue; }
            if (k == 4) { std::stringstream ss; h.serialize(ss); PatternHandler<CmdType> g(PatternEncoderOverrides{{pd::X, PatternEncoderBitSpec::H}}, 0x55); g.registerPattern<CmdType::ACT>(p1); g.registerPattern<CmdType::RD>(p2); g.deserialize(ss); h = g; continue; }
            const auto &p = k == 0 ? p1 : k == 1 ? p2 : p3; std::vector<const DI *> q; for (PD d : p) q.push_back(by(d)); uint64_t want = refEncode(t, q, o, last);
            uint64_t got = k == 0 ? h.getCommandPattern(CmdType::ACT, t) : k == 1 ? h.getCommandPattern(CmdType::RD, t) : h.getCoordinatePattern(t, p3); x.log("pattern %d -> %llx", k, (unsigned long long)got);
            if (got != want) x.fail("pattern %d after last %llx: %llx instead of %llx", k, (unsigned long long)last, (unsigned long long)got, (unsigned long long)want); last = want;
            if (h.getPattern(CmdType::ACT) != p1 || h.getPattern(CmdType::RD) != p2 || !h.getPattern(CmdType::WR).empty()) x.fail("registered patterns changed");
        }
    });
}
MC_REGISTER(u05);

// ---- U06 ---------------------------------------------------------------------------------------------
enum class Hk : uint64_t {};
struct XBase : extension_manager::ExtensionWithHooks<Hk>, Serialize, Deserialize {
    int id, arg; uint64_t hooks; XBase(int i, int a, uint64_t h) : id(i), arg(a), hooks(h) {}
    Hk getSupportedHooks() const override { return (Hk)hooks; }
    void serialize(std::ostream &o) const override { o.put((char)('A' + id)); o.put((char)arg); }
    void deserialize(std::istream &i) override { char c; i.get(c); if (c != 'A' + id) arg = -1000; i.get(c); if (arg != -1000) arg = c + 1; }
};
template <int I> struct XT : XBase { XT(int a, uint64_t h) : XBase(I, a, h) {} };
struct XNever : XBase { XNever() : XBase(9, 0, ~0ull) {} };
template <typename F> void nth(int i, F f) { if (i == 0) f(std::integral_constant<int, 0>{}); else if (i == 1) f(std::integral_constant<int, 1>{}); else if (i == 2) f(std::integral_constant<int, 2>{}); else f(std::integral_constant<int, 3>{}); }
const std::vector<std::vector<int>> &orders(int n) { // all ordered subsets of 0..n-1
    static std::map<int, std::vector<std::vector<int>>> m; auto &v = m[n]; if (!v.empty()) return v;
    std::function<void(std::vector<int>)> go = [&](std::vector<int> c) { v.push_back(c); for (int i = 0; i < n; ++i) if (std::find(c.begin(), c.end(), i) == c.end()) { auto d = c; d.push_back(i); go(d); } }; go({}); return v;
}
template <typename Mgr, bool HOOKS> void managers(mc::Ctx &x, int n, const std::vector<uint64_t> &hookSets) {
    const auto &ord = x.oneof(orders(n)); std::vector<uint64_t> hk((size_t)n, 0); Mgr m; std::vector<XBase *> made((size_t)n, nullptr);
    auto lookups = [&] {
        for (int i = 0; i < n; ++i) nth(i, [&](auto I) { using E = XT<decltype(I)::value>; x.step();
            bool has = made[(size_t)i] != nullptr; auto w = m.template getExtension<E>().lock(); if (m.template hasExtension<E>() != has) x.fail("extension %d reported %spresent", i, has ? "not " : "");
            if (has != (bool)w) x.fail("lookup of extension %d", i); if (w && made[(size_t)i] != (XBase *)1 && w.get() != made[(size_t)i]) x.fail("lookup of extension %d yields another object", i);
            int visits = 0; m.template withExtension<E>([&](E &e) { ++visits; if (e.id != i || e.arg != 10 + i) x.fail("visitor of extension %d sees %d/%d", i, e.id, e.arg); }); if (visits != (has ? 1 : 0)) x.fail("visitor of extension %d called %d times", i, visits);
            if (w) made[(size_t)i] = w.get(); });
        if (m.template hasExtension<XNever>() || m.template getExtension<XNever>().lock()) x.fail("an extension never registered is found");
    };
    lookups();
    std::string s; for (int i : ord) { hk[(size_t)i] = HOOKS ? x.oneof(hookSets) : 0; nth(i, [&](auto I) { m.template registerExtension<XT<decltype(I)::value>>(10 + i, hk[(size_t)i]); }); made[(size_t)i] = (XBase *)1; s += mc::fmt(" %d(hooks %llx)", i, (unsigned long long)hk[(size_t)i]); lookups(); }
    x.log("registered%s", s.c_str());
    if constexpr (HOOKS) for (int b = 0; b < 64; ++b) {
        std::vector<int> want, got; for (int i : ord) if (hk[(size_t)i] >> b & 1) want.push_back(i);
        m.callHook((Hk)(1ull << b), [&](XBase &e) { got.push_back(e.id); if (&e != made[(size_t)e.id]) x.fail("hook reaches another object"); }); x.step();
        if (got != want) { std::string g; for (int i : got) g += mc::fmt(" %d", i); std::string w; for (int i : want) w += mc::fmt(" %d", i); x.fail("hook %d reaches%s instead of%s", b, g.c_str(), w.c_str()); }
    }
    // saved in registration order, restored into the same extensions
    std::stringstream ss; m.serialize(ss); std::string bytes = ss.str(), wantBytes; for (int i : ord) { wantBytes += (char)('A' + i); wantBytes += (char)(10 + i); } if (bytes != wantBytes) x.fail("saved extensions differ");
    m.deserialize(ss); for (int i : ord) if (made[(size_t)i]->arg != 11 + i) x.fail("extension %d not restored", i);
}
// static manager: extension types with fixed hooks
enum class SH : uint32_t { none = 0, a = 1, b = 1u << 4, c = 1u << 31 };
template <int I, uint32_t H> struct SX { int id = I, calls = 0; static constexpr SH getSupportedHooks() { return (SH)H; } };
using S0 = SX<0, 1>; using S1 = SX<1, 1 | 1u << 4>; using S2 = SX<2, 1u << 31 | 1u << 4>; using S3 = SX<3, 0>;
template <SH hook, typename M> void staticHook(mc::Ctx &x, M &m, const std::vector<int> &want, const char *name) {
    std::vector<int> got; int a1 = 0; x.step();
    m.template callHook<hook>([&](auto &e) { got.push_back(e.id); ++e.calls; ++a1; });
    if (got != want) { std::string g; for (int i : got) g += mc::fmt(" %d", i); x.fail("static hook %s reaches%s", name, g.c_str()); }
    got.clear(); m.template callHook<hook>([&](auto &e) { got.push_back(e.id); }, [&](auto &e) { got.push_back(e.id + 100); }); // two functors: both, extension by extension
    std::vector<int> w2; for (int i : want) { w2.push_back(i); w2.push_back(i + 100); } if (got != w2) x.fail("static hook %s with two functors makes %d calls", name, (int)got.size());
    m.template callHook<hook>(); (void)a1;
}
void u06() {
    using namespace extension_manager;
    mc::dfs("U06", "registration orders", "every ordered subset of four extension types: lookups, visitors, absence, save and restore after every registration", [](mc::Ctx &x) { managers<ExtensionManager<XBase>, false>(x, 4, {0}); });
    mc::dfs("U06", "hook dispatch", "every ordered subset of three extension types with every combination of supported hooks (low, bit 31, bits above 31, none, all): every one of the 64 hooks called", [](mc::Ctx &x) {
        managers<ExtensionManagerWithHooks<XBase, Hk>, true>(x, 3, {0, 1, 1ull << 31, 1ull << 32, 1ull << 63 | 2, 1ull << 40 | 1ull << 8, ~0ull}); });
    mc::dfs("U06", "static manager", "all hooks on managers of all sizes, with one and two functors, direct access and visitors", [](mc::Ctx &x) {
        using DRAMUtils::util::type_sequence; using namespace extension_manager_static; int k = x.pick(4);
        auto all = [&](auto &m, std::vector<int> a, std::vector<int> b, std::vector<int> c) { for (int i = 0; i < 2; ++i) { staticHook<SH::a>(x, m, a, "a"); staticHook<SH::b>(x, m, b, "b"); staticHook<SH::c>(x, m, c, "c"); staticHook<SH::none>(x, m, {}, "none"); } };
        if (k == 0) { StaticExtensionManager<type_sequence<>, SH> m; all(m, {}, {}, {}); }
        if (k == 1) { StaticExtensionManager<type_sequence<S1>, SH> m; all(m, {1}, {1}, {}); if (m.getExtension<S1>().calls != 4) x.fail("calls lost"); }
        if (k == 2) { StaticExtensionManager<type_sequence<S0, S1, S2, S3>, SH> m; all(m, {0, 1}, {1, 2}, {2});
            const auto &cm = m; if (m.getExtension<S0>().calls != 2 || cm.getExtension<S1>().calls != 4 || m.getExtension<S2>().calls != 4 || m.getExtension<S3>().calls != 0) x.fail("calls lost or on a copy");
            if (!m.hasExtension<S3>() || m.hasExtension<SX<7, 1>>()) x.fail("presence"); int v = m.withExtension<S2>([&](S2 &e) { e.calls = 77; return e.id; }); if (v != 2 || m.getExtension<S2>().calls != 77) x.fail("visitor works on a copy"); }
        if (k == 3) { StaticExtensionManager<type_sequence<S2, S3, S1, S0>, SH> m; all(m, {1, 0}, {2, 1}, {2}); }
    });
    mc::dfs("U06", "built-in extensions", "inversion switch with an accepting, refusing or missing device, all sequences of three requests; metadata stored through the device", [](mc::Ctx &x) {
        bool init = x.flip(); int mode = x.pick(2); std::vector<std::pair<uint64_t, bool>> calls; extensions::DBI d([&](uint64_t t, bool e) { calls.push_back({t, e}); return mode == 0; }, init); bool st = init;
        for (int i = 0; i < 3; ++i) { bool e = x.flip(); uint64_t t = 10u * (unsigned)i; size_t k = calls.size(); bool r = d.enable(t, e); x.step(); x.log("request %d", e);
            if (calls.size() != k + 1 || calls.back() != std::pair<uint64_t, bool>(t, e)) x.fail("device not asked exactly once"); if (r != (mode == 0)) x.fail("answer of the device not returned"); if (r) st = e; if (d.isEnabled() != st) x.fail("state %d instead of %d", d.isEnabled(), st);
            std::stringstream ss; d.serialize(ss); extensions::DBI f([&](uint64_t, bool) { return true; }, !st); f.deserialize(ss); if (f.isEnabled() != st) x.fail("state not restored"); }
    });
    mc::dfs("U06", "extensions of the devices", "every standard: the extensions a device offers, their initial state, and what they report after every sequence of two requests", [](mc::Ctx &x) {
        Std s = x.oneof(kAll); auto c = hist::cfg(s, 1); auto d = dev::make(c); auto &m = d->getExtensionManager(); x.log("%s", kStdName[s]);
        bool meta = s == L6; if (m.hasExtension<extensions::MetaData>() != meta) x.fail("metadata extension %s", meta ? "missing" : "present"); x.step();
        if (auto e = m.getExtension<extensions::DBI>().lock()) {
            bool st = e->isEnabled(); if (st) x.fail("inversion initially on"); for (int i = 0; i < 2; ++i) { bool w = x.flip(); bool r = e->enable(20u * (unsigned)(i + 1), w); if (r) st = w; if (e->isEnabled() != st) x.fail("inversion reported %s", e->isEnabled() ? "on" : "off"); int n = 0; m.withExtension<extensions::DBI>([&](extensions::DBI &q) { ++n; if (&q != e.get()) x.fail("another object"); }); if (n != 1) x.fail("visitor called %d times", n); }
        }
        if (auto e = m.getExtension<extensions::MetaData>().lock()) { for (int i = 0; i < 2; ++i) { static const std::vector<uint16_t> V{0, 1, 0x8000, 0xffff}; uint16_t a = x.oneof(V), b = x.oneof(V); e->setMetaData(a, b); if (e->getMetaData() != std::make_tuple(a, b)) x.fail("metadata %x %x not reported back", a, b); } }
    });
}
MC_REGISTER(u06);

// ---- U07 ---------------------------------------------------------------------------------------------
constexpr int kTypes = (int)CmdType::COUNT;
using Sink = std::vector<std::pair<int, Command>>;
template <int... I> void routeAny(Router<CmdType> &r, int k, std::function<void(const Command &)> f, std::integer_sequence<int, I...>) { ((I == k ? r.routeCommand<(CmdType)I>(f) : (void)0), ...); }
struct Owner {
    std::vector<std::string> log;
    int bank(Rank &, Bank &, timestamp_t t) { (void)t; return 0; }
};
void u07() {
    mc::dfs("U07", "router", "every sequence of up to three registrations (all types for the first, edge types for the rest, also repeated) with and without a fallback; every type executed; copies of the router", [](mc::Ctx &x) {
        Sink got; bool fb = x.flip(); Router<CmdType> r = fb ? Router<CmdType>(Router<CmdType>::commandHandler_t([&](const Command &c) { got.push_back({-1, c}); })) : Router<CmdType>(std::nullopt);
        std::map<int, int> reg; int n = x.pick(4); static const std::vector<int> edge{0, 1, 5, kTypes - 1};
        for (int i = 0; i < n; ++i) { int k = i == 0 ? x.pick(kTypes) : x.oneof(edge); int id = i; routeAny(r, k, [&got, id](const Command &c) { got.push_back({id, c}); }, std::make_integer_sequence<int, kTypes>{}); reg[k] = id; x.log("handler %d for %s", id, CmdTypeUtil::to_string((CmdType)k)); }
        if (r.size() != (size_t)kTypes) x.fail("%d entries", (int)r.size());
        Router<CmdType> copy = r; uint8_t data[4] = {1, 2, 3, 4};
        for (auto *q : {&r, &copy}) for (int k = 0; k < kTypes; ++k) {
            got.clear(); TargetCoordinate t{(size_t)k, 2, 3, 4, 5}; Command c(100 + (uint64_t)k, (CmdType)k, t, data, 17); q->executeCommand(c); x.step();
            auto it = reg.find(k); if (it == reg.end() && !fb) { if (!got.empty()) x.fail("a command without handler reaches %d", got[0].first); continue; }
            int want = it == reg.end() ? -1 : it->second; if (got.size() != 1 || got[0].first != want) { x.fail("command %s reaches handler %d (%d calls) instead of %d", CmdTypeUtil::to_string((CmdType)k), got.empty() ? -9 : got[0].first, (int)got.size(), want); continue; }
            auto &g = got[0].second; if (g.timestamp != c.timestamp || g.type != c.type || g.data != data || g.sz_bits != 17 || g.targetCoordinate.bank != (size_t)k || g.targetCoordinate.bankGroup != 2 || g.targetCoordinate.rank != 3 || g.targetCoordinate.row != 4 || g.targetCoordinate.column != 5) x.fail("command changed on the way");
        }
    });
    mc::dfs("U07", "target dispatch", "every rank and bank of several geometries through each dispatch helper: the addressed rank and bank and the command time reach the handler once", [](mc::Ctx &x) {
        int nr = 1 + x.pick(3), nb = 1 + x.pick(4), r = x.pick(nr), b = x.pick(nb), h = x.pick(6); std::vector<Rank> ranks; for (int i = 0; i < nr; ++i) ranks.emplace_back((size_t)nb);
        struct O { int calls = 0; const Rank *r = nullptr; const Bank *b = nullptr; size_t ri = 99, bi = 99; timestamp_t t = 0;
            void bank(Rank &a, Bank &c, timestamp_t u) { ++calls; r = &a; b = &c; t = u; } void bankIdx(size_t a, size_t c, timestamp_t u) { ++calls; ri = a; bi = c; t = u; }
            void rank(Rank &a, timestamp_t u) { ++calls; r = &a; t = u; } void rankIdx(size_t a, timestamp_t u) { ++calls; ri = a; t = u; } void group(Rank &a, size_t c, timestamp_t u) { ++calls; r = &a; bi = c; t = u; } } o;
        TargetCoordinate tc; tc.rank = (size_t)r; tc.bank = (size_t)b; tc.bankGroup = 7; tc.row = 8; tc.column = 9; Command c(1234, CmdType::ACT, tc); using namespace coreHelpers; x.step();
        if (h == 0) bankHandler(c, ranks, &o, &O::bank); else if (h == 1) bankHandlerIdx(c, ranks, &o, &O::bankIdx); else if (h == 2) rankHandler(c, ranks, &o, &O::rank); else if (h == 3) rankHandlerIdx(c, ranks, &o, &O::rankIdx); else if (h == 4) bankGroupHandler(c, ranks, &o, &O::group); else bankGroupHandlerIdx(c, ranks, &o, &O::bankIdx);
        bool ok = o.calls == 1 && o.t == 1234; bool byRef = h == 0 || h == 2 || h == 4; ok = ok && (byRef ? o.r == &ranks[(size_t)r] : o.ri == (size_t)r); if (h == 0) ok = ok && o.b == &ranks[(size_t)r].banks[(size_t)b]; if (h == 1 || h == 4 || h == 5) ok = ok && o.bi == (size_t)b;
        if (!ok) x.fail("helper %d: rank %d of %d, bank %d of %d: %d calls, wrong target or time", h, r, nr, b, nb, o.calls);
    });
    mc::dfs("U07", "commands of each standard", "every command type sent to every standard in a state where it is legal, core and interface together or one by one: own commands act, foreign ones change no statistic", [](mc::Ctx &x) {
        using C = CmdType; Std s = x.oneof(kAll); int k = x.pick(kTypes); C t = (C)k; int how = x.pick(2); auto c = hist::cfg(s, 1);
        bool own = true; switch (t) { case C::REFB: own = s == L4 || s == L5; break; case C::REFP2B: case C::DSMEN: case C::DSMEX: own = s == L5; break; case C::REFDB: own = s == L6; break; case C::REFSB: case C::PRESB: own = s == S5; break; case C::NOP: own = false; break; default: break; }
        if (t == C::NOP && (s == S5 || s == L6)) x.reject(); // documented as an idle bus command there
        auto pre = [&](Dev &d) { auto go = [&](C q, uint64_t at, int bank) { hist::Step st; st.o = {q, 0, bank}; st.t = (T64)at; st.pay = -1; hist::exec(d, c, st); };
            bool open = t == C::RD || t == C::WR || t == C::RDA || t == C::WRA || t == C::PRE || t == C::PREA || t == C::PRESB || t == C::PDEA || t == C::PDXA; if (open) go(C::ACT, 0, 0); else { go(C::ACT, 0, 0); go(C::PRE, 20, 0); }
            if (t == C::PDXA) go(C::PDEA, 40, 0); if (t == C::PDXP) go(C::PDEP, 40, 0); if (t == C::SREFEX) go(C::SREFEN, 40, 0); if (t == C::DSMEX && s == L5) { go(C::SREFEN, 40, 0); go(C::DSMEN, 80, 0); } if (t == C::DSMEN && s == L5) go(C::SREFEN, 40, 0); };
        auto a = dev::make(c), b = dev::make(c); pre(*a); pre(*b); hist::Step st; st.o = {t, 0, 0, t == C::REFDB ? 8 : -1}; if (t == C::REFDB) st.o.bank = 0; st.t = 200; st.pay = hist::isData(t) ? 3 : -1;
        Command cmd = hist::command(c, st); if (how == 0) b->doCommand(cmd); else { b->doCoreCommand(cmd); b->doInterfaceCommand(cmd); } x.step(); x.log("%s: %s", kStdName[s], CmdTypeUtil::to_string(t));
        hist::Report p, q; hist::put(p, a->getWindowStats(400)); hist::put(q, b->getWindowStats(400)); bool same = p == q;
        if (t == C::END_OF_SIMULATION) { if (!same) x.fail("the end of the simulation changes statistics"); if (b->getLastCommandTime() != 200) x.fail("the end of the simulation does not set the last time"); return; }
        if (own && same) x.fail("%s leaves every statistic unchanged", CmdTypeUtil::to_string(t)); if (!own && !same) x.fail("foreign command %s changes statistics", CmdTypeUtil::to_string(t));
        if (own && b->getLastCommandTime() < 200) x.fail("last command time %d", (int)b->getLastCommandTime());
    });
}
MC_REGISTER(u07);

// ---- U08 ---------------------------------------------------------------------------------------------
void u08() {
    static const std::vector<std::string> names{"NOP", "RD", "WR", "RDA", "WRA", "ACT", "PRE", "REFB", "REFP2B", "REFDB", "PRESB", "REFSB", "PREA", "REFA", "PDEA", "PDEP", "PDXA", "PDXP", "SREFEN", "SREFEX", "DSMEN", "DSMEX", "END_OF_SIMULATION"};
    static const std::vector<CmdType> types{CmdType::NOP, CmdType::RD, CmdType::WR, CmdType::RDA, CmdType::WRA, CmdType::ACT, CmdType::PRE, CmdType::REFB, CmdType::REFP2B, CmdType::REFDB, CmdType::PRESB, CmdType::REFSB, CmdType::PREA, CmdType::REFA, CmdType::PDEA, CmdType::PDEP, CmdType::PDXA, CmdType::PDXP, CmdType::SREFEN, CmdType::SREFEX, CmdType::DSMEN, CmdType::DSMEX, CmdType::END_OF_SIMULATION};
    auto parse = [](const std::string &s) { return CmdTypeUtil::from_string(s); };
    mc::dfs("U08", "names of all command types", "every type: printed name, parsed back; distinct from every other; classification", [parse](mc::Ctx &x) {
        int i = x.pick((int)types.size()), j = x.pick((int)types.size()); std::string n = CmdTypeUtil::to_string(types[(size_t)i]); x.step(); x.log("%s", n.c_str());
        if ((int)types.size() != kTypes) x.fail("%d command types instead of %d", kTypes, (int)types.size());
        if (n != names[(size_t)i]) x.fail("type %d is called %s instead of %s", i, n.c_str(), names[(size_t)i].c_str()); if (parse(n) != types[(size_t)i]) x.fail("%s is read back as %s", n.c_str(), CmdTypeUtil::to_string(parse(n)));
        if (i != j && n == CmdTypeUtil::to_string(types[(size_t)j])) x.fail("types %d and %d are both called %s", i, j, n.c_str());
        bool data = n == "RD" || n == "RDA" || n == "WR" || n == "WRA"; if (CmdTypeUtil::needs_data(types[(size_t)i]) != data) x.fail("%s %s data", n.c_str(), data ? "does not need" : "needs");
    });
    mc::dfs("U08", "one-edit neighbourhood of all names", "every deletion, insertion, substitution, case change and adjacent swap of every name: read as a command only if it is its name", [parse](mc::Ctx &x) {
        std::string n = x.oneof(names); static const std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789abcdefghijklmnopqrstuvwxyz -"; int op = x.pick(4); size_t p = (size_t)x.pick((int)n.size() + 1);
        if (op == 0) { if (p >= n.size()) x.reject(); n.erase(p, 1); } else if (op == 1) n.insert(p, 1, x.oneof(std::vector<char>(abc.begin(), abc.end()))); else if (op == 2) { if (p >= n.size()) x.reject(); n[p] = x.oneof(std::vector<char>(abc.begin(), abc.end())); } else { if (p + 1 >= n.size()) x.reject(); std::swap(n[p], n[p + 1]); }
        auto it = std::find(names.begin(), names.end(), n); CmdType want = it == names.end() ? CmdType::NOP : types[(size_t)(it - names.begin())]; if (n == "END") want = CmdType::END_OF_SIMULATION; x.step();
        if (parse(n) != want) x.fail("'%s' is read as %s", n.c_str(), CmdTypeUtil::to_string(parse(n)));
    });
    mc::dfs("U08", "short texts", "every text of up to three capital letters (thorough: four) and the empty text", [parse](mc::Ctx &x) {
        int l = x.pick(x.thorough() ? 5 : 4); std::string n; for (int i = 0; i < l; ++i) n += (char)('A' + x.pick(26)); auto it = std::find(names.begin(), names.end(), n); CmdType want = it == names.end() ? CmdType::NOP : types[(size_t)(it - names.begin())]; if (n == "END") want = CmdType::END_OF_SIMULATION; x.step();
        if (parse(n) != want) x.fail("'%s' is read as %s", n.c_str(), CmdTypeUtil::to_string(parse(n)));
    });
}
MC_REGISTER(u08);
} // namespace
