// The command-line front end: traces (L01), payloads (L02), output paths (L03), simulation (L04), the whole tool (L05).
#include "hist.h"
#include <DRAMPower/cli/run.hpp>
#include <DRAMPower/cli/util.hpp>
#include <CLI/CLI.hpp>
#include <filesystem>
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include "validators.h"
int verif_cli_main(int argc, char *argv[]);
namespace {
using namespace hist;
namespace cli = DRAMPower::DRAMPowerCLI;
namespace fs = std::filesystem;
using List = std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>>;

// One scratch directory per process, below the one that belongs to the run.
const std::string &scratch() {
    static std::string dir; static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); dir = (mc::tmp().empty() ? std::string("/tmp/verif_cli") : mc::tmp()) + "/cli." + std::to_string((int)owner); fs::remove_all(dir); fs::create_directories(dir); }
    return dir;
}
void write(const std::string &file, const std::string &text) { std::ofstream f(file, std::ios::binary | std::ios::trunc); f << text; }
std::string slurp(const std::string &file) { std::ifstream f(file, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
std::string vis(const std::string &t) { const std::string s = t.size() > 400 ? t.substr(0, 200) + " ... " + std::to_string(t.size()) + " characters ... " + t.substr(t.size() - 100) : t; std::string o; for (char c : s) o += c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : std::string(1, c); return o; }

// ---- L01 -------------------------------------------------------------------------------------------------
struct Name { const char *text; CmdType type; bool data; };
const std::vector<Name> kNames = {{"NOP", CmdType::NOP, 0}, {"ACT", CmdType::ACT, 0}, {"PRE", CmdType::PRE, 0}, {"PREA", CmdType::PREA, 0}, {"PRESB", CmdType::PRESB, 0}, {"REFA", CmdType::REFA, 0},
    {"REFB", CmdType::REFB, 0}, {"REFSB", CmdType::REFSB, 0}, {"REFP2B", CmdType::REFP2B, 0}, {"REFDB", CmdType::REFDB, 0}, {"RD", CmdType::RD, 1}, {"RDA", CmdType::RDA, 1}, {"WR", CmdType::WR, 1}, {"WRA", CmdType::WRA, 1},
    {"PDEA", CmdType::PDEA, 0}, {"PDEP", CmdType::PDEP, 0}, {"PDXA", CmdType::PDXA, 0}, {"PDXP", CmdType::PDXP, 0}, {"SREFEN", CmdType::SREFEN, 0}, {"SREFEX", CmdType::SREFEX, 0}, {"DSMEN", CmdType::DSMEN, 0},
    {"DSMEX", CmdType::DSMEX, 0}, {"END", CmdType::END_OF_SIMULATION, 0}};
struct Want { T64 t = 0; CmdType type = CmdType::NOP; uint64_t f[5] = {0, 0, 0, 0, 0}; Buf data; bool hasData = false; };   // f: rank, group, bank, row, column
struct Pay { const char *text; Buf bytes; };
const std::vector<Pay> kPay = {{"00ff", {0, 255}}, {"0xA1b2C3", {0xa1, 0xb2, 0xc3}}, {"0X7e", {0x7e}}};

void expect(mc::Ctx &x, const std::string &text, bool good, const std::vector<Want> &want) {
    const std::string file = scratch() + "/trace.csv"; write(file, text);
    List got; bool ok = false; x.step();
    try { ok = cli::parse_command_list(file, got); }
    catch (const std::exception &e) { x.fail("parsing \"%s\" throws %s instead of %s", vis(text).c_str(), e.what(), good ? "succeeding" : "reporting an error"); }
    if (ok != good) x.fail("the trace \"%s\" is %s", vis(text).c_str(), ok ? "accepted although it contains a malformed line" : "rejected although it is well formed");
    if (!good) return;
    if (got.size() != want.size()) x.fail("\"%s\": %d commands instead of %d", vis(text).c_str(), (int)got.size(), (int)want.size());
    for (size_t i = 0; i < want.size(); ++i) {
        const Command &c = got[i].first; const Want &w = want[i]; auto &k = c.targetCoordinate;
        const uint64_t f[5] = {k.rank, k.bankGroup, k.bank, k.row, k.column}; static const char *nm[] = {"rank", "bank group", "bank", "row", "column"};
        if ((T64)c.timestamp != w.t) x.fail("\"%s\": command %d is at time %lld", vis(text).c_str(), (int)i, (long long)c.timestamp);
        if (c.type != w.type) x.fail("\"%s\": command %d is a %s", vis(text).c_str(), (int)i, CmdTypeUtil::to_string(c.type));
        for (int j = 0; j < 5; ++j) if (f[j] != w.f[j]) x.fail("\"%s\": %s of command %d is %llu", vis(text).c_str(), nm[j], (int)i, (unsigned long long)f[j]);
        if (!w.hasData) { if (c.sz_bits != 0) x.fail("\"%s\": command %d carries %d bits of payload", vis(text).c_str(), (int)i, (int)c.sz_bits); continue; }
        if (c.sz_bits != w.data.size() * 8) x.fail("\"%s\": command %d carries %d bits of payload", vis(text).c_str(), (int)i, (int)c.sz_bits);
        for (size_t b = 0; b < w.data.size(); ++b) if (c.data[b] != w.data[b]) x.fail("\"%s\": byte %d of command %d is %d", vis(text).c_str(), (int)b, (int)i, (int)c.data[b]);
    }
}
struct Num01 { const char *text; uint64_t v; };
void fields(mc::Ctx &x) { // every combination of values in one line
    static const std::vector<Num01> times = {{"0", 0}, {"1", 1}, {"0012", 12}, {"4294967297", 4294967297ull}, {"9223372036854775807", 9223372036854775807ull}};
    static const std::vector<Num01> val = {{"0", 0}, {"1", 1}, {"73", 73}, {"4294967298", 4294967298ull}};
    static const std::vector<Name> some = {kNames[1], kNames[10], kNames[13]}; auto &n = x.oneof(some); auto &t = x.oneof(times); Want w; w.t = (T64)t.v; w.type = n.type; std::string s = std::string(t.text) + "," + n.text;
    for (int i = 0; i < 5; ++i) { auto &v = val[(size_t)x.pick(x.thorough() ? 4 : 3)]; w.f[i] = v.v + 0; s += std::string(",") + v.text; }
    if (n.data) { auto &p = x.oneof(kPay); s += std::string(",") + p.text; w.data = p.bytes; w.hasData = true; }
    expect(x, s + "\n", true, {w});
}
struct Line { std::string text; bool good; Want w; };
Line line(const Name &n, const char *pad, T64 t, int payIdx, bool distinct = true) {
    Line l; l.good = true; l.w.t = t; l.w.type = n.type; l.text = pad + std::to_string(t) + pad + "," + pad + n.text + pad;
    for (int i = 0; i < 5; ++i) { l.w.f[i] = distinct ? (uint64_t)(i + 1) : 0; l.text += std::string(",") + pad + std::to_string(l.w.f[i]) + pad; }
    if (n.data) { l.text += std::string(",") + pad + kPay[(size_t)payIdx].text + pad; l.w.data = kPay[(size_t)payIdx].bytes; l.w.hasData = true; }
    return l;
}
void layout(mc::Ctx &x) { // all commands, spacing, line ends
    static const char *const pads[] = {"", " ", "\t", "  \t "}; static const char *const eols[] = {"\n", "\r\n"};
    const char *pad = pads[x.pick(4)], *eol = eols[x.pick(2)]; bool last = x.flip(), blank = eol[0] == '\n' && x.flip();
    auto &a = x.oneof(kNames); auto &b = x.oneof(kNames); Line l = line(a, pad, 5, x.pick(3)), m = line(b, pad, 9, 1, false);
    expect(x, l.text + eol + (blank ? eol : "") + m.text + (last ? eol : ""), true, {l.w, m.w});
}
std::vector<Line> kinds() {
    std::vector<Line> v; for (int i : {1, 10, 13, 22, 0}) v.push_back(line(kNames[(size_t)i], "", 3 + i, i % 3));
    for (const char *bad : {"1,ACT,0,0,0,0", "1", "1,ACT", "1,RD,0,0,0,0,0", "1,WRA,0,0,0,0,0,0f1", "1,RD,0,0,0,0,0,zz", "1,XYZ,0,0,0,0,0", "x,ACT,0,0,0,0,0", "1,ACT,0,-1,0,0,0", "1,PRE,0,0,,0,0", "# text", "1,act,0,0,0,0,0", "1,,0,0,0,0,0"}) {
        Line l; l.text = bad; l.good = false; v.push_back(l);
    }
    return v;
}
void lines(mc::Ctx &x) { // files of up to three lines, well-formed and malformed
    static const auto k = kinds(); const int n = 1 + x.pick(x.thorough() ? 4 : 3); std::string s; bool good = true; std::vector<Want> w;
    for (int i = 0; i < n; ++i) { auto &l = x.oneof(k); s += l.text + "\n"; good = good && l.good; if (l.good) w.push_back(l.w); }
    expect(x, s, good, w);
}
void malformed(mc::Ctx &x) { // one malformed field or a truncated line, before, between or after well-formed lines
    static const std::vector<const char *> bad = {"", "x", "-1", "1.5", "1e3", "0x10", "+5", "1 2", "5x", "18446744073709551616", "99999999999999999999999", "nan", "1;2", "ACT", "-"};
    auto &n = x.oneof(kNames); int where = x.pick(3), kind = x.pick(2); Line good = line(kNames[1], "", 1, 0);
    std::vector<std::string> f = {"4", n.text, "0", "1", "2", "3", "4"}; if (n.data) f.push_back("0011");
    if (kind == 0) { int i = x.pick((int)f.size()); if (i == 1) { f[1] = x.oneof(std::vector<std::string>{"", "XX", "act", "AC", "ACTT", "5", "RD WR", "ENDE", "COUNT"}); }
        else if (i == 7) { f[7] = x.oneof(std::vector<std::string>{"0", "00g0", "0x0", "0xg0", "00 00", "+000", "-1", "0x0x", "x000", "\"0\""}); }
        else f[(size_t)i] = x.oneof(bad); }
    else f.resize(1 + (size_t)x.pick((int)f.size() - 1));
    std::string s; for (size_t i = 0; i < f.size(); ++i) s += (i ? "," : "") + f[i];
    if (s.empty()) x.reject();
    s += "\n"; const std::string g = good.text + "\n";
    expect(x, where == 0 ? s : where == 1 ? g + s : s + g, false, {});
}
void longTrace(mc::Ctx &x) { // many lines of every command, all payloads alive at once, at most one line malformed
    static const std::vector<int> lens = {100, 3000, 70000, 330000}; const int n = lens[(size_t)x.pick(x.thorough() ? 4 : 3)]; const char *pad = x.flip() ? "   " : ""; const int bad = x.pick(4); const int step = 1 + x.pick(3);
    const int at = bad == 0 ? -1 : bad == 1 ? 0 : bad == 2 ? n / 2 : n - 1; std::string s; std::vector<Want> w;
    for (int i = 0; i < n; ++i) {
        Line l = line(kNames[(size_t)(i * step) % kNames.size()], pad, (T64)i * 1000003, i % 3); if (i == at) l.text = "7,ACT,0,0,x,0,0"; s += l.text; s += '\n'; if (at < 0) w.push_back(std::move(l.w));
    }
    expect(x, s, at < 0, w);
}
void unreadable(mc::Ctx &x) {
    const std::string d = scratch(); const int k = x.pick(3); std::string p = k == 0 ? d + "/missing.csv" : k == 1 ? d : d + "/missing/x.csv"; List l; bool ok = true; x.step();
    try { ok = cli::parse_command_list(p, l); } catch (const std::exception &e) { x.fail("reading %s throws %s", k == 1 ? "a directory" : "a missing file", e.what()); }
    if (ok) x.fail("reading %s succeeds", k == 1 ? "a directory" : "a missing file");
}
void regL01() {
    mc::dfs("L01", "values", "every combination of field values of one line (plain, read and write commands; times up to 2^63-1)", fields);
    mc::dfs("L01", "layout", "every pair of commands with every spacing, line end, blank line and final newline", layout);
    mc::dfs("L01", "lines", "every sequence of up to 3 lines (thorough: 4) over 5 well-formed and 13 malformed lines", lines);
    mc::dfs("L01", "malformed fields", "every command with every single malformed field and every truncation, alone, after and before a well-formed line", malformed);
    mc::dfs("L01", "long traces", "traces of 100, 3000 and 70000 (thorough: 330000) lines, several times the chunk the file is read in, over all commands in three orders, with at most one malformed line first, in the middle or last", longTrace);
    mc::dfs("L01", "unreadable files", "missing files and directories", unreadable);
    mc::assume("L01", "times and coordinates below 2^63 (limit of the bundled CSV library); empty files, extra columns and an empty payload field are unspecified");
}
MC_REGISTER(regL01);

// ---- L02 -------------------------------------------------------------------------------------------------
void hexcheck(mc::Ctx &x, const std::string &s) {
    std::string h = s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') ? s.substr(2) : s; bool good = h.size() % 2 == 0; Buf want;
    auto dig = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    for (char c : h) if (dig(c) < 0) good = false;
    if (good) for (size_t i = 0; i < h.size(); i += 2) want.push_back((uint8_t)(dig(h[i]) * 16 + dig(h[i + 1])));
    size_t n = 12345; std::unique_ptr<uint8_t[]> got; bool ok = true; x.step();
    try { got = cli::util::hexStringToUint8Array(csv::string_view(s), n); } catch (const std::exception &) { ok = false; }
    if (ok != good) x.fail("\"%s\" is %s", vis(s).c_str(), ok ? "accepted" : "rejected");
    if (!good) return;
    if (n != want.size()) x.fail("\"%s\" has %d bytes", s.c_str(), (int)n);
    for (size_t i = 0; i < n; ++i) if (got[i] != want[i]) x.fail("byte %d of \"%s\" is %d", (int)i, s.c_str(), (int)got[i]);
}
void regL02() {
    mc::dfs("L02", "all short texts", "every text of up to 4 (thorough: 5) characters over 0 1 9 a c f A F x X g G space + - .", [](mc::Ctx &x) {
        static const char al[] = "019acfAFxXgG +-."; const int n = x.pick(x.thorough() ? 6 : 5); std::string s; for (int i = 0; i < n; ++i) s += al[x.pick(16)]; hexcheck(x, s); });
    mc::dfs("L02", "all characters", "every pair of characters (all 255 values), alone, behind a prefix, before and behind a good byte", [](mc::Ctx &x) {
        const int k = x.pick(4); std::string c; c += (char)(1 + x.pick(255)); c += (char)(1 + x.pick(255)); hexcheck(x, k == 0 ? c : k == 1 ? "0x" + c : k == 2 ? c + "7b" : "7b" + c); });
    mc::dfs("L02", "every byte of a payload", "payloads of 1..64 bytes, every position with every value, both cases, with and without prefix", [](mc::Ctx &x) {
        static const std::vector<int> lens = {1, 2, 3, 4, 8, 16, 31, 32, 64}; const int n = x.oneof(lens); const int pos = x.pick(n), v = x.pick(256); const bool up = x.flip(), pre = x.flip();
        std::string s = pre ? "0x" : ""; for (int i = 0; i < n; ++i) s += mc::fmt(up ? "%02X" : "%02x", i == pos ? v : (i * 29 + 3) & 255); hexcheck(x, s); });
}
MC_REGISTER(regL02);

// ---- L03 -------------------------------------------------------------------------------------------------
// Two identical directory trees: the validator decides in one, the kernel in the other.
std::string tree(const std::string &root) { // every entry with its kind, target and contents
    std::vector<std::string> v;
    for (auto it = fs::recursive_directory_iterator(root, fs::directory_options::none); it != fs::recursive_directory_iterator(); ++it) {
        std::string rel = fs::relative(it->path().parent_path(), root).string() + "/" + it->path().filename().string(); struct stat st; lstat(it->path().c_str(), &st);
        if (S_ISLNK(st.st_mode)) { std::string t = fs::read_symlink(it->path()).string(); if (t.rfind(root, 0) == 0) t = "ROOT" + t.substr(root.size()); v.push_back(rel + " -> " + t); }
        else if (S_ISDIR(st.st_mode)) v.push_back(rel + "/"); else if (S_ISREG(st.st_mode)) v.push_back(rel + " = " + slurp(it->path().string())); else v.push_back(rel + " special");
    }
    std::sort(v.begin(), v.end()); std::string s; for (auto &e : v) s += e + "\n"; return s;
}
struct Shape { int links = 0; int dir[4] = {0, 0, 0, 0}; int absLink[4] = {0, 0, 0, 0}; int end = 0; int endDir = 0; int given = 0; bool user = false; };
const char *const kDirs[] = {"w", "w/sub", "o"};                       // the working directory, one below it, one beside it
const char *const kUp[] = {"..", "../..", ".."};
const char *const kEnds[] = {"file", "missing", "missing/deeper", "dir", "fifo", "file/x", "CYCLE", "dir/in", "dirlink/in", "dirlink/new", "missing/", "file/", "dir/", "locked/new", "lockedfile"};
void grow(const std::string &root, const Shape &s) {
    fs::remove_all(root);
    for (int i = 0; i < 3; ++i) { const std::string p = root + "/" + kDirs[i]; fs::create_directories(p); chmod(p.c_str(), 0777);
        const bool here = i == s.endDir; if (!here && s.given != 4) continue;                 // everything exists where the path leads to
        fs::create_directory(p + "/dir"); chmod((p + "/dir").c_str(), 0777); fs::create_symlink("dir", p + "/dirlink"); if (!here) continue;
        fs::create_directory(p + "/locked"); chmod((p + "/locked").c_str(), 0555); write(p + "/file", "old"); write(p + "/dir/in", "older"); write(p + "/lockedfile", "ro"); chmod((p + "/lockedfile").c_str(), 0444); mkfifo((p + "/fifo").c_str(), 0666); }
    for (int i = 0; i < s.links; ++i) {
        const bool lastLink = i + 1 == s.links; const int td = lastLink ? s.endDir : s.dir[i + 1]; std::string name = lastLink ? kEnds[s.end] : "l" + std::to_string(i + 1);
        std::string tgt = lastLink && std::string(kEnds[s.end]) == "CYCLE" ? std::string(kDirs[s.dir[0]]) + "/l0" : std::string(kDirs[td]) + "/" + name;
        fs::create_symlink(s.absLink[i] ? root + "/" + tgt : std::string(kUp[s.dir[i]]) + "/" + tgt, root + "/" + kDirs[s.dir[i]] + "/l" + std::to_string(i));
    }
}
std::string given(const std::string &root, const Shape &s) {
    const int d = s.links ? s.dir[0] : s.endDir; const std::string name = s.links ? "l0" : kEnds[s.end];
    switch (s.given) {
        case 0: return d == 0 ? name : d == 1 ? "sub/" + name : "../o/" + name;
        case 1: return d == 0 ? "./" + name : d == 1 ? "./sub/../sub/" + name : "../w/../o/" + name;
        case 2: return root + "/" + kDirs[d] + "/" + name;
        case 3: return (d == 0 ? name : d == 1 ? "sub/" + name : "../o/" + name) + "/";
        default: return (d == 0 ? "" : d == 1 ? "sub/" : "../o/") + std::string("dirlink/../") + name;
    }
}
void paths(mc::Ctx &x, const Shape &s) {
    if (s.links == 0 && std::string(kEnds[s.end]) == "CYCLE") x.reject();
    const std::string A = scratch() + "/A", B = scratch() + "/B"; x.step();
    char old[4096]; if (!getcwd(old, sizeof old)) std::abort();
    for (auto &r : {A, B}) grow(r, s);
    const std::string before = tree(A); const std::string pa = given(A, s), pb = given(B, s);
    auto as = [&](auto f) { if (s.user && seteuid(65534) != 0) return false; f(); if (s.user) (void)!seteuid(0); return true; };
    bool want = false; struct stat st;
    if (chdir((B + "/w").c_str()) != 0) std::abort();
    bool able = as([&] { if (stat(pb.c_str(), &st) == 0) want = S_ISREG(st.st_mode); else if (errno == ENOENT) { int fd = open(pb.c_str(), O_CREAT | O_WRONLY, 0644); want = fd >= 0; if (fd >= 0) close(fd); } });
    bool got = false; std::string out = pa, why; bool threw = false;
    if (chdir((A + "/w").c_str()) != 0) std::abort();
    if (able) as([&] { validators::EnsureFileExists_t v; try { why = v(out); got = why.empty(); } catch (const std::exception &e) { threw = true; why = e.what(); } });
    struct stat s1, s2; const bool same = stat(pa.c_str(), &s1) == 0 && stat(out.c_str(), &s2) == 0 && s1.st_ino == s2.st_ino && s1.st_dev == s2.st_dev && S_ISREG(s2.st_mode);
    if (chdir(old) != 0) std::abort();
    if (!able) x.reject();
    const std::string show = "the path " + (pa.rfind(A, 0) == 0 ? "ROOT" + pa.substr(A.size()) : pa) + (s.user ? " (for an unprivileged user)" : "") + " in the tree\n" + before;
    const std::string ta = tree(A), tb = tree(B);
    if (threw) x.fail("the check throws %s for %s", why.c_str(), show.c_str());
    if (got != want) x.fail("%s: %s", got ? "an unusable path is accepted" : ("a usable path is rejected (" + why + ")").c_str(), show.c_str());
    if (got && !same) x.fail("the accepted path is changed to %s, which is not the same file, for %s", out.c_str(), show.c_str());
    if (!want && ta != before) x.fail("a rejected path changes the directories to\n%sfor %s", ta.c_str(), show.c_str());
    if (ta != tb) x.fail("an accepted path changes the directories to\n%sfor %s", ta.c_str(), show.c_str());
}
const int kEndCount = (int)(sizeof kEnds / sizeof *kEnds);
void regL03() {
    auto run = [](int minLinks, int maxLinks, bool small) { return [=](mc::Ctx &x) {
        Shape s; s.links = minLinks + x.pick(maxLinks - minLinks + 1); s.user = x.flip(); s.end = x.pick(kEndCount); s.endDir = x.pick(3); s.given = x.pick(small ? 3 : 5);
        for (int i = 0; i < s.links; ++i) { s.dir[i] = x.pick(3); s.absLink[i] = x.pick(2); } paths(x, s); }; };
    mc::dfs("L03", "paths and links", "every kind of target (15), directory, way of writing the path (5) and chain of up to 2 links (relative and absolute), as root and as an unprivileged user", run(0, 2, false), 3);
    mc::dfs("L03", "chains of 3 links", "the same for chains of 3 links", run(3, 3, true), 2);
    mc::dfs("L03", "long chains", "chains of up to 20 relative links to every kind of target", [](mc::Ctx &x) {
        const std::string A = scratch() + "/A"; const int n = 1 + x.pick(20), end = x.pick(3); fs::remove_all(A); fs::create_directories(A); write(A + "/file", "old"); static const char *const e[] = {"file", "new", "no/new"};
        for (int i = 0; i < n; ++i) fs::create_symlink(i + 1 == n ? e[end] : "l" + std::to_string(i + 1), A + "/l" + std::to_string(i));
        std::string p = A + "/l0"; validators::EnsureFileExists_t v; x.step(); bool ok = v(p).empty();
        if (ok != (end != 2)) x.fail("a chain of %d links to %s is %s", n, e[end], ok ? "accepted" : "rejected");
        if (ok && (!fs::is_regular_file(A + "/" + e[end]) || !fs::equivalent(p, A + "/" + e[end]))) x.fail("a chain of %d links to %s: the resulting path is %s", n, e[end], p.c_str());
        if (slurp(A + "/file") != "old") x.fail("an existing file is changed"); });
    mc::dfs("L03", "degenerate paths", "empty path, dots, slashes", [](mc::Ctx &x) {
        static const std::vector<std::string> ps = {"", ".", "..", "/", "//", "./", "../", "w/..", "...", "~", " "}; const std::string A = scratch() + "/A"; fs::remove_all(A); fs::create_directories(A + "/w");
        char old[4096]; if (!getcwd(old, sizeof old) || chdir((A + "/w").c_str()) != 0) std::abort();
        const std::string in = x.oneof(ps); std::string p = in; validators::EnsureFileExists_t v; std::string why; bool threw = false; x.step();
        try { why = v(p); } catch (const std::exception &e) { threw = true; why = e.what(); }
        const bool file = fs::is_regular_file(p); if (chdir(old) != 0) std::abort();
        const bool want = in == "..." || in == "~" || in == " ";
        if (threw || why.empty() != want) x.fail("the path \"%s\" is %s", in.c_str(), threw ? why.c_str() : want ? "rejected" : "accepted");
        if (want && !file) x.fail("the path \"%s\" is accepted but the file does not exist", in.c_str()); });
    mc::assume("L03", "the kernel's own resolution of the path (stat, open with O_CREAT) in an identical tree is the reference; links change neither during nor after the check");
}
MC_REGISTER(regL03);

// ---- L04 -------------------------------------------------------------------------------------------------
json_t specJson(const Cfg &c) {
    json_t j; auto put = [&](auto spec, const char *type) { j["memspec"] = spec; j["memspec"]["memoryType"] = type; };
    switch (c.std) { case S4: put(spec4(c), "DDR4"); break; case S5: put(spec5(c), "DDR5"); break; case L4: put(specL4(c), "LPDDR4"); break; case L5: put(specL5(c), "LPDDR5"); break; default: put(specL6(c), "LPDDR6"); }
    return j;
}
std::string csvLine(const Command &c) {
    auto &k = c.targetCoordinate; std::string s = mc::fmt("%llu,%s,%llu,%llu,%llu,%llu,%llu", (unsigned long long)c.timestamp, c.type == CmdType::END_OF_SIMULATION ? "END" : CmdTypeUtil::to_string(c.type), (unsigned long long)k.rank, (unsigned long long)k.bankGroup,
        (unsigned long long)k.bank, (unsigned long long)k.row, (unsigned long long)k.column);
    if (CmdTypeUtil::needs_data(c.type)) { s += ","; for (size_t i = 0; i < c.sz_bits / 8; ++i) s += mc::fmt("%02x", c.data[i]); if (c.sz_bits == 0) s += "0x"; }
    return s + "\n";
}
const char *simText(bool tog) { return tog ? R"({"useToggleRate":true,"simconfig":{"toggleRateDefinition":{"togglingRateRead":0.4,"togglingRateWrite":0.7,"dutyCycleRead":0.3,"dutyCycleWrite":0.6,"idlePatternRead":"H","idlePatternWrite":"L"}}})"
    : R"({"useToggleRate":false,"simconfig":{"toggleRateDefinition":{"togglingRateRead":0.4,"togglingRateWrite":0.7,"dutyCycleRead":0.3,"dutyCycleWrite":0.6,"idlePatternRead":"H","idlePatternWrite":"L"}}})"; }
struct Kv { const char *key; double energy_info_t::*m; };
const std::vector<Kv> kBank = {{"ACT", &energy_info_t::E_act}, {"PRE", &energy_info_t::E_pre}, {"BG_ACT", &energy_info_t::E_bg_act}, {"BG_PRE", &energy_info_t::E_bg_pre}, {"RD", &energy_info_t::E_RD}, {"WR", &energy_info_t::E_WR}, {"RDA", &energy_info_t::E_RDA},
    {"WRA", &energy_info_t::E_WRA}, {"PRE_RDA", &energy_info_t::E_pre_RDA}, {"PRE_WRA", &energy_info_t::E_pre_WRA}, {"REF_AB", &energy_info_t::E_ref_AB}, {"REF_PB", &energy_info_t::E_ref_PB}, {"REF_SB", &energy_info_t::E_ref_SB}, {"REF_2B", &energy_info_t::E_ref_2B},
    {"REF_DB", &energy_info_t::E_ref_DB}};
struct Kw { const char *key; double energy_t::*m; };
const std::vector<Kw> kShared = {{"E_bg_act_shared", &energy_t::E_bg_act_shared}, {"E_PDNA", &energy_t::E_PDNA}, {"E_PDNP", &energy_t::E_PDNP}, {"E_sref", &energy_t::E_sref}, {"E_dsm", &energy_t::E_dsm}, {"E_refab", &energy_t::E_refab}};

void same(mc::Ctx &x, const json_t &j, double v, const char *what) {
    if (!j.is_number() || j.get<double>() != v) x.fail("the report states %s = %s instead of %.17g", what, j.dump().c_str(), v);
}
void checkJson(mc::Ctx &x, const std::string &file, Dev &d, const Cfg &c) {
    json_t j = json_t::parse(slurp(file), nullptr, false); if (j.is_discarded()) x.fail("the report is not JSON: %.200s", slurp(file).c_str());
    const timestamp_t t = d.getLastCommandTime(); energy_t e = d.calcCoreEnergy(t); interface_energy_info_t i = d.calcInterfaceEnergy(t);
    auto at = [&](const json_t &o, const char *k) -> const json_t & { if (!o.is_object() || !o.contains(k)) x.fail("the report has no entry %s", k); return o.at(k); };
    same(x, at(j, "RankCount"), (double)c.ranks, "RankCount"); same(x, at(j, "DeviceCount"), (double)c.devices, "DeviceCount"); same(x, at(j, "BankCount"), (double)c.banks, "BankCount"); same(x, at(j, "TotalEnergy"), e.total() + i.total(), "TotalEnergy");
    const json_t &ce = at(j, "CoreEnergy"); for (auto &k : kShared) same(x, at(ce, k.key), e.*k.m, k.key);
    const json_t &ie = at(j, "InterfaceEnergy"); same(x, at(at(ie, "controller"), "dynamicEnergy"), i.controller.dynamicEnergy, "controller.dynamicEnergy"); same(x, at(at(ie, "controller"), "staticEnergy"), i.controller.staticEnergy, "controller.staticEnergy");
    same(x, at(at(ie, "dram"), "dynamicEnergy"), i.dram.dynamicEnergy, "dram.dynamicEnergy"); same(x, at(at(ie, "dram"), "staticEnergy"), i.dram.staticEnergy, "dram.staticEnergy");
    const json_t &be = at(ce, "BankEnergy"); const size_t n = c.ranks * c.devices * c.banks; if (!be.is_array() || be.size() != n || e.bank_energy.size() != n) x.fail("%d bank energies reported instead of %d", (int)be.size(), (int)n);
    for (size_t k = 0; k < n; ++k) {
        same(x, at(be[k], "Rank"), (double)(k / (c.banks * c.devices)), "Rank"); same(x, at(be[k], "Device"), (double)(k / c.banks % c.devices), "Device"); same(x, at(be[k], "Bank"), (double)(k % c.banks), "Bank");
        for (auto &kv : kBank) same(x, at(be[k], kv.key), e.bank_energy[k].*kv.m, mc::fmt("bank %d %s", (int)k, kv.key).c_str());
    }
}
// "KEY: value" with the exact value
void stated(mc::Ctx &x, const std::string &text, const char *key, double v) {
    const std::string k = std::string(key) + ":"; size_t p = 0;
    while ((p = text.find(k, p)) != std::string::npos) { const bool start = p == 0 || !(isalnum((unsigned char)text[p - 1]) || text[p - 1] == '_'); p += k.size(); if (start && strtod(text.c_str() + p, nullptr) == v) return; }
    x.fail("the console report does not state %s: %.17g in \"%.300s\"", key, v, text.c_str());
}
void checkConsole(mc::Ctx &x, const std::string &text, Dev &d, const Cfg &c) {
    const timestamp_t t = d.getLastCommandTime(); energy_t e = d.calcCoreEnergy(t); interface_energy_info_t i = d.calcInterfaceEnergy(t);
    std::istringstream in(text); std::string l; std::map<std::string, std::string> rows; while (std::getline(in, l)) { size_t p = l.find(" -> "); if (p != std::string::npos) rows[l.substr(0, p)] = l.substr(p + 4); }
    auto row = [&](const std::string &k) -> const std::string & { if (!rows.count(k)) x.fail("the console report has no line \"%s -> \"", k.c_str()); return rows[k]; };
    for (size_t k = 0; k < c.ranks * c.devices * c.banks; ++k) {
        const std::string &r = row(mc::fmt("%d,%d,%d", (int)(k / (c.banks * c.devices)), (int)(k / c.banks % c.devices), (int)(k % c.banks))); for (auto &kv : kBank) stated(x, r, kv.key, e.bank_energy[k].*kv.m);
    }
    auto agg = e.aggregated_bank_energy(); for (auto &kv : kBank) stated(x, row("Cumulated bank energy with bg_act_shared"), kv.key, agg.*kv.m);
    for (auto &kv : kShared) stated(x, row("Shared energy"), kv.key, e.*kv.m);
    if (strtod(row("Total Energy").c_str(), nullptr) != e.total() + i.total()) x.fail("the console report states the total energy %s instead of %.17g", row("Total Energy").c_str(), e.total() + i.total());
    for (auto *p : {"Controller", "DRAM"}) { size_t q = text.find(std::string(p) + ":"); if (q == std::string::npos) x.fail("the console report has no %s line", p); std::string r = text.substr(q, text.find('\n', q) - q); auto &s = *p == 'C' ? i.controller : i.dram; stated(x, r, "dynamicEnergy", s.dynamicEnergy); stated(x, r, "staticEnergy", s.staticEnergy); }
}
// A history through the front end and through the library.
void through(mc::Ctx &x, const Opt &o, const std::vector<Step> &h, T64 end, bool stop) {
    const std::string dir = scratch();
    std::vector<Command> cmds; for (auto &s : h) cmds.push_back(command(o.c, s)); if (stop) cmds.emplace_back((timestamp_t)(end + 25), CmdType::END_OF_SIMULATION, TargetCoordinate{0, 0, 0, 0, 0});
    std::string csv; for (auto &c : cmds) csv += csvLine(c); write(dir + "/t.csv", csv); write(dir + "/c.json", simText(o.tog)); write(dir + "/m.json", specJson(o.c).dump());
    cli::config::CLIConfig conf; List list; x.step(cmds.size() + 1);
    if (!cli::getConfig(dir + "/c.json", conf)) x.fail("the configuration is rejected"); if (!cli::parse_command_list(dir + "/t.csv", list)) x.fail("the trace is rejected: %s", vis(csv).c_str());
    auto dev = cli::getMemory(dir + "/m.json", conf.simconfig); if (!dev) x.fail("the memory specification is rejected");
    auto ref = make(o.c, o.tog ? togSim() : config::SimConfig{}); for (auto &c : cmds) ref->doCommand(c);
    if (!cli::runCommands(dev, list)) x.fail("running the commands fails");
    if (!(report(*ref, ref->getLastCommandTime(), true) == report(*dev, dev->getLastCommandTime(), true))) x.fail("the simulation differs:%s", diff(*ref, *dev, ref->getLastCommandTime(), true).c_str());
    write(dir + "/r.json", std::string(100000, '#')); if (!cli::makeResult(dir + "/r.json", dev)) x.fail("writing the report fails");
    checkJson(x, dir + "/r.json", *ref, o.c);
}
void both(mc::Ctx &x, const Opt &o) { T64 end; auto h = draw(x, o, end); const bool stop = x.flip(); through(x, o, h, end, stop); }
// Many rounds of activations, two accesses and precharges on alternating banks and ranks.
void many(mc::Ctx &x, Std s) {
    static const std::vector<CmdType> acc = {CmdType::RD, CmdType::WR, CmdType::RDA, CmdType::WRA}; Opt o; o.c = cfg(s, 2); o.tog = x.flip(); const CmdType a = x.oneof(acc), b = x.oneof(acc); const int rounds = x.thorough() ? 12000 : 3000;
    std::vector<Step> h; T64 t = 7; auto put = [&](CmdType c, int rank, int bank, int pay = -1) { Step k; k.o = {c, rank, bank}; k.t = t; k.pay = pay; h.push_back(k); t += 150; };
    const int nb = (int)o.c.banks; for (int i = 0; i < rounds; ++i) { const int r = i & 1, b0 = i % nb, b1 = (b0 + 1) % nb; put(CmdType::ACT, r, b0); put(CmdType::ACT, r, b1); put(a, r, b0, i % 4); put(b, r, b1, (i + 1) % 4); put(CmdType::PREA, r, 0); put(i % 3 ? CmdType::REFA : CmdType::PREA, r, 0); }
    through(x, o, h, t, true);
}
void regL04() {
    mc::dfs("L04", "long traces", "every pair of accesses with payloads in both data modes, 3000 (thorough: 12000) rounds over all banks of two ranks, every standard, through the files", [](mc::Ctx &x) { const Std s = x.oneof(kAll); many(x, s); });
    for (auto s : kAll) for (int tog = 0; tog < 2; ++tog) {
        Opt o; o.c = cfg(s, 2); o.c.devices = s == S4 || s == L4 ? 2 : 1; o.ops = deviceAlphabet(s, 2); o.tog = tog; o.open = true; o.depth = 2; o.dts = {13};
        std::string n = std::string(kStdName[s]) + (tog ? ", toggling rates" : ", payloads");
        mc::dfs("L04", n, "every trace of 2 activations and 2 further commands (2 ranks), with and without an end command, through configuration file, trace file, specification file and report file", [o](mc::Ctx &x) { both(x, o); }, 1);
        o.depth = 3; mc::dfs("L04", n + ", 3 commands", "the same with 3 further commands", [o](mc::Ctx &x) { both(x, o); }, 2);
    }
    mc::dfs("L04", "unknown rank", "a command for a rank the memory does not have, at every position of a trace, is an error", [](mc::Ctx &x) {
        const Std s = x.oneof(kAll); Cfg c = cfg(s, 1 + (uint64_t)x.pick(2)); const int pos = x.pick(3); const size_t rank = c.ranks + (size_t)x.oneof(std::vector<int>{0, 1, 1000}); auto d = make(c); List l; auto &n = x.oneof(kNames);
        if (n.type == CmdType::NOP || n.type == CmdType::END_OF_SIMULATION || n.data || n.type == CmdType::PRESB || n.type == CmdType::DSMEN || n.type == CmdType::DSMEX || std::string(n.text).rfind("REF", 0) == 0) x.reject();
        for (int i = 0; i < 3; ++i) { TargetCoordinate tc; tc.bank = (size_t)i % 2; tc.rank = i == pos ? rank : 0; l.emplace_back(Command((timestamp_t)(5 * i), i == pos ? n.type : CmdType::ACT, tc), nullptr); }
        x.step(); bool ok = true; try { ok = cli::runCommands(d, l); } catch (const std::exception &e) { x.fail("running throws %s", e.what()); }
        if (ok) x.fail("%s: %s for rank %d of %d succeeds", kStdName[s], n.text, (int)rank, (int)c.ranks); });
}
MC_REGISTER(regL04);

// ---- L05 -------------------------------------------------------------------------------------------------
// The real main(), in a child process with its own standard output.
struct Run { int status = -1; std::string out; };
Run tool(const std::vector<std::string> &args, const std::string &cwd) {
    const std::string o = scratch() + "/stdout"; pid_t pid = fork(); if (pid < 0) std::abort();
    if (pid == 0) {
        int fd = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); if (chdir(cwd.c_str()) != 0) _exit(99); std::cout.clear(); std::cerr.clear(); alarm(20);
        std::vector<std::string> a = {"cli"}; a.insert(a.end(), args.begin(), args.end()); std::vector<char *> v; for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
        int rc = 98; try { rc = verif_cli_main((int)a.size(), v.data()); } catch (...) { std::abort(); }
        exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0); Run r; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.out = slurp(o); return r;
}
std::string cmdline(const std::vector<std::string> &a) { std::string s = "cli"; for (auto &x : a) s += " " + x; return s; }
Cfg toolCfg(Std s) { Cfg c = cfg(s, 2); c.devices = s == S4 ? 2 : 1; return c; }
std::vector<Command> toolTrace(const Cfg &c) {
    Step a, b, w, f; a.o = {CmdType::ACT, 0, 0}; a.t = 0; w.o = {CmdType::WR, 0, 0}; w.t = 10; w.pay = 2; b.o = {CmdType::ACT, 1, 1}; b.t = 40;
    std::vector<Command> v = {command(c, a), command(c, w), command(c, b)}; TargetCoordinate t{0, 0, 0, 0, 0}; 
    if (c.std == L6) v.emplace_back(60, CmdType::PRE, t), v.emplace_back(90, CmdType::REFDB, TargetCoordinate{0, 0, 0, 0, 0});
    v.emplace_back(150, CmdType::END_OF_SIMULATION, t); return v;
}
void wholeTool(mc::Ctx &x) {
    const std::string d = scratch() + "/run"; fs::remove_all(d); fs::create_directories(d + "/dir");
    const int conf = x.pick(8), trace = x.pick(5), spec = x.pick(10), json = x.pick(7), form = x.pick(x.thorough() ? 3 : 2);
    // at most two inputs differ from the plain ones in the quick tier
    if (!x.thorough() && (conf > 0) + (trace > 0) + (spec > 0) > 2) x.reject();
    const Cfg c = toolCfg(kAll[(size_t)(spec < 5 ? spec : 0)]); bool good = true, tog = false;
    const std::string def = R"("simconfig":{"toggleRateDefinition":{"togglingRateRead":0.4,"togglingRateWrite":0.7,"dutyCycleRead":0.3,"dutyCycleWrite":0.6,"idlePatternRead":"H","idlePatternWrite":"L"}})";
    std::string ct; switch (conf) { case 0: ct = "{\"useToggleRate\":false,\"simconfig\":{}}"; break; case 1: ct = "{\"useToggleRate\":false," + def + "}"; break; case 2: ct = "{\"useToggleRate\":true," + def + "}"; tog = true; break;
        case 3: ct = "{\"useToggleRate\":true,\"simconfig\":{}}"; good = false; break; case 4: ct = "{" + def + "}"; good = false; break; case 5: ct = "{\"useToggleRate\":"; good = false; break; case 6: ct = "{\"useToggleRate\":false}"; good = false; break; default: good = false; }
    if (conf < 7) write(d + "/c.json", ct);
    auto cmds = toolTrace(c); std::string tt; for (auto &k : cmds) tt += csvLine(k);
    if (trace == 1) tt += "200,ACT,0,0,x,0,0\n"; if (trace == 2) tt = "0,ACT,7,0,0,0,0\n"; if (trace == 3) tt += "200,FOO,0,0,0,0,0\n"; if (trace) good = false; if (trace != 4) write(d + "/t.csv", tt);
    json_t sj = specJson(c); if (spec >= 5) good = false;
    if (spec == 5) sj["memspec"]["memoryType"] = "DDR9"; if (spec == 6) sj["memspec"].erase("memarchitecturespec"); if (spec == 8) sj = json_t::object();
    if (spec != 9) write(d + "/m.json", spec == 7 ? "{\"memspec\":" : sj.dump());
    std::string rep; bool noReport = json == 0; switch (json) { case 1: rep = "new.json"; break; case 2: rep = "old.json"; write(d + "/old.json", std::string(50000, '#')); break; case 3: rep = "none/new.json"; good = false; break; case 4: rep = "dir"; good = false; break;
        case 5: rep = "dir/link"; fs::create_symlink("../linked.json", d + "/dir/link"); break; case 6: rep = d + "/abs.json"; break; default: break; }
    std::vector<std::string> a; auto opt = [&](const char *s, const char *l, const std::string &v) { if (form == 0) { a.push_back(s); a.push_back(v); } else if (form == 1) a.push_back(std::string(l) + "=" + v); else { a.push_back(l); a.push_back(v); } };
    opt("-m", "--memspec", "m.json"); if (!noReport) opt("-j", "--json", rep); opt("-c", "--config", "c.json"); opt("-t", "--trace", d + "/t.csv");
    Run r = tool(a, d); x.step();
    const std::string what = mc::fmt("%s (configuration %d, trace %d, specification %d, report %d)", cmdline(a).c_str(), conf, trace, spec, json);
    if (r.status >= 1000) x.fail("%s is ended by signal %d: %.300s", what.c_str(), r.status - 1000, r.out.c_str());
    if ((r.status == 0) != good) x.fail("%s ends with status %d: %.300s", what.c_str(), r.status, r.out.c_str());
    if (!good) return;
    auto ref = make(c, tog ? togSim() : config::SimConfig{}); for (auto &k : cmds) ref->doCommand(k);
    if (noReport) { checkConsole(x, r.out, *ref, c); return; }
    checkJson(x, json == 5 ? d + "/linked.json" : json == 6 ? rep : d + "/" + rep, *ref, c);
}
void options(mc::Ctx &x) { // which options are given
    const std::string d = scratch() + "/run"; fs::remove_all(d); fs::create_directories(d); const Cfg c = toolCfg(S4); auto cmds = toolTrace(c); std::string tt; for (auto &k : cmds) tt += csvLine(k);
    write(d + "/t.csv", tt); write(d + "/c.json", simText(false)); write(d + "/m.json", specJson(c).dump());
    const bool hc = x.flip(), ht = x.flip(), hm = x.flip(); const int help = x.pick(3), odd = x.pick(4); std::vector<std::string> a;
    if (help == 1) a.push_back("--help"); if (hc) { a.push_back("-c"); a.push_back("c.json"); } if (odd == 1) a.push_back("--unknown"); if (ht) { a.push_back("-t"); a.push_back("t.csv"); }
    if (hm) { a.push_back("-m"); a.push_back("m.json"); } if (odd == 2) a.push_back("stray"); if (odd == 3) a.push_back("-j"); if (help == 2) a.push_back("-h");
    if (help && odd) x.reject();
    Run r = tool(a, d); x.step(); const bool good = help || (hc && ht && hm && !odd);
    if (r.status >= 1000 || (r.status == 0) != good) x.fail("%s ends with status %d: %.300s", cmdline(a).c_str(), r.status, r.out.c_str());
    if (help && r.out.find("--memspec") == std::string::npos) x.fail("%s does not show the options: %.300s", cmdline(a).c_str(), r.out.c_str());
    if (help && (r.out.find("Invalid") != std::string::npos || r.out.find("Total Energy") != std::string::npos)) x.fail("%s goes on after showing the options: %.600s", cmdline(a).c_str(), r.out.c_str());
    if (good && !help) { auto ref = make(c); for (auto &k : cmds) ref->doCommand(k); checkConsole(x, r.out, *ref, c); }
}
void fullDisk(mc::Ctx &x) { // the report file may not grow beyond any given size
    const std::string file = scratch() + "/limited.json"; const Std s = x.oneof(kAll); Cfg c = base(s); c.banks = 2; c.groups = s == L4 || s == L6 ? 1 : 2; c.ranks = 1; auto d = make(c); TargetCoordinate t{0, 0, 0, 0, 0}; d->doCommand(Command(3, CmdType::ACT, t)); d->doCommand(Command(20, CmdType::END_OF_SIMULATION, t));
    fs::remove(file); if (!cli::makeResult(file, d)) x.fail("writing the report fails"); const size_t n = slurp(file).size(); const size_t lim = (size_t)x.pick((int)n + 2); fs::remove(file); x.step();
    struct rlimit old, now; getrlimit(RLIMIT_FSIZE, &old); now = old; now.rlim_cur = lim; auto *h = signal(SIGXFSZ, SIG_IGN); setrlimit(RLIMIT_FSIZE, &now);
    bool ok = false, threw = false; try { ok = cli::makeResult(file, d); } catch (const std::exception &) { threw = true; }
    setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, h); const size_t got = slurp(file).size(); fs::remove(file);
    if (threw) x.fail("writing the report throws when only %d of %d bytes can be written", (int)lim, (int)n);
    if (ok != (lim >= n)) x.fail("%s: %d of %d bytes of the report are written and %s is reported", kStdName[s], (int)got, (int)n, ok ? "success" : "failure");
}
void regL05() {
    mc::dfs("L05", "whole tool", "main() with every combination of 8 configurations, 5 traces, 10 specifications, 7 report targets and 3 ways of writing options (quick: 2, and at most two unusual inputs at once)", wholeTool);
    mc::dfs("L05", "options", "main() with every subset of the required options, help requests and stray arguments", options);
    mc::dfs("L05", "interrupted report", "writing the report file with every possible limit of its size, for every standard", fullDisk);
}
MC_REGISTER(regL05);
} // namespace
