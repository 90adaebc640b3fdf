# Second batch: buses, save/restore, building blocks, LPDDR6 payload formatting, command line.
D = "DRAMPower/DRAMPower/"
HEAD = '#include "dm.h"\nint main() {\n'
TAIL = '    return g_bad;\n}\n'
def dm(body, pre=""): return '#include "dm.h"\n' + pre + 'int main() {\n' + body + TAIL
CLI = '-I"$R/src/cli/lib" -I"$R/src/cli/main" -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL "$R"/src/cli/lib/DRAMPower/cli/*.cpp "$R/src/cli/main/validators.cpp" -lspdlog -lfmt -lpthread'
CH = '''#include <DRAMPower/cli/run.hpp>
#include <DRAMPower/cli/util.hpp>
#include <fstream>
#include <filesystem>
#include "validators.h"
namespace cli = DRAMPower::DRAMPowerCLI;
static void put(const char *f, const std::string &s) { std::ofstream o(f); o << s; }
static std::string get(const char *f) { std::ifstream i(f); return std::string(std::istreambuf_iterator<char>(i), {}); }
'''
PLANTS2 = [
 dict(id="c01-window-in-power-down", prop="C01", edits=[(D + "standards/ddr5/DDR5Core.cpp", """            simulation_duration - (rank.cycles.act.get_count_at(timestamp) +
                                    rank.cycles.powerDownAct.get_count_at(timestamp) +""", """            simulation_duration - (rank.cycles.act.get_count_at(timestamp) +
                                    rank.cycles.powerDownAct.get_count() +""")],
  needs="DDR5: rank statistics asked for while the rank is still in active power-down", breaks="the running power-down counts as precharge standby too, so the states add up to more than the window",
  demo=dm('''    dev::Cfg c; c.std = dev::S5; c.banks = 8; c.groups = 4; auto d = dev::make(c);
    run(*d, {{0, CmdType::ACT, 0}, {20, CmdType::PDEA}});
    auto s = d->getWindowStats(50).rank_total[0].cycles;
    EXPECT("sum of the states", s.act + s.pre + s.powerDownAct + s.powerDownPre + s.selfRefresh, 50);
''')),
 dict(id="c09-unknown-bank", prop="C09", count=1, edits=[(D + "util/RegisterHelper.h", '''        if (cmd.targetCoordinate.bank >= rank.banks.size()) {
            throw std::invalid_argument("Invalid bank targetcoordinate");
        }
        auto bank_id = cmd.targetCoordinate.bank;

        return (owner->*member_func)(cmd.targetCoordinate.rank, bank_id, cmd.timestamp);''', '''        auto bank_id = cmd.targetCoordinate.bank % rank.banks.size();

        return (owner->*member_func)(cmd.targetCoordinate.rank, bank_id, cmd.timestamp);''')],
  needs="DDR5: a same-bank refresh or precharge for a bank that does not exist", breaks="the command is executed on another bank instead of being refused",
  demo=dm('''    dev::Cfg c; c.std = dev::S5; c.banks = 8; c.groups = 4; auto d = dev::make(c); bool refused = false;
    try { run(*d, {{10, CmdType::REFSB, 8}}); } catch (const std::exception &) { refused = true; }
    EXPECT("refused", refused, true);
''')),
 dict(id="i01-bl32-sticks", prop="I01", edits=[(D + "standards/lpddr4/LPDDR4Interface.cpp", "            m_patternHandler.getEncoder().settings.removeSetting(pattern_descriptor::C4);\n", "")],
  needs="LPDDR4: a burst of 16 beats after one of 32, to a column with bit 4 set", breaks="column bit 4 stays overridden after the first long burst",
  demo=dm('''    dev::Cfg c; c.std = dev::L4; c.BL = 16; static uint8_t z[64] = {};
    auto ones = [&](bool first) { auto d = dev::make(c);
        if (first) d->doCommand(Command{10, CmdType::RD, {0, 0, 0, 0, 0}, z, 32 * 8});
        auto a = d->getWindowStats(100).commandBus.ones;
        d->doCommand(Command{100, CmdType::RD, {0, 0, 0, 0, 16}, z, 16 * 8});
        d->doCommand(Command{150, CmdType::RD, {0, 0, 0, 0, 16}, z, 16 * 8});
        auto s = d->getWindowStats(200).commandBus.ones; return s - a; };
    EXPECT("ones of two short bursts", ones(true), ones(false));
''')),
 dict(id="i05-burst-chop", prop="I05", edits=[(D + "util/dbi.h", "m_end = timestamp + (n_bits / m_width.value());", "m_end = timestamp + m_burstLength;")],
  needs="DC data bus inversion with a burst shorter than the configured burst length followed by a seamless one", breaks="the next burst is compared with the idle pattern instead of the last beat, or the other way round",
  demo=dm('''    using namespace DRAMPower::util;
    std::vector<timestamp_t> rest; uint8_t z[8] = {};
    DBI<uint8_t, 1, PinState::H, StaticDBI> d(std::optional<std::size_t>(8), 8, [&](timestamp_t, timestamp_t t, std::size_t, bool inv, bool) { if (!inv) rest.push_back(t); }, true);
    d.updateDBI(10, 32, z, true); d.dispatchResetCallback(40);
    EXPECT("pins returned to rest", rest.size(), 1);
    if (rest.size() == 1) EXPECT("time of the return to rest", rest[0], 14);
''')),
 dict(id="i06-pin-back-to-back", prop="I06", edits=[(D + "util/pin.h", "[this, virtual_load_time](){\n                if ((virtual_load_time == m_last_set + m_burst_storage.size())", "[this, load_time, virtual_load_time](){\n                if ((load_time == m_last_set + m_burst_storage.size())")],
  needs="two bursts without a pause on a pin that carries more than one beat per cycle", breaks="the pin is taken to return to rest between them",
  demo='''
#include "dm.h"
#include <DRAMPower/util/pin.h>
int main() {
    using namespace DRAMPower::util;
    Pin<32> p(PinState::L, PinState::L);
    for (int t = 4; t < 8; t += 2) for (int i = 0; i < 4; ++i) p.set(t, PinState::H, 2);
    EXPECT("rising edges", p.get_stats_at(20, 2).zeroes_to_ones, 1);
    return g_bad;
}
'''),
 dict(id="i07-second-strobe-pair", prop="I07", edits=[(D + "standards/ddr5/DDR5Interface.cpp", "        stats.readDQSStats *= 2;\n        stats.writeDQSStats *= 2;\n", "        stats.readDQSStats *= 2;\n        stats.writeDQSStats = stats.writeDQSStats + 2 * m_readDQS.get_stats_at(timestamp);\n")],
  needs="DDR5 x16 with different amounts of read and write traffic", breaks="the second write strobe pair follows the reads",
  demo=dm('''    dev::Cfg c; c.std = dev::S5; c.banks = 8; c.groups = 4; c.width = 16; c.BL = 16; auto d = dev::make(c); static uint8_t z[64] = {};
    run(*d, {{0, CmdType::ACT, 0}});
    d->doCommand(Command{10, CmdType::WR, {0, 0, 0}, z, 256}); d->doCommand(Command{30, CmdType::WR, {0, 0, 0}, z, 256});
    d->doCommand(Command{60, CmdType::RD, {0, 0, 0}, z, 256});
    auto s = d->getWindowStats(100); EXPECT("write strobe edges", s.writeDQSStats.zeroes_to_ones, 2 * s.readDQSStats.zeroes_to_ones);
''')),
 dict(id="s01-precharge-time", prop="S01", edits=[(D + "dram/Bank.h", "        stream.write(reinterpret_cast<const char *>(&latestPre), sizeof(latestPre));\n", ""), (D + "dram/Bank.h", "        stream.read(reinterpret_cast<char *>(&latestPre), sizeof(latestPre));\n", "")],
  needs="save and restore right after a precharge, then a power-down entry within the precharge time", breaks="the restored device forgets when the bank was precharged and enters power-down at once",
  demo=dm('''    dev::Cfg c; c.tRP = 9;
    auto h = [&](bool save) { auto d = dev::make(c);
        run(*d, {{0, CmdType::ACT, 0}, {20, CmdType::PRE, 0}});
        if (save) { std::stringstream s; d->serialize(s); d = dev::make(c); d->deserialize(s); }
        run(*d, {{22, CmdType::PDEP}});
        return d->getWindowStats(60).rank_total[0].cycles.powerDownPre; };
    EXPECT("precharge power-down", h(true), h(false));
''')),
 dict(id="u01-grow-after-clear", prop="U01", bare=True, edits=[(D + "util/dynamic_bitset.h", "        buffer.clear();\n        num_bits = 0;", "        for (auto &element : buffer) {\n            element.reset();\n        }\n        num_bits = 0;")],
  needs="a bitset that is cleared and grown again", breaks="the bits appended after the clear are lost",
  demo='''
#include "dm.h"
#include <DRAMPower/util/dynamic_bitset.h>
int main() {
    DRAMPower::util::dynamic_bitset<8> b(5, 3ul);
    b.clear(); b.push_back(true); b.push_back(true);
    EXPECT("bit 1", b[1], true);
    EXPECT("equal to 11", b == DRAMPower::util::dynamic_bitset<8>(2, 3ul), true);
    return g_bad;
}
'''),
 dict(id="u02-complement", prop="U02", bare=True, edits=[(D + "util/sub_bitset.h", "        result.buffer = ~buffer;\n        result.buffer &= mask;", "        result.buffer = ~buffer;\n        if (width < 32) result.buffer &= mask;")],
  needs="complement of a view of 32 or more bits that is narrower than its storage", breaks="the bits beyond the width are set",
  demo='''
#include "dm.h"
#include <DRAMPower/util/sub_bitset.h>
int main() {
    DRAMPower::util::sub_bitset<64> b(40, 0);
    EXPECT("count", (~b).count(), 40);
    return g_bad;
}
'''),
 dict(id="u03-restore-ended", prop="U03", bare=True, edits=[(D + "util/cycle_stats.h", "\t\t\tstream.read(reinterpret_cast<char *>(&end), sizeof(end));\n\t\t} else {\n\t\t\tend.reset();\n\t\t}", "\t\t\tstream.read(reinterpret_cast<char *>(&end), sizeof(end));\n\t\t}")],
  needs="a running interval restored into a counter whose own interval has ended", breaks="the restored interval does not count",
  demo="""
#include "dm.h"
#include <DRAMPower/util/cycle_stats.h>
#include <sstream>
int main() {
    DRAMPower::util::interval_counter<uint64_t> a, b; a.start_interval(5); b.start_interval(1); b.close_interval(2);
    std::stringstream s; a.serialize(s); b.deserialize(s);
    EXPECT("running", b.is_open(), true); EXPECT("count", b.get_count_at(9), 4);
    return g_bad;
}
"""),
 dict(id="u05-bank-bit", prop="U05", edits=[(D + "command/Pattern.cpp", "bitset[n] = bank_group_bits[2];", "bitset[n] = bank_group_bits[2] && !bank_group_bits[1];")],
  needs="bank group 6 or 7", breaks="bit 2 of the bank group is lost when bit 1 is set too",
  demo=dm('''    dev::Cfg c; c.std = dev::S5; c.banks = 16; c.groups = 8;
    auto n = [&](int g) { auto d = dev::make(c); run(*d, {{10, CmdType::PRE, 0, (uint64_t)g}, {40, CmdType::PRE, 0, (uint64_t)g}}); return (long)d->getWindowStats(60).commandBus.ones; };
    EXPECT("ones of group 6 against group 3", n(6), n(3));
''')),
 dict(id="u06-highest-hook", prop="U06", bare=True, edits=[(D + "util/extension_manager.h", "constexpr static std::size_t m_numHooks = std::numeric_limits<HookValue_t>::digits;", "constexpr static std::size_t m_numHooks = std::numeric_limits<std::make_signed_t<HookValue_t>>::digits;")],
  needs="an extension that supports the hook with the highest bit", breaks="that hook is never called",
  demo='''
#include "dm.h"
#include <DRAMPower/util/extension_manager.h>
using namespace DRAMPower::util::extension_manager;
enum class H : uint8_t { A = 1, B = 128 };
struct X : ExtensionWithHooks<H>, DRAMPower::util::Serialize, DRAMPower::util::Deserialize { H getSupportedHooks() const override { return (H)129; } void serialize(std::ostream &) const override {} void deserialize(std::istream &) override {} };
int main() {
    ExtensionManagerWithHooks<X, H> m; m.registerExtension<X>(); int n = 0;
    m.callHook(H::B, [&](X &) { ++n; }); m.callHook(H::A, [&](X &) { ++n; });
    EXPECT("calls", n, 2);
    return g_bad;
}
'''),
 dict(id="u07-presb-as-prea", prop="U07", edits=[(D + "standards/lpddr4/LPDDR4Core.cpp", "        case CmdType::PREA:\n", "        case CmdType::PRESB:\n        case CmdType::PREA:\n")],
  needs="an LPDDR4 trace with a command of another standard (PRESB)", breaks="the foreign command precharges every bank",
  demo=dm('''    dev::Cfg c; c.std = dev::L4; auto d = dev::make(c);
    run(*d, {{0, CmdType::ACT, 0}});
    try { run(*d, {{20, CmdType::PRESB, 0}}); } catch (const std::exception &) {}
    EXPECT("precharges", d->getWindowStats(60).bank[0].counter.pre, 0);
''')),
 dict(id="u08-end-prefix", prop="U08", edits=[(D + "command/CmdType.h", 'if (str == "END" || str == "END_OF_SIMULATION")', 'if (str.substr(0, 3) == "END")')],
  needs="an unknown command name that starts with END", breaks="it ends the simulation instead of being a NOP",
  demo=dm('''    EXPECT("ENDED", (int)CmdTypeUtil::from_string("ENDED"), (int)CmdType::NOP);
    EXPECT("END", (int)CmdTypeUtil::from_string("END"), (int)CmdType::END_OF_SIMULATION);
''')),
 dict(id="p01-stale-burst", prop="P01", edits=[(D + "standards/lpddr6/LPDDR6Interface.cpp", "std::fill_n(m_formatResult.begin(), requiredBytes, 0);", "std::fill_n(m_formatResult.begin(), dataBytesPerBurst, 0);")],
  needs="LPDDR6: a payload of two bursts after another one", breaks="bits of the earlier payload remain in the second one",
  demo=dm("""    dev::Cfg c; c.std = dev::L6; c.groups = 4; c.banks = 16; c.width = 12; c.BL = 24;
    static uint8_t a[64], z[64]; for (auto &b : a) b = 0xff;
    MemSpecLPDDR6 ms(dev::specL6(c)); LPDDR6 d(ms); d.doCommand(Command{0, CmdType::ACT, {0, 0, 0}}); d.doCommand(Command{20, CmdType::WR, {0, 0, 0}, a, 512});
    long before = (long)d.getWindowStats(100).writeBus.ones; d.doCommand(Command{120, CmdType::WR, {0, 0, 0}, z, 512});
    EXPECT("ones of the second payload", (long)d.getWindowStats(200).writeBus.ones - before, 0);
""")),
 dict(id="l01-short-row", prop="L01", edits=[("cli/lib/DRAMPower/cli/run.cpp", "		if ( row.size() < MINCSVSIZE )\n", "		if ( row.size() == 1 ) continue;\n		if ( row.size() < MINCSVSIZE )\n")],
  needs="a trace with a line that holds a single field", breaks="the malformed line is skipped instead of refusing the trace", extra=CLI,
  demo=dm('''    std::vector<std::pair<Command, std::unique_ptr<uint8_t[]>>> l;
    put("t.csv", "0,ACT,0,0,0,5,0\\nrubbish\\n20,PRE,0,0,0,0,0\\n"); EXPECT("accepted", cli::parse_command_list("t.csv", l), false);
    l.clear(); put("t.csv", "0,ACT,0,0,0,5,0\\n20,PRE,0,0,0,0,0\\n"); EXPECT("accepted", cli::parse_command_list("t.csv", l), true);
''', CH)),
 dict(id="l02-upper-prefix", prop="L02", edits=[("cli/lib/DRAMPower/cli/util.cpp", 'if (data.substr(0, 2) == "0x" || data.substr(0, 2) == "0X")', 'if (data.length() > 2 && (data.substr(0, 2) == "0x" || data.substr(1, 1) == "X"))'), ("cli/lib/DRAMPower/cli/util.cpp", "		hexString = data.substr(2);", "		hexString = data.substr(data.find_first_of(\"xX\") + 1);")],
  needs="a payload that starts with a digit other than zero and an upper-case X", breaks="it is accepted as if it had the prefix", extra=CLI,
  demo=dm('''    bool bad = false; size_t n;
    try { cli::util::hexStringToUint8Array("1X7e", n); } catch (const std::exception &) { bad = true; }
    EXPECT("refused", bad, true); EXPECT("byte", cli::util::hexStringToUint8Array("0X7e", n)[0], 0x7e);
''', CH)),
 dict(id="l03-truncated-through-link", prop="L03", edits=[("cli/main/validators.cpp", '''                filepath = resolved->path;
                return std::string{};''', '''                filepath = resolved->path;
                return createFileInParentDirectory(filepath);''')],
  needs="an output path that is a symbolic link to an existing file", breaks="the existing file loses its contents", extra=CLI,
  demo=dm('''    put("old.json", "old report"); std::filesystem::create_symlink("old.json", "link"); std::string p = "link";
    validators::EnsureFileExists_t v; EXPECT("accepted", v(p).empty(), true); EXPECT("contents kept", get("old.json") == "old report", true);
''', CH)),
 dict(id="l04-report-order", prop="L04", edits=[("cli/lib/DRAMPower/cli/run.cpp", '''				j["CoreEnergy"][core_energy.get_Bank_energy_keyword()].at(energy_offset + b)["Rank"] = r;
				j["CoreEnergy"][core_energy.get_Bank_energy_keyword()].at(energy_offset + b)["Device"] = d;''', '''				j["CoreEnergy"][core_energy.get_Bank_energy_keyword()].at(energy_offset + b)["Rank"] = (r * devicecount + d) % rankcount;
				j["CoreEnergy"][core_energy.get_Bank_energy_keyword()].at(energy_offset + b)["Device"] = (r * devicecount + d) / rankcount;''')],
  needs="a report for several ranks of several devices", breaks="the energies of rank 0 device 1 are labelled as those of rank 1 device 0", extra=CLI,
  demo=dm('''    dev::Cfg c; c.ranks = 2; c.devices = 2; auto d = dev::make(c);
    run(*d, {{0, CmdType::ACT, 1, 0, 1}, {20, CmdType::PRE, 1, 0, 1}});
    auto e = d->calcCoreEnergy(60); auto i = d->calcInterfaceEnergy(60);
    EXPECT("written", cli::jsonFileResult("r.json", d, e, i), true); auto j = nlohmann::json::parse(get("r.json"));
    for (auto &b : j["CoreEnergy"][e.get_Bank_energy_keyword()]) EXPECT("activates", b["ACT"].get<double>() > 0, b["Rank"] == 1 && b["Bank"] == 1);
''', CH)),
 dict(id="l05-console-order", prop="L05", edits=[("cli/lib/DRAMPower/cli/run.cpp", '''					core_energy.bank_energy[energy_offset + b]
''', '''					core_energy.bank_energy[d * rankcount * bankcount + r * bankcount + b]
''')],
  needs="console report for several ranks of several devices", breaks="the energies of one rank are printed for another", extra=CLI,
  demo=dm('''    dev::Cfg c; c.ranks = 2; c.devices = 2; auto d = dev::make(c); spdlog::set_pattern("%v");
    run(*d, {{0, CmdType::ACT, 1, 0, 1}, {20, CmdType::PRE, 1, 0, 1}});
    auto e = d->calcCoreEnergy(60); auto i = d->calcInterfaceEnergy(60);
    fflush(stdout); int keep = dup(1); FILE *f = fopen("out", "w"); dup2(fileno(f), 1);
    cli::stdoutResult(d, e, i); std::cout.flush(); fflush(stdout); spdlog::default_logger()->flush(); dup2(keep, 1); fclose(f);
    std::istringstream in(get("out")); std::string l; int seen = 0;
    while (std::getline(in, l)) if (l.size() > 6 && l[1] == ',' && l[3] == ',') { ++seen; bool zero = l.find("-> ACT: 0 ") != std::string::npos;
        EXPECT("no activates", zero, !(l[0] == '1' && l[4] == '1')); }
    EXPECT("lines", seen, 16);
''', "#include <unistd.h>\n#include <spdlog/spdlog.h>\n" + CH)),
 dict(id="r01-format-buffer", prop="R01", flags="-D_GLIBCXX_ASSERTIONS", edits=[(D + "standards/lpddr6/LPDDR6Interface.cpp", "if (m_formatResult.size() < requiredBytes) {", "if (m_formatResult.empty()) {")],
  needs="an LPDDR6 access of the double burst length after one of the single burst length", breaks="the burst is formatted beyond the end of the buffer",
  demo="""
#include "dm.h"
#include <sys/wait.h>
#include <unistd.h>
int main() {
    pid_t p = fork();
    if (!p) {
        dev::Cfg c; c.std = dev::L6; c.groups = 4; c.banks = 16; c.width = 12; c.BL = 24; static uint8_t z[64] = {};
        auto d = dev::make(c);
        d->doCoreInterfaceCommand(Command{0, CmdType::ACT, {0, 0, 0}}); d->doCoreInterfaceCommand(Command{20, CmdType::WR, {0, 0, 0}, z, 256}); d->doCoreInterfaceCommand(Command{60, CmdType::WR, {0, 0, 0}, z, 512});
        d->getWindowStats(100); _exit(0);
    }
    int st = 1; waitpid(p, &st, 0);
    EXPECT("process status", st, 0);
    return g_bad;
}
"""),
 dict(id="s03-write-recovery", prop="S03", edits=[(D + "standards/lpddr5/LPDDR5Core.cpp", "auto minWriteActiveTime = timestamp + this->m_memSpec.prechargeOffsetWR;\n\n    auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);\n    // Execute PRE after minimum active time\n    m_implicitCommandHandler.addImplicitCommand(delayed_timestamp, [rank_idx, bank_idx, delayed_timestamp](LPDDR5Core& self) {\n        auto& rank = self.m_ranks[rank_idx];\n        auto& bank = rank.banks[bank_idx];\n        self",
  "auto minWriteActiveTime = timestamp + this->m_memSpec.prechargeOffsetWR;\n\n    auto delayed_timestamp = std::max(minBankActiveTime, minWriteActiveTime);\n    // Execute PRE after minimum active time\n    m_implicitCommandHandler.addImplicitCommand(delayed_timestamp, [&bank, &rank = m_ranks[rank_idx], delayed_timestamp](LPDDR5Core& self) {\n        self")],
  needs="LPDDR5: a device copied while a write's auto-precharge is pending", breaks="the copy's bank is never precharged; the original's is",
  demo=dm("""    dev::Cfg c; c.std = dev::L5; c.groups = 4; c.banks = 16; MemSpecLPDDR5 ms(dev::specL5(c)); LPDDR5 a(ms);
    a.doCoreCommand(Command{0, CmdType::ACT, {0, 0, 0}}); a.doCoreCommand(Command{20, CmdType::WRA, {0, 0, 0}});
    LPDDR5 b(a); EXPECT("cycles active", b.getWindowStats(500).bank[0].cycles.act, a.getWindowStats(500).bank[0].cycles.act); EXPECT("precharges", b.getWindowStats(500).bank[0].counter.pre, 1);
""")),
 dict(id="s04-core-time", prop="S04", edits=[(D + "standards/lpddr5/LPDDR5.h", "return std::max(m_core.getLastCommandTime(), m_interface.getLastCommandTime());", "return m_core.getLastCommandTime();")],
  needs="LPDDR5: commands given to the interface alone, then getStats()", breaks="statistics are taken at time zero",
  demo=dm("""    dev::Cfg c; c.std = dev::L5; c.groups = 4; c.banks = 16; MemSpecLPDDR5 ms(dev::specL5(c)); LPDDR5 a(ms);
    a.doInterfaceCommand(Command{10, CmdType::ACT, {0, 0, 0}}); a.doInterfaceCommand(Command{40, CmdType::PRE, {0, 0, 0}});
    EXPECT("clock cycles", a.getStats().clockStats.ones, a.getWindowStats(40).clockStats.ones); EXPECT("time", a.getLastCommandTime(), 40);
""")),
 dict(id="u09-fewer-banks", prop="U09", bare=True, edits=[(D + "data/stats.h", "bank.insert(bank.end(), rhs.bank.begin() + min_bank, rhs.bank.end());", "bank.insert(bank.end(), rhs.bank.begin() + (min_bank > 0), rhs.bank.end());")],
  needs="adding a record with more banks than the left one, which has at least two", breaks="the wrong banks are taken over",
  demo="""
#include "dm.h"
#include <DRAMPower/data/stats.h>
int main() {
    DRAMPower::SimulationStats a, b; a.bank.resize(2); b.bank.resize(3); b.bank[2].counter.act = 7; a += b;
    EXPECT("banks", a.bank.size(), 3); if (a.bank.size() == 3) EXPECT("activates", a.bank[2].counter.act, 7);
    return g_bad;
}
"""),
 dict(id="s05-inversion-late", prop="S05", edits=[(D + "util/dbi.h", "timestamp_t end() const {", "unsigned end() const {")],
  needs="LPDDR4 with inversion: back-to-back bursts that are both inverted, later than 2^32 cycles", breaks="the inversion pins rest between the bursts",
  demo=dm("""    dev::Cfg c; c.std = dev::L4; c.BL = 16; uint64_t ones[2], zeroes[2]; static uint8_t z[16]; for (auto &b : z) b = 0xff; int i = 0;
    for (uint64_t off : {uint64_t(10), uint64_t(10) + (uint64_t(1) << 33)}) {
        auto d = dev::make(c); d->getExtensionManager().getExtension<extensions::DBI>().lock()->enable(0, true);
        d->doInterfaceCommand(Command{off, CmdType::WR, {0, 0, 0}, z, 128}); d->doInterfaceCommand(Command{off + 8, CmdType::WR, {0, 0, 0}, z, 128});
        zeroes[i] = d->getWindowStats(off + 40).writeDBI.zeroes - 2 * off; ones[i++] = d->getWindowStats(off + 40).writeDBI.ones;
    }
    EXPECT("beats inverted", ones[1], ones[0]); EXPECT("beats at rest", zeroes[1], zeroes[0]);
""")),
 dict(id="c03-upper-banks", prop="C03", count=1, edits=[(D + "standards/ddr5/DDR5Core.cpp", """    m_implicitCommandHandler.addImplicitCommand(delayed_timestamp, [rank_idx, bank_idx, delayed_timestamp](DDR5Core& self) {
        auto& rank = self.m_ranks[rank_idx];
        auto& bank = rank.banks[bank_idx];
        self.handlePre(rank, bank, delayed_timestamp);
    });
}

void DDR5Core::handleWrite(""", """    m_implicitCommandHandler.addImplicitCommand(delayed_timestamp, [rank_idx, bank_idx = bank_idx % 16, delayed_timestamp](DDR5Core& self) {
        auto& rank = self.m_ranks[rank_idx];
        auto& bank = rank.banks[bank_idx];
        self.handlePre(rank, bank, delayed_timestamp);
    });
}

void DDR5Core::handleWrite(""")],
  needs="a DDR5 device with more than 16 banks and a read with auto-precharge on bank 16 or above", breaks="the automatic precharge closes another bank",
  demo=dm("""    dev::Cfg c; c.std = dev::S5; c.banks = 32; c.groups = 8; auto d = dev::make(c);
    d->doCoreCommand(Command{10, CmdType::ACT, {21, 5, 0}}); d->doCoreCommand(Command{20, CmdType::RDA, {21, 5, 0}}); auto s = d->getWindowStats(100);
    EXPECT("precharges", s.bank[21].counter.pre, 1); EXPECT("bank 21 closes", s.bank[21].cycles.act < 60, true);
""")),
 dict(id="s06-read-count", prop="S06", edits=[(D + "data/stats.h", "		uint64_t readAuto = 0;", "		uint16_t readAuto = 0;")],
  needs="more than 65535 reads with auto-precharge of one bank", breaks="the count of these reads starts again at zero",
  demo=dm("""    dev::Cfg c; c.std = dev::S5; auto d = dev::make(c); uint64_t t = 10;
    for (int i = 0; i < 70000; ++i, t += 50) { d->doCoreCommand(Command{t, CmdType::ACT, {0, 0, 0}}); d->doCoreCommand(Command{t + 10, CmdType::RDA, {0, 0, 0}}); }
    EXPECT("reads with auto-precharge", d->getWindowStats(t).bank[0].counter.readAuto, 70000);
""")),
 dict(id="s07-sixteen-banks", prop="S07", edits=[(D + "dram/Rank.cpp", "return (unsigned)std::count_if(banks.begin(), banks.end(),", "return (unsigned)std::count_if(banks.begin(), banks.size() < 16 ? banks.end() : banks.begin() + 16,")],
  needs="a DDR5 device with more than 16 banks; a row is closed while the only rows left open are in the upper banks", breaks="the rank counts as precharged although rows are open",
  demo=dm("""    dev::Cfg c; c.std = dev::S5; c.banks = 32; c.groups = 8; auto d = dev::make(c);
    d->doCoreCommand(Command{10, CmdType::ACT, {3, 0, 0}}); d->doCoreCommand(Command{11, CmdType::ACT, {21, 5, 0}}); d->doCoreCommand(Command{40, CmdType::PRE, {3, 0, 0}}); auto s = d->getWindowStats(100);
    EXPECT("active cycles of the rank", s.rank_total[0].cycles.act, 90);
""")),
 dict(id="s08-other-name", prop="S08", edits=[(D + "dram/dram_base.h", """    void doCoreInterfaceCommand(const Command& command) {
        doCommand(command);""", """    void doCoreInterfaceCommand(const Command& command) {
        if (CmdTypeUtil::needs_data(command.type) && command.data == nullptr) {
            doCoreCommand(command);
            return;
        }
        doCommand(command);""")],
  needs="an access without payload (as in toggling-rate mode) given through doCoreInterfaceCommand", breaks="the interface does not see the command",
  demo=dm("""    dev::Cfg c; c.std = dev::S5; auto a = dev::make(c), b = dev::make(c);
    a->doCommand(Command{10, CmdType::ACT, {0, 0, 0}}); b->doCoreInterfaceCommand(Command{10, CmdType::ACT, {0, 0, 0}});
    a->doCommand(Command{20, CmdType::RD, {0, 0, 0}}); b->doCoreInterfaceCommand(Command{20, CmdType::RD, {0, 0, 0}});
    EXPECT("zeroes on the command bus", b->getWindowStats(40).commandBus.zeroes, a->getWindowStats(40).commandBus.zeroes);
""")),
]
