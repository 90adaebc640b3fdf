D = "DRAMPower/DRAMPower/"
HEAD = '#include "dm.h"\nint main() {\n'
TAIL = '    return g_bad;\n}\n'
def dm(body): return HEAD + body + TAIL
PLANTS = [
 dict(id="c05-refsb-deferred-entry", prop="C05", edits=[(D + "standards/ddr5/DDR5Core.cpp", "                bank.refreshEndTime});", "                rank.endRefreshTime});")],
  needs="DDR5: power-down entry requested while a same-bank refresh (not an all-bank refresh) is running", breaks="the entry is not deferred to the end of the same-bank refresh",
  demo=dm('''    dev::Cfg c; c.std = dev::S5; c.banks = 8; c.groups = 4; auto d = dev::make(c);
    run(*d, {{10, CmdType::REFSB, 0}, {11, CmdType::PDEP}, {40, CmdType::PDXP}});
    auto s = d->getWindowStats(50);
    EXPECT("precharge power-down", s.rank_total[0].cycles.powerDownPre, 40 - (10 + c.RFCs));
''')),
 dict(id="c04-fine-refresh", prop="C04", edits=[(D + "memspec/MemSpecDDR4.cpp", "memTimingSpec.tRFC = memspec.memtimingspec.RFC4;", "memTimingSpec.tRFC = memspec.memtimingspec.RFC2;")],
  needs="DDR4 in refresh mode 4", breaks="a refresh keeps the banks active for the refresh duration of mode 2",
  demo=dm('''    dev::Cfg c; c.refmode = 4; auto d = dev::make(c);
    run(*d, {{10, CmdType::REFA}});
    EXPECT("active cycles", d->getWindowStats(50).bank[0].cycles.act, c.RFC4);
''')),
 dict(id="c02-rda-then-pre", prop="C02", count=2, edits=[(D + "standards/ddr4/DDR4Core.cpp", """        self.handlePre(self.m_ranks[rank_idx], self.m_ranks[rank_idx].banks[bank_idx], delayed_timestamp);
""", """            auto& rank = self.m_ranks[rank_idx];
            auto& bank = rank.banks[bank_idx];
            bank.counter.pre++;
            bank.cycles.act.close_interval(delayed_timestamp);
            bank.latestPre = delayed_timestamp;
            bank.bankState = Bank::BankState::BANK_PRECHARGED;
            if (!rank.isActive(delayed_timestamp))
                rank.cycles.act.close_interval(delayed_timestamp);
""")],
  needs="DDR4: a precharge (of all banks) between an auto-precharging access and the instant its auto-precharge takes effect", breaks="the bank is counted as precharged twice",
  demo=dm('''    dev::Cfg c; auto d = dev::make(c);
    run(*d, {{0, CmdType::ACT, 1}, {8, CmdType::WRA, 1}, {9, CmdType::PREA}, {40, CmdType::PREA}});
    EXPECT("precharges", d->getWindowStats(60).bank[1].counter.pre, 1);
''')),
 dict(id="c03-ddr4-additive-latency", prop="C03", edits=[(D + "memspec/MemSpecDDR4.cpp", "prechargeOffsetRD      =  memTimingSpec.tAL + memTimingSpec.tRTP;", "prechargeOffsetRD      =  std::max(memTimingSpec.tAL, memTimingSpec.tRTP);")],
  needs="DDR4 with a non-zero additive latency and a read with auto-precharge late after the activate", breaks="the auto-precharge comes too early by the smaller of additive latency and read-to-precharge delay",
  demo=dm('''    dev::Cfg c; c.AL = 3; auto d = dev::make(c);
    run(*d, {{0, CmdType::ACT, 0}, {20, CmdType::RDA, 0}});
    EXPECT("active cycles", d->getWindowStats(60).bank[0].cycles.act, 20 + c.AL + c.RTP);
''')),
 dict(id="c06-dsm-open", prop="C06", edits=[(D + "standards/lpddr5/LPDDR5Core.cpp", '''            stats.bank[bank_offset + j].cycles.deepSleepMode =
                rank.cycles.deepSleepMode.get_count_at(timestamp);''', '''            stats.bank[bank_offset + j].cycles.deepSleepMode =
                rank.cycles.deepSleepMode.get_count();''')],
  needs="LPDDR5: bank statistics asked for while the rank is still in deep sleep", breaks="the running deep sleep interval is missing from the bank's deep sleep cycles",
  demo=dm('''    dev::Cfg c; c.std = dev::L5; c.banks = 16; c.groups = 1; auto d = dev::make(c);
    run(*d, {{0, CmdType::SREFEN}, {20, CmdType::DSMEN}});
    EXPECT("deep sleep", d->getWindowStats(50).bank[0].cycles.deepSleepMode, 30);
''')),
 dict(id="c07-pd-other-rank", prop="C07", edits=[(D + "standards/ddr4/DDR4Core.cpp", '''    for (const auto & bank : rank.banks) {
        entryTime = std::max({ entryTime,''', '''    for (const auto & other : m_ranks) for (const auto & bank : other.banks) {
        if (&other != &rank) { entryTime = std::max(entryTime, bank.refreshEndTime); continue; }
        entryTime = std::max({ entryTime,''')],
  needs="DDR4 with two ranks: power-down entry of one rank while the other one refreshes", breaks="a refresh of one rank defers the power-down entry of another",
  demo=dm('''    dev::Cfg c; c.ranks = 2; auto d = dev::make(c);
    run(*d, {{10, CmdType::REFA, 0, 0, 1}, {11, CmdType::PDEP, 0, 0, 0}, {40, CmdType::PDXP, 0, 0, 0}});
    EXPECT("power-down of rank 0", d->getWindowStats(50).rank_total[0].cycles.powerDownPre, 29);
''')),
 dict(id="c08-query-moves-time", prop="C08", edits=[(D + "standards/ddr5/DDR5Core.cpp", "auto simulation_duration = timestamp;", "auto simulation_duration = m_last_command_time = timestamp;")],
  needs="DDR5: statistics asked for at a time after the last command and then up to the last command", breaks="the first query moves the time of the last command",
  demo=dm('''    dev::Cfg c; c.std = dev::S5; auto d = dev::make(c); auto e = dev::make(c);
    run(*d, {{5, CmdType::ACT, 0}}); run(*e, {{5, CmdType::ACT, 0}});
    for (auto *x : {d.get(), e.get()}) for (auto *y = x; y; y = nullptr) y->doCommand(Command{12, CmdType::PRE, {0, 0, 0}});
    d->getWindowStats(30);
    EXPECT("end of the default window", d->getStats().bank[0].cycles.pre, e->getStats().bank[0].cycles.pre);
''')),
 dict(id="i01-lpddr4-wra", prop="I01", edits=[(D + "standards/lpddr4/LPDDR4Interface.cpp", '''        L, L, H, L, L, BL,
        BA0, BA1, BA2, V, C9, H,
        L, H, L, L, H, C8,
        C2, C3, C4, C5, C6, C7,''', '''        L, L, H, L, L, BL,
        BA0, BA1, BA2, V, C9, H,
        L, H, L, L, H, C8,
        C2, C3, C4, C5, C7, C6,''')],
  needs="LPDDR4: a write with auto-precharge to a column whose bits 6 and 7 differ, judged by the transitions of single lines", breaks="two column bits of the auto-precharging write are exchanged",
  demo=dm('''    dev::Cfg c; c.std = dev::L4; c.BL = 16; c.width = 16; static uint8_t z[64] = {};
    auto rising = [&](uint64_t col) { auto d = dev::make(c);
        d->doInterfaceCommand(Command{4, CmdType::WRA, {0, 0, 0, 0, col}, z, 256});
        d->doInterfaceCommand(Command{8, CmdType::ACT, {0, 0, 0, 1 << 14}});
        return (double)d->getWindowStats(40).commandBus.zeroes_to_ones; };
    // column bit 6 and row bit 14 share a line: only with column bit 6 the line stays high
    EXPECT("additional rising edges of column bit 7", rising(0x80) - rising(0x40), 2);
''')),
 dict(id="i02-disable-mid-burst", prop="I02", bare=True, edits=[(D + "util/bus.h", '''		this->pending_stats.clear();
		this->burst_storage.clear();

		this->last_load = this->virtual_disable_timestamp;''', '''		this->pending_stats.clear();

		this->last_load = this->virtual_disable_timestamp;''')],
  needs="a bus switched off during or after a burst and switched on again", breaks="the old burst is driven again after the bus is switched on",
  demo='''
#include "dm.h"
#include <DRAMPower/util/bus.h>
int main() {
    util::Bus<8> b(8, 1, util::BusIdlePatternSpec::L);
    uint8_t d[16]; std::memset(d, 0xff, 16);
    b.load(0, d, 128); b.disable(2); b.enable(6);
    auto s = b.get_stats(20);
    EXPECT("ones", s.ones, 16); EXPECT("zeroes", s.zeroes, 14 * 8);
    return g_bad;
}
'''),
 dict(id="i03-toggle-switch-off-mid-burst", prop="I03", edits=[(D + "dram/Interface.cpp", '''            // Partial burst is lost
            this->count += virtualtimestamp - this->last_burst.last_load;''', '''            // Partial burst
            this->count += this->last_burst.last_length;''')],
  needs="toggling-rate estimation switched off while a burst is running", breaks="the rest of the burst is counted although the estimate is off",
  demo='''
#include "dm.h"
#include <DRAMPower/dram/Interface.h>
int main() {
    TogglingHandle h(8, 1, 0.5, 0.5, TogglingRateIdlePattern::L, true);
    h.incCountBurstLength(10, 8); h.disable(13);
    auto s = h.get_stats(40);
    EXPECT("ones", s.ones, 8);      // 3 beats, half of them rounded down, 8 lines
    EXPECT("zeroes", s.zeroes, 88); // 10 idle beats and 1 of the burst
    return g_bad;
}
'''),
 dict(id="i04-clock-odd", prop="I04", bare=True, edits=[(D + "util/clock.h", "        stats.zeroes_to_ones = duration * dataRate / 2;", "        stats.zeroes_to_ones = (duration * dataRate + 1) / 2;")],
  needs="a clock at single rate that runs for an odd number of cycles", breaks="a rising edge too many",
  demo='''
#include "dm.h"
#include <DRAMPower/util/clock.h>
int main() {
    util::Clock c(1, true);
    for (int i = 0; i < 6; ++i) { c.start(10 * i); c.stop(10 * i + 2 + 2 * (i % 2)); }
    auto s = c.get_stats_at(100);
    EXPECT("rising", s.zeroes_to_ones, 9); EXPECT("rising equals falling", s.zeroes_to_ones, s.ones_to_zeroes);
    util::Clock k(1, true);
    for (int i = 0; i < 4; ++i) { k.start(10 * i); k.stop(10 * i + 3); }
    s = k.get_stats_at(100);
    EXPECT("rising equals falling", s.zeroes_to_ones, s.ones_to_zeroes);
    return g_bad;
}
'''),
 dict(id="s01-rank-ends", prop="S01", edits=[(D + "dram/Rank.cpp", '''    stream.read(reinterpret_cast<char*>(&lastReadEnd), sizeof(lastReadEnd));
    stream.read(reinterpret_cast<char*>(&lastWriteEnd), sizeof(lastWriteEnd));''', '''    stream.read(reinterpret_cast<char*>(&lastWriteEnd), sizeof(lastWriteEnd));
    stream.read(reinterpret_cast<char*>(&lastReadEnd), sizeof(lastReadEnd));''')],
  needs="DDR4 or DDR5: save and restore between two seamless reads (or writes)", breaks="the end of the last read and of the last write are exchanged, so a seamless burst after the restore is not recognised",
  demo=dm('''    dev::Cfg c; static uint8_t z[64] = {};
    auto h = [&](bool save) { auto d = dev::make(c);
        run(*d, {{0, CmdType::ACT, 0}});
        d->doCommand(Command{10, CmdType::RD, {0, 0, 0}, z, 64});
        if (save) { std::stringstream s; d->serialize(s); d = dev::make(c); d->deserialize(s); }
        d->doCommand(Command{14, CmdType::RD, {0, 0, 0}, z, 64});
        return d->getWindowStats(40); };
    EXPECT("seamless reads", h(true).rank_total[0].prepos.readSeamless, h(false).rank_total[0].prepos.readSeamless);
''')),
 dict(id="e03-json-prerda", prop="E03", edits=[(D + "data/energy.cpp", '{"PRE_RDA", E_pre_RDA},', '{"PRE_RDA", E_pre_WRA},')],
  needs="JSON report of a bank with different numbers of auto-precharging reads and writes", breaks="the report shows the precharge energy of auto-precharging writes for the reads",
  demo=dm('''    dev::Cfg c; auto d = dev::make(c);
    run(*d, {{0, CmdType::ACT, 0}, {8, CmdType::RDA, 0}});
    auto e = d->calcCoreEnergy(60); nlohmann::json j; e.to_json(j);
    EXPECT("energy in the report", j[e.get_Bank_energy_keyword()][0]["PRE_RDA"].get<double>(), e.bank_energy[0].E_pre_RDA);
''')),
 dict(id="e04-lpddr4-write-recovery", prop="E04", edits=[(D + "memspec/MemSpecLPDDR4.cpp", "memTimingSpec.tWL + burstLength/2 + memTimingSpec.tWR + 1;", "memTimingSpec.tWL + 16/2 + memTimingSpec.tWR + 1;")],
  needs="LPDDR4 with a burst length of 32", breaks="write recovery is derived for 16 beats whatever the burst length",
  demo=dm('''    dev::Cfg c; c.std = dev::L4; c.BL = 32; MemSpecLPDDR4 m(dev::specL4(c));
    EXPECT("write to precharge", m.prechargeOffsetWR, c.WL + 16 + c.WR + 1);
''')),
 dict(id="s02-shared-metadata", prop="S02", edits=[(D + "standards/lpddr6/LPDDR6Interface.h", "        std::array<uint16_t, 2> m_metaData", "        inline static std::array<uint16_t, 2> m_metaData")],
  needs="two LPDDR6 devices in one process, one of them with metadata", breaks="the metadata set for one device is sent by the other",
  demo=dm('''    dev::Cfg c; c.std = dev::L6; c.groups = 4; c.banks = 16; c.width = 12; c.BL = 24; static uint8_t z[64] = {};
    MemSpecLPDDR6 ms(dev::specL6(c)); LPDDR6 a(ms), b(ms);
    a.getExtensionManager().withExtension<extensions::MetaData>([&](extensions::MetaData &x) { x.setMetaData(0xffff, 0); });
    b.doCommand(Command{0, CmdType::ACT, {0, 0, 0}}); b.doCommand(Command{20, CmdType::WR, {0, 0, 0}, z, 256});
    EXPECT("ones of the other device", b.getWindowStats(100).writeBus.ones, 0);
''')),
 dict(id="e01-deep-sleep-devices", prop="E01", edits=[(D + "standards/lpddr5/core_calculation_LPDDR5.cpp", "energy.E_dsm += VDD * IDD6DS * stats.rank_total[i].cycles.deepSleepMode * t_CK * m_memSpec.numberOfDevices;", "energy.E_dsm += VDD * IDD6DS * stats.rank_total[i].cycles.deepSleepMode * t_CK;")],
  needs="LPDDR5 with several devices per rank and deep sleep", breaks="the deep sleep energy is that of a single device",
  demo=dm('''    dev::Cfg c; c.std = dev::L5; c.banks = 16; c.groups = 1;
    auto e = [&](int n) { c.devices = n; auto d = dev::make(c); run(*d, {{0, CmdType::SREFEN}, {20, CmdType::DSMEN}}); return d->calcCoreEnergy(60).E_dsm; };
    EXPECT("deep sleep energy of three devices", e(3), 3 * e(1));
''')),
 dict(id="e02-wck-termination", prop="E02", edits=[(D + "standards/lpddr5/interface_calculation_LPDDR5.cpp", "calcStaticTermination(impedances_.wck_termination, stats.wClockStats,", "calcStaticTermination(impedances_.ck_termination, stats.wClockStats,")],
  needs="LPDDR5 whose clock is terminated but whose write clock is not", breaks="the static energy of the write clock follows the clock's termination",
  demo=dm('''    dev::Cfg c; c.std = dev::L5; c.banks = 16; c.groups = 1; auto s = dev::specL5(c); s.memimpedancespec.wck_termination = false; LPDDR5 d((MemSpecLPDDR5(s)));
    SimulationStats a; a.wClockStats.zeroes = a.wClockStats.ones = 1000;
    EXPECT("static energy of an unterminated write clock", d.calcInterfaceEnergyStats(a).controller.staticEnergy + d.calcInterfaceEnergyStats(a).dram.staticEnergy, 0);
''')),
 dict(id="u04-far-apart", prop="U04", bare=True, edits=[(D + "util/ImplicitCommandHandler.h", "[](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; });", "[](const auto& lhs, const auto& rhs) { return static_cast<int32_t>(lhs.first - rhs.first) < 0; });")],
  needs="deferred commands whose times are more than 2^31 apart", breaks="they run in the wrong order",
  demo='''
#include "dm.h"
#include <DRAMPower/util/ImplicitCommandHandler.h>
int main() {
    ImplicitCommandHandler<void> h; std::vector<int> o; timestamp_t l = 0;
    h.addImplicitCommand(3000000010, [&o] { o.push_back(2); }); h.addImplicitCommand(10, [&o] { o.push_back(1); });
    h.processImplicitCommandQueue(4000000000, l);
    EXPECT("count", o.size(), 2); EXPECT("first", o[0], 1);
    return g_bad;
}
'''),
]
