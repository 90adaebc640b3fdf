def define(prop, G):
    D, CORE, IFC, STD, EXP = G["D"], G["CORE"], G["IFC"], G["STD"], G["EXP"]
    W = "Tests replay a few dozen hand-written command traces per standard and compare some counters at the end; they fix one order, one spacing and one timing set each, while this must hold for every legal order and spacing."
    CM = [("command handlers", "standards/*/*Core.cpp handle*"), ("per-state cycle counters", "util/cycle_stats.h"), ("queue of implied commands", "util/ImplicitCommandHandler.h"), ("statistics window", "standards/*/*Core.cpp getWindowStats")]
    CO = ["getWindowStats(t).bank[i].cycles / counter", "getWindowStats(t).rank_total[r].cycles"]
    core_tech = "explicit-state search of all reachable states of a small device plus stateless enumeration of all legal command sequences, real core stepped in lock-step with a cycle-by-cycle reference machine"
    core_note = "Exhaustive within: 1-2 ranks, 2-16 banks, 2 timing sets per standard, the listed command alphabet and spacings; explicit-state scenarios close, stateless ones to the stated depth. Legal command sequences only."
    def core(id, title, st, text):
        prop(id, title, st, ["histories", "configurations"], text, W, CORE, CM, CO, [("bank state, pending implied commands", "decides which counter every cycle goes to")], None, core_tech, core_note)
    core("C01", "Every cycle of a bank and of a rank is attributed exactly once",
         "At any instant, the cycles a bank has spent active, precharged, in active power-down, in precharge power-down, in self-refresh and in deep sleep add up to the elapsed time, and the same holds for each rank. No cycle is counted twice, lost, or negative, whatever commands were executed.",
         "all legal command sequences and spacings of all five standards, statistics taken at every instant")
    core("C02", "Command counters equal the commands that were executed",
         "For every bank, the reported numbers of activates, precharges, reads, writes, auto-precharging reads and writes, the refreshes of each kind and self-refresh entries equal the number of such operations the bank has really undergone. This includes the operations that all-bank and same-bank commands, auto-precharge and refresh imply; commands not addressed to a bank leave its counters alone.",
         "all legal command sequences of all five standards, statistics at every step")
    core("C03", "A row is open exactly from its activate to its precharge",
         "A bank counts as active from the cycle of an activate until a precharge of that bank, of all banks or of its bank set, or until the auto-precharge requested by its last read or write takes effect, and as precharged otherwise. The auto-precharge takes effect at the later of the row-active minimum (counted from the activate) and the read or write recovery point computed from the standard's timing parameters, and a rank counts as active while any of its banks is.",
         "all sequences of row commands and accesses on several banks, all spacings around the auto-precharge instant, two timing sets per standard")
    core("C04", "Refresh keeps exactly the targeted banks active for its refresh time",
         "Each refresh command makes exactly the banks it targets (all, one, the pair, or the same-numbered bank of every group) active for exactly the refresh duration of that command and refresh mode, and afterwards they are precharged again. Counters of the matching refresh kind rise for those banks only.",
         "all orderings of refreshes with activates and precharges, every target bank, several bank and bank-group geometries")
    core("C05", "Power-down starts, ends and is accounted at the right cycles",
         "Power-down entry takes effect immediately, or as soon as running row or refresh activity permits, never before; from then until the exit, every cycle is counted as active or precharge power-down and not as active or precharged. On exit each bank resumes exactly the state it had, an exit requested before the deferred entry happens after it, and refreshing banks are not reopened.",
         "all legal orderings and spacings of power-down entry and exit with row commands and refreshes, exits before, at and after the deferred entry")
    core("C06", "Self-refresh and deep sleep are accounted at the right cycles",
         "Self-refresh entry first performs a refresh of all banks and then counts every cycle as self-refresh until the exit; deep sleep (where the standard has it) counts its cycles separately while it lasts. After exit all banks are precharged and all earlier counts are preserved.",
         "all legal orderings and spacings of self-refresh, deep sleep, refresh, power-down and row commands")
    core("C07", "Ranks and banks do not influence each other",
         "The statistics of a rank depend only on the commands addressed to that rank, and the row statistics of a bank only on the commands that target it. Inserting or removing commands to other ranks or banks changes nothing there.",
         "all interleavings of command sequences to two ranks and three banks, compared with the projections of the same history")
    prop("C08", "Asking for statistics or energy never changes the simulation",
         "Requesting statistics or energy at any moment that is not later than the next command, any number of times, has no influence on any statistic or energy reported later. Two identical requests give identical answers.",
         ["histories"], "every placement of queries into all short legal command histories (with data) of all five standards", W, CORE + IFC + [D + "dram/dram_base.h"],
         [("window statistics are computed on copies", "getWindowStats of every standard"), ("implied commands are processed on query", "util/ImplicitCommandHandler.h")], ["getStats, getWindowStats, calcCoreEnergy, calcInterfaceEnergy"], (), None,
         "stateless enumeration of all histories with and without inserted queries on the real devices", "Exhaustive to the stated depth; legal histories, non-overlapping data bursts.")
    WI = "Tests check a few bursts with hand-computed results; transitions depend on the previous levels, so every pair of consecutive patterns, gap and query instant matters."
    prop("I01", "Every command drives the bit pattern its standard defines",
         "For every command of every standard, the command bus carries exactly the bits of that command's encoding with the addressed bank group, bank, row, column and burst-length bits in their places, most significant beat first, one beat per command-bus cycle, and rests at its idle level otherwise. The command-bus statistics are those of this waveform; address bits that are undefined take the documented default.",
         ["inputs", "histories"], "all commands, each address bit on its own and edge addresses, all ordered pairs of commands at several spacings, all standards and bank modes", WI, IFC + [D + "command/Pattern.cpp", D + "util/PatternHandler.h", D + "util/bus.h"],
         [("pattern tables", "standards/*/*Interface.cpp registerPatterns"), ("encoder", "command/Pattern.cpp"), ("length-dependent column bits", "handleOverrides")], ["getWindowStats(t).commandBus"], (), None,
         "stateless enumeration of command/address/spacing sequences on the real devices against an independent table of the encodings", "Exhaustive for all commands and single address bits, pairs of commands to depth 2-3.")
    prop("I02", "Bus statistics equal those of the driven waveform",
         "For any sequence of non-overlapping bursts on a parallel bus, the reported numbers of ones, zeroes and of rising and falling transitions up to a given instant equal those obtained by writing out every line beat by beat, with idle levels between bursts and after the last one. Time during which the bus is switched off is not counted.",
         ["histories", "inputs"], "all sequences of bursts of short length with all data, all gaps, data rates, both idle levels, and switching off and on", WI, [D + "util/bus.h", D + "util/burst_storage.h", D + "util/pending_stats.h", D + "util/binary_ops.h"],
         [("incremental counting at each load", "util/bus.h add_previous_stats, advance_stats, get_stats"), ("deferred first beat", "util/pending_stats.h")], ["Bus::get_stats at every instant"], [("last pattern, pending first beat", "carry the level into the next burst")], None,
         "stateless enumeration of all burst sequences on the real bus against a beat-by-beat waveform", "Exhaustive for 1-3 lines; wide buses with edge patterns.")
    prop("I03", "Data-bus accounting: real data or toggling estimate, per direction",
         "With payload data the read and write lines are accounted separately from the data that was transferred; with a toggling-rate definition each burst contributes beats times duty cycle and toggling rate (rounded down) for its direction and idle time contributes the idle level. Only the selected mode counts at any time, switching modes splits the accounting at the switch, and a burst without payload leaves real-data statistics alone.",
         ["histories", "configurations"], "all sequences of reads, writes, payload-free bursts, mode switches and definition changes for four widths and four parameter sets", WI, [D + "util/databus.h", D + "util/databus_presets.h", D + "dram/Interface.cpp"],
         [("mode dispatch", "util/databus.h load, enableBus, enableTogglingRate"), ("beat counting", "dram/Interface.cpp TogglingHandle")], ["DataBus::get_stats"], (), None,
         "stateless enumeration of all call sequences on the real data bus against a beat-by-beat reference", "Exhaustive to the stated depth.")
    prop("I04", "Clock and strobe lines toggle exactly while they run",
         "A clock or strobe line that runs for some cycles contributes, for that period, one high and one low phase and one rising and one falling edge per clock period at its rate, and nothing while it is stopped. Starting, stopping and querying in any order never loses or duplicates a period.",
         ["histories"], "all alternations of starts and stops with pauses 0..5 at five rates, queried around every event", WI, [D + "util/clock.h"], [("interval accumulation", "util/clock.h start, stop, get_stats_at")], ["Clock::get_stats_at"], (), None,
         "stateless enumeration of start/stop histories against interval arithmetic", "Exhaustive to depth 5 (thorough 7).")
    prop("I05", "Data bus inversion transmits the cheaper form and reports it truthfully",
         "With inversion enabled each chunk of a burst is transmitted either unchanged or completely inverted: inverted exactly when more than half of its bits are at the costly level (static policy), or when more lines than the threshold would toggle (transition policy). The reported inversion state and inversion-pin changes match what was transmitted, pins return to rest after the last beat unless the next burst follows seamlessly, reads and writes are independent, and the caller's data is untouched.",
         ["inputs", "histories"], "all pairs of byte values on one lane; all sequences of short bursts over edge bytes, chunk sizes of one and two units, one and two lanes, with and without bus width, both idle levels", WI, [D + "util/dbi.h", D + "util/dbialgos.h", D + "util/dbihelpers.h"],
         [("decision", "util/dbialgos.h"), ("chunk iteration", "util/dbihelpers.h"), ("pin callbacks", "util/dbi.h updateDBI, dispatchResetCallback")], ["updateDBI result, change callback, inversion state getters"], [("last burst per direction", "decides seamless continuation and reset")], None,
         "stateless enumeration of burst sequences on the real unit against a reference encoder", "Exhaustive over the stated alphabets.")
    prop("I06", "Tri-state pin statistics equal those of the driven waveform",
         "For any sequence of bursts driven on a single pin, with any initial and idle level including undriven, the reported high and low durations and transitions up to any instant equal those of the waveform written out beat by beat. Undriven time and transitions from or to undriven are not counted.",
         ["histories", "inputs"], "all sequences of 3 bursts of 1..3 beats, all data, gaps, initial and idle levels, two rates", WI, [D + "util/pin.h", D + "util/burst_storage.h"], [("burst accounting", "util/pin.h set, get_stats_at, count")], ["Pin::get_stats_at"], (), None,
         "stateless enumeration of all burst sequences on the real pin against a beat-by-beat waveform", "Exhaustive to the stated depth.")
    prop("I07", "A device's data, strobe, inversion and clock lines follow its accesses",
         "For every standard, a read or write with payload puts exactly that payload (after inversion when enabled) on the read or write lines at the access time and runs the matching strobes for exactly the burst, and the clocks run all the time; seamless bursts of a rank are recognised where the standard accounts for pre- and postambles. All interface statistics reported by the device equal those of these waveforms scaled by the documented number of lines.",
         ["histories", "inputs", "configurations"], "all short sequences of reads and writes with edge payloads, gaps, ranks, inversion on and off, widths and devices, data mode and toggling mode, all standards", WI, IFC, [("data handling", "standards/*/*Interface.cpp handleData"), ("window statistics", "standards/*/*Interface.cpp getWindowStats")],
         ["getWindowStats(t).readBus, writeBus, readDQSStats, writeDQSStats, wClockStats, clockStats, readDBI, writeDBI, togglingStats, rank_total[r].prepos"], (), None,
         "stateless enumeration of access histories on the real devices against expanded waveforms", "Exhaustive to the stated depth; bursts do not overlap.")
    WE = "Tests compare totals of a few traces with numbers recorded from the program itself; the energy must follow the published formulas for every statistic and every parameter set."
    CALC = [D + f"standards/{d}/core_calculation_{n}.cpp" for d, n in (("ddr4", "DDR4"), ("ddr5", "DDR5"), ("lpddr4", "LPDDR4"), ("lpddr5", "LPDDR5"), ("lpddr6", "LPDDR6"))]
    prop("E01", "Core energy follows the documented current/voltage formulas",
         "For every statistic of a bank or rank, the core energy attributed to each cause (activate, precharge, read, write, auto-precharging access, each refresh kind, active and precharged background, power-downs, self-refresh, deep sleep) equals count or cycles times the documented current, voltage and time product, summed over the voltage domains and devices. Each component depends on no other statistic.",
         ["inputs", "configurations"], "every statistic switched on alone and in pairs, several banks, ranks, devices, parameter sets with all-distinct values, refresh modes, activation factors, all standards", WE, CALC + [D + "data/energy.cpp"], [("formulas", "standards/*/core_calculation_*.cpp")], ["calcCoreEnergyStats: per-bank and rank components"], (), None,
         "exhaustive enumeration of basis statistics and parameter sets on the real calculation against independently written formulas", "Energies are (near-)linear in the statistics, so single statistics and pairs determine them; parameter sets are a finite list.")
    prop("E02", "Interface energy follows the documented line formulas",
         "For every bus, strobe, clock and inversion statistic, static energy equals the number of level-beats at the dissipating level times V squared over R times the beat duration where termination is enabled, and dynamic energy the number of rising transitions times the energy per transition; reads are charged to the device and everything else to the controller. No other statistic contributes, and switching a termination off removes exactly its static part.",
         ["inputs", "configurations"], "every interface statistic alone and in pairs, terminations on and off, data rates, parameter sets with all-distinct values, all standards", WE, [p.replace("core_calculation", "interface_calculation") for p in CALC], [("formulas", "standards/*/interface_calculation_*.cpp")], ["calcInterfaceEnergyStats: controller/dram static and dynamic per line group"], (), None,
         "exhaustive enumeration of basis statistics and parameter sets on the real calculation against independently written formulas", "As E01.")
    prop("E03", "Energy totals are the sums of their parts",
         "Total energies equal the sum of their components over banks, devices and ranks, the totals per cause equal the sums over banks, and the JSON form reports the same figures under the same headings. A device consisting of several ranks or devices has one entry per bank, device and rank, in rank-major order.",
         ["inputs", "configurations"], "all component subsets of energy records and device shapes", WE, [D + "data/energy.h", D + "data/energy.cpp", D + "dram/dram_base.h"], [("aggregation", "data/energy.cpp")], ["energy_t::total, aggregated_bank_energy, to_json, calcEnergy"], (), None,
         "exhaustive enumeration of component records and device shapes on the real aggregation code", "Exhaustive over the component basis.")
    prop("E04", "Device parameters are taken over from the memory specification unchanged",
         "Every architecture, timing, current, voltage and impedance value of a memory specification arrives in the device model as the parameter of that name and voltage domain, and derived parameters (precharge offsets, refresh times of the selected mode, default activation factors, per-bank refresh current, bank organisation) follow their documented derivation. A specification with a missing optional part gets the documented default.",
         ["configurations"], "every numeric field of every specification varied alone, every refresh mode, bank organisation and optional part", "Tests load one JSON file per standard and check a handful of fields.",
         [D + f"memspec/MemSpec{n}.cpp" for n in ("DDR4", "DDR5", "LPDDR4", "LPDDR5", "LPDDR6")], [("constructors", "memspec/MemSpec*.cpp")], ["public members of the device memory specifications"], (), None,
         "exhaustive field-by-field perturbation of specifications against an independently written derivation", "Each field alone, optional parts in all combinations.")
    prop("C09", "Commands to ranks or banks that do not exist are rejected",
         "A command that addresses a rank or a bank the memory does not have (for a refresh of two banks: whose second bank does not exist) is rejected with an exception, whatever was executed before, and all statistics and the effect of all later commands are as if it had never been issued. It never touches memory outside the device.",
         ["histories", "inputs"], "all commands of all standards, missing ranks and banks just beyond, far beyond and at the largest value, at every position of all short histories", W,
         CORE + [D + "util/RegisterHelper.h"], [("address checks", "util/RegisterHelper.h"), ("two-bank refresh", "standards/lpddr5/LPDDR5Core.cpp, standards/lpddr6/LPDDR6Core.cpp")], ["exception; getWindowStats afterwards"], (), None,
         "exhaustive enumeration of commands, addresses, histories and positions on the real device, compared with the same history without the command; bounds-checked standard library", "Exhaustive to the stated depth.")
    prop("S02", "Devices used side by side do not influence each other",
         "The statistics and energies of a device depend only on its own configuration and its own history, not on which other devices, of the same or another standard, exist, are used, or are destroyed meanwhile. The same history gives the same results every time.",
         ["histories", "schedules"], "all interleavings of the steps of one device with the creation, use and destruction of a second device of every standard", W,
         CORE + IFC, [("all mutable state lives in the device", "standards/*")], ["statistics and energies of both devices"], (), None,
         "exhaustive enumeration of histories and of all interleavings of two devices, compared with each device alone", "Exhaustive to the stated depth; one thread.")
    prop("S03", "A copied or moved device continues like the original and independently of it",
         "A device that is copied, assigned or moved, at any point of a simulation, continues with exactly the results the original would have had, whatever happens to the original afterwards, and using or destroying a copy never changes the original. This holds for bank, rank, bus, strobe and clock statistics, energies and the simulation's pending commands.",
         ["histories"], "all legal sequences of two or three commands with every kind of copy, assignment and move after any of them, the other device used differently, destroyed or kept", "Tests never copy or move a device.",
         [D + "dram/dram_base.h", D + "standards", D + "util/ImplicitCommandHandler.h", D + "util/extension_manager.h", D + "util/dbi.h"], [("copying and moving", "standards/*/*.h defaulted copy and move members"), ("pending implied commands", "util/ImplicitCommandHandler.h"), ("callbacks", "standards/*/*Interface.cpp, standards/*/*.cpp registerExtensions")],
         ["everything a device reports"], (), None, "stateless exhaustive enumeration of legal histories, copy points and ways of copying on real devices against an uncopied device", "Exhaustive to the stated depth. Known findings: inversion callbacks and extensions of a copy stay bound to the original.")
    prop("S04", "Core and interface of a device can be driven separately",
         "Sending a command to core and interface at once is the same as sending it to each of them separately, in whichever order the two receive their commands; bank and rank statistics depend only on the commands the core received, and bus, strobe and clock statistics only on the commands the interface received.",
         ["histories", "schedules"], "all interleavings of the core's and the interface's command streams for all legal sequences of commands from two open rows", "Tests drive core and interface either together or one of them alone in a few traces.",
         [D + "dram/dram_base.h", D + "standards"], [("dispatch", "dram/dram_base.h doCommand, doCoreCommand, doInterfaceCommand"), ("combination", "standards/*/*.cpp getWindowStats, getLastCommandTime_impl")], ["everything a device reports"], (), None,
         "exhaustive enumeration of all interleavings of the two command streams on real devices", "Exhaustive to the stated depth.")
    prop("S05", "Only relative time matters",
         "The same history started later, by any number of cycles including more than fit into 32 bits (a whole number of write clock periods where that clock always runs), gives the same results plus exactly what an idle device accumulates during the delay: for every bank, rank, bus, strobe, pin and clock statistic and for core, interface and total energy, before and after saving and restoring. What an idle device accumulates is the same in every clock period.",
         ["histories"], "all legal sequences of two or three commands with payload and feature switches, delayed by a few and by more than 2^33 cycles; idle devices up to 2^40 cycles", "Tests start at time zero and last some hundred cycles.",
         CORE + IFC, [("time arithmetic", "standards/*, dram/Rank.cpp, util/bus.h, util/clock.h, util/pin.h, util/cycle_stats.h, data/stats.h"), ("energies over time", "standards/*/*calculation*.cpp")],
         ["everything a device reports"], (), None, "stateless exhaustive enumeration of legal histories and delays on pairs of real devices, an idle device as the reference for the delay", "Exhaustive to the stated depth; the listed delays.")
    prop("S06", "Repeating the same traffic adds the same amounts every time",
         "When a history that brings the device back to rest is executed again and again at a fixed period, every round after the first adds the same amount to every bank, rank, bus, strobe, pin and clock statistic and to the total energy, however many rounds have passed and also when the simulation is saved and restored in between.",
         ["histories"], "all short legal histories, brought to rest and repeated 300 times; every single command 70000 times", "Tests last some hundred cycles and some ten commands.",
         CORE + IFC, [("counters and accumulated statistics", "dram/Bank.h, dram/Rank.h, util/cycle_stats.h, util/bus.h, util/pin.h, util/clock.h, dram/Interface.cpp"), ("pending commands", "util/ImplicitCommandHandler.h")],
         ["everything a device reports"], (), None, "stateless exhaustive enumeration of legal periodic histories on real devices, the amounts of the third round as the reference for all later ones", "Exhaustive to the stated depth; 300 and 70000 rounds.")
    prop("S07", "Which rank and which bank is used makes no difference",
         "Exchanging two ranks throughout a legal history only exchanges their rank and bank statistics and bank energies; exchanging the banks of every rank along any address bit only exchanges the bank statistics and energies. Everything else stays the same at every moment: all data bus, strobe, pin and clock statistics, the total core energy and the last command time, and, when only ranks are exchanged, also the command bus statistics and the interface energy (the command bus carries bank addresses, but no rank).",
         ["histories"], "all short legal histories on full-size devices with two or three ranks, every exchange of neighbouring ranks and every bank address bit, which generate all others", "Tests use the first rank and a few low banks.",
         CORE + IFC, [("rank and bank addressing", "standards/*/*Core.cpp, dram/Rank.cpp, dram/dram_base.h, data/stats.h"), ("energies per bank", "standards/*/core_calculation_*.cpp, data/energy.h")],
         ["everything a device reports"], (), None, "stateless exhaustive enumeration of legal histories, each executed in its own and in the renamed form on two real devices", "Exhaustive to the stated depth; power-of-two bank counts.")
    prop("S08", "All ways of driving and asking a device agree",
         "After every legal history: a command given to core and interface in one call, by either name, has the same effect; the statistics without a time are those at the last command's time, which is the time of the latest command; core and interface energy at a time are those calculated from the statistics at that time, also by another device of the same specification; the total energy is the sum of both; the reported architecture is the one configured.",
         ["histories"], "all short legal histories on two ranks, both data modes, asked after every command and later", "Tests use one way to drive and one to ask.",
         CORE + IFC, [("device interface", "dram/dram_base.h, standards/*/{DDR4,DDR5,LPDDR4,LPDDR5,LPDDR6}.{h,cpp}"), ("energies from statistics", "standards/*/*calculation*.{h,cpp}")],
         ["everything a device reports"], (), None, "stateless exhaustive enumeration of legal histories on pairs of real devices driven and asked in different ways", "Exhaustive to the stated depth.")
    prop("S01", "Saving and restoring a simulation at any point is transparent",
         "Serializing a device after any history at which no implied command is pending and restoring it into a freshly built device of the same configuration yields a device that answers every later query and command exactly like the original. Repeating this at several points changes nothing.",
         ["histories", "crash_points"], "every save point in all short legal histories with data, inversion, pending implied commands, power-down and toggling mode, all standards", "Two tests serialize once after a fixed trace; state that matters only for particular continuations is never exercised.",
         CORE + IFC + [D + "util/dbi.h", D + "util/bus.h", D + "util/pin.h", D + "util/PatternHandler.h", D + "util/Serialize.h"], [("serialize / deserialize of every component", "throughout")], ["statistics and energy of original and restored device"], (), None,
         "stateless enumeration of histories and save points, original and restored device run in lock-step", "Exhaustive to the stated depth; legal histories.")
    WU = "Unit tests exercise a handful of values; sizes at word boundaries, aliasing and operation orders are unbounded in number."
    prop("U01", "Dynamically sized bit sets behave like mathematical bit vectors",
         "Construction, element access, set, reset, flip, growth, comparison, counting and the bitwise operators of dynamically sized bit sets agree with a plain vector of booleans for every size, in particular around machine-word boundaries. No operation reads or changes bits outside the declared size.",
         ["inputs", "histories"], "all operation sequences to depth 3-4 on sizes 0..10 and around 8, 32 and 64", WU, [D + "util/dynamic_bitset.h"], [("word storage", "util/dynamic_bitset.h")], ["all public members"], (), None,
         "stateless enumeration of all operation sequences against a boolean vector", "Exhaustive to the stated depth and sizes.")
    prop("U02", "Fixed-capacity bit sets and bit-counting helpers are exact",
         "Bit sets of run-time width within a fixed capacity agree with a boolean vector of that width for every operation, reject indices beyond the width, and never expose bits above it. The helpers that count ones, changed bits, rising and falling bits agree with bit-by-bit counting.",
         ["inputs", "histories"], "all widths 0..capacity for small capacities, all values of up to 8 bits, all operation sequences to depth 3", WU, [D + "util/sub_bitset.h", D + "util/binary_ops.h"], [("mask", "util/sub_bitset.h"), ("popcount and transition helpers", "util/binary_ops.h")], ["all public members"], (), None,
         "exhaustive enumeration of values and operation sequences against a boolean vector", "Exhaustive over 8-bit values; edge values for wider types.")
    prop("U03", "Interval counters report exactly the overlap with the asked window",
         "An interval counter that is started and ended at given times reports, at any later time, the total duration it was running, whether or not it still runs. Restarting, closing and querying in any legal order never loses or duplicates time.",
         ["histories"], "all sequences of starts, ends and queries to depth 6 with gaps 0..3", WU, [D + "util/cycle_stats.h"], [("interval accumulation", "util/cycle_stats.h")], ["interval_counter members"], (), None,
         "stateless enumeration of operation sequences against interval arithmetic", "Exhaustive to the stated depth.")
    prop("U04", "Deferred commands run once, in time order, and never early",
         "A deferred command runs exactly once, when simulation time first reaches its due time, before anything that happens later; commands due at the same time run in the order they were requested, and commands that defer further commands are handled likewise. The number of pending commands is always the number not yet run.",
         ["histories", "schedules"], "all sequences of up to 5 insertions with due times and nested insertions, and all processing instants", WU, [D + "util/ImplicitCommandHandler.h"], [("ordered queue", "util/ImplicitCommandHandler.h")], ["addImplicitCommand, processImplicitCommandQueue, implicitCommandCount"], (), None,
         "stateless enumeration of all insertion and processing schedules against a sorted list", "Exhaustive to the stated depth.")
    prop("U05", "The pattern encoder places every field bit where the pattern says",
         "Encoding a coordinate with a pattern yields, position by position from the most significant bit, the constant, the addressed bit of the bank, bank group, row, column or stack field, or the configured or default value for placeholder bits. Changing one coordinate bit changes exactly the pattern positions that name it; overrides replace only the placeholders they name, and last-pattern placeholders repeat the previously sent bits.",
         ["inputs"], "every descriptor at every position of patterns of lengths 1..4 and in long patterns, every bit of every coordinate, every override value", WU, [D + "command/Pattern.cpp", D + "command/Pattern.h", D + "util/PatternHandler.h"], [("bit selection", "command/Pattern.cpp encode"), ("override settings", "command/Pattern.h")], ["PatternEncoder::encode, PatternHandler::getCommandPattern"], (), None,
         "exhaustive enumeration of descriptors, positions, overrides and coordinate bits against an independent encoder", "Exhaustive over single descriptors and pairs.")
    prop("U06", "Extension managers keep exactly the registered extensions and call their hooks",
         "Looking up an extension returns the registered instance and nothing when it was not registered, and a hook or callback call reaches every registered extension that implements it exactly once, in registration order, with its arguments unchanged. The built-in extensions report and change the device feature they stand for.",
         ["histories", "configurations"], "all registration subsets and orders of several extension types, all lookups and hook calls", WU, [D + "util/extension_manager.h", D + "util/extension_manager_static.h", D + "util/extensions.cpp", D + "util/extensions.h"], [("type-indexed storage", "util/extension_manager.h"), ("hook dispatch", "util/extension_manager_static.h")], ["all public members"], (), None,
         "exhaustive enumeration of registration and call sequences", "Exhaustive over three extension types.")
    prop("U07", "Every command reaches exactly its registered handler",
         "A router delivers each command to the handler registered for its type and to no other, with its time, target and data unchanged; commands without a handler take the configured fallback. Every standard acts on its own commands, and commands of other standards and the end of the simulation change none of its statistics.",
         ["inputs", "histories"], "all command types, all registration subsets and orders of three types", WU, [D + "util/Router.h", D + "util/RegisterHelper.h", D + "dram/dram_base.h"], [("dispatch table", "util/Router.h")], ["Router::executeCommand, doCoreCommand, doInterfaceCommand"], (), None,
         "exhaustive enumeration of registration and dispatch sequences on the real router", "Exhaustive over command types.")
    prop("U08", "Command names and command types correspond one to one",
         "Every command type has a distinct name, parsing that name gives the type back, and every other text (but the short end marker END) is read as no operation. Predicates that classify commands (those that need data) hold exactly for the reads and writes.",
         ["inputs"], "all command types; all names with every single-character deletion, insertion, substitution and case change", WU, [D + "command/CmdType.h"], [("name table", "command/CmdType.h")], ["CmdTypeUtil::to_string, from_string, needs_data"], (), None,
         "exhaustive enumeration of types and of the edit neighbourhood of all names", "Exhaustive for types and one-edit neighbourhoods.")
    prop("U09", "Statistics records are added, compared, saved and exported field by field",
         "Adding two statistics records adds every counter of every bank, rank, bus, strobe, clock and inversion line and takes over banks and ranks only one of them has; records compare equal exactly if every field is equal; saving and restoring, and exporting to JSON and importing, yield an equal record with every field under its own name.",
         ["inputs"], "every pair of fields of records with up to two banks and ranks, several values", "Tests compare a few fields of a few records.", [D + "data/stats.h", D + "util/bus_types.h"],
         [("records", "data/stats.h"), ("line statistics", "util/bus_types.h")], ["SimulationStats, CycleStats and bus_stats_t operations"], (), None,
         "exhaustive enumeration of pairs of fields through the real operations against a table of fields", "Exhaustive for pairs of fields; the operations treat fields independently.")
    prop("P01", "LPDDR6 packs payload, inversion flags and metadata into the burst without loss",
         "Every payload bit of an LPDDR6 burst appears exactly once, at the documented beat and data line, metadata bits appear at the metadata positions, inversion flags at the inversion positions, and no position is driven by two sources. The payload, metadata and flags can be recovered from the burst for every content.",
         ["inputs"], "each payload bit, metadata bit and inversion flag alone and in edge combinations, both burst lengths and all feature settings", WU, [D + "standards/lpddr6/LPDDR6Interface.cpp", D + "standards/lpddr6/LPDDR6Interface.h", D + "standards/lpddr6/LPDDR6Command.cpp", D + "standards/lpddr6/LPDDR6Pattern.cpp"],
         [("data format", "standards/lpddr6/LPDDR6Interface.cpp"), ("command pattern encoder", "standards/lpddr6/LPDDR6Pattern.cpp")], ["data-bus statistics", "formatted burst"], (), None,
         "exhaustive enumeration of single bits and edge payloads through the real formatter", "Formatting is a bit permutation, so single bits determine it; combinations are edge cases.")
    prop("R01", "Legal use of a device never runs into an internal error",
         "For every legal command sequence and feature setting, on devices of every width, burst length, data rate, rank and device count, simulating commands, querying statistics and energies, and saving and restoring never fails one of the library's own assertions, throws an exception, or reads or writes memory or shifts and converts values in a way the language leaves undefined.",
         ["histories", "configurations"], "all legal sequences of two or three commands, accesses and feature switches on all device shapes, with everything queried and with devices saved and restored after every step",
         "Tests are built without assertions and sanitizers and use one shape of device per standard; undefined behaviour usually leaves the compared numbers intact.", [D + "standards", D + "util", D + "dram", D + "memory"],
         [("interfaces", "standards/*/*Interface.cpp"), ("cores", "standards/*/*Core.cpp"), ("bus and inversion storage", "util/bus.h, util/dbi.h, util/dynamic_bitset.h"), ("save and restore", "serialize/deserialize of every component")], ["process status, sanitizer and assertion reports"], (), None,
         "stateless exhaustive enumeration of legal command sequences on real devices compiled with assertions and address and undefined-behaviour sanitizers", "Exhaustive to the stated depth over the listed device shapes; a failure is confirmed by replaying the recorded choices.")
    WL = "The command-line tool has one smoke test; malformed and boundary inputs are unbounded."
    prop("L01", "A command trace file is parsed into exactly the commands it lists",
         "Each line of a command trace yields exactly one command with the line's time, type, rank, bank group, bank, row, column and payload, in file order, ignoring surrounding spaces; a file containing a malformed line is rejected as a whole with an error. Nothing is dropped, merged or invented.",
         ["inputs"], "all combinations of field values and malformations on one or two lines, all command types", WL, ["src/cli/lib/DRAMPower/cli/run.cpp", "src/cli/lib/DRAMPower/cli/util.cpp"], [("CSV parsing", "src/cli/lib/DRAMPower/cli/run.cpp parse_command_list")], ["parsed command list"], (), None,
         "exhaustive enumeration of field values and malformations through the real parser", "Exhaustive over the field alphabets.")
    prop("L02", "Hexadecimal payloads are converted byte by byte or rejected",
         "A well-formed hexadecimal payload, with or without prefix and in either case, is converted into the bytes it denotes in order, and any text that is not an even number of hexadecimal digits is rejected. No malformed payload is accepted.",
         ["inputs"], "all strings of up to four characters over an alphabet of digits, letters, prefix and foreign characters", WL, ["src/cli/lib/DRAMPower/cli/util.cpp"], [("conversion", "src/cli/lib/DRAMPower/cli/util.cpp")], ["hexStringToUint8Array"], (), None,
         "exhaustive enumeration of all short strings through the real converter", "Exhaustive for short strings.")
    prop("L03", "An output path is accepted exactly when the report can be written there",
         "The output path check accepts a path exactly when, following links as the operating system does, it names an existing regular file or a file that can be created in an existing directory; the file then exists and the path handed on denotes it. Existing files keep their contents, and a rejected path (missing or locked directory, directory, special file, dangling path, cycle of links, empty path) creates or changes nothing and never ends the program.",
         ["inputs", "configurations"], "all shapes of a small directory tree with files, directories, special files, locked directories and chains of relative and absolute links between three directories, all ways of writing the path, as root and as an unprivileged user",
         WL, ["src/cli/main/validators.cpp"], [("output path check", "src/cli/main/validators.cpp EnsureFileExists_t")], ["validator result, resulting path and directory tree"], (), None,
         "exhaustive enumeration of directory trees and paths; the kernel's own resolution in an identical tree is the reference", "Exhaustive over the listed shapes, chains of up to 2 (thorough 3) branching links and 20 plain ones.")
    prop("L04", "The command-line simulation equals driving the library directly",
         "Running a trace through the command-line layer (configuration file, trace file, memory specification file) gives the same statistics and energies as issuing the same commands to a library device with the same configuration, and the report file states the memory's rank, device and bank counts and exactly those energies, each for the rank, device and bank it belongs to. Toggling rates are used exactly if the configuration asks for them.",
         ["histories", "configurations"], "all short traces of all standards on two ranks, with and without toggling rates", WL, ["src/cli/lib/DRAMPower/cli/run.cpp"], [("driver", "src/cli/lib/DRAMPower/cli/run.cpp")], ["results and JSON report"], (), None,
         "exhaustive enumeration of short traces through both front ends", "Exhaustive to the stated depth.")
    prop("L05", "The command-line tool reports success exactly when it delivered a report",
         "The tool ends with status zero exactly when its options, configuration, trace and memory specification are valid and the complete report was delivered, to the requested file or else to standard output, where every energy component of every bank, the shared energies, the interface energies and the total are stated; or when only help was asked for, which runs nothing. Missing or malformed input and a report that cannot be written completely end with an error, never with success or a crash.",
         ["inputs", "fault_sequences"], "all combinations of valid and invalid configurations, traces, specifications, report targets and options; every point at which writing the report can fail", WL,
         ["src/cli/main/main.cpp", "src/cli/lib/DRAMPower/cli/run.cpp", "src/cli/lib/DRAMPower/cli/util.hpp"], [("main", "src/cli/main/main.cpp"), ("reports", "src/cli/lib/DRAMPower/cli/run.cpp jsonFileResult stdoutResult")], ["exit status, standard output, report file"], (), None,
         "exhaustive enumeration of input combinations through the real main() and of all write failure points of the report", "Exhaustive over the listed alphabets.")
