import os
R = os.environ.get("VERIF_REPO", "/repo")
# Which harness decides which property.
CLI = ("-I", R + "/src/cli/lib", "-I", R + "/src/cli/main", '-DDRAMPOWER_VERSION_STRING="verif"', "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL")
SAN = ("-UNDEBUG", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer")
TARGETS = {
    "addr": {"srcs": ["addr.cpp"], "props": ["C09", "S02", "S03", "S04"]},
    "core": {"srcs": ["core.cpp"], "props": ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]},
    "cli": {"srcs": ["cli.cpp"], "flags": CLI, "repo_srcs": [("src/cli/lib/DRAMPower/cli/run.cpp", CLI), ("src/cli/lib/DRAMPower/cli/util.cpp", CLI), ("src/cli/main/validators.cpp", CLI),
            ("src/cli/main/main.cpp", CLI + ("-Dmain=verif_cli_main",))], "link": ("-lspdlog", "-lfmt"), "props": ["L01", "L02", "L03", "L04", "L05"]},
    "dbi": {"srcs": ["dbi.cpp"], "lib": "none", "props": ["I05"]},
    "energy": {"srcs": ["energy.cpp"], "props": ["E01", "E02", "E03", "E04"]},
    "iface": {"srcs": ["iface.cpp"], "props": ["I01", "I07"]},
    "shift": {"srcs": ["shift.cpp"], "props": ["S05", "S06", "S07", "S08"]},
    "system": {"srcs": ["system.cpp"], "props": ["C08", "S01"]},
    # the library's own assertions and the sanitizers are the oracle
    "robust": {"srcs": ["robust.cpp"], "flags": SAN, "lib_flags": SAN, "link": ("-fsanitize=address,undefined",), "props": ["R01"]},
    "lp6": {"srcs": ["lp6.cpp"], "props": ["P01"]},
    "util": {"srcs": ["util.cpp"], "props": ["U01", "U02", "U03", "U04", "U05", "U06", "U07", "U08"]},
    "stats": {"srcs": ["stats.cpp"], "props": ["U09"]},
    "wave": {"srcs": ["wave.cpp"], "props": ["I02", "I03", "I04", "I06"]},
}
def target_of(prop):
    for t, T in TARGETS.items():
        if prop in T["props"]: return t
    raise SystemExit(f"no check for {prop}")
