// Stand-in: the fields of the LPDDR6 memory specification that DRAMPower reads.
#ifndef VERIF_STANDIN_MEMSPEC_LPDDR6_H
#define VERIF_STANDIN_MEMSPEC_LPDDR6_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR6 {
    uint64_t nbrOfBanks = 0;
    uint64_t nbrOfRows = 0;
    uint64_t nbrOfColumns = 0;
    uint64_t nbrOfDevices = 0;
    uint64_t burstLength = 0;
    uint64_t dataRate = 0;
    uint64_t width = 0;
    uint64_t nbrOfBankGroups = 0;
    uint64_t nbrOfRanks = 0;
    bool WCKalwaysOn = false;
};
inline void to_json(json_t &j, const MemArchitectureSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "nbrOfBanks", v.nbrOfBanks);
    put(j, "nbrOfRows", v.nbrOfRows);
    put(j, "nbrOfColumns", v.nbrOfColumns);
    put(j, "nbrOfDevices", v.nbrOfDevices);
    put(j, "burstLength", v.burstLength);
    put(j, "dataRate", v.dataRate);
    put(j, "width", v.width);
    put(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    put(j, "nbrOfRanks", v.nbrOfRanks);
    put(j, "WCKalwaysOn", v.WCKalwaysOn);
}
inline void from_json(const json_t &j, MemArchitectureSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "nbrOfBanks", v.nbrOfBanks);
    get(j, "nbrOfRows", v.nbrOfRows);
    get(j, "nbrOfColumns", v.nbrOfColumns);
    get(j, "nbrOfDevices", v.nbrOfDevices);
    get(j, "burstLength", v.burstLength);
    get(j, "dataRate", v.dataRate);
    get(j, "width", v.width);
    get(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    get(j, "nbrOfRanks", v.nbrOfRanks);
    get(j, "WCKalwaysOn", v.WCKalwaysOn);
}
struct MemPowerSpecTypeLPDDR6 {
    double vdd1 = 0.0;
    double vdd2c = 0.0;
    double vdd2d = 0.0;
    double vddq = 0.0;
    double idd01 = 0.0;
    double idd2n1 = 0.0;
    double idd3n1 = 0.0;
    double idd4r1 = 0.0;
    double idd4w1 = 0.0;
    double idd51 = 0.0;
    double idd61 = 0.0;
    double idd2p1 = 0.0;
    double idd3p1 = 0.0;
    double idd5pdb1 = 0.0;
    double idd6ds1 = 0.0;
    double idd02c = 0.0;
    double idd2n2c = 0.0;
    double idd3n2c = 0.0;
    double idd4r2c = 0.0;
    double idd4w2c = 0.0;
    double idd52c = 0.0;
    double idd62c = 0.0;
    double idd2p2c = 0.0;
    double idd3p2c = 0.0;
    double idd5pdb2c = 0.0;
    double idd6ds2c = 0.0;
    double idd02d = 0.0;
    double idd2n2d = 0.0;
    double idd3n2d = 0.0;
    double idd4r2d = 0.0;
    double idd4w2d = 0.0;
    double idd52d = 0.0;
    double idd62d = 0.0;
    double idd2p2d = 0.0;
    double idd3p2d = 0.0;
    double idd5pdb2d = 0.0;
    double idd6ds2d = 0.0;
    std::optional<double> iBeta_vdd1;
    std::optional<double> iBeta_vdd2c;
    std::optional<double> iBeta_vdd2d;
};
inline void to_json(json_t &j, const MemPowerSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "vdd1", v.vdd1);
    put(j, "vdd2c", v.vdd2c);
    put(j, "vdd2d", v.vdd2d);
    put(j, "vddq", v.vddq);
    put(j, "idd01", v.idd01);
    put(j, "idd2n1", v.idd2n1);
    put(j, "idd3n1", v.idd3n1);
    put(j, "idd4r1", v.idd4r1);
    put(j, "idd4w1", v.idd4w1);
    put(j, "idd51", v.idd51);
    put(j, "idd61", v.idd61);
    put(j, "idd2p1", v.idd2p1);
    put(j, "idd3p1", v.idd3p1);
    put(j, "idd5pdb1", v.idd5pdb1);
    put(j, "idd6ds1", v.idd6ds1);
    put(j, "idd02c", v.idd02c);
    put(j, "idd2n2c", v.idd2n2c);
    put(j, "idd3n2c", v.idd3n2c);
    put(j, "idd4r2c", v.idd4r2c);
    put(j, "idd4w2c", v.idd4w2c);
    put(j, "idd52c", v.idd52c);
    put(j, "idd62c", v.idd62c);
    put(j, "idd2p2c", v.idd2p2c);
    put(j, "idd3p2c", v.idd3p2c);
    put(j, "idd5pdb2c", v.idd5pdb2c);
    put(j, "idd6ds2c", v.idd6ds2c);
    put(j, "idd02d", v.idd02d);
    put(j, "idd2n2d", v.idd2n2d);
    put(j, "idd3n2d", v.idd3n2d);
    put(j, "idd4r2d", v.idd4r2d);
    put(j, "idd4w2d", v.idd4w2d);
    put(j, "idd52d", v.idd52d);
    put(j, "idd62d", v.idd62d);
    put(j, "idd2p2d", v.idd2p2d);
    put(j, "idd3p2d", v.idd3p2d);
    put(j, "idd5pdb2d", v.idd5pdb2d);
    put(j, "idd6ds2d", v.idd6ds2d);
    put(j, "iBeta_vdd1", v.iBeta_vdd1);
    put(j, "iBeta_vdd2c", v.iBeta_vdd2c);
    put(j, "iBeta_vdd2d", v.iBeta_vdd2d);
}
inline void from_json(const json_t &j, MemPowerSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "vdd1", v.vdd1);
    get(j, "vdd2c", v.vdd2c);
    get(j, "vdd2d", v.vdd2d);
    get(j, "vddq", v.vddq);
    get(j, "idd01", v.idd01);
    get(j, "idd2n1", v.idd2n1);
    get(j, "idd3n1", v.idd3n1);
    get(j, "idd4r1", v.idd4r1);
    get(j, "idd4w1", v.idd4w1);
    get(j, "idd51", v.idd51);
    get(j, "idd61", v.idd61);
    get(j, "idd2p1", v.idd2p1);
    get(j, "idd3p1", v.idd3p1);
    get(j, "idd5pdb1", v.idd5pdb1);
    get(j, "idd6ds1", v.idd6ds1);
    get(j, "idd02c", v.idd02c);
    get(j, "idd2n2c", v.idd2n2c);
    get(j, "idd3n2c", v.idd3n2c);
    get(j, "idd4r2c", v.idd4r2c);
    get(j, "idd4w2c", v.idd4w2c);
    get(j, "idd52c", v.idd52c);
    get(j, "idd62c", v.idd62c);
    get(j, "idd2p2c", v.idd2p2c);
    get(j, "idd3p2c", v.idd3p2c);
    get(j, "idd5pdb2c", v.idd5pdb2c);
    get(j, "idd6ds2c", v.idd6ds2c);
    get(j, "idd02d", v.idd02d);
    get(j, "idd2n2d", v.idd2n2d);
    get(j, "idd3n2d", v.idd3n2d);
    get(j, "idd4r2d", v.idd4r2d);
    get(j, "idd4w2d", v.idd4w2d);
    get(j, "idd52d", v.idd52d);
    get(j, "idd62d", v.idd62d);
    get(j, "idd2p2d", v.idd2p2d);
    get(j, "idd3p2d", v.idd3p2d);
    get(j, "idd5pdb2d", v.idd5pdb2d);
    get(j, "idd6ds2d", v.idd6ds2d);
    get(j, "iBeta_vdd1", v.iBeta_vdd1);
    get(j, "iBeta_vdd2c", v.iBeta_vdd2c);
    get(j, "iBeta_vdd2d", v.iBeta_vdd2d);
}
struct MemTimingSpecTypeLPDDR6 {
    double tCK = 0.0;
    uint64_t WCK2CK = 0;
    uint64_t RAS = 0;
    uint64_t RCD_r = 0;
    uint64_t RCD_w = 0;
    uint64_t RBTP = 0;
    uint64_t WL = 0;
    uint64_t WR = 0;
    uint64_t RPpb = 0;
    uint64_t RFCdb = 0;
    uint64_t RFCab = 0;
    uint64_t REFI = 0;
};
inline void to_json(json_t &j, const MemTimingSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "tCK", v.tCK);
    put(j, "WCK2CK", v.WCK2CK);
    put(j, "RAS", v.RAS);
    put(j, "RCD_r", v.RCD_r);
    put(j, "RCD_w", v.RCD_w);
    put(j, "RBTP", v.RBTP);
    put(j, "WL", v.WL);
    put(j, "WR", v.WR);
    put(j, "RPpb", v.RPpb);
    put(j, "RFCdb", v.RFCdb);
    put(j, "RFCab", v.RFCab);
    put(j, "REFI", v.REFI);
}
inline void from_json(const json_t &j, MemTimingSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "tCK", v.tCK);
    get(j, "WCK2CK", v.WCK2CK);
    get(j, "RAS", v.RAS);
    get(j, "RCD_r", v.RCD_r);
    get(j, "RCD_w", v.RCD_w);
    get(j, "RBTP", v.RBTP);
    get(j, "WL", v.WL);
    get(j, "WR", v.WR);
    get(j, "RPpb", v.RPpb);
    get(j, "RFCdb", v.RFCdb);
    get(j, "RFCab", v.RFCab);
    get(j, "REFI", v.REFI);
}
struct BankWiseSpecTypeLPDDR6 {
    std::optional<double> factRho;
};
inline void to_json(json_t &j, const BankWiseSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "factRho", v.factRho);
}
inline void from_json(const json_t &j, BankWiseSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "factRho", v.factRho);
}
struct MemImpedanceSpecTypeLPDDR6 {
    bool ck_termination = false;
    double ck_R_eq = 0.0;
    double ck_dyn_E = 0.0;
    bool ca_termination = false;
    double ca_R_eq = 0.0;
    double ca_dyn_E = 0.0;
    bool rdq_termination = false;
    double rdq_R_eq = 0.0;
    double rdq_dyn_E = 0.0;
    bool wdq_termination = false;
    double wdq_R_eq = 0.0;
    double wdq_dyn_E = 0.0;
    bool wck_termination = false;
    double wck_R_eq = 0.0;
    double wck_dyn_E = 0.0;
    bool rdqs_termination = false;
    double rdqs_R_eq = 0.0;
    double rdqs_dyn_E = 0.0;
};
inline void to_json(json_t &j, const MemImpedanceSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "ck_termination", v.ck_termination);
    put(j, "ck_R_eq", v.ck_R_eq);
    put(j, "ck_dyn_E", v.ck_dyn_E);
    put(j, "ca_termination", v.ca_termination);
    put(j, "ca_R_eq", v.ca_R_eq);
    put(j, "ca_dyn_E", v.ca_dyn_E);
    put(j, "rdq_termination", v.rdq_termination);
    put(j, "rdq_R_eq", v.rdq_R_eq);
    put(j, "rdq_dyn_E", v.rdq_dyn_E);
    put(j, "wdq_termination", v.wdq_termination);
    put(j, "wdq_R_eq", v.wdq_R_eq);
    put(j, "wdq_dyn_E", v.wdq_dyn_E);
    put(j, "wck_termination", v.wck_termination);
    put(j, "wck_R_eq", v.wck_R_eq);
    put(j, "wck_dyn_E", v.wck_dyn_E);
    put(j, "rdqs_termination", v.rdqs_termination);
    put(j, "rdqs_R_eq", v.rdqs_R_eq);
    put(j, "rdqs_dyn_E", v.rdqs_dyn_E);
}
inline void from_json(const json_t &j, MemImpedanceSpecTypeLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "ck_termination", v.ck_termination);
    get(j, "ck_R_eq", v.ck_R_eq);
    get(j, "ck_dyn_E", v.ck_dyn_E);
    get(j, "ca_termination", v.ca_termination);
    get(j, "ca_R_eq", v.ca_R_eq);
    get(j, "ca_dyn_E", v.ca_dyn_E);
    get(j, "rdq_termination", v.rdq_termination);
    get(j, "rdq_R_eq", v.rdq_R_eq);
    get(j, "rdq_dyn_E", v.rdq_dyn_E);
    get(j, "wdq_termination", v.wdq_termination);
    get(j, "wdq_R_eq", v.wdq_R_eq);
    get(j, "wdq_dyn_E", v.wdq_dyn_E);
    get(j, "wck_termination", v.wck_termination);
    get(j, "wck_R_eq", v.wck_R_eq);
    get(j, "wck_dyn_E", v.wck_dyn_E);
    get(j, "rdqs_termination", v.rdqs_termination);
    get(j, "rdqs_R_eq", v.rdqs_R_eq);
    get(j, "rdqs_dyn_E", v.rdqs_dyn_E);
}
struct MemSpecLPDDR6 {
    static constexpr const char *id_value = "LPDDR6";
    std::string id = id_value;
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR6 memarchitecturespec;
    MemPowerSpecTypeLPDDR6 mempowerspec;
    MemTimingSpecTypeLPDDR6 memtimingspec;
    std::optional<BankWiseSpecTypeLPDDR6> bankwisespec;
    MemImpedanceSpecTypeLPDDR6 memimpedancespec;
};
inline void to_json(json_t &j, const MemSpecLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "memoryType", v.id);
    put(j, "memoryId", v.memoryId);
    put(j, "memarchitecturespec", v.memarchitecturespec);
    put(j, "mempowerspec", v.mempowerspec);
    put(j, "memtimingspec", v.memtimingspec);
    put(j, "bankwisespec", v.bankwisespec);
    put(j, "memimpedancespec", v.memimpedancespec);
}
inline void from_json(const json_t &j, MemSpecLPDDR6 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "memoryId", v.memoryId);
    get(j, "memarchitecturespec", v.memarchitecturespec);
    get(j, "mempowerspec", v.mempowerspec);
    get(j, "memtimingspec", v.memtimingspec);
    get(j, "bankwisespec", v.bankwisespec);
    get(j, "memimpedancespec", v.memimpedancespec);
}
} // namespace
#endif
