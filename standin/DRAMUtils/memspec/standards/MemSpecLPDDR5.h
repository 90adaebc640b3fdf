// Stand-in: the fields of the LPDDR5 memory specification that DRAMPower reads.
#ifndef VERIF_STANDIN_MEMSPEC_LPDDR5_H
#define VERIF_STANDIN_MEMSPEC_LPDDR5_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::MemSpec {
struct MemArchitectureSpecTypeLPDDR5 {
    uint64_t nbrOfBanks = 0;
    uint64_t nbrOfRows = 0;
    uint64_t nbrOfColumns = 0;
    uint64_t nbrOfDevices = 0;
    uint64_t burstLength = 0;
    uint64_t dataRate = 0;
    uint64_t width = 0;
    uint64_t nbrOfBankGroups = 0;
    uint64_t nbrOfRanks = 0;
    bool WCKalwaysOn = false;
};
inline void to_json(json_t &j, const MemArchitectureSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "nbrOfBanks", v.nbrOfBanks);
    put(j, "nbrOfRows", v.nbrOfRows);
    put(j, "nbrOfColumns", v.nbrOfColumns);
    put(j, "nbrOfDevices", v.nbrOfDevices);
    put(j, "burstLength", v.burstLength);
    put(j, "dataRate", v.dataRate);
    put(j, "width", v.width);
    put(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    put(j, "nbrOfRanks", v.nbrOfRanks);
    put(j, "WCKalwaysOn", v.WCKalwaysOn);
}
inline void from_json(const json_t &j, MemArchitectureSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "nbrOfBanks", v.nbrOfBanks);
    get(j, "nbrOfRows", v.nbrOfRows);
    get(j, "nbrOfColumns", v.nbrOfColumns);
    get(j, "nbrOfDevices", v.nbrOfDevices);
    get(j, "burstLength", v.burstLength);
    get(j, "dataRate", v.dataRate);
    get(j, "width", v.width);
    get(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    get(j, "nbrOfRanks", v.nbrOfRanks);
    get(j, "WCKalwaysOn", v.WCKalwaysOn);
}
struct MemPowerSpecTypeLPDDR5 {
    double vdd1 = 0.0;
    double vdd2h = 0.0;
    double vdd2l = 0.0;
    double vddq = 0.0;
    double idd01 = 0.0;
    double idd2n1 = 0.0;
    double idd3n1 = 0.0;
    double idd4r1 = 0.0;
    double idd4w1 = 0.0;
    double idd51 = 0.0;
    double idd61 = 0.0;
    double idd2p1 = 0.0;
    double idd3p1 = 0.0;
    double idd5pb1 = 0.0;
    double idd6ds1 = 0.0;
    double idd02h = 0.0;
    double idd2n2h = 0.0;
    double idd3n2h = 0.0;
    double idd4r2h = 0.0;
    double idd4w2h = 0.0;
    double idd52h = 0.0;
    double idd62h = 0.0;
    double idd2p2h = 0.0;
    double idd3p2h = 0.0;
    double idd5pb2h = 0.0;
    double idd6ds2h = 0.0;
    double idd02l = 0.0;
    double idd2n2l = 0.0;
    double idd3n2l = 0.0;
    double idd4r2l = 0.0;
    double idd4w2l = 0.0;
    double idd52l = 0.0;
    double idd62l = 0.0;
    double idd2p2l = 0.0;
    double idd3p2l = 0.0;
    double idd5pb2l = 0.0;
    double idd6ds2l = 0.0;
    std::optional<double> iBeta_vdd1;
    std::optional<double> iBeta_vdd2h;
    std::optional<double> iBeta_vdd2l;
};
inline void to_json(json_t &j, const MemPowerSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "vdd1", v.vdd1);
    put(j, "vdd2h", v.vdd2h);
    put(j, "vdd2l", v.vdd2l);
    put(j, "vddq", v.vddq);
    put(j, "idd01", v.idd01);
    put(j, "idd2n1", v.idd2n1);
    put(j, "idd3n1", v.idd3n1);
    put(j, "idd4r1", v.idd4r1);
    put(j, "idd4w1", v.idd4w1);
    put(j, "idd51", v.idd51);
    put(j, "idd61", v.idd61);
    put(j, "idd2p1", v.idd2p1);
    put(j, "idd3p1", v.idd3p1);
    put(j, "idd5pb1", v.idd5pb1);
    put(j, "idd6ds1", v.idd6ds1);
    put(j, "idd02h", v.idd02h);
    put(j, "idd2n2h", v.idd2n2h);
    put(j, "idd3n2h", v.idd3n2h);
    put(j, "idd4r2h", v.idd4r2h);
    put(j, "idd4w2h", v.idd4w2h);
    put(j, "idd52h", v.idd52h);
    put(j, "idd62h", v.idd62h);
    put(j, "idd2p2h", v.idd2p2h);
    put(j, "idd3p2h", v.idd3p2h);
    put(j, "idd5pb2h", v.idd5pb2h);
    put(j, "idd6ds2h", v.idd6ds2h);
    put(j, "idd02l", v.idd02l);
    put(j, "idd2n2l", v.idd2n2l);
    put(j, "idd3n2l", v.idd3n2l);
    put(j, "idd4r2l", v.idd4r2l);
    put(j, "idd4w2l", v.idd4w2l);
    put(j, "idd52l", v.idd52l);
    put(j, "idd62l", v.idd62l);
    put(j, "idd2p2l", v.idd2p2l);
    put(j, "idd3p2l", v.idd3p2l);
    put(j, "idd5pb2l", v.idd5pb2l);
    put(j, "idd6ds2l", v.idd6ds2l);
    put(j, "iBeta_vdd1", v.iBeta_vdd1);
    put(j, "iBeta_vdd2h", v.iBeta_vdd2h);
    put(j, "iBeta_vdd2l", v.iBeta_vdd2l);
}
inline void from_json(const json_t &j, MemPowerSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "vdd1", v.vdd1);
    get(j, "vdd2h", v.vdd2h);
    get(j, "vdd2l", v.vdd2l);
    get(j, "vddq", v.vddq);
    get(j, "idd01", v.idd01);
    get(j, "idd2n1", v.idd2n1);
    get(j, "idd3n1", v.idd3n1);
    get(j, "idd4r1", v.idd4r1);
    get(j, "idd4w1", v.idd4w1);
    get(j, "idd51", v.idd51);
    get(j, "idd61", v.idd61);
    get(j, "idd2p1", v.idd2p1);
    get(j, "idd3p1", v.idd3p1);
    get(j, "idd5pb1", v.idd5pb1);
    get(j, "idd6ds1", v.idd6ds1);
    get(j, "idd02h", v.idd02h);
    get(j, "idd2n2h", v.idd2n2h);
    get(j, "idd3n2h", v.idd3n2h);
    get(j, "idd4r2h", v.idd4r2h);
    get(j, "idd4w2h", v.idd4w2h);
    get(j, "idd52h", v.idd52h);
    get(j, "idd62h", v.idd62h);
    get(j, "idd2p2h", v.idd2p2h);
    get(j, "idd3p2h", v.idd3p2h);
    get(j, "idd5pb2h", v.idd5pb2h);
    get(j, "idd6ds2h", v.idd6ds2h);
    get(j, "idd02l", v.idd02l);
    get(j, "idd2n2l", v.idd2n2l);
    get(j, "idd3n2l", v.idd3n2l);
    get(j, "idd4r2l", v.idd4r2l);
    get(j, "idd4w2l", v.idd4w2l);
    get(j, "idd52l", v.idd52l);
    get(j, "idd62l", v.idd62l);
    get(j, "idd2p2l", v.idd2p2l);
    get(j, "idd3p2l", v.idd3p2l);
    get(j, "idd5pb2l", v.idd5pb2l);
    get(j, "idd6ds2l", v.idd6ds2l);
    get(j, "iBeta_vdd1", v.iBeta_vdd1);
    get(j, "iBeta_vdd2h", v.iBeta_vdd2h);
    get(j, "iBeta_vdd2l", v.iBeta_vdd2l);
}
struct MemTimingSpecTypeLPDDR5 {
    double tCK = 0.0;
    uint64_t WCK2CK = 0;
    uint64_t RAS = 0;
    uint64_t RCD_S = 0;
    uint64_t RBTP = 0;
    uint64_t WL = 0;
    uint64_t WR = 0;
    uint64_t RPpb = 0;
    uint64_t RFCpb = 0;
    uint64_t RFCab = 0;
    uint64_t REFI = 0;
};
inline void to_json(json_t &j, const MemTimingSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "tCK", v.tCK);
    put(j, "WCK2CK", v.WCK2CK);
    put(j, "RAS", v.RAS);
    put(j, "RCD_S", v.RCD_S);
    put(j, "RBTP", v.RBTP);
    put(j, "WL", v.WL);
    put(j, "WR", v.WR);
    put(j, "RPpb", v.RPpb);
    put(j, "RFCpb", v.RFCpb);
    put(j, "RFCab", v.RFCab);
    put(j, "REFI", v.REFI);
}
inline void from_json(const json_t &j, MemTimingSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "tCK", v.tCK);
    get(j, "WCK2CK", v.WCK2CK);
    get(j, "RAS", v.RAS);
    get(j, "RCD_S", v.RCD_S);
    get(j, "RBTP", v.RBTP);
    get(j, "WL", v.WL);
    get(j, "WR", v.WR);
    get(j, "RPpb", v.RPpb);
    get(j, "RFCpb", v.RFCpb);
    get(j, "RFCab", v.RFCab);
    get(j, "REFI", v.REFI);
}
struct BankWiseSpecTypeLPDDR5 {
    std::optional<double> factRho;
};
inline void to_json(json_t &j, const BankWiseSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "factRho", v.factRho);
}
inline void from_json(const json_t &j, BankWiseSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "factRho", v.factRho);
}
struct MemImpedanceSpecTypeLPDDR5 {
    bool ck_termination = false;
    double ck_R_eq = 0.0;
    double ck_dyn_E = 0.0;
    bool ca_termination = false;
    double ca_R_eq = 0.0;
    double ca_dyn_E = 0.0;
    bool rdq_termination = false;
    double rdq_R_eq = 0.0;
    double rdq_dyn_E = 0.0;
    bool wdq_termination = false;
    double wdq_R_eq = 0.0;
    double wdq_dyn_E = 0.0;
    bool wck_termination = false;
    double wck_R_eq = 0.0;
    double wck_dyn_E = 0.0;
    bool rdqs_termination = false;
    double rdqs_R_eq = 0.0;
    double rdqs_dyn_E = 0.0;
    bool wdbi_termination = false;
    double wdbi_R_eq = 0.0;
    double wdbi_dyn_E = 0.0;
    bool rdbi_termination = false;
    double rdbi_R_eq = 0.0;
    double rdbi_dyn_E = 0.0;
};
inline void to_json(json_t &j, const MemImpedanceSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "ck_termination", v.ck_termination);
    put(j, "ck_R_eq", v.ck_R_eq);
    put(j, "ck_dyn_E", v.ck_dyn_E);
    put(j, "ca_termination", v.ca_termination);
    put(j, "ca_R_eq", v.ca_R_eq);
    put(j, "ca_dyn_E", v.ca_dyn_E);
    put(j, "rdq_termination", v.rdq_termination);
    put(j, "rdq_R_eq", v.rdq_R_eq);
    put(j, "rdq_dyn_E", v.rdq_dyn_E);
    put(j, "wdq_termination", v.wdq_termination);
    put(j, "wdq_R_eq", v.wdq_R_eq);
    put(j, "wdq_dyn_E", v.wdq_dyn_E);
    put(j, "wck_termination", v.wck_termination);
    put(j, "wck_R_eq", v.wck_R_eq);
    put(j, "wck_dyn_E", v.wck_dyn_E);
    put(j, "rdqs_termination", v.rdqs_termination);
    put(j, "rdqs_R_eq", v.rdqs_R_eq);
    put(j, "rdqs_dyn_E", v.rdqs_dyn_E);
    put(j, "wdbi_termination", v.wdbi_termination);
    put(j, "wdbi_R_eq", v.wdbi_R_eq);
    put(j, "wdbi_dyn_E", v.wdbi_dyn_E);
    put(j, "rdbi_termination", v.rdbi_termination);
    put(j, "rdbi_R_eq", v.rdbi_R_eq);
    put(j, "rdbi_dyn_E", v.rdbi_dyn_E);
}
inline void from_json(const json_t &j, MemImpedanceSpecTypeLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "ck_termination", v.ck_termination);
    get(j, "ck_R_eq", v.ck_R_eq);
    get(j, "ck_dyn_E", v.ck_dyn_E);
    get(j, "ca_termination", v.ca_termination);
    get(j, "ca_R_eq", v.ca_R_eq);
    get(j, "ca_dyn_E", v.ca_dyn_E);
    get(j, "rdq_termination", v.rdq_termination);
    get(j, "rdq_R_eq", v.rdq_R_eq);
    get(j, "rdq_dyn_E", v.rdq_dyn_E);
    get(j, "wdq_termination", v.wdq_termination);
    get(j, "wdq_R_eq", v.wdq_R_eq);
    get(j, "wdq_dyn_E", v.wdq_dyn_E);
    get(j, "wck_termination", v.wck_termination);
    get(j, "wck_R_eq", v.wck_R_eq);
    get(j, "wck_dyn_E", v.wck_dyn_E);
    get(j, "rdqs_termination", v.rdqs_termination);
    get(j, "rdqs_R_eq", v.rdqs_R_eq);
    get(j, "rdqs_dyn_E", v.rdqs_dyn_E);
    get(j, "wdbi_termination", v.wdbi_termination);
    get(j, "wdbi_R_eq", v.wdbi_R_eq);
    get(j, "wdbi_dyn_E", v.wdbi_dyn_E);
    get(j, "rdbi_termination", v.rdbi_termination);
    get(j, "rdbi_R_eq", v.rdbi_R_eq);
    get(j, "rdbi_dyn_E", v.rdbi_dyn_E);
}
struct MemSpecLPDDR5 {
    static constexpr const char *id_value = "LPDDR5";
    std::string id = id_value;
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR5 memarchitecturespec;
    MemPowerSpecTypeLPDDR5 mempowerspec;
    MemTimingSpecTypeLPDDR5 memtimingspec;
    std::optional<BankWiseSpecTypeLPDDR5> bankwisespec;
    MemImpedanceSpecTypeLPDDR5 memimpedancespec;
};
inline void to_json(json_t &j, const MemSpecLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "memoryType", v.id);
    put(j, "memoryId", v.memoryId);
    put(j, "memarchitecturespec", v.memarchitecturespec);
    put(j, "mempowerspec", v.mempowerspec);
    put(j, "memtimingspec", v.memtimingspec);
    put(j, "bankwisespec", v.bankwisespec);
    put(j, "memimpedancespec", v.memimpedancespec);
}
inline void from_json(const json_t &j, MemSpecLPDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "memoryId", v.memoryId);
    get(j, "memarchitecturespec", v.memarchitecturespec);
    get(j, "mempowerspec", v.mempowerspec);
    get(j, "memtimingspec", v.memtimingspec);
    get(j, "bankwisespec", v.bankwisespec);
    get(j, "memimpedancespec", v.memimpedancespec);
}
} // namespace
#endif
