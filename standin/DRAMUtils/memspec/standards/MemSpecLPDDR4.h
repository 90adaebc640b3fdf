// Stand-in: the fields of the LPDDR4 memory specification that DRAMPower reads.
#ifndef VERIF_STANDIN_MEMSPEC_LPDDR4_H
#define VERIF_STANDIN_MEMSPEC_LPDDR4_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::MemSpec {
enum class pasrModesType { PASR_0, PASR_1, PASR_2, PASR_3, PASR_4, PASR_5, PASR_6, PASR_7, Invalid = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(pasrModesType, {{pasrModesType::Invalid, nullptr}, {pasrModesType::PASR_0, 0}, {pasrModesType::PASR_1, 1}, {pasrModesType::PASR_2, 2}, {pasrModesType::PASR_3, 3}, {pasrModesType::PASR_4, 4}, {pasrModesType::PASR_5, 5}, {pasrModesType::PASR_6, 6}, {pasrModesType::PASR_7, 7}})
struct MemArchitectureSpecTypeLPDDR4 {
    uint64_t nbrOfBanks = 0;
    uint64_t nbrOfRows = 0;
    uint64_t nbrOfColumns = 0;
    uint64_t nbrOfDevices = 0;
    uint64_t burstLength = 0;
    uint64_t dataRate = 0;
    uint64_t width = 0;
    uint64_t nbrOfBankGroups = 0;
    uint64_t nbrOfRanks = 0;
};
inline void to_json(json_t &j, const MemArchitectureSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "nbrOfBanks", v.nbrOfBanks);
    put(j, "nbrOfRows", v.nbrOfRows);
    put(j, "nbrOfColumns", v.nbrOfColumns);
    put(j, "nbrOfDevices", v.nbrOfDevices);
    put(j, "burstLength", v.burstLength);
    put(j, "dataRate", v.dataRate);
    put(j, "width", v.width);
    put(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    put(j, "nbrOfRanks", v.nbrOfRanks);
}
inline void from_json(const json_t &j, MemArchitectureSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "nbrOfBanks", v.nbrOfBanks);
    get(j, "nbrOfRows", v.nbrOfRows);
    get(j, "nbrOfColumns", v.nbrOfColumns);
    get(j, "nbrOfDevices", v.nbrOfDevices);
    get(j, "burstLength", v.burstLength);
    get(j, "dataRate", v.dataRate);
    get(j, "width", v.width);
    get(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    get(j, "nbrOfRanks", v.nbrOfRanks);
}
struct MemPowerSpecTypeLPDDR4 {
    double vdd1 = 0.0;
    double vdd2 = 0.0;
    double vddq = 0.0;
    double idd01 = 0.0;
    double idd2n1 = 0.0;
    double idd3n1 = 0.0;
    double idd4r1 = 0.0;
    double idd4w1 = 0.0;
    double idd51 = 0.0;
    double idd61 = 0.0;
    double idd2p1 = 0.0;
    double idd3p1 = 0.0;
    double idd5pb1 = 0.0;
    double idd02 = 0.0;
    double idd2n2 = 0.0;
    double idd3n2 = 0.0;
    double idd4r2 = 0.0;
    double idd4w2 = 0.0;
    double idd52 = 0.0;
    double idd62 = 0.0;
    double idd2p2 = 0.0;
    double idd3p2 = 0.0;
    double idd5pb2 = 0.0;
    std::optional<double> iBeta_vdd1;
    std::optional<double> iBeta_vdd2;
};
inline void to_json(json_t &j, const MemPowerSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "vdd1", v.vdd1);
    put(j, "vdd2", v.vdd2);
    put(j, "vddq", v.vddq);
    put(j, "idd01", v.idd01);
    put(j, "idd2n1", v.idd2n1);
    put(j, "idd3n1", v.idd3n1);
    put(j, "idd4r1", v.idd4r1);
    put(j, "idd4w1", v.idd4w1);
    put(j, "idd51", v.idd51);
    put(j, "idd61", v.idd61);
    put(j, "idd2p1", v.idd2p1);
    put(j, "idd3p1", v.idd3p1);
    put(j, "idd5pb1", v.idd5pb1);
    put(j, "idd02", v.idd02);
    put(j, "idd2n2", v.idd2n2);
    put(j, "idd3n2", v.idd3n2);
    put(j, "idd4r2", v.idd4r2);
    put(j, "idd4w2", v.idd4w2);
    put(j, "idd52", v.idd52);
    put(j, "idd62", v.idd62);
    put(j, "idd2p2", v.idd2p2);
    put(j, "idd3p2", v.idd3p2);
    put(j, "idd5pb2", v.idd5pb2);
    put(j, "iBeta_vdd1", v.iBeta_vdd1);
    put(j, "iBeta_vdd2", v.iBeta_vdd2);
}
inline void from_json(const json_t &j, MemPowerSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "vdd1", v.vdd1);
    get(j, "vdd2", v.vdd2);
    get(j, "vddq", v.vddq);
    get(j, "idd01", v.idd01);
    get(j, "idd2n1", v.idd2n1);
    get(j, "idd3n1", v.idd3n1);
    get(j, "idd4r1", v.idd4r1);
    get(j, "idd4w1", v.idd4w1);
    get(j, "idd51", v.idd51);
    get(j, "idd61", v.idd61);
    get(j, "idd2p1", v.idd2p1);
    get(j, "idd3p1", v.idd3p1);
    get(j, "idd5pb1", v.idd5pb1);
    get(j, "idd02", v.idd02);
    get(j, "idd2n2", v.idd2n2);
    get(j, "idd3n2", v.idd3n2);
    get(j, "idd4r2", v.idd4r2);
    get(j, "idd4w2", v.idd4w2);
    get(j, "idd52", v.idd52);
    get(j, "idd62", v.idd62);
    get(j, "idd2p2", v.idd2p2);
    get(j, "idd3p2", v.idd3p2);
    get(j, "idd5pb2", v.idd5pb2);
    get(j, "iBeta_vdd1", v.iBeta_vdd1);
    get(j, "iBeta_vdd2", v.iBeta_vdd2);
}
struct MemTimingSpecTypeLPDDR4 {
    double tCK = 0.0;
    uint64_t RAS = 0;
    uint64_t RCD = 0;
    uint64_t RL = 0;
    uint64_t RTP = 0;
    uint64_t WL = 0;
    uint64_t WR = 0;
    uint64_t RPpb = 0;
    uint64_t RFCpb = 0;
    uint64_t RFCab = 0;
    uint64_t REFI = 0;
};
inline void to_json(json_t &j, const MemTimingSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "tCK", v.tCK);
    put(j, "RAS", v.RAS);
    put(j, "RCD", v.RCD);
    put(j, "RL", v.RL);
    put(j, "RTP", v.RTP);
    put(j, "WL", v.WL);
    put(j, "WR", v.WR);
    put(j, "RPpb", v.RPpb);
    put(j, "RFCpb", v.RFCpb);
    put(j, "RFCab", v.RFCab);
    put(j, "REFI", v.REFI);
}
inline void from_json(const json_t &j, MemTimingSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "tCK", v.tCK);
    get(j, "RAS", v.RAS);
    get(j, "RCD", v.RCD);
    get(j, "RL", v.RL);
    get(j, "RTP", v.RTP);
    get(j, "WL", v.WL);
    get(j, "WR", v.WR);
    get(j, "RPpb", v.RPpb);
    get(j, "RFCpb", v.RFCpb);
    get(j, "RFCab", v.RFCab);
    get(j, "REFI", v.REFI);
}
struct BankWiseSpecTypeLPDDR4 {
    std::optional<double> factRho;
    std::optional<double> factSigma;
    std::optional<pasrModesType> pasrMode;
    std::optional<bool> hasPASR;
};
inline void to_json(json_t &j, const BankWiseSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "factRho", v.factRho);
    put(j, "factSigma", v.factSigma);
    put(j, "pasrMode", v.pasrMode);
    put(j, "hasPASR", v.hasPASR);
}
inline void from_json(const json_t &j, BankWiseSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "factRho", v.factRho);
    get(j, "factSigma", v.factSigma);
    get(j, "pasrMode", v.pasrMode);
    get(j, "hasPASR", v.hasPASR);
}
struct MemImpedanceSpecTypeLPDDR4 {
    bool ck_termination = false;
    double ck_R_eq = 0.0;
    double ck_dyn_E = 0.0;
    bool ca_termination = false;
    double ca_R_eq = 0.0;
    double ca_dyn_E = 0.0;
    bool rdq_termination = false;
    double rdq_R_eq = 0.0;
    double rdq_dyn_E = 0.0;
    bool wdq_termination = false;
    double wdq_R_eq = 0.0;
    double wdq_dyn_E = 0.0;
    bool wdqs_termination = false;
    double wdqs_R_eq = 0.0;
    double wdqs_dyn_E = 0.0;
    bool rdqs_termination = false;
    double rdqs_R_eq = 0.0;
    double rdqs_dyn_E = 0.0;
    bool wdbi_termination = false;
    double wdbi_R_eq = 0.0;
    double wdbi_dyn_E = 0.0;
    bool rdbi_termination = false;
    double rdbi_R_eq = 0.0;
    double rdbi_dyn_E = 0.0;
};
inline void to_json(json_t &j, const MemImpedanceSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "ck_termination", v.ck_termination);
    put(j, "ck_R_eq", v.ck_R_eq);
    put(j, "ck_dyn_E", v.ck_dyn_E);
    put(j, "ca_termination", v.ca_termination);
    put(j, "ca_R_eq", v.ca_R_eq);
    put(j, "ca_dyn_E", v.ca_dyn_E);
    put(j, "rdq_termination", v.rdq_termination);
    put(j, "rdq_R_eq", v.rdq_R_eq);
    put(j, "rdq_dyn_E", v.rdq_dyn_E);
    put(j, "wdq_termination", v.wdq_termination);
    put(j, "wdq_R_eq", v.wdq_R_eq);
    put(j, "wdq_dyn_E", v.wdq_dyn_E);
    put(j, "wdqs_termination", v.wdqs_termination);
    put(j, "wdqs_R_eq", v.wdqs_R_eq);
    put(j, "wdqs_dyn_E", v.wdqs_dyn_E);
    put(j, "rdqs_termination", v.rdqs_termination);
    put(j, "rdqs_R_eq", v.rdqs_R_eq);
    put(j, "rdqs_dyn_E", v.rdqs_dyn_E);
    put(j, "wdbi_termination", v.wdbi_termination);
    put(j, "wdbi_R_eq", v.wdbi_R_eq);
    put(j, "wdbi_dyn_E", v.wdbi_dyn_E);
    put(j, "rdbi_termination", v.rdbi_termination);
    put(j, "rdbi_R_eq", v.rdbi_R_eq);
    put(j, "rdbi_dyn_E", v.rdbi_dyn_E);
}
inline void from_json(const json_t &j, MemImpedanceSpecTypeLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "ck_termination", v.ck_termination);
    get(j, "ck_R_eq", v.ck_R_eq);
    get(j, "ck_dyn_E", v.ck_dyn_E);
    get(j, "ca_termination", v.ca_termination);
    get(j, "ca_R_eq", v.ca_R_eq);
    get(j, "ca_dyn_E", v.ca_dyn_E);
    get(j, "rdq_termination", v.rdq_termination);
    get(j, "rdq_R_eq", v.rdq_R_eq);
    get(j, "rdq_dyn_E", v.rdq_dyn_E);
    get(j, "wdq_termination", v.wdq_termination);
    get(j, "wdq_R_eq", v.wdq_R_eq);
    get(j, "wdq_dyn_E", v.wdq_dyn_E);
    get(j, "wdqs_termination", v.wdqs_termination);
    get(j, "wdqs_R_eq", v.wdqs_R_eq);
    get(j, "wdqs_dyn_E", v.wdqs_dyn_E);
    get(j, "rdqs_termination", v.rdqs_termination);
    get(j, "rdqs_R_eq", v.rdqs_R_eq);
    get(j, "rdqs_dyn_E", v.rdqs_dyn_E);
    get(j, "wdbi_termination", v.wdbi_termination);
    get(j, "wdbi_R_eq", v.wdbi_R_eq);
    get(j, "wdbi_dyn_E", v.wdbi_dyn_E);
    get(j, "rdbi_termination", v.rdbi_termination);
    get(j, "rdbi_R_eq", v.rdbi_R_eq);
    get(j, "rdbi_dyn_E", v.rdbi_dyn_E);
}
struct MemSpecLPDDR4 {
    static constexpr const char *id_value = "LPDDR4";
    std::string id = id_value;
    std::string memoryId;
    MemArchitectureSpecTypeLPDDR4 memarchitecturespec;
    MemPowerSpecTypeLPDDR4 mempowerspec;
    MemTimingSpecTypeLPDDR4 memtimingspec;
    std::optional<BankWiseSpecTypeLPDDR4> bankwisespec;
    MemImpedanceSpecTypeLPDDR4 memimpedancespec;
};
inline void to_json(json_t &j, const MemSpecLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "memoryType", v.id);
    put(j, "memoryId", v.memoryId);
    put(j, "memarchitecturespec", v.memarchitecturespec);
    put(j, "mempowerspec", v.mempowerspec);
    put(j, "memtimingspec", v.memtimingspec);
    put(j, "bankwisespec", v.bankwisespec);
    put(j, "memimpedancespec", v.memimpedancespec);
}
inline void from_json(const json_t &j, MemSpecLPDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "memoryId", v.memoryId);
    get(j, "memarchitecturespec", v.memarchitecturespec);
    get(j, "mempowerspec", v.mempowerspec);
    get(j, "memtimingspec", v.memtimingspec);
    get(j, "bankwisespec", v.bankwisespec);
    get(j, "memimpedancespec", v.memimpedancespec);
}
} // namespace
#endif
