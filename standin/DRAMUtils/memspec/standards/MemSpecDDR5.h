// Stand-in: the fields of the DDR5 memory specification that DRAMPower reads.
#ifndef VERIF_STANDIN_MEMSPEC_DDR5_H
#define VERIF_STANDIN_MEMSPEC_DDR5_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR5 { REF_MODE_1 = 1, REF_MODE_2 = 2, INVALID = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR5, {{RefModeTypeDDR5::INVALID, nullptr}, {RefModeTypeDDR5::REF_MODE_1, 1}, {RefModeTypeDDR5::REF_MODE_2, 2}})
struct MemArchitectureSpecTypeDDR5 {
    uint64_t nbrOfBanks = 0;
    uint64_t nbrOfRows = 0;
    uint64_t nbrOfColumns = 0;
    uint64_t nbrOfDevices = 0;
    uint64_t burstLength = 0;
    uint64_t dataRate = 0;
    uint64_t width = 0;
    uint64_t nbrOfBankGroups = 0;
    uint64_t nbrOfRanks = 0;
    RefModeTypeDDR5 RefMode = RefModeTypeDDR5::INVALID;
};
inline void to_json(json_t &j, const MemArchitectureSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "nbrOfBanks", v.nbrOfBanks);
    put(j, "nbrOfRows", v.nbrOfRows);
    put(j, "nbrOfColumns", v.nbrOfColumns);
    put(j, "nbrOfDevices", v.nbrOfDevices);
    put(j, "burstLength", v.burstLength);
    put(j, "dataRate", v.dataRate);
    put(j, "width", v.width);
    put(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    put(j, "nbrOfRanks", v.nbrOfRanks);
    put(j, "RefMode", v.RefMode);
}
inline void from_json(const json_t &j, MemArchitectureSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "nbrOfBanks", v.nbrOfBanks);
    get(j, "nbrOfRows", v.nbrOfRows);
    get(j, "nbrOfColumns", v.nbrOfColumns);
    get(j, "nbrOfDevices", v.nbrOfDevices);
    get(j, "burstLength", v.burstLength);
    get(j, "dataRate", v.dataRate);
    get(j, "width", v.width);
    get(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    get(j, "nbrOfRanks", v.nbrOfRanks);
    get(j, "RefMode", v.RefMode);
}
struct MemPowerSpecTypeDDR5 {
    double vdd = 0.0;
    double vpp = 0.0;
    double vddq = 0.0;
    double idd0 = 0.0;
    double idd2n = 0.0;
    double idd3n = 0.0;
    double idd4r = 0.0;
    double idd4w = 0.0;
    double idd6n = 0.0;
    double idd2p = 0.0;
    double idd3p = 0.0;
    double idd5b = 0.0;
    double idd5c = 0.0;
    double idd5f = 0.0;
    double ipp0 = 0.0;
    double ipp2n = 0.0;
    double ipp3n = 0.0;
    double ipp4r = 0.0;
    double ipp4w = 0.0;
    double ipp6n = 0.0;
    double ipp2p = 0.0;
    double ipp3p = 0.0;
    double ipp5b = 0.0;
    double ipp5c = 0.0;
    double ipp5f = 0.0;
    std::optional<double> iBeta_vdd;
    std::optional<double> iBeta_vpp;
};
inline void to_json(json_t &j, const MemPowerSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "vdd", v.vdd);
    put(j, "vpp", v.vpp);
    put(j, "vddq", v.vddq);
    put(j, "idd0", v.idd0);
    put(j, "idd2n", v.idd2n);
    put(j, "idd3n", v.idd3n);
    put(j, "idd4r", v.idd4r);
    put(j, "idd4w", v.idd4w);
    put(j, "idd6n", v.idd6n);
    put(j, "idd2p", v.idd2p);
    put(j, "idd3p", v.idd3p);
    put(j, "idd5b", v.idd5b);
    put(j, "idd5c", v.idd5c);
    put(j, "idd5f", v.idd5f);
    put(j, "ipp0", v.ipp0);
    put(j, "ipp2n", v.ipp2n);
    put(j, "ipp3n", v.ipp3n);
    put(j, "ipp4r", v.ipp4r);
    put(j, "ipp4w", v.ipp4w);
    put(j, "ipp6n", v.ipp6n);
    put(j, "ipp2p", v.ipp2p);
    put(j, "ipp3p", v.ipp3p);
    put(j, "ipp5b", v.ipp5b);
    put(j, "ipp5c", v.ipp5c);
    put(j, "ipp5f", v.ipp5f);
    put(j, "iBeta_vdd", v.iBeta_vdd);
    put(j, "iBeta_vpp", v.iBeta_vpp);
}
inline void from_json(const json_t &j, MemPowerSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "vdd", v.vdd);
    get(j, "vpp", v.vpp);
    get(j, "vddq", v.vddq);
    get(j, "idd0", v.idd0);
    get(j, "idd2n", v.idd2n);
    get(j, "idd3n", v.idd3n);
    get(j, "idd4r", v.idd4r);
    get(j, "idd4w", v.idd4w);
    get(j, "idd6n", v.idd6n);
    get(j, "idd2p", v.idd2p);
    get(j, "idd3p", v.idd3p);
    get(j, "idd5b", v.idd5b);
    get(j, "idd5c", v.idd5c);
    get(j, "idd5f", v.idd5f);
    get(j, "ipp0", v.ipp0);
    get(j, "ipp2n", v.ipp2n);
    get(j, "ipp3n", v.ipp3n);
    get(j, "ipp4r", v.ipp4r);
    get(j, "ipp4w", v.ipp4w);
    get(j, "ipp6n", v.ipp6n);
    get(j, "ipp2p", v.ipp2p);
    get(j, "ipp3p", v.ipp3p);
    get(j, "ipp5b", v.ipp5b);
    get(j, "ipp5c", v.ipp5c);
    get(j, "ipp5f", v.ipp5f);
    get(j, "iBeta_vdd", v.iBeta_vdd);
    get(j, "iBeta_vpp", v.iBeta_vpp);
}
struct MemTimingSpecTypeDDR5 {
    double tCK = 0.0;
    uint64_t RAS = 0;
    uint64_t RCD = 0;
    uint64_t RTP = 0;
    uint64_t WL = 0;
    uint64_t WR = 0;
    uint64_t RP = 0;
    uint64_t RFCsb_slr = 0;
    uint64_t RFC1_slr = 0;
    uint64_t RFC2_slr = 0;
};
inline void to_json(json_t &j, const MemTimingSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "tCK", v.tCK);
    put(j, "RAS", v.RAS);
    put(j, "RCD", v.RCD);
    put(j, "RTP", v.RTP);
    put(j, "WL", v.WL);
    put(j, "WR", v.WR);
    put(j, "RP", v.RP);
    put(j, "RFCsb_slr", v.RFCsb_slr);
    put(j, "RFC1_slr", v.RFC1_slr);
    put(j, "RFC2_slr", v.RFC2_slr);
}
inline void from_json(const json_t &j, MemTimingSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "tCK", v.tCK);
    get(j, "RAS", v.RAS);
    get(j, "RCD", v.RCD);
    get(j, "RTP", v.RTP);
    get(j, "WL", v.WL);
    get(j, "WR", v.WR);
    get(j, "RP", v.RP);
    get(j, "RFCsb_slr", v.RFCsb_slr);
    get(j, "RFC1_slr", v.RFC1_slr);
    get(j, "RFC2_slr", v.RFC2_slr);
}
struct BankWiseSpecTypeDDR5 {
    std::optional<double> factRho;
};
inline void to_json(json_t &j, const BankWiseSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "factRho", v.factRho);
}
inline void from_json(const json_t &j, BankWiseSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "factRho", v.factRho);
}
struct MemImpedanceSpecTypeDDR5 {
    bool ck_termination = false;
    double ck_R_eq = 0.0;
    double ck_dyn_E = 0.0;
    bool ca_termination = false;
    double ca_R_eq = 0.0;
    double ca_dyn_E = 0.0;
    bool rdq_termination = false;
    double rdq_R_eq = 0.0;
    double rdq_dyn_E = 0.0;
    bool wdq_termination = false;
    double wdq_R_eq = 0.0;
    double wdq_dyn_E = 0.0;
    bool wdqs_termination = false;
    double wdqs_R_eq = 0.0;
    double wdqs_dyn_E = 0.0;
    bool rdqs_termination = false;
    double rdqs_R_eq = 0.0;
    double rdqs_dyn_E = 0.0;
};
inline void to_json(json_t &j, const MemImpedanceSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "ck_termination", v.ck_termination);
    put(j, "ck_R_eq", v.ck_R_eq);
    put(j, "ck_dyn_E", v.ck_dyn_E);
    put(j, "ca_termination", v.ca_termination);
    put(j, "ca_R_eq", v.ca_R_eq);
    put(j, "ca_dyn_E", v.ca_dyn_E);
    put(j, "rdq_termination", v.rdq_termination);
    put(j, "rdq_R_eq", v.rdq_R_eq);
    put(j, "rdq_dyn_E", v.rdq_dyn_E);
    put(j, "wdq_termination", v.wdq_termination);
    put(j, "wdq_R_eq", v.wdq_R_eq);
    put(j, "wdq_dyn_E", v.wdq_dyn_E);
    put(j, "wdqs_termination", v.wdqs_termination);
    put(j, "wdqs_R_eq", v.wdqs_R_eq);
    put(j, "wdqs_dyn_E", v.wdqs_dyn_E);
    put(j, "rdqs_termination", v.rdqs_termination);
    put(j, "rdqs_R_eq", v.rdqs_R_eq);
    put(j, "rdqs_dyn_E", v.rdqs_dyn_E);
}
inline void from_json(const json_t &j, MemImpedanceSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "ck_termination", v.ck_termination);
    get(j, "ck_R_eq", v.ck_R_eq);
    get(j, "ck_dyn_E", v.ck_dyn_E);
    get(j, "ca_termination", v.ca_termination);
    get(j, "ca_R_eq", v.ca_R_eq);
    get(j, "ca_dyn_E", v.ca_dyn_E);
    get(j, "rdq_termination", v.rdq_termination);
    get(j, "rdq_R_eq", v.rdq_R_eq);
    get(j, "rdq_dyn_E", v.rdq_dyn_E);
    get(j, "wdq_termination", v.wdq_termination);
    get(j, "wdq_R_eq", v.wdq_R_eq);
    get(j, "wdq_dyn_E", v.wdq_dyn_E);
    get(j, "wdqs_termination", v.wdqs_termination);
    get(j, "wdqs_R_eq", v.wdqs_R_eq);
    get(j, "wdqs_dyn_E", v.wdqs_dyn_E);
    get(j, "rdqs_termination", v.rdqs_termination);
    get(j, "rdqs_R_eq", v.rdqs_R_eq);
    get(j, "rdqs_dyn_E", v.rdqs_dyn_E);
}
struct DataRateSpecTypeDDR5 {
    uint64_t ca_bus_rate = 0;
    uint64_t dq_bus_rate = 0;
    uint64_t dqs_bus_rate = 0;
};
inline void to_json(json_t &j, const DataRateSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "ca_bus_rate", v.ca_bus_rate);
    put(j, "dq_bus_rate", v.dq_bus_rate);
    put(j, "dqs_bus_rate", v.dqs_bus_rate);
}
inline void from_json(const json_t &j, DataRateSpecTypeDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "ca_bus_rate", v.ca_bus_rate);
    get(j, "dq_bus_rate", v.dq_bus_rate);
    get(j, "dqs_bus_rate", v.dqs_bus_rate);
}
struct MemSpecDDR5 {
    static constexpr const char *id_value = "DDR5";
    std::string id = id_value;
    std::string memoryId;
    MemArchitectureSpecTypeDDR5 memarchitecturespec;
    MemPowerSpecTypeDDR5 mempowerspec;
    MemTimingSpecTypeDDR5 memtimingspec;
    std::optional<BankWiseSpecTypeDDR5> bankwisespec;
    MemImpedanceSpecTypeDDR5 memimpedancespec;
    std::optional<DataRateSpecTypeDDR5> dataratespec;
};
inline void to_json(json_t &j, const MemSpecDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "memoryType", v.id);
    put(j, "memoryId", v.memoryId);
    put(j, "memarchitecturespec", v.memarchitecturespec);
    put(j, "mempowerspec", v.mempowerspec);
    put(j, "memtimingspec", v.memtimingspec);
    put(j, "bankwisespec", v.bankwisespec);
    put(j, "memimpedancespec", v.memimpedancespec);
    put(j, "dataratespec", v.dataratespec);
}
inline void from_json(const json_t &j, MemSpecDDR5 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "memoryId", v.memoryId);
    get(j, "memarchitecturespec", v.memarchitecturespec);
    get(j, "mempowerspec", v.mempowerspec);
    get(j, "memtimingspec", v.memtimingspec);
    get(j, "bankwisespec", v.bankwisespec);
    get(j, "memimpedancespec", v.memimpedancespec);
    get(j, "dataratespec", v.dataratespec);
}
} // namespace
#endif
