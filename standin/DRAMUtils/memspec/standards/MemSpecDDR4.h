// Stand-in: the fields of the DDR4 memory specification that DRAMPower reads.
#ifndef VERIF_STANDIN_MEMSPEC_DDR4_H
#define VERIF_STANDIN_MEMSPEC_DDR4_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::MemSpec {
enum class RefModeTypeDDR4 { REF_MODE_1 = 1, REF_MODE_2 = 2, REF_MODE_4 = 4, INVALID = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(RefModeTypeDDR4, {{RefModeTypeDDR4::INVALID, nullptr}, {RefModeTypeDDR4::REF_MODE_1, 1}, {RefModeTypeDDR4::REF_MODE_2, 2}, {RefModeTypeDDR4::REF_MODE_4, 4}})
struct MemArchitectureSpecTypeDDR4 {
    uint64_t nbrOfBanks = 0;
    uint64_t nbrOfRows = 0;
    uint64_t nbrOfColumns = 0;
    uint64_t nbrOfDevices = 0;
    uint64_t burstLength = 0;
    uint64_t dataRate = 0;
    uint64_t width = 0;
    uint64_t nbrOfBankGroups = 0;
    uint64_t nbrOfRanks = 0;
    RefModeTypeDDR4 RefMode = RefModeTypeDDR4::INVALID;
};
inline void to_json(json_t &j, const MemArchitectureSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "nbrOfBanks", v.nbrOfBanks);
    put(j, "nbrOfRows", v.nbrOfRows);
    put(j, "nbrOfColumns", v.nbrOfColumns);
    put(j, "nbrOfDevices", v.nbrOfDevices);
    put(j, "burstLength", v.burstLength);
    put(j, "dataRate", v.dataRate);
    put(j, "width", v.width);
    put(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    put(j, "nbrOfRanks", v.nbrOfRanks);
    put(j, "RefMode", v.RefMode);
}
inline void from_json(const json_t &j, MemArchitectureSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "nbrOfBanks", v.nbrOfBanks);
    get(j, "nbrOfRows", v.nbrOfRows);
    get(j, "nbrOfColumns", v.nbrOfColumns);
    get(j, "nbrOfDevices", v.nbrOfDevices);
    get(j, "burstLength", v.burstLength);
    get(j, "dataRate", v.dataRate);
    get(j, "width", v.width);
    get(j, "nbrOfBankGroups", v.nbrOfBankGroups);
    get(j, "nbrOfRanks", v.nbrOfRanks);
    get(j, "RefMode", v.RefMode);
}
struct MemPowerSpecTypeDDR4 {
    double vdd = 0.0;
    double vpp = 0.0;
    double vddq = 0.0;
    double idd0 = 0.0;
    double idd2n = 0.0;
    double idd3n = 0.0;
    double idd4r = 0.0;
    double idd4w = 0.0;
    double idd6n = 0.0;
    double idd2p = 0.0;
    double idd3p = 0.0;
    double idd5B = 0.0;
    double idd5F2 = 0.0;
    double idd5F4 = 0.0;
    double ipp0 = 0.0;
    double ipp2n = 0.0;
    double ipp3n = 0.0;
    double ipp4r = 0.0;
    double ipp4w = 0.0;
    double ipp6n = 0.0;
    double ipp2p = 0.0;
    double ipp3p = 0.0;
    double ipp5B = 0.0;
    double ipp5F2 = 0.0;
    double ipp5F4 = 0.0;
    std::optional<double> iBeta_vdd;
    std::optional<double> iBeta_vpp;
};
inline void to_json(json_t &j, const MemPowerSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "vdd", v.vdd);
    put(j, "vpp", v.vpp);
    put(j, "vddq", v.vddq);
    put(j, "idd0", v.idd0);
    put(j, "idd2n", v.idd2n);
    put(j, "idd3n", v.idd3n);
    put(j, "idd4r", v.idd4r);
    put(j, "idd4w", v.idd4w);
    put(j, "idd6n", v.idd6n);
    put(j, "idd2p", v.idd2p);
    put(j, "idd3p", v.idd3p);
    put(j, "idd5B", v.idd5B);
    put(j, "idd5F2", v.idd5F2);
    put(j, "idd5F4", v.idd5F4);
    put(j, "ipp0", v.ipp0);
    put(j, "ipp2n", v.ipp2n);
    put(j, "ipp3n", v.ipp3n);
    put(j, "ipp4r", v.ipp4r);
    put(j, "ipp4w", v.ipp4w);
    put(j, "ipp6n", v.ipp6n);
    put(j, "ipp2p", v.ipp2p);
    put(j, "ipp3p", v.ipp3p);
    put(j, "ipp5B", v.ipp5B);
    put(j, "ipp5F2", v.ipp5F2);
    put(j, "ipp5F4", v.ipp5F4);
    put(j, "iBeta_vdd", v.iBeta_vdd);
    put(j, "iBeta_vpp", v.iBeta_vpp);
}
inline void from_json(const json_t &j, MemPowerSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "vdd", v.vdd);
    get(j, "vpp", v.vpp);
    get(j, "vddq", v.vddq);
    get(j, "idd0", v.idd0);
    get(j, "idd2n", v.idd2n);
    get(j, "idd3n", v.idd3n);
    get(j, "idd4r", v.idd4r);
    get(j, "idd4w", v.idd4w);
    get(j, "idd6n", v.idd6n);
    get(j, "idd2p", v.idd2p);
    get(j, "idd3p", v.idd3p);
    get(j, "idd5B", v.idd5B);
    get(j, "idd5F2", v.idd5F2);
    get(j, "idd5F4", v.idd5F4);
    get(j, "ipp0", v.ipp0);
    get(j, "ipp2n", v.ipp2n);
    get(j, "ipp3n", v.ipp3n);
    get(j, "ipp4r", v.ipp4r);
    get(j, "ipp4w", v.ipp4w);
    get(j, "ipp6n", v.ipp6n);
    get(j, "ipp2p", v.ipp2p);
    get(j, "ipp3p", v.ipp3p);
    get(j, "ipp5B", v.ipp5B);
    get(j, "ipp5F2", v.ipp5F2);
    get(j, "ipp5F4", v.ipp5F4);
    get(j, "iBeta_vdd", v.iBeta_vdd);
    get(j, "iBeta_vpp", v.iBeta_vpp);
}
struct MemTimingSpecTypeDDR4 {
    double tCK = 0.0;
    uint64_t RAS = 0;
    uint64_t RCD = 0;
    uint64_t RTP = 0;
    uint64_t WL = 0;
    uint64_t WR = 0;
    uint64_t RP = 0;
    uint64_t AL = 0;
    uint64_t RFC1 = 0;
    uint64_t RFC2 = 0;
    uint64_t RFC4 = 0;
};
inline void to_json(json_t &j, const MemTimingSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "tCK", v.tCK);
    put(j, "RAS", v.RAS);
    put(j, "RCD", v.RCD);
    put(j, "RTP", v.RTP);
    put(j, "WL", v.WL);
    put(j, "WR", v.WR);
    put(j, "RP", v.RP);
    put(j, "AL", v.AL);
    put(j, "RFC1", v.RFC1);
    put(j, "RFC2", v.RFC2);
    put(j, "RFC4", v.RFC4);
}
inline void from_json(const json_t &j, MemTimingSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "tCK", v.tCK);
    get(j, "RAS", v.RAS);
    get(j, "RCD", v.RCD);
    get(j, "RTP", v.RTP);
    get(j, "WL", v.WL);
    get(j, "WR", v.WR);
    get(j, "RP", v.RP);
    get(j, "AL", v.AL);
    get(j, "RFC1", v.RFC1);
    get(j, "RFC2", v.RFC2);
    get(j, "RFC4", v.RFC4);
}
struct BankWiseSpecTypeDDR4 {
    std::optional<double> factRho;
};
inline void to_json(json_t &j, const BankWiseSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "factRho", v.factRho);
}
inline void from_json(const json_t &j, BankWiseSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "factRho", v.factRho);
}
struct MemImpedanceSpecTypeDDR4 {
    bool ck_termination = false;
    double ck_R_eq = 0.0;
    double ck_dyn_E = 0.0;
    bool ca_termination = false;
    double ca_R_eq = 0.0;
    double ca_dyn_E = 0.0;
    bool rdq_termination = false;
    double rdq_R_eq = 0.0;
    double rdq_dyn_E = 0.0;
    bool wdq_termination = false;
    double wdq_R_eq = 0.0;
    double wdq_dyn_E = 0.0;
    bool wdqs_termination = false;
    double wdqs_R_eq = 0.0;
    double wdqs_dyn_E = 0.0;
    bool rdqs_termination = false;
    double rdqs_R_eq = 0.0;
    double rdqs_dyn_E = 0.0;
    bool wdbi_termination = false;
    double wdbi_R_eq = 0.0;
    double wdbi_dyn_E = 0.0;
    bool rdbi_termination = false;
    double rdbi_R_eq = 0.0;
    double rdbi_dyn_E = 0.0;
};
inline void to_json(json_t &j, const MemImpedanceSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "ck_termination", v.ck_termination);
    put(j, "ck_R_eq", v.ck_R_eq);
    put(j, "ck_dyn_E", v.ck_dyn_E);
    put(j, "ca_termination", v.ca_termination);
    put(j, "ca_R_eq", v.ca_R_eq);
    put(j, "ca_dyn_E", v.ca_dyn_E);
    put(j, "rdq_termination", v.rdq_termination);
    put(j, "rdq_R_eq", v.rdq_R_eq);
    put(j, "rdq_dyn_E", v.rdq_dyn_E);
    put(j, "wdq_termination", v.wdq_termination);
    put(j, "wdq_R_eq", v.wdq_R_eq);
    put(j, "wdq_dyn_E", v.wdq_dyn_E);
    put(j, "wdqs_termination", v.wdqs_termination);
    put(j, "wdqs_R_eq", v.wdqs_R_eq);
    put(j, "wdqs_dyn_E", v.wdqs_dyn_E);
    put(j, "rdqs_termination", v.rdqs_termination);
    put(j, "rdqs_R_eq", v.rdqs_R_eq);
    put(j, "rdqs_dyn_E", v.rdqs_dyn_E);
    put(j, "wdbi_termination", v.wdbi_termination);
    put(j, "wdbi_R_eq", v.wdbi_R_eq);
    put(j, "wdbi_dyn_E", v.wdbi_dyn_E);
    put(j, "rdbi_termination", v.rdbi_termination);
    put(j, "rdbi_R_eq", v.rdbi_R_eq);
    put(j, "rdbi_dyn_E", v.rdbi_dyn_E);
}
inline void from_json(const json_t &j, MemImpedanceSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "ck_termination", v.ck_termination);
    get(j, "ck_R_eq", v.ck_R_eq);
    get(j, "ck_dyn_E", v.ck_dyn_E);
    get(j, "ca_termination", v.ca_termination);
    get(j, "ca_R_eq", v.ca_R_eq);
    get(j, "ca_dyn_E", v.ca_dyn_E);
    get(j, "rdq_termination", v.rdq_termination);
    get(j, "rdq_R_eq", v.rdq_R_eq);
    get(j, "rdq_dyn_E", v.rdq_dyn_E);
    get(j, "wdq_termination", v.wdq_termination);
    get(j, "wdq_R_eq", v.wdq_R_eq);
    get(j, "wdq_dyn_E", v.wdq_dyn_E);
    get(j, "wdqs_termination", v.wdqs_termination);
    get(j, "wdqs_R_eq", v.wdqs_R_eq);
    get(j, "wdqs_dyn_E", v.wdqs_dyn_E);
    get(j, "rdqs_termination", v.rdqs_termination);
    get(j, "rdqs_R_eq", v.rdqs_R_eq);
    get(j, "rdqs_dyn_E", v.rdqs_dyn_E);
    get(j, "wdbi_termination", v.wdbi_termination);
    get(j, "wdbi_R_eq", v.wdbi_R_eq);
    get(j, "wdbi_dyn_E", v.wdbi_dyn_E);
    get(j, "rdbi_termination", v.rdbi_termination);
    get(j, "rdbi_R_eq", v.rdbi_R_eq);
    get(j, "rdbi_dyn_E", v.rdbi_dyn_E);
}
struct MemPrePostambleSpecTypeDDR4 {
    double read_zeroes = 0.0;
    double write_zeroes = 0.0;
    double read_ones = 0.0;
    double write_ones = 0.0;
    uint64_t read_zeroes_to_ones = 0;
    uint64_t write_zeroes_to_ones = 0;
    uint64_t read_ones_to_zeroes = 0;
    uint64_t write_ones_to_zeroes = 0;
    uint64_t readMinTccd = 0;
    uint64_t writeMinTccd = 0;
};
inline void to_json(json_t &j, const MemPrePostambleSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "read_zeroes", v.read_zeroes);
    put(j, "write_zeroes", v.write_zeroes);
    put(j, "read_ones", v.read_ones);
    put(j, "write_ones", v.write_ones);
    put(j, "read_zeroes_to_ones", v.read_zeroes_to_ones);
    put(j, "write_zeroes_to_ones", v.write_zeroes_to_ones);
    put(j, "read_ones_to_zeroes", v.read_ones_to_zeroes);
    put(j, "write_ones_to_zeroes", v.write_ones_to_zeroes);
    put(j, "readMinTccd", v.readMinTccd);
    put(j, "writeMinTccd", v.writeMinTccd);
}
inline void from_json(const json_t &j, MemPrePostambleSpecTypeDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "read_zeroes", v.read_zeroes);
    get(j, "write_zeroes", v.write_zeroes);
    get(j, "read_ones", v.read_ones);
    get(j, "write_ones", v.write_ones);
    get(j, "read_zeroes_to_ones", v.read_zeroes_to_ones);
    get(j, "write_zeroes_to_ones", v.write_zeroes_to_ones);
    get(j, "read_ones_to_zeroes", v.read_ones_to_zeroes);
    get(j, "write_ones_to_zeroes", v.write_ones_to_zeroes);
    get(j, "readMinTccd", v.readMinTccd);
    get(j, "writeMinTccd", v.writeMinTccd);
}
struct MemSpecDDR4 {
    static constexpr const char *id_value = "DDR4";
    std::string id = id_value;
    std::string memoryId;
    MemArchitectureSpecTypeDDR4 memarchitecturespec;
    MemPowerSpecTypeDDR4 mempowerspec;
    MemTimingSpecTypeDDR4 memtimingspec;
    std::optional<BankWiseSpecTypeDDR4> bankwisespec;
    MemImpedanceSpecTypeDDR4 memimpedancespec;
    MemPrePostambleSpecTypeDDR4 prepostamble;
};
inline void to_json(json_t &j, const MemSpecDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    j = json_t::object();
    put(j, "memoryType", v.id);
    put(j, "memoryId", v.memoryId);
    put(j, "memarchitecturespec", v.memarchitecturespec);
    put(j, "mempowerspec", v.mempowerspec);
    put(j, "memtimingspec", v.memtimingspec);
    put(j, "bankwisespec", v.bankwisespec);
    put(j, "memimpedancespec", v.memimpedancespec);
    put(j, "prepostamble", v.prepostamble);
}
inline void from_json(const json_t &j, MemSpecDDR4 &v) {
    using namespace ::DRAMUtils::util::json_detail;
    get(j, "memoryId", v.memoryId);
    get(j, "memarchitecturespec", v.memarchitecturespec);
    get(j, "mempowerspec", v.mempowerspec);
    get(j, "memtimingspec", v.memtimingspec);
    get(j, "bankwisespec", v.bankwisespec);
    get(j, "memimpedancespec", v.memimpedancespec);
    get(j, "prepostamble", v.prepostamble);
}
} // namespace
#endif
