#ifndef VERIF_STANDIN_DRAMUTILS_MEMSPEC_MEMSPEC_H
#define VERIF_STANDIN_DRAMUTILS_MEMSPEC_MEMSPEC_H
#include <DRAMUtils/memspec/standards/MemSpecDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR4.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR5.h>
#include <DRAMUtils/memspec/standards/MemSpecLPDDR6.h>
namespace DRAMUtils {
namespace MemSpec {
class MemSpecVariant {
public:
    using variant_t = std::variant<MemSpecDDR4, MemSpecDDR5, MemSpecLPDDR4, MemSpecLPDDR5, MemSpecLPDDR6>;
    const variant_t &getVariant() const { return v; }
    variant_t &getVariant() { return v; }
    void setVariant(variant_t n) { v = std::move(n); }
private:
    variant_t v;
};
inline void from_json(const json_t &j, MemSpecVariant &m) {
    const std::string t = j.at("memoryType").get<std::string>();
    if (t == MemSpecDDR4::id_value) m.setVariant(j.get<MemSpecDDR4>());
    else if (t == MemSpecDDR5::id_value) m.setVariant(j.get<MemSpecDDR5>());
    else if (t == MemSpecLPDDR4::id_value) m.setVariant(j.get<MemSpecLPDDR4>());
    else if (t == MemSpecLPDDR5::id_value) m.setVariant(j.get<MemSpecLPDDR5>());
    else if (t == MemSpecLPDDR6::id_value) m.setVariant(j.get<MemSpecLPDDR6>());
    else throw std::invalid_argument("unknown memoryType " + t);
}
} // namespace MemSpec
inline std::optional<MemSpec::MemSpecVariant> parse_memspec_from_file(const std::filesystem::path &p) {
    std::ifstream f(p);
    if (!f.is_open()) return std::nullopt;
    json_t j = json_t::parse(f, nullptr, false, true);
    if (j.is_discarded() || !j.contains("memspec")) return std::nullopt;
    return j.at("memspec").get<MemSpec::MemSpecVariant>();
}
} // namespace DRAMUtils
#endif
