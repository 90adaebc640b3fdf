#ifndef VERIF_STANDIN_DRAMUTILS_CONFIG_TOGGLING_RATE_H
#define VERIF_STANDIN_DRAMUTILS_CONFIG_TOGGLING_RATE_H
#include <DRAMUtils/util/json_utils.h>
namespace DRAMUtils::Config {
enum class TogglingRateIdlePattern { L, H, Invalid = -1 };
NLOHMANN_JSON_SERIALIZE_ENUM(TogglingRateIdlePattern, {
    {TogglingRateIdlePattern::Invalid, nullptr},
    {TogglingRateIdlePattern::L, "L"},
    {TogglingRateIdlePattern::H, "H"},
})
struct ToggleRateDefinition {
    double togglingRateRead;
    double togglingRateWrite;
    double dutyCycleRead;
    double dutyCycleWrite;
    TogglingRateIdlePattern idlePatternRead;
    TogglingRateIdlePattern idlePatternWrite;
};
NLOHMANN_JSONIFY_ALL_THINGS(ToggleRateDefinition, togglingRateRead, togglingRateWrite, dutyCycleRead,
    dutyCycleWrite, idlePatternRead, idlePatternWrite)
} // namespace
#endif
