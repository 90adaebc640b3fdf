// Stand-in for the DRAMUtils header of the same name (DRAMUtils itself is not available offline).
// Only the names that DRAMPower's sources use are provided.
#ifndef VERIF_STANDIN_DRAMUTILS_UTIL_TYPES_H
#define VERIF_STANDIN_DRAMUTILS_UTIL_TYPES_H
#include <type_traits>
#include <cstddef>
#include <cstdint>
namespace DRAMUtils::util {
template <typename... Ts> struct type_sequence { static constexpr std::size_t size = sizeof...(Ts); };
template <typename T> struct always_false : std::false_type {};
template <typename... Ts> struct unique_types;
template <> struct unique_types<> : std::true_type {};
template <typename T, typename... Ts>
struct unique_types<T, Ts...>
    : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
template <typename T, typename Seq> struct is_one_of;
template <typename T, typename... Ts>
struct is_one_of<T, type_sequence<Ts...>> : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
} // namespace DRAMUtils::util
#endif
