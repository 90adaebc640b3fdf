#ifndef VERIF_STANDIN_DRAMUTILS_UTIL_JSON_UTILS_H
#define VERIF_STANDIN_DRAMUTILS_UTIL_JSON_UTILS_H
#include "json.h"
#include <iostream>
#include <fstream>
#include <filesystem>
#include <numeric>
#include <optional>
#include <string>
#include <variant>
#include <vector>
namespace DRAMUtils::util::json_detail {
template <typename T> void put(json_t &j, const char *k, const T &v) { j[k] = v; }
template <typename T> void put(json_t &j, const char *k, const std::optional<T> &v) { if (v) j[k] = *v; }
template <typename T> void get(const json_t &j, const char *k, T &v) { v = j.at(k).get<T>(); }
template <typename T> void get(const json_t &j, const char *k, std::optional<T> &v) {
    auto it = j.find(k);
    if (it == j.end() || it->is_null()) v = std::nullopt; else v = it->template get<T>();
}
} // namespace
#define VERIF_JPUT(f) ::DRAMUtils::util::json_detail::put(nlohmann_json_j, #f, nlohmann_json_t.f);
#define VERIF_JGET(f) ::DRAMUtils::util::json_detail::get(nlohmann_json_j, #f, nlohmann_json_t.f);
#define NLOHMANN_JSONIFY_ALL_THINGS(Type, ...) \
    inline void to_json(json_t &nlohmann_json_j, const Type &nlohmann_json_t) { \
        NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VERIF_JPUT, __VA_ARGS__)) } \
    inline void from_json(const json_t &nlohmann_json_j, Type &nlohmann_json_t) { \
        NLOHMANN_JSON_EXPAND(NLOHMANN_JSON_PASTE(VERIF_JGET, __VA_ARGS__)) }
#endif
