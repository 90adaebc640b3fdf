#ifndef VERIF_STANDIN_DRAMUTILS_UTIL_JSON_H
#define VERIF_STANDIN_DRAMUTILS_UTIL_JSON_H
#include <nlohmann/json.hpp>
using json_t = nlohmann::json;
#endif
