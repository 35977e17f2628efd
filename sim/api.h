// Thin wrappers around the public API, instantiated in an instrumented translation unit (api.cpp).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "veigar/veigar.h"

struct Outcome {
    int code = -1;         // ErrorCode
    bool hasErr = false;   // errorMessage not empty
    bool success = false;  // isSuccess()
    std::string err;
    int valKind = 0;  // 0 nil/none, 1 string, 2 something else
    std::string val;
};
Outcome outcomeOf(veigar::CallResult& r);
Outcome outcomeOf(const veigar::CallResult& r);

// argument shapes
enum Shape { SH_NORMAL = 0, SH_BAD = 1, SH_ZERO = 2, SH_ONE = 3 };

Outcome apiSync(veigar::Veigar* v, const std::string& chan, uint32_t tmo, const std::string& fn, int shape, int tok, const std::string& payload);
std::shared_ptr<veigar::AsyncCallResult> apiProm(veigar::Veigar* v, const std::string& chan, uint32_t tmo, const std::string& fn, int shape, int tok,
                                                 const std::string& payload);
void apiCb(veigar::Veigar* v, std::function<void(const veigar::CallResult&)> cb, const std::string& chan, uint32_t tmo, const std::string& fn, int shape,
           int tok, const std::string& payload);

// bound functions report here; the string is the result
std::string onExec(int bindId, int tok, const std::string* payload);
bool apiBind(veigar::Veigar* v, const std::string& name, const std::string& kind, int bindId);
