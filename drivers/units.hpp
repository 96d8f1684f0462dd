// Texts as code units, in hexadecimal.
#pragma once
#include "routes.hpp"

template <typename Ch> std::basic_string<Ch> units_of(const std::string& h) {
    std::basic_string<Ch> r; const size_t w = 2 * sizeof(Ch);
    if (h == "-") return r;
    for (size_t i = 0; i + w <= h.size(); i += w) r += Ch(std::strtoul(h.substr(i, w).c_str(), nullptr, 16));
    return r;
}
template <typename Ch> std::string junits(const std::basic_string<Ch>& s) {
    std::vector<std::string> r;
    for (Ch c : s) {
        if (sizeof(Ch) == 4) r.push_back(js(Bytes{int(uint32_t(c) >> 16), int(uint32_t(c) & 0xffff)}));
        else r.push_back(js(int(uint32_t(c) & (sizeof(Ch) == 1 ? 0xffu : 0xffffu))));
    }
    return jarr(r);
}
template <typename Ch, size_t N> struct Arr {
    Ch a[N] = {};
    explicit Arr(const std::basic_string<Ch>& s) { for (size_t i = 0; i < s.size() && i + 1 < N; ++i) a[i] = s[i]; }
};
