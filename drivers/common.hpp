// Shared parts of the trace-recording drivers: command parsing, JSON events, watchdog.
// One input line is one history: commands separated by TAB, arguments by a space.
// One output line is that history's trace: a JSON array of events {op, i (inputs), o (observations)}.
#pragma once
#ifndef DRIVER_IMPORTS_MODULE
#include <ipaddress/ipaddress.hpp>
#else
#include <algorithm>
#include <array>
#include <cmath>
#include <compare>
#include <cstdint>
#include <iterator>
#include <limits>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#define IPADDRESS_NAMESPACE ipaddress
#define IPADDRESS_CPP_VERSION 20
#define IPADDRESS_HAS_SPACESHIP_OPERATOR
#define IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
#define IPADDRESS_IPV6_SCOPE_MAX_LENGTH 16
#endif
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
#include <unistd.h>

#ifdef DRIVER_IMPORTS_MODULE
import ipaddress;
#endif

namespace ip = IPADDRESS_NAMESPACE;
// the standard library's functions for the library's types, where they are provided
#ifdef IPADDRESS_NO_OVERLOAD_STD
template <typename T> size_t std_hash(const T& x) { return x.hash(); }
template <typename T> struct Hash { size_t operator()(const T& x) const { return x.hash(); } };
template <typename T> std::string std_string(const T& x) { return x.to_string(); }
template <typename T> std::wstring std_wstring(const T& x) { return x.to_wstring(); }
#else
template <typename T> size_t std_hash(const T& x) { return std::hash<T>{}(x); }
template <typename T> using Hash = std::hash<T>;
template <typename T> std::string std_string(const T& x) { return std::to_string(x); }
template <typename T> std::wstring std_wstring(const T& x) { return std::to_wstring(x); }
#endif
using ip::error_code;
using ip::ipv4_address;
using ip::ipv6_address;
using ip::ip_address;
using ip::ipv4_network;
using ip::ipv6_network;
using ip::ip_network;

#ifdef IPADDRESS_NO_EXCEPTIONS
static const bool kThrows = false;
#else
static const bool kThrows = true;
#endif

using Bytes = std::vector<int>;
using Args = std::vector<std::string>;

// ---- JSON ---------------------------------------------------------------------------------
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(bool v) { return v ? "true" : "false"; }
inline std::string js(const Bytes& b) {
    std::string r = "[";
    for (size_t i = 0; i < b.size(); ++i) { if (i) r += ','; r += std::to_string(b[i]); }
    return r + "]";
}
inline Bytes txt(const std::string& s) { Bytes b; for (unsigned char c : s) b.push_back(c); return b; }
inline std::string jarr(const std::vector<std::string>& items) {
    std::string r = "[";
    for (size_t i = 0; i < items.size(); ++i) { if (i) r += ','; r += items[i]; }
    return r + "]";
}
inline std::string jstr(const std::string& s) { return "\"" + s + "\""; }     // plain identifiers only
inline Bytes be(unsigned long long v, int n) { Bytes b(n); for (int i = n - 1; i >= 0; --i) { b[i] = int(v & 255); v >>= 8; } return b; }
inline Bytes w4(uint32_t v) { return be(v, 4); }
inline Bytes w8(uint64_t v) { return be(v, 8); }
inline Bytes w16(const ip::uint128_t& v) { Bytes a = be(v.upper(), 8), b = be(v.lower(), 8); a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes wu(uint32_t v) { return w4(v); }
inline Bytes wu(const ip::uint128_t& v) { return w16(v); }

struct Obj {
    std::string s = "{";
    Obj& raw(const char* k, const std::string& v) { if (s.size() > 1) s += ','; s += '"'; s += k; s += "\":"; s += v; return *this; }
    template <typename T> Obj& operator()(const char* k, const T& v) { return raw(k, js(v)); }
    Obj& str(const char* k, const std::string& v) { return raw(k, jstr(v)); }
    std::string done() const { return s + "}"; }
};

struct Ev {
    std::string op; Obj i, o; std::vector<std::string> alts;
    // record the name of an equivalent way of doing the operation that answered differently
    void same(const char* name, bool ok) { if (!ok) alts.push_back(jstr(name)); }
    std::string done() { o.raw("alt", jarr(alts)); Obj r; r.str("op", op); r.raw("i", i.done()); r.raw("o", o.done()); return r.done(); }
};

// ---- arguments ----------------------------------------------------------------------------
inline int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
// hex-coded bytes; "-" is the empty text
inline std::string unhex(const std::string& h) {
    std::string r; if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += char(hexv(h[i]) * 16 + hexv(h[i + 1]));
    return r;
}
inline long long num(const std::string& s) { return std::strtoll(s.c_str(), nullptr, 10); }
inline ip::uint128_t u128arg(const std::string& h) {   // 32 hex digits
    return ip::uint128_t(std::strtoull(h.substr(0, 16).c_str(), nullptr, 16), std::strtoull(h.substr(16).c_str(), nullptr, 16));
}
inline uint64_t u64arg(const std::string& h) { return std::strtoull(h.c_str(), nullptr, 16); }

template <typename Ch> std::basic_string<Ch> widen(const std::string& s) {
    std::basic_string<Ch> r; for (unsigned char c : s) r += Ch(c); return r;
}
template <typename Ch> bool is_text(const std::basic_string<Ch>& s, const std::string& t) {
    if (s.size() != t.size()) return false;
    for (size_t i = 0; i < t.size(); ++i) if (uint32_t(s[i]) != uint32_t((unsigned char)t[i])) return false;
    return true;
}

// the texts of a value when no format is named
template <typename T> bool default_texts(const T& x, const std::string& t) {
    return x.to_string() == t && is_text(x.to_wstring(), t) && is_text(x.to_u16string(), t) && is_text(x.to_u32string(), t)
#if __cpp_char8_t >= 201811L
        && is_text(x.to_u8string(), t)
#endif
        ;
}

// ---- values -------------------------------------------------------------------------------
template <typename A> Bytes bytes_of(const A& a) { Bytes b; for (size_t i = 0; i < A::base_size; ++i) b.push_back(a.data()[i]); return b; }
inline Bytes bytes_of_any(const ip_address& a) { return a.is_v4() ? bytes_of(a.v4().value()) : bytes_of(a.v6().value()); }
inline std::string scope_of(const ipv4_address&) { return std::string(); }
inline std::string scope_of(const ipv6_address& a) { return a.get_scope_id().get_string(); }
inline std::string scope_of_any(const ip_address& a) { return a.is_v4() ? std::string() : scope_of(a.v6().value()); }
inline bool same_addr(const ipv4_address& a, const ipv4_address& b) { return bytes_of(a) == bytes_of(b); }
inline bool same_addr(const ipv6_address& a, const ipv6_address& b) { return bytes_of(a) == bytes_of(b) && scope_of(a) == scope_of(b); }
inline bool same_addr(const ip_address& a, const ip_address& b) {
    return a.version() == b.version() && bytes_of_any(a) == bytes_of_any(b) && scope_of_any(a) == scope_of_any(b);
}
template <typename A> A make_addr(const std::string& raw);   // raw bytes [ '%' scope ]
template <> inline ipv4_address make_addr<ipv4_address>(const std::string& raw) {
    return ipv4_address::from_bytes(reinterpret_cast<const uint8_t*>(raw.data()), 4);
}
template <> inline ipv6_address make_addr<ipv6_address>(const std::string& raw) {
    auto a = ipv6_address::from_bytes(reinterpret_cast<const uint8_t*>(raw.data()), 16);
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
    if (raw.size() > 16) { error_code c = error_code::no_error; const std::string s = raw.substr(16); a.set_scope_id(s, c); if (c != error_code::no_error) { std::fprintf(stderr, "bad scope in input\n"); std::_Exit(3); } }
#endif
    return a;
}
template <> inline ip_address make_addr<ip_address>(const std::string& raw) {
    return raw.size() == 4 ? ip_address(make_addr<ipv4_address>(raw)) : ip_address(make_addr<ipv6_address>(raw));
}
// an argument "hexbytes" or "hexbytes%hexscope"
template <typename A> A addr_arg(const std::string& s) {
    const auto p = s.find('%');
    return make_addr<A>(p == std::string::npos ? unhex(s) : unhex(s.substr(0, p)) + unhex(s.substr(p + 1)));
}
// an argument "hexbytes[%hexscope]/plen": the address is already aligned
template <typename N, typename A> N net_arg_as(const std::string& s) {
    const auto p = s.find('/');
    error_code c = error_code::no_error;
    auto n = N::from_address(addr_arg<A>(s.substr(0, p)), c, size_t(num(s.substr(p + 1))), false);
    if (c != error_code::no_error) { std::fprintf(stderr, "bad network in input\n"); std::_Exit(3); }
    return n;
}
inline ipv4_network net4_arg(const std::string& s) { return net_arg_as<ipv4_network, ipv4_address>(s); }
inline ipv6_network net6_arg(const std::string& s) { return net_arg_as<ipv6_network, ipv6_address>(s); }
inline bool is4arg(const std::string& s) { return s.find_first_of("%/") == 8 || s.size() == 8; }
inline ip_network netany_arg(const std::string& s) { return is4arg(s) ? ip_network(net4_arg(s)) : ip_network(net6_arg(s)); }
template <typename N> N net_arg(const std::string& s);
template <> inline ipv4_network net_arg<ipv4_network>(const std::string& s) { return net4_arg(s); }
template <> inline ipv6_network net_arg<ipv6_network>(const std::string& s) { return net6_arg(s); }
template <> inline ip_network net_arg<ip_network>(const std::string& s) { return netany_arg(s); }

inline std::string jaddr_parts(const Bytes& b, const std::string& sc) { Obj o; o("b", b)("s", txt(sc)); return o.done(); }
inline std::string jaddr(const ipv4_address& a) { return jaddr_parts(bytes_of(a), ""); }
inline std::string jaddr(const ipv6_address& a) { return jaddr_parts(bytes_of(a), scope_of(a)); }
inline std::string jaddr(const ip_address& a) { return jaddr_parts(bytes_of_any(a), scope_of_any(a)); }
// a network as the specification's record, read through its own accessors
template <typename N> std::string jnet(const N& n) {
    const auto a = n.network_address();
    Obj r;
    const ip_address any(a);
    r("addr", bytes_of_any(any))("scope", txt(scope_of_any(any)))("plen", int(n.prefixlen()));
    return r.done();
}
template <typename M, typename N> bool same_net(const M& a, const N& b) { return jnet(a) == jnet(b); }

// ---- throwing forms -----------------------------------------------------------------------
// With exceptions: f must throw an error with this code exactly when code is an error, and
// otherwise return a value eq accepts.  Without: f must return a value eq accepts either way.
template <typename F, typename Eq> bool throws_like(F f, error_code code, Eq eq) {
#ifdef IPADDRESS_NO_EXCEPTIONS
    (void)code;
    return eq(f());
#else
    try { auto r = f(); return code == error_code::no_error && eq(r); }
    catch (const ip::error& e) { return code != error_code::no_error && e.code() == code; }
    catch (...) { return false; }
#endif
}

// ---- main loop ----------------------------------------------------------------------------
struct Recorder {
    std::vector<std::string> events;
    void add(Ev& e) { events.push_back(e.done()); }
};

inline void on_alarm(int) { const char m[] = "HANG: the call did not return in time\n"; (void)!write(2, m, sizeof m - 1); std::_Exit(97); }

// each driver defines this: run one history
void run_history(const std::vector<Args>& cmds, Recorder& rec);

int main(int argc, char** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]);
    std::FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 3;
    std::signal(SIGALRM, on_alarm);
    std::string line;
    while (std::getline(in, line)) {
        std::vector<Args> cmds(1); cmds[0].push_back("");
        for (char c : line) {
            if (c == '\t') { cmds.emplace_back(1, ""); }
            else if (c == ' ') cmds.back().push_back("");
            else cmds.back().back() += c;
        }
        Recorder rec;
        alarm(10);
        run_history(cmds, rec);
        std::string s = jarr(rec.events) + "\n";
        std::fwrite(s.data(), 1, s.size(), out);
        std::fflush(out);
    }
    alarm(0);
    return std::fclose(out) == 0 ? 0 : 3;
}
