// C05: network text.  Command: p HEXTEXT, parsed as an IPv4 and as an IPv6 network, strictly and not.
#include "routes.hpp"

template <typename N> struct lit_max;
template <> struct lit_max<ipv4_network> { static const size_t value = ipv4_address::base_max_string_len * 2 + 1; };
template <> struct lit_max<ipv6_network> { static const size_t value = ipv6_address::base_max_string_len + 4; };

template <typename N> N parse(const std::string& s, error_code& code, bool strict, Ev& e) {
    code = error_code::invalid_version;
    const N r = N::parse(s, code, strict);
    const auto eq = [&](const N& x) { return same_net(x, r) && x == r; };
    all_routes<N>(e, s, code, eq, strict);
    if (strict) {
        Ev by_default;      // strictness left out, in every form
        all_routes<N>(by_default, s, code, eq);
        error_code c = error_code::invalid_version;
        e.same("strict by default", by_default.alts.empty() && eq(N::parse(s, c)) && c == code);
    }
    return r;
}
static void literals(Ev& e, const std::string& s, error_code code, const ipv4_network& r) {
    LITERAL_ROUTES(e, n4, s, lit_max<ipv4_network>::value, code, [&](const ipv4_network& x) { return same_net(x, r); }, ipv4_network());
}
static void literals(Ev& e, const std::string& s, error_code code, const ipv6_network& r) {
    LITERAL_ROUTES(e, n6, s, lit_max<ipv6_network>::value, code, [&](const ipv6_network& x) { return same_net(x, r); }, ipv6_network());
}
template <typename N> void both(const std::string& s, Recorder& rec) {
    Ev e; e.op = "net";
    e.i("w", int(N::base_size))("t", txt(s));
    error_code c = error_code::no_error, d = c;
    const N a = parse<N>(s, c, true, e), b = parse<N>(s, d, false, e);
    literals(e, s, c, a);
    e.o("scode", int(c)).raw("snet", jnet(a))("code", int(d)).raw("net", jnet(b))("smask", bytes_of(a.netmask()))("mask", bytes_of(b.netmask()));
    rec.add(e);
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        const std::string s = unhex(a[1]);
        both<ipv4_network>(s, rec);
        both<ipv6_network>(s, rec);
    }
}
