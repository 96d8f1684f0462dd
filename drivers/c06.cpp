// C06: building a network and reading everything it says about its block of addresses.
// Commands: f ADDR PLEN STRICT   from an address and a prefix length;   d ADDR   with the default prefix length
// Histories of three registers of networks of one version, beginning with "regs 4|6":
//   put R ADDR PLEN STRICT   parse R HEX STRICT   copy R Q ROUTE   swap R Q ROUTE   reverse   rotate   sort
//   super R Q DIFF NEW   sub R Q NEW f|l|m   rest R Q O K       (NEW is -1 when absent)
#include "routes.hpp"
#include <algorithm>
#include <memory>

static int cap(size_t v) { return v > (1u << 30) ? (1 << 30) : int(v); }
template <typename N> N as(const ip_network& n);
template <> ipv4_network as<ipv4_network>(const ip_network& n) { return n.v4().value(); }
template <> ipv6_network as<ipv6_network>(const ip_network& n) { return n.v6().value(); }
static Bytes count_of(const ipv4_network& n) { return w4(n.addresses_count()); }
static Bytes count_of(const ipv6_network& n) { return w16(n.addresses_count()); }

template <typename N> void shown(Ev& e, const N& n) {
    const ip_network m(n);
    e.o.raw("net", jnet(n));
    e.o("mask", bytes_of(n.netmask()))("host", bytes_of(n.hostmask()))("last", bytes_of(n.broadcast_address()))("count", count_of(n))("text", txt(n.to_string()));
    e.o("bits", int(n.size()));
    e.same("any network", same_net(m, n) && same_addr(m.network_address(), ip_address(n.network_address())));
    e.same("any netmask", same_addr(m.netmask(), ip_address(n.netmask())));
    e.same("any hostmask", same_addr(m.hostmask(), ip_address(n.hostmask())));
    e.same("any broadcast", same_addr(m.broadcast_address(), ip_address(n.broadcast_address())));
    e.same("any count", m.addresses_count() == ip::uint128_t(n.addresses_count()));
    e.same("any text", m.to_string() == n.to_string() && m.prefixlen() == n.prefixlen() && m.size() == n.size() && m.version() == n.version());
    e.same("std::string", std::string(n) == n.to_string() && std_string(n) == n.to_string() && std_string(m) == n.to_string());
    e.same("default texts", default_texts(n, n.to_string(ip::format::compressed)) && default_texts(m, m.to_string(ip::format::compressed)));
    e.same("scope of masks", scope_of(n.netmask()).empty() && scope_of(n.hostmask()).empty() && scope_of(n.broadcast_address()).empty());
    error_code c = error_code::invalid_version;
    const N back = N::parse(n.to_string(), c);
    e.same("text parses back", c == error_code::no_error && same_net(back, n) && back == n);
    const N copy(n); N assigned; assigned = n;
    e.same("copies", same_net(copy, n) && same_net(assigned, n) && copy.netmask() == n.netmask() && assigned.broadcast_address() == n.broadcast_address());
}

template <typename N, typename A> void from(const Args& a, Recorder& rec) {
    Ev e; e.op = "from";
    const A addr = addr_arg<A>(a[1]);
    const bool with_plen = a[0] == "f";
    const size_t plen = with_plen ? size_t(std::strtoull(a[2].c_str(), nullptr, 10)) : 0;
    const bool strict = !with_plen || a[3] == "1";
    e.i("a", bytes_of(addr))("s", txt(scope_of(addr)))("plen", with_plen ? cap(plen) : -1)("strict", strict);
    error_code c = error_code::invalid_version, d = c, g = c;
    const N n = with_plen ? N::from_address(addr, c, plen, strict) : N::from_address(addr, c);
    const ip_network m = ip_network::from_address(ip_address(addr), d, with_plen ? plen : size_t(N::ip_address_type::base_max_prefixlen), strict);
    const auto eq = [&](const N& x) { return same_net(x, n) && x.netmask() == n.netmask() && x == n; };
    const auto eqm = [&](const ip_network& x) { return x.version() == m.version() && same_net(x, n); };
    e.same("any", c == d && eqm(m) && m.version() == n.version());
    if (with_plen) {
        e.same("throwing", throws_like([&] { return N::from_address(addr, plen, strict); }, c, eq));
        e.same("any throwing", throws_like([&] { return ip_network::from_address(ip_address(addr), plen, strict); }, c, eqm));
        if (strict) {
            e.same("strict by default", eq(N::from_address(addr, g, plen)) && g == c && throws_like([&] { return N::from_address(addr, plen); }, c, eq)
                && throws_like([&] { return ip_network::from_address(ip_address(addr), plen); }, c, eqm));
        }
    } else {
        e.same("throwing", throws_like([&] { return N::from_address(addr); }, c, eq));
    }
    e.o("code", int(c));
    shown(e, n);
    rec.add(e);
}


template <typename N> std::string says(Ev& e, const N& n) {
    Ev one; shown(one, n);
    e.alts.insert(e.alts.end(), one.alts.begin(), one.alts.end());
    Obj o;
    o.raw("net", jnet(n));
    o("mask", bytes_of(n.netmask()))("host", bytes_of(n.hostmask()))("last", bytes_of(n.broadcast_address()))("count", count_of(n))("text", txt(n.to_string()));
    return o.done();
}
// put the elements of a copy back in place by assignment, as any algorithm of the standard library would
template <typename N> void through_any(N& r, N& q) {
    ip_network x(r), y(q);
    x.swap(y);
    r = as<N>(x); q = as<N>(y);
}
template <typename N, typename A> void registers(const std::vector<Args>& cmds, Recorder& rec) {
    N s[3];
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        error_code c = error_code::no_error;
        const std::string& op = a[0];
        if (op == "regs") e.i("w", int(A::base_size));
        else if (op == "reverse") std::reverse(s, s + 3);
        else if (op == "rotate") std::rotate(s, s + 1, s + 3);
        else if (op == "sort") std::sort(s, s + 3);
        else {
            const int r = int(num(a[1])); e.i("r", r);
            N& x = s[r - 1];
            if (op == "put") {
                const A addr = addr_arg<A>(a[2]);
                const size_t plen = size_t(num(a[3])); const bool strict = a[4] == "1";
                e.i("a", bytes_of(addr))("s", txt(scope_of(addr)))("plen", int(plen))("strict", strict);
                c = error_code::invalid_version;
                x = N::from_address(addr, c, plen, strict);
            } else if (op == "parse") {
                const std::string t = unhex(a[2]); const bool strict = a[3] == "1";
                e.i("t", txt(t))("strict", strict);
                c = error_code::invalid_version;
                x = N::parse(t, c, strict);
            } else {
                const int q = int(num(a[2])); e.i("q", q);
                N& y = s[q - 1];
                if (op == "copy") { if (a[3][0] == 'a') { const ip_network t(y); x = as<N>(t); } else copy_by(x, y, a[3][0]); }
                else if (op == "swap") { if (a[3][0] == 'a') through_any(x, y); else swap_by(x, y, a[3][0]); }
                else if (op == "super") {
                    const size_t diff = size_t(num(a[3])); const long long nw = num(a[4]);
                    e.i("diff", int(diff))("new", int(nw));
                    c = error_code::invalid_version;
                    const N t = y.supernet(c, diff, nw < 0 ? ip::optional<size_t>() : ip::optional<size_t>(size_t(nw)));
                    x = t;
                } else if (op == "sub") {
                    const size_t nw = size_t(num(a[3])); const char which = a[4][0];
                    e.i("new", int(nw)); e.i.str("which", a[4]);
                    c = error_code::invalid_version;
                    const bool more = nw > y.prefixlen() && nw <= N::base_max_prefixlen;
                    const auto all = y.subnets(c, 1, ip::optional<size_t>(nw));
                    if (c == error_code::no_error) {
                        if (which == 'l') x = all.back();
                        else if (which == 'm' && more) x = *++all.begin();
                        else x = *all.begin();
                    }
                } else if (op == "rest") {
                    const int o = int(num(a[3])), k = int(num(a[4])); e.i("o", o)("k", k);
                    c = error_code::invalid_version;
                    const auto all = y.address_exclude(s[o - 1], c);
                    std::vector<N> v;
                    for (const auto& n : all) { v.push_back(n); if (v.size() > 200) break; }
                    if (!v.empty()) x = v[size_t(k) % v.size()];
                } else { std::fprintf(stderr, "bad command\n"); std::_Exit(3); }
            }
        }
        e.o("code", int(c));
        std::vector<std::string> all;
        for (const auto& n : s) all.push_back(says(e, n));
        e.o.raw("all", jarr(all));
        rec.add(e);
    }
}

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    if (cmds[0][0] == "regs") {
        if (cmds[0][1] == "4") registers<ipv4_network, ipv4_address>(cmds, rec); else registers<ipv6_network, ipv6_address>(cmds, rec);
        return;
    }
    for (const auto& a : cmds) {
        if (is4arg(a[1])) from<ipv4_network, ipv4_address>(a, rec); else from<ipv6_network, ipv6_address>(a, rec);
    }
}
