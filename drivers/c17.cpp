// C17: version-independent objects.  Three registers of addresses (aR) and three of networks (nR).
// puta R ROUTE ADDR    putn R ROUTE NET    parsea R ROUTE HEX    parsen R ROUTE HEX STRICT
// copya/copyn/swapa/swapn R Q ROUTE   scope R HEX   make R Q PLEN STRICT   super R Q DIFF NEW   sub R Q DIFF NEW
// viewa R   viewn R   cmpa R Q   cmpn R Q   has NR AQ
#include "routes.hpp"

static ip_address A[4];
static ip_network N[4];
static std::string jav(const ip_address& x) { Obj o; o("b", bytes_of_any(x))("s", txt(scope_of_any(x))); return o.done(); }
static std::string all(Ev& e) {
    std::vector<std::string> as, ns;
    for (int i = 1; i < 4; ++i) {
        as.push_back(jav(A[i])); ns.push_back(jnet(N[i]));
        e.same("versions", A[i].is_v4() != A[i].is_v6() && N[i].is_v4() != N[i].is_v6());
    }
    Obj o; o.raw("a", jarr(as)).raw("n", jarr(ns));
    return o.done();
}
template <typename A4, typename U> NOINLINE ip_address put(char route, const A4& x, U u, ip::ip_version v) {
    typename A4::base_type raw{};
    for (size_t k = 0; k < A4::base_size; ++k) raw[k] = x.data()[k];
    switch (route) {
        case 'b': return ip_address(raw);
        case 'B': return ip_address::from_bytes(raw);
        case 'f': return ip_address::from_bytes(x.data(), A4::base_size, v);
        case 'u': return ip_address::from_uint(u);
        case 't': return ip_address::parse(x.to_string(ip::format::full));
        case 'k': { ip_address y; y = x; return y; }
        default: return ip_address(x);
    }
}
static ip_address put_addr(char route, const std::string& arg) {
    if (is4arg(arg)) { const auto x = addr_arg<ipv4_address>(arg); return put(route, x, x.to_uint(), ip::ip_version::V4); }
    const auto x = addr_arg<ipv6_address>(arg);
    if (arg.find('%') != std::string::npos && (route == 'b' || route == 'B' || route == 'f' || route == 'u')) route = 'c';
    return put(route, x, x.to_uint(), ip::ip_version::V6);
}
static ip_network put_net(char route, const std::string& arg) {
    const auto x = netany_arg(arg);
    switch (route) {
        case 'a': return ip_network::from_address(x.network_address(), x.prefixlen());
        case 't': return ip_network::parse(x.to_string(ip::format::full));
        case 'k': { ip_network y; if (x.is_v4()) y = x.v4().value(); else y = x.v6().value(); return y; }
        default: return x;
    }
}
template <typename T> bool site(const T& x, std::true_type) { return x.is_site_local(); }
template <typename T> bool site(const T&, std::false_type) { return false; }
template <typename T, typename Has> Obj cats(const T& x, Has has) {
    Obj o;
    o("multicast", x.is_multicast())("private", x.is_private())("global", x.is_global())("reserved", x.is_reserved())("loopback", x.is_loopback())
     ("link_local", x.is_link_local())("unspecified", x.is_unspecified())("site_local", site(x, has));
    return o;
}
template <typename T> std::string opt(const ip::optional<T>& x, std::string (*show)(const T&)) {
    return x.has_value() && bool(x) ? jarr({ show(x.value()) }) : x.has_value() || bool(x) ? "0" : "[]";
}
static std::string a4(const ipv4_address& x) { return jav(ip_address(x)); }
static std::string a6(const ipv6_address& x) { Obj o; o("b", bytes_of(x))("s", txt(scope_of(x))); return o.done(); }
static std::string n4(const ipv4_network& x) { return jnet(x); }
static std::string n6(const ipv6_network& x) { return jnet(x); }
static Bytes four(const ip::optional<ipv4_address>& x) { return x.has_value() ? bytes_of(x.value()) : Bytes(); }
template <typename T> NOINLINE void texts(Ev& e, Obj& v, const T& x) {
    v("full", txt(x.to_string(ip::format::full)))("compact", txt(x.to_string(ip::format::compact)))("text", txt(x.to_string()));
    const std::string t = x.to_string();
    if (is_ascii(t)) e.same("strings", default_texts(x, t) && std::string(x) == t && is_text(std::wstring(x), t) && std_string(x) == t && is_text(std_wstring(x), t));
}
template <typename T, typename C, typename Has> NOINLINE void same_as_concrete(Ev& e, const T& any, const C& x, Has has) {
    e.same("concrete categories", cats(any, std::true_type()).s == cats(x, has).s);
    if (is_ascii(x.to_string())) for (const auto f : { ip::format::full, ip::format::compact, ip::format::compressed })
        e.same("concrete text", any.to_string(f) == x.to_string(f) && any.to_wstring(f) == x.to_wstring(f) && any.to_u16string(f) == x.to_u16string(f) && any.to_u32string(f) == x.to_u32string(f));
    e.same("concrete hash", any.hash() == x.hash() && std_hash(any) == x.hash());
    e.same("concrete version", any.version() == x.version() && any.size() == x.size());
    e.same("equal", any == T(x) && !(any != T(x)) && !(any < T(x)) && !(any > T(x)) && any <= T(x) && any >= T(x));
}
static const std::true_type yes{}; static const std::false_type no{};
NOINLINE static void view_addr(Ev& e, const ip_address& x) {
    Obj v;
    const bool six = x.is_v6();
    v("version", x.version() == ip::ip_version::V4 ? 4 : x.version() == ip::ip_version::V6 ? 6 : 0)("is4", x.is_v4())("is6", x.is_v6())("size", int(x.size()));
    Bytes raw; for (size_t k = 0; k < (six ? 16u : 4u); ++k) raw.push_back(x.data()[k]);
    v("b", raw)("s", txt(x.get_scope_id().get_string()));
    v.raw("v4", opt(x.v4(), a4)).raw("v6", opt(x.v6(), a6));
    v("u32", w4(x.to_uint32()))("u128", w16(x.to_uint128()));
    e.same("integer conversions", uint32_t(x) == x.to_uint32() && ip::uint128_t(x) == x.to_uint128());
    texts(e, v, x);
    v("rev", txt(x.reverse_pointer())).raw("cats", cats(x, yes).done());
    v("mapped", four(x.ipv4_mapped()))("sixtofour", four(x.sixtofour()));
    const auto t = x.teredo();
    v("server", t.has_value() ? bytes_of(t.value().first) : Bytes())("client", t.has_value() ? bytes_of(t.value().second) : Bytes());
    e.o.raw("view", v.done());
    if (!six) { const auto c = x.v4().value(); same_as_concrete(e, x, c, no); e.same("reverse", c.reverse_pointer() == x.reverse_pointer() && c.to_uint() == x.to_uint32()); }
    else { const auto c = x.v6().value(); same_as_concrete(e, x, c, yes); e.same("reverse", c.reverse_pointer() == x.reverse_pointer() && c.to_uint() == x.to_uint128());
        e.same("scope", c.get_scope_id() == x.get_scope_id()); }
    const ip_address& y = x;
    e.same("self", y == x && !(y < x));
}
template <typename C, typename S> NOINLINE void concrete_net(Ev& e, const ip_network& x, const C& c, const S& hosts) {
    e.same("concrete net", c.prefixlen() == x.prefixlen() && ip_address(c.network_address()) == x.network_address() && ip_address(c.broadcast_address()) == x.broadcast_address()
        && ip_address(c.netmask()) == x.netmask() && ip_address(c.hostmask()) == x.hostmask() && ip::uint128_t(c.addresses_count()) == x.addresses_count());
    const auto h = c.hosts();
    e.same("concrete hosts", ip::uint128_t(h.size()) == hosts.size() && ip_address(h.front()) == hosts.front() && ip_address(h.back()) == hosts.back() && h.empty() == hosts.empty());
}
NOINLINE static void view_net(Ev& e, const ip_network& x) {
    Obj v;
    v("version", x.version() == ip::ip_version::V4 ? 4 : x.version() == ip::ip_version::V6 ? 6 : 0)("is4", x.is_v4())("is6", x.is_v6())("size", int(x.size())).raw("net", jnet(x));
    v.raw("v4", opt(x.v4(), n4)).raw("v6", opt(x.v6(), n6));
    v("last", bytes_of_any(x.broadcast_address()))("mask", bytes_of_any(x.netmask()))("host", bytes_of_any(x.hostmask()))("count", w16(x.addresses_count()));
    texts(e, v, x);
    const auto h = x.hosts();
    v.raw("cats", cats(x, yes).done())("hosts", w16(h.size()))("first", bytes_of_any(h.front()))("final", bytes_of_any(h.back()));
    e.same("host ends", same_addr(*h.begin(), h.front()) && same_addr(*h.rbegin(), h.back()) && same_addr(h[ip::uint128_t(0)], h.front()) && same_addr(h.at(h.size() - 1), h.back()));
    e.o.raw("view", v.done());
    if (x.is_v4()) { same_as_concrete(e, x, x.v4().value(), no); concrete_net(e, x, x.v4().value(), h); }
    else { same_as_concrete(e, x, x.v6().value(), yes); concrete_net(e, x, x.v6().value(), h); }
}
template <typename T> NOINLINE void rel(Ev& e, const T& x, const T& y) {
    Obj o; o("lt", x < y)("gt", x > y)("eq", x == y);
    e.same("relations", (x != y) == !(x == y) && (x <= y) == !(x > y) && (x >= y) == !(x < y) && (y > x) == (x < y) && (y == x) == (x == y));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    const auto c = x <=> y;
    e.same("<=>", (c < 0) == (x < y) && (c > 0) == (x > y) && (c == 0) == (x == y));
#endif
    if (x == y) e.same("hash", x.hash() == y.hash());
    e.o.raw("rel", o.done());
}
template <typename T> struct Text { T x; error_code c; };
template <typename T, typename Ch, typename... X> NOINLINE Text<T> wide(Ev& e, const std::string& t, X... x) {
    const auto s = widen<Ch>(t);
    Text<T> r{ T(), error_code::invalid_version };
    r.x = T::parse(s, r.c, x...);
    e.same("throwing", throws_like([&] { return T::parse(s, x...); }, r.c, [&](const T& y) { return y == r.x; }));
    return r;
}
template <typename T, typename... X> NOINLINE Text<T> parse(Ev& e, char route, const std::string& t, X... x) {
    if (is_ascii(t)) switch (route) {
        case 'w': return wide<T, wchar_t>(e, t, x...);
        case 'u': return wide<T, char16_t>(e, t, x...);
        case 'U': return wide<T, char32_t>(e, t, x...);
#if __cpp_char8_t >= 201811L
        case '8': return wide<T, char8_t>(e, t, x...);
#endif
        default: break;
    }
    if (route == 'a' && t.size() < 96 && t.find('\0') == std::string::npos) {
        char s[96] = {}; std::memcpy(s, t.data(), t.size()); const char (&c)[96] = s;
        Text<T> r{ T(), error_code::invalid_version };
        r.x = T::parse(c, r.c, x...);
        e.same("throwing array", throws_like([&] { return T::parse(c, x...); }, r.c, [&](const T& y) { return y == r.x; }));
        return r;
    }
    return wide<T, char>(e, t, x...);
}
static int cap(size_t v) { return v > (1u << 30) ? (1 << 30) : int(v); }
static size_t big(const std::string& s) { return size_t(std::strtoull(s.c_str(), nullptr, 10)); }
static ip::optional<size_t> maybe(const std::string& s) { return s == "-" ? ip::optional<size_t>() : ip::optional<size_t>(big(s)); }

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (int i = 0; i < 4; ++i) { A[i] = ip_address(); N[i] = ip_network(); }
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        const int r = int(num(a[1]));
        e.i("r", r);
        if (a[0] == "viewa") view_addr(e, A[r]);
        else if (a[0] == "viewn") view_net(e, N[r]);
        else if (a[0] == "cmpa") { const int q = int(num(a[2])); e.i("q", q); rel(e, A[r], A[q]); }
        else if (a[0] == "cmpn") {
            const int q = int(num(a[2])); e.i("q", q);
            const ip_network x = N[r], y = N[q];
            rel(e, x, y);
            error_code c = error_code::unexpected_symbol;
            const auto s = x.address_exclude(y, c);
            std::vector<std::string> l, m;
            for (const auto& n : s) { l.push_back(jnet(n)); if (l.size() > 300) break; }
            e.same("throwing", throws_like([&] { return x.address_exclude(y); }, c, [&](const ip::exclude_network_sequence<ip_network>& t) {
                for (const auto& n : t) { m.push_back(jnet(n)); if (m.size() > 300) break; } return m == l; }));
            e.o("overlaps", x.overlaps(y))("subnet", x.subnet_of(y))("supernet", x.supernet_of(y))("code", int(c)).raw("rest", jarr(l));
        }
        else if (a[0] == "has") { const int q = int(num(a[2])); e.i("q", q); e.o("has", N[r].contains(A[q])); }
        else {
            error_code c = error_code::no_error;
            if (a[0] == "puta") { A[r] = put_addr(a[2][0], a[3]); e.i.raw("v", jav(is4arg(a[3]) ? ip_address(addr_arg<ipv4_address>(a[3])) : ip_address(addr_arg<ipv6_address>(a[3])))); }
            else if (a[0] == "putn") { N[r] = put_net(a[2][0], a[3]); e.i.raw("v", jnet(netany_arg(a[3]))); }
            else if (a[0] == "parsea") { const std::string t = unhex(a[3]); const auto p = parse<ip_address>(e, a[2][0], t); A[r] = p.x; c = p.c; e.i("t", txt(t)); }
            else if (a[0] == "parsen") { const std::string t = unhex(a[3]); const bool st = a[4] == "1"; const auto p = parse<ip_network>(e, a[2][0], t, st); N[r] = p.x; c = p.c; e.i("t", txt(t))("strict", st);
                if (st) { const auto y = parse<ip_network>(e, a[2][0], t); e.same("strict by default", y.c == c && same_net(y.x, p.x)); } }
            else if (a[0] == "scope") { const std::string t = unhex(a[2]); const ip_address was = A[r]; A[r].set_scope_id(t, c); e.i("t", txt(t)); scope_routes(e, was, A[r], t, c); }
            else {
                const int q = int(num(a[2])); e.i("q", q);
                if (a[0] == "copya") copy_by(A[r], A[q], a[3][0]);
                else if (a[0] == "copyn") copy_by(N[r], N[q], a[3][0]);
                else if (a[0] == "swapa") swap_by(A[r], A[q], a[3][0]);
                else if (a[0] == "swapn") swap_by(N[r], N[q], a[3][0]);
                else if (a[0] == "make") {
                    const bool st = a[4] == "1";
                    const ip_address x = A[q];
                    const int p = a[3] == "-" ? int(x.size() * 8) : int(num(a[3]));
                    N[r] = ip_network::from_address(x, c, size_t(p), st);
                    e.i("plen", p)("strict", st);
                    e.same("throwing", throws_like([&] { return ip_network::from_address(x, size_t(p), st); }, c, [&](const ip_network& y) { return same_net(y, N[r]); }));
                    if (st) {
                        error_code d = error_code::invalid_version;
                        e.same("strict by default", same_net(ip_network::from_address(x, d, size_t(p)), N[r]) && d == c);
                        e.same("strict by default", throws_like([&] { return ip_network::from_address(x, size_t(p)); }, c, [&](const ip_network& y) { return same_net(y, N[r]); }));
                    }
                } else {
                    const ip_network x = N[q];
                    const size_t diff = big(a[3]);
                    const auto nw = maybe(a[4]);
                    e.i("diff", cap(diff))("new", nw.has_value() ? cap(nw.value()) : -1);
                    if (a[0] == "super") {
                        N[r] = x.supernet(c, diff, nw);
                        e.same("throwing", throws_like([&] { return x.supernet(diff, nw); }, c, [&](const ip_network& y) { return same_net(y, N[r]); }));
                    } else {
                        const auto s = x.subnets(c, diff, nw);
                        if (c == error_code::no_error) N[r] = s.back();
                        e.same("throwing", throws_like([&] { return x.subnets(diff, nw); }, c, [&](const ip::subnets_any_sequence<ip_network>& y) { return y.size() == s.size() && y.begin() == s.begin() && y.end() == s.end(); }));
                    }
                }
            }
            e.o("code", int(c));
            e.o.raw("all", all(e));
        }
        rec.add(e);
    }
}
