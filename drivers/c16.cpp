// C16: texts as code units.  Commands: text K HEX   array K HEX   scope_array K HEX
// K: 8 char8_t (or char when it is UTF-8), c char, u char16_t, U char32_t, w wchar_t; HEX has 2, 2, 4, 8, 8 digits per unit
#include "units.hpp"

template <typename T> std::string shown(const T& x, error_code c) { Obj o; const ip_address a(x); o("code", int(c))("b", bytes_of_any(a))("s", txt(scope_of_any(a))); return o.done(); }
template <typename N> std::string shown_net(const N& n, error_code c) { Obj o; o("code", int(c)).raw("net", jnet(n)); return o.done(); }

template <typename T, typename Str> NOINLINE std::string one(Ev& e, const char* name, const Str& s) {
    error_code c = error_code::invalid_version;
    const T x = T::parse(s, c);
    e.same(name, throws_like([&] { return T::parse(s); }, c, [&](const T& y) { return same_addr(x, y); }));
    return shown(x, c);
}
template <typename N, typename Str> NOINLINE std::string one_net(Ev& e, const char* name, const Str& s, bool strict) {
    error_code c = error_code::invalid_version;
    const N x = N::parse(s, c, strict);
    e.same(name, throws_like([&] { return N::parse(s, strict); }, c, [&](const N& y) { return same_net(x, y); }));
    return shown_net(x, c);
}
// the character an unexpected symbol's message names, in halves
template <typename F> NOINLINE std::string named(error_code c, F parse) {
    unsigned long v = 0;
#ifndef IPADDRESS_NO_EXCEPTIONS
    if (c == error_code::unexpected_symbol) {
        v = 0xffffffff;
        try { parse(); } catch (const std::exception& x) {
            const std::string w = x.what();
            const auto at = w.find("{U+");
            if (at != w.npos) v = std::stoul(w.substr(at + 3), nullptr, 16);
        }
    }
#else
    (void)c; (void)parse;
#endif
    return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]";
}
template <typename T, typename Str> std::string symbol_of(const Str& s) {
    error_code c; (void)T::parse(s, c);
    return named(c, [&] { (void)T::parse(s); });
}
template <typename Str> std::string symbols(const Str& s) {
    Obj r;
    r.raw("v4", symbol_of<ipv4_address>(s)).raw("v6", symbol_of<ipv6_address>(s)).raw("any", symbol_of<ip_address>(s))
     .raw("n4", symbol_of<ipv4_network>(s)).raw("n6", symbol_of<ipv6_network>(s)).raw("nany", symbol_of<ip_network>(s));
    return r.done();
}
template <typename Str> std::string parses(Ev& e, const Str& s) {
    Obj r;
    r.raw("v4", one<ipv4_address>(e, "v4", s)).raw("v6", one<ipv6_address>(e, "v6", s)).raw("any", one<ip_address>(e, "any", s))
     .raw("n4", one_net<ipv4_network>(e, "n4", s, false)).raw("n6", one_net<ipv6_network>(e, "n6", s, true)).raw("nany", one_net<ip_network>(e, "nany", s, false));
    return r.done();
}
static ipv6_address start() { ipv6_address a = ipv6_address::parse("::1"); error_code c; a.set_scope_id(std::string("z"), c); return a; }
static std::string scope_result(const ipv6_address& a, error_code c) { Obj o; o("code", int(c))("s", txt(scope_of(a))); return o.done(); }
template <typename X, typename S> NOINLINE error_code set_throwing(X& x, const S& t, error_code expected) {
#ifdef IPADDRESS_NO_EXCEPTIONS
    x.set_scope_id(t); return expected;
#else
    (void)expected;
    try { x.set_scope_id(t); return error_code::no_error; } catch (const ip::error& e) { return e.code(); }
#endif
}
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
// literals: an array's parse, as long as the text is short enough for one
template <typename Ch, typename T, typename Show> NOINLINE void literal(Ev& e, const char* name, T (*f)(const Ch*, size_t), const std::basic_string<Ch>& s, size_t max, const std::string& expected, error_code code, Show show) {
    if (s.size() > max || s.find(Ch(0)) != s.npos) return;
    e.same(name, throws_like([&] { return f(s.data(), s.size()); }, code, [&](const T& x) { return show(x, code) == expected; }));
}
#endif
template <typename Ch> void literals(Ev& e, const std::basic_string<Ch>& s) {
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
    const Arr<Ch, 120> arr(s);
    const Ch (&a)[120] = arr.a;
    error_code c;
    { const auto x = ipv4_address::parse(a, c); literal<Ch>(e, "literal v4", &Lit<Ch>::v4, s, 15, shown(x, c), c, shown<ipv4_address>); }
    { const auto x = ipv6_address::parse(a, c); literal<Ch>(e, "literal v6", &Lit<Ch>::v6, s, 41, shown(x, c), c, shown<ipv6_address>); }
    { const auto x = ip_address::parse(a, c); literal<Ch>(e, "literal any", &Lit<Ch>::any, s, 41, shown(x, c), c, shown<ip_address>); }
    { const auto x = ipv4_network::parse(a, c); literal<Ch>(e, "literal n4", &Lit<Ch>::n4, s, 31, shown_net(x, c), c, shown_net<ipv4_network>); }
    { const auto x = ipv6_network::parse(a, c); literal<Ch>(e, "literal n6", &Lit<Ch>::n6, s, 45, shown_net(x, c), c, shown_net<ipv6_network>); }
    { const auto x = ip_network::parse(a, c); literal<Ch>(e, "literal nany", &Lit<Ch>::nany, s, 82, shown_net(x, c), c, shown_net<ip_network>); }
#else
    (void)e; (void)s;
#endif
}
template <typename Ch> void run(Ev& e, const std::string& hex) {
    const auto s = units_of<Ch>(hex);
    e.i.raw("u", junits(s));
    if (e.op == "text") {
        e.o.raw("r", parses(e, s)).raw("sym", symbols(s));
#if IPADDRESS_CPP_VERSION >= 17
        // a view with more of a character behind it
        auto big = s; big += Ch(0x80 + 0x3f); big += Ch('1');
        Ev f; f.op = e.op;
        Obj again; again.raw("r", parses(f, std::basic_string_view<Ch>(big).substr(0, s.size())));
        Obj first; first.raw("r", parses(f, s));
        e.same("view", again.done() == first.done() && f.alts.empty());
#endif
        ipv6_address x = start(), y = x; ip_address m = x, n = x;
        error_code c = error_code::invalid_version, d = c;
        x.set_scope_id(s, c); m.set_scope_id(s, d);
        e.same("any scope", c == d && same_addr(m, ip_address(x)));
        e.same("throwing scope", set_throwing(y, s, c) == c && same_addr(x, y) && set_throwing(n, s, c) == c && same_addr(m, n));
        e.o.raw("scope", scope_result(x, c));
    } else if (e.op == "array") {
        if (s.size() < 72) { const Arr<Ch, 72> a(s); const Ch (&r)[72] = a.a; e.o.raw("r", parses(e, r)).raw("sym", symbols(r)); if (s.size() < 24) { const Arr<Ch, 24> b(s); const Ch (&q)[24] = b.a; Ev f; const auto p1 = parses(f, r), p2 = parses(f, q); e.same("short array", p1 == p2); } }
        else { const Arr<Ch, 300> a(s); const Ch (&r)[300] = a.a; e.o.raw("r", parses(e, r)).raw("sym", symbols(r)); }
        literals(e, s);
    } else {
        const Arr<Ch, IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1> a(s);
        const Ch (&r)[IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1] = a.a;
        ipv6_address x = start(), y = x; ip_address m = x;
        error_code c = error_code::invalid_version;
        x.set_scope_id(r, c);
        e.same("throwing", set_throwing(y, r, c) == c && same_addr(x, y));
        e.same("any", set_throwing(m, r, c) == c && same_addr(m, ip_address(x)));
        e.o.raw("scope", scope_result(x, c));
    }
}

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        e.i.str("k", a[1]);
#ifdef IPADDRESS_NO_EXCEPTIONS
        e.i("x", false);
#else
        e.i("x", true);
#endif
        switch (a[1][0]) {
            case 'c': run<char>(e, a[2]); break;
            case 'u': run<char16_t>(e, a[2]); break;
            case 'U': run<char32_t>(e, a[2]); break;
            case 'w': run<wchar_t>(e, a[2]); break;
#if __cpp_char8_t >= 201811L
            case '8': run<char8_t>(e, a[2]); break;
#endif
            default: continue;
        }
        rec.add(e);
    }
}
