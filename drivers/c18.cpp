// C18: failures in both forms.  Commands: text K HEX   array K HEX   scope K HEX   long KIND K HEX
// from ADDR PLEN STRICT   super NET DIFF NEW   subs NET DIFF NEW   excl NET NET     (K, HEX as in c16; NEW "-" when absent)
#include "units.hpp"

static int cap(size_t v) { return v > (1u << 30) ? (1 << 30) : int(v); }
static size_t big(const std::string& s) { return size_t(std::strtoull(s.c_str(), nullptr, 10)); }
static std::string jthrown(int cat, error_code c, const char* what) { Obj o; o("cat", cat)("code", int(c))("what", txt(what)); return o.done(); }

// the throwing form: what it throws, and whether it returns what the other form does
template <typename F> NOINLINE std::string thrown(Ev& e, const char* name, F f, const std::string& other) {
    const std::string none = jthrown(0, error_code::no_error, "");
#ifdef IPADDRESS_NO_EXCEPTIONS
    e.same(name, f() == other);
    return none;
#else
    try { e.same(name, f() == other); return none; }
    catch (const ip::parse_error& x) { return jthrown(1, x.code(), x.what()); }
    catch (const ip::logic_error& x) { return jthrown(2, x.code(), x.what()); }
    catch (const ip::error& x) { return jthrown(3, x.code(), x.what()); }
    catch (const std::exception& x) { return jthrown(4, error_code::no_error, x.what()); }
#endif
}
static const error_code kStale[] = { error_code::no_error, error_code::not_contained_network, error_code::empty_address, error_code(200) };
// the code-returning form, whatever the code was before
template <typename F> NOINLINE std::string coded(Ev& e, const char* name, F f) {
    std::string r; bool first = true;
    for (error_code c : kStale) { const std::string s = f(c); if (first) r = s; else e.same(name, r == s); first = false; }
    return r;
}
template <typename T> std::string shown(const T& x) { const ip_address a(x); Obj o; o("b", bytes_of_any(a))("s", txt(scope_of_any(a))); return o.done(); }
template <typename T> std::string shown(const T& x, error_code c) { const ip_address a(x); Obj o; o("code", int(c))("b", bytes_of_any(a))("s", txt(scope_of_any(a))); return o.done(); }
template <typename N> std::string shown_net(const N& n, error_code c) { Obj o; o("code", int(c)).raw("net", jnet(n)); return o.done(); }
static std::string both(const std::string& r, const std::string& t) { Obj o; o.raw("r", r).raw("thrown", t); return o.done(); }

template <typename T, typename Str> NOINLINE std::string one(Ev& e, const char* name, const Str& s) {
    const auto r = coded(e, name, [&](error_code c) { const T x = T::parse(s, c); return shown(x, c); });
    error_code c; const T x = T::parse(s, c);
    return both(r, thrown(e, name, [&] { return shown(T::parse(s)); }, shown(x)));
}
template <typename N, typename Str> NOINLINE std::string one_net(Ev& e, const char* name, const Str& s, bool strict) {
    const auto r = coded(e, name, [&](error_code c) { const N x = N::parse(s, c, strict); return shown_net(x, c); });
    error_code c, d; const N x = N::parse(s, c, strict);
    if (strict) { e.same("default strictness", same_net(N::parse(s, d), x) && c == d); }
    return both(r, thrown(e, name, [&] { return jnet(N::parse(s, strict)); }, jnet(x)));
}
template <typename Str> void parses(Ev& e, Obj& r, const Str& s) {
    r.raw("v4", one<ipv4_address>(e, "v4", s)).raw("v6", one<ipv6_address>(e, "v6", s)).raw("any", one<ip_address>(e, "any", s))
     .raw("n4", one_net<ipv4_network>(e, "n4", s, true)).raw("n6", one_net<ipv6_network>(e, "n6", s, true)).raw("nany", one_net<ip_network>(e, "nany", s, true));
}
static ipv6_address start() { ipv6_address a = ipv6_address::parse("::1"); error_code c; a.set_scope_id(std::string("z"), c); return a; }
static std::string scope_result(const ipv6_address& a, error_code c) { Obj o; o("code", int(c))("s", txt(scope_of(a))); return o.done(); }
template <typename Ch> void scope(Ev& e, const std::basic_string<Ch>& s) {
    const auto r = coded(e, "scope", [&](error_code c) { auto a = start(); a.set_scope_id(s, c); return scope_result(a, c); });
    e.same("any scope", r == coded(e, "any", [&](error_code c) { ip_address a = start(); a.set_scope_id(s, c); return scope_result(a.v6().value(), c); }));
    error_code c; auto a = start(); a.set_scope_id(s, c);
    const auto t = thrown(e, "scope", [&] { auto b = start(); b.set_scope_id(s); return shown(b); }, shown(a));
    e.same("any throwing", t == thrown(e, "any scope", [&] { ip_address b = start(); b.set_scope_id(s); return shown(b); }, shown(a)));
    auto b = start(); bool kept = true;
#ifndef IPADDRESS_NO_EXCEPTIONS
    try { b.set_scope_id(s); } catch (const ip::error&) { kept = same_addr(b, start()); }
#endif
    e.same("kept after throwing", kept);
    e.o.raw("r", r).raw("thrown", t);
}
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <typename T> std::string value_of(const T& x, std::false_type) { return shown(x); }
template <typename T> std::string value_of(const T& x, std::true_type) { return jnet(x); }
template <typename Ch, typename T, typename Net> NOINLINE void literal(Ev& e, T (*f)(const Ch*, size_t), const std::basic_string<Ch>& s, Net net) {
    e.o.raw("thrown", thrown(e, "literal", [&] { return value_of(f(s.data(), s.size()), net); }, value_of(T(), net)))("default", true);
}
template <typename Ch> void too_long(Ev& e, const std::string& kind, const std::basic_string<Ch>& s) {
    if (kind == "v4") literal(e, &Lit<Ch>::v4, s, std::false_type());
    else if (kind == "v6") literal(e, &Lit<Ch>::v6, s, std::false_type());
    else if (kind == "any") literal(e, &Lit<Ch>::any, s, std::false_type());
    else if (kind == "n4") literal(e, &Lit<Ch>::n4, s, std::true_type());
    else if (kind == "n6") literal(e, &Lit<Ch>::n6, s, std::true_type());
    else literal(e, &Lit<Ch>::nany, s, std::true_type());
}
#else
template <typename Ch> void too_long(Ev&, const std::string&, const std::basic_string<Ch>&) {}
#endif
template <typename Ch> void run(Ev& e, const std::string& hex) {
    const auto s = units_of<Ch>(hex);
    e.i.raw("u", junits(s));
    if (e.op == "text") {
        parses(e, e.o, s);
#if IPADDRESS_CPP_VERSION >= 17
        Ev f; Obj o, p; parses(f, p, s);
        auto bigger = s; bigger += Ch('1');
        parses(f, o, std::basic_string_view<Ch>(bigger).substr(0, s.size()));
        e.same("view", o.done() == p.done());
#endif
    } else if (e.op == "array") {
        if (s.size() < 72) { const Arr<Ch, 72> a(s); const Ch (&r)[72] = a.a; parses(e, e.o, r); }
        else { const Arr<Ch, 300> a(s); const Ch (&r)[300] = a.a; parses(e, e.o, r); }
    } else scope(e, s);
}
template <typename A, typename N> void from(Ev& e, const A& a, size_t plen, bool strict) {
    const auto r = coded(e, "from", [&](error_code c) { const auto n = N::from_address(a, c, plen, strict); return shown_net(n, c); });
    const ip_address m(a);
    e.same("any", r == coded(e, "any from", [&](error_code c) { const auto n = ip_network::from_address(m, c, plen, strict); return shown_net(n, c); }));
    error_code c; const auto n = N::from_address(a, c, plen, strict);
    const auto t = thrown(e, "from", [&] { return jnet(N::from_address(a, plen, strict)); }, jnet(n));
    e.same("any throwing", t == thrown(e, "any from", [&] { return jnet(ip_network::from_address(m, plen, strict)); }, jnet(n)));
    if (strict) e.same("default strictness", t == thrown(e, "from default", [&] { return jnet(N::from_address(a, plen)); }, jnet(n)));
    e.o.raw("r", r).raw("thrown", t);
}
template <typename N> void super(Ev& e, const N& n, size_t diff, const ip::optional<size_t>& nw) {
    const auto r = coded(e, "super", [&](error_code c) { const auto m = n.supernet(c, diff, nw); return shown_net(m, c); });
    const ip_network g(n);
    e.same("any", r == coded(e, "any super", [&](error_code c) { const auto m = g.supernet(c, diff, nw); return shown_net(m, c); }));
    error_code c; const auto m = n.supernet(c, diff, nw);
    const auto t = thrown(e, "super", [&] { return jnet(n.supernet(diff, nw)); }, jnet(m));
    e.same("any throwing", t == thrown(e, "any super", [&] { return jnet(g.supernet(diff, nw)); }, jnet(m)));
    e.o.raw("r", r).raw("thrown", t);
}
template <typename N> std::string ends(const N& s) { return s.empty() ? std::string("empty") : jnet(s.front()) + jnet(s.back()); }
template <typename N> void subs(Ev& e, const N& n, size_t diff, const ip::optional<size_t>& nw) {
    const auto r = coded(e, "subs", [&](error_code c) { const auto s = n.subnets(c, diff, nw); return std::to_string(int(c)) + ends(s); });
    const ip_network g(n);
    e.same("any", r == coded(e, "any subs", [&](error_code c) { const auto s = g.subnets(c, diff, nw); return std::to_string(int(c)) + ends(s); }));
    error_code c = error_code::invalid_scope_id; const auto s = n.subnets(c, diff, nw);
    const auto t = thrown(e, "subs", [&] { return ends(n.subnets(diff, nw)); }, ends(s));
    e.same("any throwing", t == thrown(e, "any subs", [&] { return ends(g.subnets(diff, nw)); }, ends(s)));
    e.o("code", int(c))("empty", s.empty()).raw("thrown", t);
}
template <typename S> std::string walk(const S& s) { std::string r; int k = 0; for (const auto& n : s) { if (++k > 200) break; r += jnet(n); } return r; }
template <typename N> std::string excl(Ev& e, const N& n, const N& o, int& code, bool& empty) {
    coded(e, "exclude", [&](error_code c) { const auto s = n.address_exclude(o, c); return std::to_string(int(c)) + walk(s); });
    error_code c = error_code::invalid_scope_id; const auto s = n.address_exclude(o, c);
    code = int(c); empty = walk(s).empty();
    return thrown(e, "exclude", [&] { return walk(n.address_exclude(o)); }, walk(s));
}

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        if (a[0] == "from") {
            const ip_address x = is4arg(a[1]) ? ip_address(addr_arg<ipv4_address>(a[1])) : ip_address(addr_arg<ipv6_address>(a[1]));
            const size_t p = big(a[2]); const bool strict = a[3] == "1";
            e.i("b", bytes_of_any(x))("s", txt(scope_of_any(x)))("plen", cap(p))("strict", strict);
            if (x.is_v4()) from<ipv4_address, ipv4_network>(e, x.v4().value(), p, strict); else from<ipv6_address, ipv6_network>(e, x.v6().value(), p, strict);
        } else if (a[0] == "super" || a[0] == "subs") {
            const ip_network n = netany_arg(a[1]);
            const size_t diff = big(a[2]);
            ip::optional<size_t> nw;
            if (a[3] != "-") nw = ip::optional<size_t>(big(a[3]));
            e.i.raw("n", jnet(n))("diff", cap(diff))("new", nw.has_value() ? cap(nw.value()) : -1);
            if (a[0] == "super") { if (n.is_v4()) super(e, n.v4().value(), diff, nw); else super(e, n.v6().value(), diff, nw); }
            else { if (n.is_v4()) subs(e, n.v4().value(), diff, nw); else subs(e, n.v6().value(), diff, nw); }
        } else if (a[0] == "excl") {
            const ip_network x = netany_arg(a[1]), y = netany_arg(a[2]);
            e.i.raw("n", jnet(x)).raw("o", jnet(y));
            int c = 0, d = 0; bool empty = false, f = false;
            const auto t = excl(e, x, y, c, empty);
            if (x.version() == y.version()) {
                const auto u = x.is_v4() ? excl(e, x.v4().value(), y.v4().value(), d, f) : excl(e, x.v6().value(), y.v6().value(), d, f);
                e.same("concrete", t == u && c == d && empty == f);
            }
            e.o("code", c)("empty", empty).raw("thrown", t);
        } else {
            const bool lng = a[0] == "long";
            const std::string k = lng ? a[2] : a[1], h = lng ? a[3] : a[2];
            e.i.str("k", k);
            if (lng) {
#ifdef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
                continue;
#endif
                switch (k[0]) {
                    case 'c': { const auto s = units_of<char>(h); e.i.raw("u", junits(s)); too_long(e, a[1], s); break; }
                    case 'u': { const auto s = units_of<char16_t>(h); e.i.raw("u", junits(s)); too_long(e, a[1], s); break; }
                    case 'U': { const auto s = units_of<char32_t>(h); e.i.raw("u", junits(s)); too_long(e, a[1], s); break; }
                    case 'w': { const auto s = units_of<wchar_t>(h); e.i.raw("u", junits(s)); too_long(e, a[1], s); break; }
                    default: continue;
                }
            } else switch (k[0]) {
                case 'c': run<char>(e, h); break;
                case 'u': run<char16_t>(e, h); break;
                case 'U': run<char32_t>(e, h); break;
                case 'w': run<wchar_t>(e, h); break;
#if __cpp_char8_t >= 201811L
                case '8': run<char8_t>(e, h); break;
#endif
                default: continue;
            }
        }
        rec.add(e);
    }
}
