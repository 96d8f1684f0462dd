// C04: scope ids.  Three registers (1..3), each an address of one version and its version-independent twin.
// Commands: parse R HEXTEXT   set R ROUTE HEXTEXT   copy R Q   swap R Q   cmp R Q
// Routes: c code, t throwing, w/u/U/8 wide texts, a array, v view, k parse again with the scope (parse route)
#include "routes.hpp"

struct Reg {
    bool v4 = false;
    ipv6_address a;          // when it is an IPv6 address
    ip_address m = ip_address(ipv6_address());
};
static bool in_step(const Reg& r) { return r.v4 ? r.m.is_v4() : r.m.is_v6() && same_addr(r.m.v6().value(), r.a); }

static std::string view(Ev& e, const Reg& r) {
    Obj o;
    e.same("twin", in_step(r));
    const ip::scope s = r.v4 ? r.m.get_scope_id() : r.a.get_scope_id(), m = r.m.get_scope_id();
    e.same("twin scope", s.get_string() == m.get_string() && s.has_string() == m.has_string() && s.has_uint32() == m.has_uint32() && s.get_uint32() == m.get_uint32());
    e.same("scope conversions", std::string(s) == s.get_string() && uint32_t(s) == s.get_uint32() && bool(s) == s.has_string());
    // the text without its scope id, and the scope id as printed
    if (!r.v4) {
        const std::string t = r.a.to_string(ip::format::full);
        e.same("printed", t.size() == 39 ? !s.has_string() : t.substr(39) == "%" + s.get_string());
    }
    o("b", bytes_of_any(r.m))("text", txt(s.get_string()))("has_text", s.has_string())("has_num", s.has_uint32())("num", w4(s.get_uint32()));
    return o.done();
}

#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
template <typename Ch, size_t N> NOINLINE error_code set_array_code(ipv6_address& x, const std::string& s) {
    Ch t[N] = {};
    for (size_t i = 0; i < s.size() && i < N; ++i) t[i] = Ch((unsigned char)s[i]);
    const Ch (&c)[N] = t;
    error_code code = error_code::invalid_version;
    x.set_scope_id(c, code);
    return code;
}
#endif

static const int kMax = IPADDRESS_IPV6_SCOPE_MAX_LENGTH;

static error_code set(Ev& e, Reg& r, char route, const std::string& t) {
    error_code c = r.v4 || kMax == 0 ? error_code::no_error : error_code::invalid_version, d = c;
    const bool ascii = is_ascii(t);
    const bool nul = t.find('\0') != std::string::npos;
    switch (route) {
        case 't': c = r.v4 ? error_code::no_error : set_throwing(r.a, t); d = set_throwing(r.m, t); if (!r.v4) e.same("throwing", c == d); else c = d; return c;
        case 'w': if (!ascii) break; d = set_wide<wchar_t>(r.m, t); if (r.v4) return d; c = set_wide<wchar_t>(r.a, t); e.same("w", c == d); return c;
        case 'u': if (!ascii) break; d = set_wide<char16_t>(r.m, t); if (r.v4) return d; c = set_wide<char16_t>(r.a, t); e.same("u", c == d); return c;
        case 'U': if (!ascii) break; d = set_wide<char32_t>(r.m, t); if (r.v4) return d; c = set_wide<char32_t>(r.a, t); e.same("U", c == d); return c;
#if __cpp_char8_t >= 201811L
        case '8': if (!ascii) break; d = set_wide<char8_t>(r.m, t); if (r.v4) return d; c = set_wide<char8_t>(r.a, t); e.same("8", c == d); return c;
#endif
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0 && !defined(IPADDRESS_NO_EXCEPTIONS)
        case 'a': if (nul || int(t.size()) > kMax) break;
            d = set_array<char, kMax + 1>(r.m, t); if (r.v4) return d;
            { Reg b = r; c = set_array<char, kMax + 1>(r.a, t); const error_code f = set_array_code<char, kMax + 1>(b.a, t); e.same("array", c == d && c == f && same_addr(b.a, r.a)); }
            return c;
        case 'A': if (nul || !ascii || int(t.size()) > kMax) break;
            d = set_array<char16_t, kMax + 1>(r.m, t); if (r.v4) return d;
            { Reg b = r; c = set_array<wchar_t, kMax + 1>(r.a, t); const error_code f = set_array_code<char32_t, kMax + 1>(b.a, t); e.same("warray", c == d && c == f && same_addr(b.a, r.a)); }
            return c;
#endif
#if IPADDRESS_CPP_VERSION >= 17
        case 'v': { const std::string big = "x" + t + "%"; const std::string_view v = std::string_view(big).substr(1, t.size());
            r.m.set_scope_id(v, d); if (r.v4) return d; r.a.set_scope_id(v, c); e.same("view", c == d); return c; }
#endif
        default: break;
    }
    r.m.set_scope_id(t, d);
    if (r.v4) return d;
    r.a.set_scope_id(t, c);
    e.same("code", c == d);
    return c;
}

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    Reg reg[4];
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        const int ri = int(num(a[1]));
        Reg& r = reg[ri];
        e.i("r", ri);
        if (a[0] == "parse") {
            const std::string t = unhex(a[2]);
            error_code c = error_code::invalid_version, d = c;
            const ip_address m = ip_address::parse(t, c);
            const ipv6_address x = ipv6_address::parse(t, d);
            if (c == error_code::no_error) { r.v4 = m.is_v4(); r.m = m; r.a = r.v4 ? ipv6_address() : x; e.same("same code", r.v4 || d == c); }
            else e.same("same code", c == d);
            e.i("t", txt(t));
            e.o("code", int(c)).raw("r", view(e, r));
        } else if (a[0] == "set") {
            const std::string t = unhex(a[3]);
            e.i("t", txt(t));
            const error_code c = set(e, r, a[2][0], t);
            e.o("code", int(c)).raw("r", view(e, r));
        } else {
            const int qi = int(num(a[2]));
            Reg& q = reg[qi];
            e.i("q", qi);
            if (a[0] == "copy") {
                if (ri % 2) r = q; else { const ip_address m(q.m); r.v4 = q.v4; r.m = m; r.a = ipv6_address(q.a); }
                e.o("code", 0).raw("r", view(e, r));
            } else if (a[0] == "swap") {
                std::swap(r.v4, q.v4);
                if (ri % 2) { r.m.swap(q.m); r.a.swap(q.a); } else { using std::swap; swap(r.m, q.m); swap(r.a, q.a); }
                e.o("code", 0).raw("r", view(e, r)).raw("q", view(e, q));
            } else {
                const bool same = r.m == q.m;
                e.same("not equal", (r.m != q.m) == !same);
                if (!r.v4 && !q.v4) {
                    e.same("twin equality", (r.a == q.a) == same && (r.a != q.a) == !same);
                    if (same) e.same("hash", r.a.hash() == q.a.hash() && std_hash(r.a) == std_hash(q.a));
                }
                if (same) e.same("any hash", r.m.hash() == q.m.hash() && std_hash(r.m) == std_hash(q.m));
                const ip::scope s = r.m.get_scope_id(), t = q.m.get_scope_id();
                e.same("scope !=", (s != t) == !(s == t));
                e.same("scope order", (s < t) + (s > t) + (s == t) == 1 && (s <= t) == !(s > t) && (s >= t) == !(s < t));
                e.o("same", same)("same_scope", bool(s == t))("loopback", r.m.is_loopback())("link_local", r.m.is_link_local());
                e.same("uint", r.v4 ? w4(r.m.to_uint32()) == bytes_of_any(r.m) : w16(r.a.to_uint()) == bytes_of(r.a) && r.m.to_uint128() == r.a.to_uint());
                e.o("num", r.v4 ? w4(r.m.to_uint32()) : w16(r.m.to_uint128()));
            }
        }
        rec.add(e);
    }
}
