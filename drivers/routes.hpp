// All the ways of passing one text to a parsing function, compared with one answer.
#pragma once
#include "common.hpp"

#define NOINLINE __attribute__((noinline))

inline bool is_ascii(const std::string& s) { for (unsigned char c : s) if (c > 127) return false; return true; }

// ways of copying one object over another, and of exchanging two
template <typename T> NOINLINE void copy_by(T& r, const T& q, char route) {
    switch (route) {
        case 'c': { const T t(q); r = t; break; }
        case 'm': { T t(q); r = std::move(t); break; }
        case 'r': { T t(q); r.~T(); new (static_cast<void*>(&r)) T(t); break; }
        default: r = q;
    }
}
template <typename T> NOINLINE void swap_by(T& r, T& q, char route) {
    switch (route) {
        case 's': std::swap(r, q); break;
        case 'u': { using std::swap; swap(r, q); break; }
        case 'm': { T t(std::move(r)); r = std::move(q); q = std::move(t); break; }
        default: r.swap(q);
    }
}
// the text as an array of N elements, padded with NULs; nothing happens when it does not fit
template <typename T, typename Ch, size_t N> struct ArrayRoute {
    template <typename Eq, typename... X> NOINLINE static bool run(const std::string& s, error_code code, const Eq& eq, X... x) {
        if (s.size() >= N) return true;
        Ch a[N] = {};
        for (size_t i = 0; i < s.size(); ++i) a[i] = Ch((unsigned char)s[i]);
        const Ch (&c)[N] = a;
        error_code c2 = error_code::invalid_version;
        const auto r = T::parse(c, c2, x...);
        return c2 == code && eq(r) && throws_like([&] { return T::parse(c, x...); }, code, eq);
    }
};
template <typename T, typename Ch, typename Eq, typename... X> NOINLINE bool string_route(const std::string& s, error_code code, const Eq& eq, X... x) {
    const auto t = widen<Ch>(s);
    error_code c = error_code::invalid_version;
    const auto r = T::parse(t, c, x...);
    return c == code && eq(r) && throws_like([&] { return T::parse(t, x...); }, code, eq);
}
#if IPADDRESS_CPP_VERSION >= 17
// a view of a part of a longer text: nothing outside the view may matter
template <typename T, typename Ch, typename Eq, typename... X> NOINLINE bool view_route(const std::string& s, error_code code, const Eq& eq, X... x) {
    const auto big = widen<Ch>("9" + s + "7./");
    error_code c = error_code::invalid_version;
    const auto v = std::basic_string_view<Ch>(big).substr(1, s.size());
    const auto r = T::parse(v, c, x...);
    return c == code && eq(r) && throws_like([&] { return T::parse(v, x...); }, code, eq);
}
#endif

// every route for T::parse(text, x...), given what T::parse(std::string, code, x...) answered
template <typename T, typename Eq, typename... X> void all_routes(Ev& e, const std::string& s, error_code code, const Eq& eq, X... x) {
    e.same("throwing", throws_like([&] { return T::parse(s, x...); }, code, eq));
    const bool ascii = is_ascii(s);
    if (ascii) {
        e.same("wchar", string_route<T, wchar_t>(s, code, eq, x...));
        e.same("u16", string_route<T, char16_t>(s, code, eq, x...));
        e.same("u32", string_route<T, char32_t>(s, code, eq, x...));
#if __cpp_char8_t >= 201811L
        e.same("u8", string_route<T, char8_t>(s, code, eq, x...));
#endif
    }
#if IPADDRESS_CPP_VERSION >= 17
    e.same("view", view_route<T, char>(s, code, eq, x...));
    if (ascii) e.same("wide view", view_route<T, char16_t>(s, code, eq, x...) && view_route<T, char32_t>(s, code, eq, x...) && view_route<T, wchar_t>(s, code, eq, x...));
#if __cpp_char8_t >= 201811L
    if (ascii) e.same("u8 view", view_route<T, char8_t>(s, code, eq, x...));
#endif
#endif
    if (s.find('\0') != std::string::npos) return;      // an array holds the text up to its first NUL
    if (s.size() < 8) e.same("array 8", ArrayRoute<T, char, 8>::run(s, code, eq, x...));
    if (s.size() < 16) e.same("array 16", ArrayRoute<T, char, 16>::run(s, code, eq, x...));
    if (s.size() == 16) e.same("array 17", ArrayRoute<T, char, 17>::run(s, code, eq, x...));
    if (s.size() < 40) e.same("array 40", ArrayRoute<T, char, 40>::run(s, code, eq, x...));
    if (s.size() >= 40 && s.size() < 80) e.same("array 80", ArrayRoute<T, char, 80>::run(s, code, eq, x...));
    if (s.empty()) e.same("array 1", ArrayRoute<T, char, 1>::run(s, code, eq, x...));
    if (ascii && s.size() < 72) {
        e.same("warray", ArrayRoute<T, wchar_t, 72>::run(s, code, eq, x...));
        e.same("u16array", ArrayRoute<T, char16_t, 72>::run(s, code, eq, x...));
        e.same("u32array", ArrayRoute<T, char32_t, 72>::run(s, code, eq, x...));
#if __cpp_char8_t >= 201811L
        e.same("u8array", ArrayRoute<T, char8_t, 72>::run(s, code, eq, x...));
#endif
    }
}

// ways of setting a scope identifier; 200 when two of them disagree
template <typename X> NOINLINE error_code set_throwing(X& x, const std::string& t) {
#ifdef IPADDRESS_NO_EXCEPTIONS
    X y = x; error_code c = error_code::no_error;
    y.set_scope_id(t, c); x.set_scope_id(t);
    return c;
#else
    try { x.set_scope_id(t); return error_code::no_error; } catch (const ip::error& e) { return e.code(); }
#endif
}
template <typename Ch, typename X> NOINLINE error_code set_wide(X& x, const std::string& s) {
    const auto t = widen<Ch>(s);
    error_code c = error_code::no_error;
    X y = x;
    x.set_scope_id(t, c);
#ifdef IPADDRESS_NO_EXCEPTIONS
    y.set_scope_id(t);
    if (!same_addr(x, y)) return error_code(200);
#else
    error_code d = error_code::no_error;
    try { y.set_scope_id(t); } catch (const ip::error& e) { d = e.code(); }
    if (c != d || !same_addr(x, y)) return error_code(200);
#endif
    return c;
}
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
template <typename Ch, size_t N, typename X> NOINLINE error_code set_array(X& x, const std::string& s) {
    Ch t[N] = {};
    for (size_t i = 0; i < s.size() && i < N; ++i) t[i] = Ch((unsigned char)s[i]);
    const Ch (&c)[N] = t;
#ifdef IPADDRESS_NO_EXCEPTIONS
    x.set_scope_id(c); return error_code::no_error;
#else
    try { x.set_scope_id(c); return error_code::no_error; } catch (const ip::error& e) { return e.code(); }
#endif
}
#endif
// every way of doing it must leave the same object, and report the same error, as the given one
template <typename X> NOINLINE void scope_routes(Ev& e, const X& was, const X& now, const std::string& t, error_code code) {
    const auto as = [&](error_code (*f)(X&, const std::string&), bool reports) { X y = was; const error_code c = f(y, t); return (c == code || !reports) && same_addr(y, now); };
    e.same("scope throwing", as(&set_throwing<X>, true));
    e.same("scope string", as(&set_wide<char, X>, true));
    if (is_ascii(t)) {
        e.same("scope wide", as(&set_wide<wchar_t, X>, true) && as(&set_wide<char16_t, X>, true) && as(&set_wide<char32_t, X>, true));
#if __cpp_char8_t >= 201811L
        e.same("scope u8", as(&set_wide<char8_t, X>, true));
#endif
    }
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
    if (t.find('\0') == std::string::npos && t.size() <= IPADDRESS_IPV6_SCOPE_MAX_LENGTH) {
        e.same("scope array", as(&set_array<char, IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1, X>, kThrows));
        if (is_ascii(t)) e.same("scope wide array", as(&set_array<wchar_t, IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1, X>, kThrows) && as(&set_array<char16_t, IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1, X>, kThrows) && as(&set_array<char32_t, IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1, X>, kThrows));
    }
#endif
}

// literals called as functions, where they are functions
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
template <typename Ch> struct Lit {
    static ipv4_address v4(const Ch* s, size_t n) { return ip::operator""_ipv4(s, n); }
    static ipv6_address v6(const Ch* s, size_t n) { return ip::operator""_ipv6(s, n); }
    static ip_address any(const Ch* s, size_t n) { return ip::operator""_ip(s, n); }
    static ipv4_network n4(const Ch* s, size_t n) { return ip::operator""_ipv4_net(s, n); }
    static ipv6_network n6(const Ch* s, size_t n) { return ip::operator""_ipv6_net(s, n); }
    static ip_network nany(const Ch* s, size_t n) { return ip::operator""_net(s, n); }
};
template <typename Ch, typename T, typename Eq> NOINLINE bool literal_route(T (*f)(const Ch*, size_t), const std::string& s, size_t max, error_code code, const Eq& eq, const T& none) {
    const auto t = widen<Ch>(s);
    if (s.size() > max) return throws_like([&] { return f(t.data(), t.size()); }, error_code::string_is_too_long, [&](const T& x) { return x == none; });
    return throws_like([&] { return f(t.data(), t.size()); }, code, eq);
}
#define LITERAL_ROUTES(e, fn, s, max, code, eq, none) do { \
    if (s.find('\0') == std::string::npos) { \
        e.same("literal", literal_route<char>(&Lit<char>::fn, s, max, code, eq, none)); \
        if (is_ascii(s)) { \
            e.same("wliteral", literal_route<wchar_t>(&Lit<wchar_t>::fn, s, max, code, eq, none)); \
            e.same("u16literal", literal_route<char16_t>(&Lit<char16_t>::fn, s, max, code, eq, none)); \
            e.same("u32literal", literal_route<char32_t>(&Lit<char32_t>::fn, s, max, code, eq, none)); } } } while (0)
#else
#define LITERAL_ROUTES(e, fn, s, max, code, eq, none) do { } while (0)
#endif
