// C25: operations as constant-evaluable functions that collect what they observe.
// A generated program evaluates calls of these both at compile time and at run time.
#pragma once
#include <ipaddress/ipaddress.hpp>
#include <cmath>
#include <functional>
#include <limits>
#include <cstdio>
#include <string>
#include <vector>
namespace ip = IPADDRESS_NAMESPACE;
using namespace IPADDRESS_NAMESPACE;             // literals
using ip::error_code; using ip::ip_address; using ip::ip_network; using ip::ipv4_address; using ip::ipv4_network; using ip::ipv6_address; using ip::ipv6_network; using ip::uint128_t;

struct B {                                  // integers and addresses, in the order they were observed
    int v[340] = {}; int n = 0;
    ip_address a[32] = {}; int na = 0;
    unsigned long long h[4] = {}; int nh = 0;       // compared between compile time and run time only
    constexpr B& i(int x) { v[n] = x; ++n; return *this; }
    constexpr B& w(unsigned long long x, int bytes) { for (int k = bytes - 1; k >= 0; --k) i(int((x >> (8 * k)) & 255)); return *this; }
    // templates, so that a compiler complains where they are used
    template <typename W> constexpr B& w(const W& x) { return w(x.upper(), 8).w(x.lower(), 8); }
    constexpr B& u(uint32_t x) { return w(x, 4); }
    template <typename W> constexpr B& u(const W& x) { return w(x); }
    template <typename C> constexpr B& count(const C& x, size_t bytes) { const uint128_t y(x); return bytes == 4 ? w(y.lower(), 4) : w(y); }    // the lower bytes of a count
    template <typename A> constexpr B& addr(const A& x) { a[na] = x; ++na; return *this; }
    template <typename N> constexpr B& net(const N& x) { i(int(x.prefixlen())); return addr(ip_address(x.network_address())); }
    constexpr B& hash(unsigned long long x) { h[nh] = x; ++nh; return *this; }
    constexpr B& code(error_code c) { return i(int(c)); }
};

template <typename T = unsigned> constexpr ipv4_address v4(T x) { return ipv4_address::from_uint(x); }
template <typename T> constexpr ipv6_address v6(T hi, unsigned long long lo) { return ipv6_address::from_uint(uint128_t(hi, lo)); }
template <typename T, size_t N> constexpr ipv6_address v6(T hi, unsigned long long lo, const char (&s)[N]) { auto a = v6(hi, lo); error_code c = error_code::no_error; a.set_scope_id(s, c); return a; }
template <typename A> constexpr typename std::conditional<A::base_size == 4, ipv4_network, ipv6_network>::type net(const A& a, int p) { error_code c = error_code::no_error;
    return std::conditional<A::base_size == 4, ipv4_network, ipv6_network>::type::from_address(a, c, size_t(p), false); }
template <typename T> constexpr uint128_t u(T hi, unsigned long long lo) { return uint128_t(hi, lo); }
template <typename T> constexpr ip::optional<size_t> opt(T k) { return k < 0 ? ip::optional<size_t>() : ip::optional<size_t>(size_t(k)); }
#if __cplusplus >= 201703L
template <typename T, size_t N> constexpr std::basic_string_view<T> sv(const T (&t)[N]) { return std::basic_string_view<T>(t, N - 1); }
#endif

// ---- texts
template <typename A, typename T> constexpr B q_parse(const T& t) { error_code c = error_code::no_error; const auto a = A::parse(t, c); return B().code(c).addr(ip_address(a)); }
template <typename N, typename T> constexpr B q_pnet(const T& t, bool strict) { error_code c = error_code::no_error; const auto a = N::parse(t, c, strict); return B().code(c).net(a); }
template <typename A> constexpr B q_addr(const A& a) { return B().addr(ip_address(a)); }
template <typename N> constexpr B q_netv(const N& a) { return B().net(a); }
// ---- addresses
template <typename A, typename T> constexpr B q_setscope(A a, const T& t) { error_code c = error_code::no_error; a.set_scope_id(t, c); return B().code(c).addr(ip_address(a)); }
template <typename A> constexpr B q_cats(const A& a) {
    const ip_address y(a);
    return B().i(a.is_multicast()).i(a.is_private()).i(a.is_global()).i(a.is_reserved()).i(a.is_loopback()).i(a.is_link_local()).i(a.is_unspecified()).i(y.is_site_local())
        .i(y.is_multicast()).i(y.is_private()).i(y.is_global()).i(y.is_reserved()).i(y.is_loopback()).i(y.is_link_local()).i(y.is_unspecified());
}
template <typename A> constexpr B q_ints(const A& a) {
    B b; b.u(a.to_uint()).u(typename A::uint_type(a)).i(int(a.version())).i(std::hash<A>()(a) == a.hash());
    for (size_t k = 0; k < a.size(); ++k) b.i(a.data()[k]);
    for (size_t k = 0; k < a.size(); ++k) b.i(a.bytes()[k]);
    return b.addr(ip_address(A::from_uint(a.to_uint()))).addr(ip_address(A::from_bytes(a.bytes()))).addr(ip_address(A::from_bytes(a.data(), 3))).addr(ip_address(A::from_bytes(a.data(), a.size()))).addr(ip_address(A(a.bytes()))).hash(a.hash()).hash(ip_address(a).hash());
}
template <typename A> constexpr B q_any(const A& a) {          // a version-independent address
    B b; b.i(int(a.version())).i(a.is_v4()).i(a.is_v6()).i(int(a.size())).i(a.v4().has_value()).i(a.v6().has_value()).i(std::hash<A>()(a) == a.hash());
    for (size_t k = 0; k < a.size(); ++k) b.i(a.data()[k]);
    const auto m = a.ipv4_mapped(), s = a.sixtofour(); const auto t = a.teredo();
    b.i(m.has_value()).i(s.has_value()).i(t.has_value());
    if (m) b.addr(ip_address(*m));
    if (s) b.addr(ip_address(*s));
    if (t) b.addr(ip_address(t->first)).addr(ip_address(t->second));
    const auto sc = a.get_scope_id();
    b.i(sc.has_string()).i(sc.has_uint32()).u(sc.get_uint32());
    b.addr(A::from_bytes(a.data(), a.size(), a.version()));
    if (a.is_v4()) {
        const auto x = a.v4().value();
        b.u(a.to_uint32()).u(uint32_t(a)).addr(A(x.bytes())).addr(A::from_bytes(x.bytes())).addr(A::from_uint(a.to_uint32())).addr(A(x));
    } else {
        const auto x = a.v6().value();
        b.w(a.to_uint128()).w(uint128_t(a)).addr(A(x.bytes())).addr(A::from_bytes(x.bytes())).addr(A::from_uint(a.to_uint128())).addr(A(x));
    }
    return b;
}
template <typename A> constexpr B q_embed(const A& a) {
    const auto m = a.ipv4_mapped(), s = a.sixtofour(); const auto t = a.teredo();
    B b; b.i(m.has_value()).i(s.has_value()).i(t.has_value());
    if (m) b.addr(ip_address(*m));
    if (s) b.addr(ip_address(*s));
    if (t) b.addr(ip_address(t->first)).addr(ip_address(t->second));
    return b;
}
template <typename X, typename Y> constexpr B q_cmp(const X& x, const Y& y) {
    B b; b.i(x < y).i(x <= y).i(x > y).i(x >= y).i(x == y).i(x != y);
    X s(x), t(x); t = y; s.swap(t);
    b.i(s == y).i(t == x);
    std::swap(s, t);
    return b.i(s == x).i(t == y).i(std::hash<X>()(x) == x.hash()).hash(x.hash()).hash(y.hash());
}
template <typename A> constexpr B q_scope(const A& a) { const auto s = a.get_scope_id(); return B().i(s.has_string()).i(bool(s)).i(s.has_uint32()).u(s.get_uint32()).u(uint32_t(s)); }
template <typename A> constexpr B q_scopes(const A& a, const A& c) { const auto x = a.get_scope_id(), y = c.get_scope_id(); return B().i(x < y).i(x <= y).i(x > y).i(x >= y).i(x == y).i(x != y); }
// ---- networks
template <typename N, typename A> constexpr B q_from(const A& a, int p, bool strict) { error_code c = error_code::no_error;
    const auto x = N::from_address(a, c, size_t(p), strict); return B().code(c).net(x); }
template <typename N> constexpr B q_attrs(const N& n) {
    const size_t w = n.network_address().size();
    return B().i(int(n.prefixlen())).i(int(n.version())).i(int(n.size())).count(n.addresses_count(), w).addr(ip_address(n.network_address())).addr(ip_address(n.broadcast_address())).addr(ip_address(n.netmask())).addr(ip_address(n.hostmask())).i(std::hash<N>()(n) == n.hash()).hash(n.hash());
}
template <typename N> constexpr B q_anynet(const N& n) { return B().i(n.is_v4()).i(n.is_v6()).i(n.v4().has_value()).i(n.v6().has_value()).net(n.is_v4() ? ip_network(n.v4().value()) : ip_network(n.v6().value())); }
template <typename N> constexpr B q_ncats(const N& n) {
    return B().i(n.is_multicast()).i(n.is_private()).i(n.is_global()).i(n.is_reserved()).i(n.is_loopback()).i(n.is_link_local()).i(n.is_unspecified()).i(ip_network(n).is_site_local());
}
template <typename N> constexpr B q_rel(const N& x, const N& y) {
    const ip_network p(x), q(y);
    return B().i(x.overlaps(y)).i(x.subnet_of(y)).i(x.supernet_of(y)).i(x.contains(y.network_address())).i(x.contains(y.broadcast_address()))
        .i(p.overlaps(q)).i(p.subnet_of(q)).i(p.supernet_of(q)).i(p.contains(q.network_address())).i(p.contains(q.broadcast_address()));
}
template <typename N> constexpr B q_super(const N& n, int diff, int nw) { error_code c = error_code::no_error; const auto s = n.supernet(c, size_t(diff), opt(nw)); return B().code(c).net(s); }
template <typename N> constexpr B q_subs(const N& n, int diff, int nw) {
    error_code c = error_code::no_error; const auto s = n.subnets(c, size_t(diff), opt(nw));
    B b; b.code(c);
    if (c == error_code::no_error) {
        b.count(s.size(), n.network_address().size()).net(s.front()).net(s.back());
        int k = 0;
        for (auto it = s.begin(); it != s.end() && k < 4; ++it, ++k) b.net(*it);
        k = 0;
        for (auto it = s.rbegin(); it != s.rend() && k < 4; ++it, ++k) b.net(*it);
    }
    return b;
}
template <typename N> constexpr B q_excl(const N& n, const N& o) {
    error_code c = error_code::no_error; const auto s = n.address_exclude(o, c);
    B b; b.code(c);
    if (c == error_code::no_error) {
        bool ok = s.begin() == s.cbegin() && s.end() == s.cend();
        int k = 0;
        for (auto it = s.begin(); it != s.end() && k < 20; ++k) {      // old iterators keep their place, and the comparisons cohere
            const auto old = it++;
            ok = ok && old != it && !(old == it) && old->prefixlen() == (*old).prefixlen();
            if (it != s.end()) ok = ok && (old < it) != (old > it) && (old <= it) == !(old > it) && (old >= it) == !(old < it);
        }
        b.i(s.empty()).i(ok);
        k = 0; for (auto it = s.begin(); it != s.end() && k < 20; ++it, ++k) b.net(*it);
    }
    return b;
}
template <typename N> constexpr B q_hosts(const N& n) {
    const auto s = n.hosts();
    B b; b.count(s.size(), n.network_address().size()).addr(ip_address(s.front())).addr(ip_address(s.back()));
    int k = 0;
    for (auto it = s.begin(); it != s.end() && k < 6; ++it, ++k) b.addr(ip_address(*it));
    k = 0;
    for (auto it = s.rbegin(); it != s.rend() && k < 6; ++it, ++k) b.addr(ip_address(*it));
    auto it = s.end(); it -= int64_t(1); b.addr(ip_address(*it));
    const auto whole = s.end() - s.begin(); b.i(whole > 1000000 ? -1 : int(whole));
    return b;
}
// ---- iterators
struct S { int op; bool sg; long long s; unsigned long long hi, lo; };      // a step of an iterator
inline constexpr void see(B& b, const ipv4_address& x) { b.addr(ip_address(x)); }
inline constexpr void see(B& b, const ipv6_address& x) { b.addr(ip_address(x)); }
inline constexpr void see(B& b, const ip_address& x) { b.addr(x); }
template <typename N> constexpr auto see(B& b, const N& x) -> decltype(void(x.prefixlen())) { b.net(x); }
template <typename U> struct Amount { template <typename X> static constexpr U of(const X& s) { return U(s.lo); } };
template <> struct Amount<uint128_t> { template <typename X> static constexpr uint128_t of(const X& s) { return uint128_t(s.hi, s.lo); } };
template <typename It, typename N> constexpr It walked(B& b, It it, int op, const N& n) {
    switch (op) {
        case 0: ++it; break;
        case 1: --it; break;
        case 2: { const auto old = it++; see(b, *old); break; }
        case 3: { const auto old = it--; see(b, *old); break; }
        case 4: it += n; break;
        case 5: it -= n; break;
        case 6: it = it + n; break;
        case 7: it = n + it; break;
        case 8: it = it - n; break;
        case 9: see(b, it[n]); break;
    }
    see(b, *it);
    return it;
}
template <typename Seq, typename It> constexpr bool turned(const It& it, const It&) { return typename Seq::const_reverse_iterator(it).base() == it; }
template <typename Seq, typename It, typename F> constexpr bool turned(const It& it, const F&) { return It(it.base()) == it; }
template <typename U, typename Seq, typename It> constexpr B& walk(B& b, const Seq& s, It it, const It& first, const It& last, int w, const S* st, int n) {
    see(b, *it);
    for (int k = 0; k < n; ++k) it = st[k].sg ? walked(b, it, st[k].op, int64_t(st[k].s)) : walked(b, it, st[k].op, Amount<U>::of(st[k]));
    It c{}; c = it;
    b.i(c == it).i(*(it.operator->()) == *it).i(turned<Seq>(it, s.begin()));
    const It ends[2] = {first, last};
    for (int k = 0; k < 2; ++k) {
        const It& e = ends[k];
        b.i(it < e).i(it <= e).i(it > e).i(it >= e).i(it == e).i(it != e).w((unsigned long long)(it - e), 8).count(it.uint_diff(e), size_t(w));
    }
    return b;
}
template <typename Seq, typename N> constexpr B q_iter(const Seq& s, const N& n, bool rev, unsigned long long at, const S& s1, const S& s2, const S& s3, const S& s4) {
    using U = typename Seq::difference_type;
    const int w = int(n.network_address().size());
    const S st[4] = {s1, s2, s3, s4};
    B b;
    b.i(s.empty()).count(s.size(), size_t(w)).i(s.cbegin() == s.begin() && s.cend() == s.end() && s.crbegin() == s.rbegin() && s.crend() == s.rend());
    see(b, s.front()); see(b, s.back()); see(b, s[U(at)]); see(b, s.at(U(at)));
    return rev ? walk<U>(b, s, s.rbegin(), s.rbegin(), s.rend(), w, st, 4) : walk<U>(b, s, s.begin(), s.begin(), s.end(), w, st, 4);
}
template <typename N> constexpr B q_walkhosts(const N& n, bool rev, unsigned long long at, const S& s1, const S& s2, const S& s3, const S& s4) { return q_iter(n.hosts(), n, rev, at, s1, s2, s3, s4); }
template <typename N> constexpr B q_walksubs(const N& n, int p, bool rev, unsigned long long at, const S& s1, const S& s2, const S& s3, const S& s4) {
    error_code c = error_code::no_error;
    return q_iter(n.subnets(c, 1, ip::optional<size_t>(size_t(p))), n, rev, at, s1, s2, s3, s4);
}
// ---- 128-bit integers
template <typename W> constexpr B q_arith(const W& a, const W& b) {
    B r; r.w(a + b).w(a - b).w(a * b).w(a & b).w(a | b).w(a ^ b).w(-a).w(~a).w(a / b).w(a % b);
    W x(a); ++x; r.w(x); x = a; --x; r.w(x); x = a; x += b; r.w(x); x = a; x *= b;
    return r.w(x).i(a == b).i(a < b).i(a > b).i(a <= b).i(a >= b).i(a != b).hash(a.hash());
}
template <typename W> constexpr B q_more(const W& a, const W& b) {
    B r; W x(a), y(b);
    x -= b; r.w(x); x = a; x /= b; r.w(x); x = a; x %= b; r.w(x); x = a; x &= b; r.w(x); x = a; x |= b; r.w(x); x = a; x ^= b; r.w(x);
    x = a; r.w(x++).w(x).w(x--).w(x).w(+a).i(!a).i(a && b).i(a || b);
    x.swap(y); r.w(x).w(y); std::swap(x, y); r.w(x).w(y).w(std::abs(a)).i(std::hash<W>()(a) == a.hash());
    r.w((unsigned long long)(a), 8).w((unsigned long long)((long long)(a)), 8).w((unsigned long)(a), 8).w((unsigned long long)((long)(a)), 8).w((unsigned)(a), 4).w((unsigned)(int(a)), 4)
        .w((unsigned short)(a), 2).w((unsigned short)(short(a)), 2).w((unsigned char)(a), 1).w((unsigned char)((signed char)(a)), 1).w((unsigned char)(char(a)), 1);
    return r.w(a.upper(), 8).w(a.lower(), 8);
}
template <typename W> constexpr B q_limits(const W& a) {
    using L = std::numeric_limits<W>;
    return B().w((L::max)()).w((L::min)()).w(L::lowest()).w(L::epsilon()).w(L::round_error()).w(L::denorm_min()).w(L::infinity()).w(L::quiet_NaN()).w(L::signaling_NaN())
        .i(L::is_specialized).i(L::is_integer).i(L::is_signed).i(L::is_exact).i(L::is_bounded).i(L::is_modulo).i(L::digits).i(L::digits10).i(L::radix)
        .i(L::is_iec559).i(L::has_infinity).i(L::has_quiet_NaN).i(L::has_signaling_NaN).w(W() + a).i(bool(W{}));
}
template <typename W, typename T> constexpr B q_shift(const W& a, T n) { W x(a), y(a); x <<= n; y >>= n; return B().w(a << n).w(a >> n).w(x).w(y); }
template <typename W, typename T> constexpr B q_mixed(const W& a, T k) {
    B b; b.w(a + k).w(a - k).w(a * k).w(a / k).w(a % k).w(a & k).w(a | k).w(a ^ k).w(k + a).w(k - a).w(k * a).w(k / a).w(k % a).w(k & a).w(k | a).w(k ^ a);
    b.i(a < k).i(a <= k).i(a > k).i(a >= k).i(a == k).i(a != k).i(k < a).i(k <= a).i(k > a).i(k >= a).i(k == a).i(k != a);
    const W c(k); W d(a); d = k;
    return b.w(c).i(d == c).i(bool(a));
}
template <typename T> constexpr B q_digits(const T& t, int base) {
    const auto r = uint128_t::from_string(t, base == 8 ? uint128_t::format::octal : base == 16 ? uint128_t::format::hexadecimal : uint128_t::format::decimal);
    B b; b.i(r.has_value());
    return r.has_value() ? b.w(*r) : b;
}
// ---- containers
template <typename T, typename S> constexpr B q_fixed(const T& t, const S& s) {
    error_code c = error_code::no_error, d = c;
    const auto x = ip::make_fixed_string(t, c); const auto y = ip::make_fixed_string(s, d);
    using F = typename std::remove_const<decltype(x)>::type;
    B b; b.code(c).code(d).i(int(x.size())).i(x.empty()).i(x < y).i(x <= y).i(x > y).i(x >= y).i(x == y).i(x != y).i(x.empty() ? 0 : int((unsigned char)x.back())).i(x.empty() ? 0 : int((unsigned char)x.front()));
    b.i(int(x.capacity()) == int(F::max_length)).i(x.compare(y) < 0).i(x.cbegin() == x.begin() && x.cend() == x.end()).i(1);
    for (auto it = x.begin(); it != x.end(); ++it) b.i(int((unsigned char)*it));
    for (size_t k = 0; k < x.size(); ++k) b.i(int((unsigned char)x[k])).i(int((unsigned char)x.at(k))).i(int((unsigned char)x.data()[k]));
#if __cplusplus >= 201703L
    for (auto it = x.rbegin(); it != x.rend(); ++it) b.i(int((unsigned char)*it));
    b.i(x.crbegin() == x.rbegin() && x.crend() == x.rend());
#else
    for (size_t k = x.size(); k > 0; --k) b.i(int((unsigned char)x[k - 1]));
    b.i(1);
#endif
    F p(x), q{}; q = y; p.swap(q); b.i(p == y).i(q == x); const F e; p = e; b.i(p.empty()).i(p.size() == 0);
    return b.hash(x.hash());
}
template <typename X> constexpr B q_bytes(const X& x, const X& y, int k, int v) {
    B b; b.i(int(x.size())).i(int(x.max_size())).i(x.empty()).i(x.front()).i(x.back()).i(x[size_t(k)]).i(x.at(size_t(k))).i(x.data()[k]).i(x.cbegin() == x.begin() && x.cend() == x.end());
    for (auto it = x.begin(); it != x.end(); ++it) b.i(*it);
#if __cplusplus >= 201703L
    for (auto it = x.rbegin(); it != x.rend(); ++it) b.i(*it);
    b.i(x.crbegin() == x.rbegin() && x.crend() == x.rend());
#else
    for (size_t j = x.size(); j > 0; --j) b.i(x[j - 1]);
    b.i(1);
#endif
    b.i(x < y).i(x <= y).i(x > y).i(x >= y).i(x == y).i(x != y);
    X p(x), q(y); p[size_t(k)] = (unsigned char)v; b.i(p[size_t(k)]);
    p.swap(q); b.i(q[size_t(k)]).i(p == y);
    q.front() = 1; q.back() = 2; q.data()[k] = (unsigned char)(v ^ 255); q.at(size_t(k)) ^= 1;
    for (auto it = q.begin(); it != q.end(); ++it) b.i(*it);
    return b;
}
template <typename T> constexpr B q_opt(const T& x, const T& y) {
    const ip::optional<T> none, nil(nullptr), a(x); ip::optional<T> b(y), c(a), d;
    B r; r.i(none.has_value()).i(nil.has_value()).i(bool(none)).i(a.has_value()).i(bool(a)).addr(*a).addr(a.value()).i(a->is_v4());
    c = b; r.addr(*c); c = T(x); r.addr(c.value()); d = none; r.i(d.has_value()); d = a; r.i(d.has_value()).addr(*d);
    *d = y; r.addr(d.value()); d.value() = x; r.addr(*d); d->swap(*b); r.addr(*d).addr(*b);
    r.addr(ip::optional<T>(x).value());
    c = nullptr; r.i(c.has_value()); c = c; r.i(bool(c));
    return r;
}

// ---- used where only acceptance matters
template <typename A, typename T> constexpr A scoped(A a, const T& t) { a.set_scope_id(t); return a; }
template <size_t N> constexpr unsigned element(size_t k) { ip::byte_array<N> b{}; const auto& c = b; return c.at(k); }
template <size_t N> constexpr char unit(const char (&t)[N], size_t k) { const auto x = ip::make_fixed_string(t); return x.at(k); }

// ---- printing
inline std::string jints(const int* p, int n) { std::string r = "["; for (int k = 0; k < n; ++k) r += (k ? "," : "") + std::to_string(p[k]); return r + "]"; }
inline std::string show(const B& b) {
    std::string r = "\"v\":" + jints(b.v, b.n) + ",\"a\":[";
    for (int k = 0; k < b.na; ++k) {
        const auto& x = b.a[k];
        int bytes[16]; for (size_t j = 0; j < x.size(); ++j) bytes[j] = x.data()[j];
        const std::string s = x.is_v6() ? x.v6().value().get_scope_id().get_string() : std::string();
        int cs[70]; for (size_t j = 0; j < s.size(); ++j) cs[j] = (unsigned char)s[j];
        r += std::string(k ? "," : "") + "{\"b\":" + jints(bytes, int(x.size())) + ",\"s\":" + jints(cs, int(s.size())) + "}";
    }
    return r + "]";
}
inline std::string hidden(const B& b) { std::string r; for (int k = 0; k < b.nh; ++k) r += std::to_string(b.h[k]) + " "; return r; }
inline void emit(int id, const B& fixed, const B& run) {
    std::string alt;
    if (show(run) != show(fixed) || hidden(run) != hidden(fixed)) alt = "\"run time\"";
    std::printf("%d\t\"o\":{%s,\"alt\":[%s]}\n", id, show(fixed).c_str(), alt.c_str());
}
