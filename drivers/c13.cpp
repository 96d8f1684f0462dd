// C13: total order, equality, hash, swap.
// Commands: pair X Y   sort X1 ... Xn     (all addresses or all networks, of any versions)
#include "common.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#define NOINLINE __attribute__((noinline))

static std::string val(const ip_address& a) { Obj o; o("b", bytes_of_any(a))("s", txt(scope_of_any(a)))("p", -1); return o.done(); }
static std::string val(const ip_network& n) { const auto a = ip_address(n.network_address()); Obj o; o("b", bytes_of_any(a))("s", txt(scope_of_any(a)))("p", int(n.prefixlen())); return o.done(); }
static std::string val(const ipv4_address& a) { return val(ip_address(a)); }
static std::string val(const ipv6_address& a) { return val(ip_address(a)); }
static std::string val(const ipv4_network& a) { return val(ip_network(a)); }
static std::string val(const ipv6_network& a) { return val(ip_network(a)); }

template <typename T> NOINLINE int ops(const T& x, const T& y) {
    return (x < y) + 2 * (x <= y) + 4 * (x > y) + 8 * (x >= y) + 16 * (x == y) + 32 * (x != y);
}
template <typename T> NOINLINE bool three_way(const T& x, const T& y, int o) {
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    const auto c = x <=> y;
    return (c < 0) == bool(o & 1) && (c > 0) == bool(o & 4) && (c == 0) == bool(o & 16);
#else
    (void)x; (void)y; (void)o; return true;
#endif
}
template <typename T> NOINLINE void swaps(Ev& e, T x, T y) {
    const std::string a = val(x), b = val(y);
    { T p = x, q = y; std::swap(p, q); e.same("std::swap", val(p) == b && val(q) == a); }
    { T p = x, q = y; using std::swap; swap(p, q); e.same("swap", val(p) == b && val(q) == a && p.hash() == y.hash() && q.hash() == x.hash()); }
    { T p = x; p.swap(p); e.same("self swap", val(p) == a); }
    { T p(x); T q(y); T t(std::move(p)); p = std::move(q); q = std::move(t); e.same("moves", val(p) == b && val(q) == a); }
    x.swap(y);
    e.o.raw("x2", val(x)).raw("y2", val(y));
}
template <typename T> NOINLINE void concrete(Ev& e, const T& x, const T& y, int xy, int yx) {
    e.same("concrete", ops(x, y) == xy && ops(y, x) == yx);
    e.same("concrete <=>", three_way(x, y, xy) && three_way(y, x, yx));
    if (xy & 16) e.same("concrete hash", x.hash() == y.hash());
    e.same("concrete std::hash", std_hash(x) == x.hash());
    e.same("copy", T(x) == x && ops(T(x), x) == ops(x, x) && T(x).hash() == x.hash());
    Ev f; swaps(f, x, y);
    e.same("concrete swap", f.alts.empty() && f.o.s == "{\"x2\":" + val(y) + ",\"y2\":" + val(x));
}
static void concretes(Ev& e, const ip_address& x, const ip_address& y, int a, int b) {
    if (x.is_v4() && y.is_v4()) concrete(e, x.v4().value(), y.v4().value(), a, b);
    if (x.is_v6() && y.is_v6()) concrete(e, x.v6().value(), y.v6().value(), a, b);
}
static void concretes(Ev& e, const ip_network& x, const ip_network& y, int a, int b) {
    if (x.is_v4() && y.is_v4()) concrete(e, x.v4().value(), y.v4().value(), a, b);
    if (x.is_v6() && y.is_v6()) concrete(e, x.v6().value(), y.v6().value(), a, b);
}
template <typename T> NOINLINE void pair(Ev& e, const T& x, const T& y) {
    e.i.raw("x", val(x)).raw("y", val(y));
    const int a = ops(x, y), b = ops(y, x);
    static const char* nm[6] = { "lt", "le", "gt", "ge", "eq", "ne" };
    static const char* rm[6] = { "rlt", "rle", "rgt", "rge", "req", "rne" };
    for (int k = 0; k < 6; ++k) e.o(nm[k], bool(a >> k & 1))(rm[k], bool(b >> k & 1));
    e.same("<=>", three_way(x, y, a) && three_way(y, x, b));
    if (a & 16) e.same("hash", x.hash() == y.hash());
    e.same("std::hash", std_hash(x) == x.hash() && std_hash(y) == y.hash());
    concretes(e, x, y, a, b);
    swaps(e, x, y);
}
template <typename C> std::string vals(const C& c) { std::vector<std::string> r; for (const auto& x : c) r.push_back(val(x)); return jarr(r); }
template <typename T> NOINLINE void collections(Ev& e, const std::vector<T>& xs, std::string* sorted, std::string* set, int* buckets, int* found) {
    std::vector<T> v(xs);
    std::sort(v.begin(), v.end());
    *sorted = vals(v);
    std::vector<T> w(xs);
    std::stable_sort(w.begin(), w.end(), [](const T& a, const T& b) { return b > a; });
    e.same("stable_sort", vals(w) == *sorted);
    std::set<T> s(xs.begin(), xs.end());
    *set = vals(s);
    std::unordered_set<T, Hash<T>> u(xs.begin(), xs.end());
    *buckets = int(u.size());
    std::map<T, int> m; std::unordered_map<T, int, Hash<T>> um;
    for (const auto& x : xs) { ++m[x]; ++um[x]; }
    *found = 0;
    for (const auto& x : xs) {
        const int n = int(std::count(xs.begin(), xs.end(), x));
        if (m[x] == n && um[x] == n && s.count(x) == 1 && u.count(x) == 1 && std::binary_search(v.begin(), v.end(), x)) ++*found;
    }
    e.same("sizes", m.size() == s.size() && um.size() == u.size());
}
template <typename C, typename T> bool all_of_version(const std::vector<T>& xs, bool v4) { for (const auto& x : xs) if (x.is_v4() != v4) return false; return true; }
template <typename C, typename T, typename F> NOINLINE void homogeneous(Ev& e, const std::vector<T>& xs, F get, const std::string& sorted, const std::string& set, int buckets, int found) {
    std::vector<C> ys; for (const auto& x : xs) ys.push_back(get(x));
    std::string s1, s2; int b, f;
    collections(e, ys, &s1, &s2, &b, &f);
    e.same("concrete collections", s1 == sorted && s2 == set && b == buckets && f == found);
}
template <typename C4, typename C6, typename T> NOINLINE void sort(Ev& e, const std::vector<T>& xs) {
    std::string sorted, set; int buckets, found;
    e.i.raw("xs", vals(xs));
    collections(e, xs, &sorted, &set, &buckets, &found);
    if (all_of_version<C4>(xs, true)) homogeneous<C4>(e, xs, [](const T& x) { return x.v4().value(); }, sorted, set, buckets, found);
    if (all_of_version<C6>(xs, false)) homogeneous<C6>(e, xs, [](const T& x) { return x.v6().value(); }, sorted, set, buckets, found);
    e.o.raw("sorted", sorted).raw("set", set);
    e.o("buckets", buckets)("found", found);
}
static ip_address any_addr(const std::string& s) { return is4arg(s) ? ip_address(addr_arg<ipv4_address>(s)) : ip_address(addr_arg<ipv6_address>(s)); }
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        const bool nets = a[1].find('/') != std::string::npos;
        if (a[0] == "pair") {
            if (nets) pair(e, netany_arg(a[1]), netany_arg(a[2])); else pair(e, any_addr(a[1]), any_addr(a[2]));
        } else if (nets) {
            std::vector<ip_network> xs; for (size_t k = 1; k < a.size(); ++k) xs.push_back(netany_arg(a[k]));
            sort<ipv4_network, ipv6_network>(e, xs);
        } else {
            std::vector<ip_address> xs; for (size_t k = 1; k < a.size(); ++k) xs.push_back(any_addr(a[k]));
            sort<ipv4_address, ipv6_address>(e, xs);
        }
        rec.add(e);
    }
}
