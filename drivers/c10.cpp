// C10: the hosts of a network.  Command: hosts NET IDX...
#include "common.hpp"

static const size_t kAll = 70;
template <typename N> typename N::uint_type idx_arg(const std::string& h);
template <> uint32_t idx_arg<ipv4_network>(const std::string& h) { return uint32_t(u64arg(h)); }
template <> ip::uint128_t idx_arg<ipv6_network>(const std::string& h) { return u128arg(h); }
static std::string jb(const ip_address& a) { return js(bytes_of_any(a)); }

template <typename N> void hosts(const Args& a, Recorder& rec) {
    using U = typename N::uint_type;
    Ev e; e.op = "hosts";
    const N n = net_arg<N>(a[1]);
    const ip_network m(n);
    const auto s = n.hosts();
    const auto t = m.hosts();
    e.i.raw("n", jnet(n));
    e.o("empty", s.empty())("size", wu(s.size()));
    e.same("any size", t.size() == ip::uint128_t(s.size()) && t.empty() == s.empty());
    e.o.raw("first", jaddr(s.front())).raw("last", jaddr(s.back()));
    e.same("any ends", same_addr(t.front(), ip_address(s.front())) && same_addr(t.back(), ip_address(s.back())));
    e.same("ends by iterator", same_addr(*s.begin(), s.front()) && same_addr(*s.cbegin(), s.front()) && same_addr(*s.rbegin(), s.back()) && same_addr(*s.crbegin(), s.back())
        && same_addr(*t.rbegin(), ip_address(s.back())) && same_addr(*t.crbegin(), ip_address(s.back())) && same_addr(*t.cbegin(), ip_address(s.front())));
    e.same("const ends", s.cend() == s.end() && s.crend() == s.rend() && t.cend() == t.end() && t.crend() == t.rend());
    e.same("length of the range", s.end().uint_diff(s.begin()) == s.size() && s.rend().uint_diff(s.rbegin()) == s.size()
        && t.end().uint_diff(t.begin()) == t.size() && t.rend().uint_diff(t.rbegin()) == t.size());
    std::vector<std::string> at, ix, all;
    for (size_t k = 2; k < a.size(); ++k) {
        const U i = idx_arg<N>(a[k]);
        const auto x = s.at(i);
        ix.push_back(js(wu(i)));
        at.push_back(jaddr(x));
        auto it = s.begin(); it += i;
        e.same("index", same_addr(s[i], x) && same_addr(*it, x) && same_addr(*(s.begin() + i), x) && same_addr(s.begin()[i], x) && same_addr(*(i + s.begin()), x));
        e.same("index from the end", same_addr(*(s.end() - U(s.size() - i)), x) && same_addr(s.rbegin()[U(s.size() - 1 - i)], x) && same_addr(*(s.rbegin() + U(s.size() - 1 - i)), x));
        const ip_address y(x);
        e.same("any index", same_addr(t.at(i), y) && same_addr(t[i], y) && same_addr(*(t.begin() + ip::uint128_t(i)), y) && same_addr(t.rbegin()[ip::uint128_t(U(s.size() - 1 - i))], y));
        e.same("member", n.contains(x) && m.contains(y));
    }
    e.i.raw("at", jarr(ix));
    if (s.size() != 0 && s.size() <= kAll) {
        for (auto it = s.begin(); it != s.end() && all.size() < 2 * kAll; ++it) all.push_back(jb(ip_address(*it)));
        std::vector<std::string> b, f;
        for (const auto& x : s) { f.push_back(jb(ip_address(x))); if (f.size() >= 2 * kAll) break; }
        e.same("range for", f == all);
        for (auto it = s.rbegin(); it != s.rend() && b.size() < 2 * kAll; ++it) b.insert(b.begin(), jb(ip_address(*it)));
        e.same("reverse", b == all);
        f.clear();
        for (auto it = t.begin(); it != t.end() && f.size() < 2 * kAll; it++) f.push_back(jb(*it));
        e.same("any forward", f == all);
        b.clear();
        for (auto it = t.rbegin(); it != t.rend() && b.size() < 2 * kAll; it++) b.insert(b.begin(), jb(*it));
        e.same("any reverse", b == all);
    }
    e.o.raw("at", jarr(at)).raw("all", jarr(all));
    rec.add(e);
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) { if (is4arg(a[1])) hosts<ipv4_network>(a, rec); else hosts<ipv6_network>(a, rec); }
}
