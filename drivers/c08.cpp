// C08: subnets and supernets.  Commands: subs NET DIFF NEW IDX...   sup NET DIFF NEW
// NEW is "-" when absent; an index is a hexadecimal word of the address width
#include "common.hpp"

static int cap(size_t v) { return v > (1u << 30) ? (1 << 30) : int(v); }
static size_t big(const std::string& s) { return size_t(std::strtoull(s.c_str(), nullptr, 10)); }
template <typename N> typename N::uint_type idx_arg(const std::string& h);
template <> uint32_t idx_arg<ipv4_network>(const std::string& h) { return uint32_t(u64arg(h)); }
template <> ip::uint128_t idx_arg<ipv6_network>(const std::string& h) { return u128arg(h); }
static const size_t kAll = 64;

template <typename S> bool same_ends(const S& a, const S& b) {
    return a.size() == b.size() && a.empty() == b.empty() && a.begin() == b.begin() && a.end() == b.end() && same_net(a.front(), b.front()) && same_net(a.back(), b.back());
}
template <typename N> void subs(const Args& a, Recorder& rec) {
    using U = typename N::uint_type;
    Ev e; e.op = "subs";
    const N n = net_arg<N>(a[1]);
    const ip_network m(n);
    const size_t diff = big(a[2]);
    ip::optional<size_t> nw;
    if (a[3] != "-") nw = ip::optional<size_t>(big(a[3]));
    e.i.raw("n", jnet(n))("diff", cap(diff))("new", nw.has_value() ? cap(nw.value()) : -1);
    error_code c = error_code::invalid_version, d = c, g = c;
    const auto s = n.subnets(c, diff, nw);
    const auto t = m.subnets(d, diff, nw);
    e.same("any code", c == d);
    e.same("throwing", throws_like([&] { return n.subnets(diff, nw); }, c, [&](const ip::subnets_sequence<N>& x) { return same_ends(x, s); }));
    e.same("any throwing", throws_like([&] { return m.subnets(diff, nw); }, c, [&](const ip::subnets_any_sequence<ip_network>& x) { return same_ends(x, t); }));
    const auto eqn = [&](const ip::subnets_sequence<N>& x) { return same_ends(x, s); };
    const auto eqm = [&](const ip::subnets_any_sequence<ip_network>& x) { return same_ends(x, t); };
    if (!nw.has_value()) {
        e.same("one argument", same_ends(n.subnets(g, diff), s) && g == c);
        g = error_code::invalid_version; e.same("any, one argument", same_ends(m.subnets(g, diff), t) && g == c);
        e.same("one argument, throwing", throws_like([&] { return n.subnets(diff); }, c, eqn) && throws_like([&] { return m.subnets(diff); }, c, eqm));
    }
    if (!nw.has_value() && diff == 1) {
        g = error_code::invalid_version; e.same("no argument", same_ends(n.subnets(g), s) && g == c);
        g = error_code::invalid_version; e.same("any, no argument", same_ends(m.subnets(g), t) && g == c);
        e.same("no argument, throwing", throws_like([&] { return n.subnets(); }, c, eqn) && throws_like([&] { return m.subnets(); }, c, eqm));
    }
    e.o("code", int(c))("empty", s.empty())("size", wu(s.size()));
    e.same("any size", t.size() == ip::uint128_t(s.size()) && t.empty() == s.empty());
    const bool ok = c == error_code::no_error;
    e.o.raw("first", ok ? jnet(s.front()) : "0").raw("last", ok ? jnet(s.back()) : "0");
    std::vector<std::string> at, all;
    if (ok) {
        e.same("any ends", same_net(t.front(), s.front()) && same_net(t.back(), s.back()));
        e.same("ends by iterator", same_net(*s.begin(), s.front()) && same_net(*s.cbegin(), s.front()) && same_net(*s.rbegin(), s.back()) && same_net(*s.crbegin(), s.back())
            && same_net(*t.rbegin(), s.back()) && same_net(*t.crbegin(), s.back()) && same_net(*t.cbegin(), s.front()));
        e.same("const ends", s.cend() == s.end() && s.crend() == s.rend() && t.cend() == t.end() && t.crend() == t.rend());
        std::vector<Bytes> in;
        for (size_t k = 4; k < a.size(); ++k) {
            const U i = idx_arg<N>(a[k]);
            const N x = s.at(i);
            in.push_back(wu(i));
            at.push_back(jnet(x));
            auto it = s.begin(); it += i;
            e.same("index", same_net(s[i], x) && same_net(*it, x) && same_net(*(s.begin() + i), x) && same_net(s.begin()[i], x));
            e.same("index from the end", same_net(*(s.end() - U(s.size() - i)), x) && same_net(s.rbegin()[U(s.size() - 1 - i)], x) && same_net(*(s.rbegin() + U(s.size() - 1 - i)), x));
            e.same("any index", same_net(t.at(i), x) && same_net(t[i], x) && same_net(*(t.begin() + ip::uint128_t(i)), x) && same_net(t.rbegin()[ip::uint128_t(U(s.size() - 1 - i))], x));
            e.same("member", n.supernet_of(x) && x.subnet_of(n));
        }
        std::vector<std::string> ix; for (const auto& b : in) ix.push_back(js(b));
        e.i.raw("at", jarr(ix));
        if (s.size() != 0 && s.size() <= kAll) {
            for (auto it = s.begin(); it != s.end() && all.size() < 2 * kAll; ++it) all.push_back(jnet(*it));
            std::vector<std::string> b, f;
            for (auto it = s.rbegin(); it != s.rend() && b.size() < 2 * kAll; ++it) b.insert(b.begin(), jnet(*it));
            e.same("reverse", b == all);
            for (auto it = t.begin(); it != t.end() && f.size() < 2 * kAll; it++) f.push_back(jnet(*it));
            e.same("any forward", f == all);
            b.clear();
            for (auto it = t.rbegin(); it != t.rend() && b.size() < 2 * kAll; it++) b.insert(b.begin(), jnet(*it));
            e.same("any reverse", b == all);
        }
    } else e.i.raw("at", "[]");
    e.o.raw("at", jarr(at)).raw("all", jarr(all));
    rec.add(e);
}
template <typename N> void sup(const Args& a, Recorder& rec) {
    Ev e; e.op = "sup";
    const N n = net_arg<N>(a[1]);
    const ip_network m(n);
    const size_t diff = big(a[2]);
    ip::optional<size_t> nw;
    if (a[3] != "-") nw = ip::optional<size_t>(big(a[3]));
    e.i.raw("n", jnet(n))("diff", cap(diff))("new", nw.has_value() ? cap(nw.value()) : -1);
    error_code c = error_code::invalid_version, d = c, g = c;
    const N s = n.supernet(c, diff, nw);
    const ip_network t = m.supernet(d, diff, nw);
    const auto eq = [&](const N& x) { return same_net(x, s) && x.netmask() == s.netmask(); };
    e.same("any", c == d && same_net(t, s) && t.version() == n.version());
    e.same("throwing", throws_like([&] { return n.supernet(diff, nw); }, c, eq));
    e.same("any throwing", throws_like([&] { return m.supernet(diff, nw); }, c, [&](const ip_network& x) { return same_net(x, s); }));
    const auto eqm = [&](const ip_network& x) { return same_net(x, s); };
    if (!nw.has_value()) {
        e.same("one argument", eq(n.supernet(g, diff)) && g == c);
        g = error_code::invalid_version; e.same("any, one argument", eqm(m.supernet(g, diff)) && g == c);
        e.same("one argument, throwing", throws_like([&] { return n.supernet(diff); }, c, eq) && throws_like([&] { return m.supernet(diff); }, c, eqm));
    }
    if (!nw.has_value() && diff == 1) {
        g = error_code::invalid_version; e.same("no argument", eq(n.supernet(g)) && g == c);
        g = error_code::invalid_version; e.same("any, no argument", eqm(m.supernet(g)) && g == c);
        e.same("no argument, throwing", throws_like([&] { return n.supernet(); }, c, eq) && throws_like([&] { return m.supernet(); }, c, eqm));
    }
    e.o("code", int(c)).raw("net", jnet(s))("mask", bytes_of(s.netmask()))("holds", s.contains(n.network_address()) && s.contains(n.broadcast_address()));
    rec.add(e);
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        const bool v4 = is4arg(a[1]);
        if (a[0] == "subs") { if (v4) subs<ipv4_network>(a, rec); else subs<ipv6_network>(a, rec); }
        else { if (v4) sup<ipv4_network>(a, rec); else sup<ipv6_network>(a, rec); }
    }
}
