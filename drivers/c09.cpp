// C09: excluding a network from another.  Command: exc NET NET (any versions)
// A history that starts with "regs KIND" (4, 6 or a) is of three iterator registers:
//   put R NET NET   end R NET NET   inc R   pinc R Q   copy R Q ROUTE   swap R Q ROUTE   cmp R Q
#include "routes.hpp"

static const size_t kCap = 300;
template <typename S> std::vector<std::string> list(Ev& e, const S& s) {
    std::vector<std::string> r, p, q;
    auto it = s.begin();
    e.same("begins", it == s.cbegin() && s.end() == s.cend() && !(it != s.begin()));
    while (it != s.end() && r.size() < kCap) {
        e.same("arrow", same_net(*it, *(it.operator->())));
        const auto copy = it;
        e.same("equal to its copy", copy == it && !(copy != it));
        r.push_back(jnet(*it));
        ++it;
        e.same("copy kept", jnet(*copy) == r.back());
        e.same("moved on", it != copy);
        e.same("order of iterators", (it < copy) == (copy > it) && (copy < it) == (it > copy) && (it <= copy) == !(copy < it) && (it >= copy) == !(it < copy) &&
                                     (copy <= it) == !(it < copy) && (copy >= it) == !(copy < it) && !(it < copy && copy < it));
    }
    for (auto i2 = s.begin(); i2 != s.end() && p.size() < kCap;) { const auto old = i2++; p.push_back(jnet(*old)); }
    for (const auto& n : s) { q.push_back(jnet(n)); if (q.size() >= kCap) break; }
    e.same("post-increment", p == r);
    e.same("range for", q == r);
    e.same("empty", s.empty() == r.empty());
    return r;
}
template <typename N> void concrete(Ev& e, const N& x, const N& y, error_code code, const std::vector<std::string>& want) {
    error_code c = error_code::invalid_version;
    const auto s = x.address_exclude(y, c);
    const auto l = list(e, s);
    e.same("concrete", c == code && l == want);
    e.same("throwing", throws_like([&] { return x.address_exclude(y); }, c, [&](const ip::exclude_network_sequence<N>& t) { return list(e, t) == l; }));
}
template <typename T> void swap_iter(T& x, T& y, char route) {
    if (route == 's') std::swap(x, y);
    else if (route == 'u') { using std::swap; swap(x, y); }
    else { T t(std::move(x)); x = std::move(y); y = std::move(t); }
}
template <typename N, typename Get> void registers(const std::vector<Args>& cmds, Recorder& rec, const Get& get) {
    using S = ip::exclude_network_sequence<N>;
    typename S::const_iterator it[4];
    S seq[4];
    for (const auto& a : cmds) {
        if (a[0] == "regs") continue;
        Ev e; e.op = a[0];
        const int r = int(num(a[1]));
        int q = r;
        if (a[0] == "put" || a[0] == "end") {
            const N x = get(netany_arg(a[2])), y = get(netany_arg(a[3]));
            e.i.raw("x", jnet(x)).raw("y", jnet(y));
            error_code c = error_code::no_error;
            seq[r] = x.address_exclude(y, c);
            it[r] = a[0] == "put" ? seq[r].begin() : seq[r].end();
        } else if (a[0] == "inc") { auto& z = ++it[r]; e.same("++ returns itself", &z == &it[r]); }
        else {
            q = int(num(a[2]));
            if (a[0] == "pinc") { const auto old = it[r]++; it[q] = old; seq[q] = seq[r]; }
            else if (a[0] == "copy") { copy_by(it[q], it[r], a[3][0]); copy_by(seq[q], seq[r], a[3][0]); }
            else if (a[0] == "swap") { swap_iter(it[r], it[q], a[3][0]); swap_iter(seq[r], seq[q], a[3][0]); }
        }
        e.i("r", r)("q", q);
        std::vector<std::string> all;
        for (int i = 1; i <= 3; ++i) {
            const bool end = it[i] == seq[i].end();
            e.same("end", end == !(it[i] != seq[i].end()) && end == (it[i] == seq[i].cend()));
            all.push_back(end ? "[]" : jarr({ jnet(*it[i]) }));
        }
        const bool eq = a[0] == "swap" || it[r] == it[q];
        e.same("equality", (it[r] == it[q]) == (it[q] == it[r]) && (it[r] == it[q]) == !(it[r] != it[q]));
        e.o.raw("all", jarr(all))("eq", eq);
        rec.add(e);
    }
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    if (cmds[0][0] == "regs") {
        switch (cmds[0][1][0]) {
            case '4': registers<ipv4_network>(cmds, rec, [](const ip_network& n) { return n.v4().value(); }); break;
            case '6': registers<ipv6_network>(cmds, rec, [](const ip_network& n) { return n.v6().value(); }); break;
            default: registers<ip_network>(cmds, rec, [](const ip_network& n) { return n; });
        }
        return;
    }
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        const ip_network x = netany_arg(a[1]), y = netany_arg(a[2]);
        e.i.raw("x", jnet(x)).raw("y", jnet(y));
        error_code c = error_code::unexpected_symbol;
        const auto s = x.address_exclude(y, c);
        const auto l = list(e, s);
        if (x.is_v4() && y.is_v4()) concrete(e, x.v4().value(), y.v4().value(), c, l);
        if (x.is_v6() && y.is_v6()) concrete(e, x.v6().value(), y.v6().value(), c, l);
        e.same("any throwing", throws_like([&] { return x.address_exclude(y); }, c, [&](const ip::exclude_network_sequence<ip_network>& t) { return list(e, t) == l; }));
        e.o("code", int(c)).raw("all", jarr(l));
        rec.add(e);
    }
}
