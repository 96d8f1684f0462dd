// Histories of four iterator registers over one sequence; every step is done on the concrete iterator and
// on the version-independent one.  Commands:
//   seq NET PLEN    registers 1..4 = begin, end, rbegin, rend of the subnets (PLEN >= 0) or the hosts (PLEN = -1)
//   start R ADDR    R = an iterator made from an address (hosts only)
//   inc R  dec R  pinc R Q  pdec R Q  copy R Q  turn R Q
//   add R Q D  sub R Q D  nplus R Q D  adde R D  sube R D  at R D   with D = s<signed decimal> or u<hex word>
//   cmp R Q
// A history that starts with "mix" is of version-independent registers, each over a sequence of its own:
//   put R NET PLEN WHICH   with WHICH = b e B E for begin, end, rbegin, rend;   swap R Q ROUTE   rev   and the others
#pragma once
#include "common.hpp"

inline std::string jblock(const ip_address& a, bool in, int plen) {
    Obj o; o("addr", in ? bytes_of_any(a) : Bytes())("plen", plen); return o.done();
}
inline ip_address any_addr(const ipv4_address& a) { return ip_address(a); }
inline ip_address any_addr(const ipv6_address& a) { return ip_address(a); }
inline ip_address any_addr(const ip_address& a) { return a; }
inline ip_address any_addr(const ipv4_network& n) { return ip_address(n.network_address()); }
inline ip_address any_addr(const ipv6_network& n) { return ip_address(n.network_address()); }
inline ip_address any_addr(const ip_network& n) { return n.network_address(); }
inline int plen_of(const ipv4_address&) { return 32; }
inline int plen_of(const ipv6_address&) { return 128; }
inline int plen_of(const ip_address& a) { return a.is_v4() ? 32 : 128; }
template <typename N> int plen_of(const N& n) { return int(n.prefixlen()); }

// the position, kept only to know whether there is an element to look at
struct Pos {
    // sign-extended 192-bit number: hi is the part above 128 bits
    int64_t hi; ip::uint128_t lo;
    void add(const Pos& o) { const auto old = lo; lo += o.lo; hi += o.hi + (lo < old ? 1 : 0); }
    Pos neg() const { Pos r{~hi, ~lo}; r.add(Pos{0, ip::uint128_t(1)}); return r; }
    // below 2^plen and not negative
    bool in(int plen) const { return hi == 0 && (plen >= 128 || (lo >> unsigned(plen)) == 0); }
};
template <typename U> struct Delta { bool is_signed; int64_t s; U u; Pos pos; Bytes word; };

template <typename Seq, typename U>
struct Machine {
    using Fwd = typename Seq::const_iterator;
    using Rev = typename Seq::const_reverse_iterator;
    using Value = typename Seq::value_type;
    struct Reg { bool rev = false; Fwd f{}; Rev r{}; };
    Reg reg[5];
    void seq(Ev& e, const Seq& s) {
        reg[1].rev = reg[2].rev = false; reg[3].rev = reg[4].rev = true;
        reg[1].f = s.begin(); reg[2].f = s.end(); reg[3].r = s.rbegin(); reg[4].r = s.rend();
        e.same("cbegin", s.cbegin() == s.begin() && s.cend() == s.end() && s.crbegin() == s.rbegin() && s.crend() == s.rend());
    }
    Value value(Ev& e, int i) {
        Reg& x = reg[i];
        const Value v = x.rev ? *x.r : *x.f;
        const Value w = x.rev ? *(x.r.operator->()) : *(x.f.operator->());
        e.same("arrow", v == w);
        return v;
    }
    template <typename It, typename T> static It moved(Ev& e, const It& it, const std::string& op, const T& n) {
        if (op == "add") { It r = it + n; It q(it); q += n; e.same("+ and +=", r == q); return r; }
        if (op == "nplus") return n + it;
        It r = it - n; It q(it); q -= n; e.same("- and -=", r == q); return r;
    }
    template <typename It> static void step(Ev& e, It& x, It& y, bool same, const std::string& op, const Delta<U>& d) {
        if (op == "inc") { It& z = ++x; e.same("++ returns itself", &z == &x); }
        else if (op == "dec") { It& z = --x; e.same("-- returns itself", &z == &x); }
        else if (op == "pinc") { It o = x++; if (!same) y = o; else x = o; }
        else if (op == "pdec") { It o = x--; if (!same) y = o; else x = o; }
        else if (op == "copy") { const It c(x); y = c; }
        else if (op == "adde") { It& z = d.is_signed ? (x += d.s) : (x += d.u); e.same("+= returns itself", &z == &x); }
        else if (op == "sube") { It& z = d.is_signed ? (x -= d.s) : (x -= d.u); e.same("-= returns itself", &z == &x); }
        else { const It r = d.is_signed ? moved(e, x, op, d.s) : moved(e, x, op, d.u); y = r; }
    }
    void run(Ev& e, int r, int q, const std::string& op, const Delta<U>& d) {
        if (op == "turn") {
            Reg n = reg[r]; n.rev = !n.rev;
            if (n.rev) n.r = Rev(reg[r].f); else n.f = reg[r].r.base();
            reg[q] = n;
            return;
        }
        if (op == "inc" || op == "dec" || op == "adde" || op == "sube") q = r;
        reg[q].rev = reg[r].rev;
        if (reg[r].rev) step(e, reg[r].r, reg[q].r, r == q, op, d); else step(e, reg[r].f, reg[q].f, r == q, op, d);
    }
    template <typename It> static Value at(const It& x, const Delta<U>& d) { return d.is_signed ? x[d.s] : x[d.u]; }
    Value at(int r, const Delta<U>& d) { return reg[r].rev ? at(reg[r].r, d) : at(reg[r].f, d); }
    template <typename It> static std::string cmp(Ev& e, const It& x, const It& y, int w) {
        const bool eq = x == y, lt = x < y, gt = x > y;
        e.same("!=", (x != y) == !eq);
        e.same("<=", (x <= y) == (lt || eq));
        e.same(">=", (x >= y) == (gt || eq));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
        const auto c = x <=> y;
        e.same("<=>", (c < 0) == lt && (c > 0) == gt && (c == 0) == eq);
#endif
        Obj o;
        const Bytes u = wu(x.uint_diff(y));
        o("eq", eq)("lt", lt)("gt", gt)("diff", w8(uint64_t(x - y)))("udiff", int(u.size()) > w ? Bytes(u.end() - w, u.end()) : u);
        return o.done();
    }
    std::string cmp(Ev& e, int r, int q, int w) { return reg[r].rev ? cmp(e, reg[r].r, reg[q].r, w) : cmp(e, reg[r].f, reg[q].f, w); }
};
template <typename U> U word_of(const std::string& h);
template <> inline uint32_t word_of<uint32_t>(const std::string& h) { return uint32_t(u64arg(h)); }
template <> inline ip::uint128_t word_of<ip::uint128_t>(const std::string& h) { return u128arg(h); }

template <typename N, bool Hosts> struct Both {
    using A = typename N::ip_address_type;
    using U = typename N::uint_type;
    using Seq = typename std::conditional<Hosts, ip::hosts_sequence<A>, ip::subnets_sequence<N>>::type;
    using AnySeq = typename std::conditional<Hosts, ip::hosts_any_sequence, ip::subnets_any_sequence<ip_network>>::type;
    Machine<Seq, U> one;
    Machine<AnySeq, ip::uint128_t> any;
    Pos pos[5]; bool rev[5] = {};
    int plen = 0;

    static ip::hosts_sequence<A> get(const N& n, size_t, std::true_type) { return n.hosts(); }
    static ip::subnets_sequence<N> get(const N& n, size_t p, std::false_type) { return n.subnets(1, ip::optional<size_t>(p)); }
    static ip::hosts_any_sequence gety(const ip_network& n, size_t, std::true_type) { return n.hosts(); }
    static ip::subnets_any_sequence<ip_network> gety(const ip_network& n, size_t p, std::false_type) { return n.subnets(1, ip::optional<size_t>(p)); }

    Pos index(const A& a) const {
        ip::uint128_t v(a.to_uint());
        const unsigned sh = unsigned(8 * A::base_size - plen);
        return Pos{0, sh >= 128 ? ip::uint128_t(0) : v >> sh};
    }
    void starts(Ev&, int, const std::string&, std::false_type) {}
    void starts(Ev& e, int r, const std::string& arg, std::true_type) {
        const A a = addr_arg<A>(arg);
        e.i("a", bytes_of(a));
        one.reg[r].rev = any.reg[r].rev = rev[r] = false;
        one.reg[r].f = ip::ip_address_iterator<A>(a);
        any.reg[r].f = typename AnySeq::const_iterator(ip::ip_address_iterator<A>(a));
        pos[r] = index(a);
    }
    std::string see(Ev& e, int r) {
        Pos p = pos[r];
        if (rev[r]) p.add(Pos{-1, ~ip::uint128_t(0)});
        const auto v = one.value(e, r);
        const auto w = any.value(e, r);
        const bool in = p.in(plen);
        if (in) {
            e.same("any element", same_addr(any_addr(v), any_addr(w)) && plen_of(v) == plen_of(w));
            e.same("no scope", scope_of_any(any_addr(v)).empty());
        }
        return jblock(any_addr(v), in, in ? plen_of(v) : plen);
    }
    Delta<U> delta(Ev& e, const std::string& s) {
        Delta<U> d;
        d.is_signed = s[0] == 's';
        e.i("signed", d.is_signed);
        if (d.is_signed) { d.s = std::strtoll(s.c_str() + 1, nullptr, 10); d.word = w8(uint64_t(d.s)); d.pos = d.s < 0 ? Pos{-1, ip::uint128_t(~uint64_t(0), uint64_t(d.s))} : Pos{0, ip::uint128_t(uint64_t(d.s))}; }
        else { d.u = word_of<U>(s.substr(1)); d.word = wu(d.u); d.pos = Pos{0, ip::uint128_t(d.u)}; }
        e.i("d", d.word);
        return d;
    }
    static Delta<ip::uint128_t> wide(const Delta<U>& d) { Delta<ip::uint128_t> w; w.is_signed = d.is_signed; w.s = d.s; w.u = ip::uint128_t(d.u); return w; }
    void shift(int to, int from, const Pos& by) { Pos p = pos[from]; p.add(rev[from] ? by.neg() : by); pos[to] = p; rev[to] = rev[from]; }

    void run(const std::vector<Args>& cmds, Recorder& rec) {
        for (const auto& a : cmds) {
            Ev e; e.op = a[0];
            if (a[0] == "seq") {
                const N n = net_arg<N>(a[1]);
                const ip_network m(n);
                const int p = Hosts ? -1 : int(num(a[2]));
                plen = Hosts ? int(8 * A::base_size) : p;
                e.i.raw("n", jnet(n))("p", p)("hosts", Hosts);
                const Seq s = get(n, size_t(p), std::integral_constant<bool, Hosts>{});
                const AnySeq t = gety(m, size_t(p), std::integral_constant<bool, Hosts>{});
                one.seq(e, s); any.seq(e, t);
                // where the ends are, from the network's own addresses
                rev[1] = rev[2] = false; rev[3] = rev[4] = true;
                Pos b = index(n.network_address()), z = index(n.broadcast_address());
                const bool all = int(n.prefixlen()) >= int(8 * A::base_size) - 1;
                if (Hosts && !all) b.add(Pos{0, 1});
                if (!Hosts || all || A::base_size == 16) z.add(Pos{0, 1});
                pos[1] = pos[4] = b; pos[2] = pos[3] = z;
                e.o.raw("b", see(e, 1)).raw("e", see(e, 2)).raw("rb", see(e, 3)).raw("re", see(e, 4));
                rec.add(e);
                continue;
            }
            const int r = int(num(a[1]));
            e.i("r", r);
            if (a[0] == "cmp") {
                const int q = int(num(a[2]));
                e.i("q", q);
                const std::string x = one.cmp(e, r, q, int(A::base_size)), y = any.cmp(e, r, q, int(A::base_size));
                e.same("any comparison", x == y);
                e.o.s = x.substr(0, x.size() - 1);
                rec.add(e);
                continue;
            }
            if (a[0] == "at") {
                const Delta<U> d = delta(e, a[2]);
                const auto v = one.at(r, d);
                const auto w = any.at(r, wide(d));
                e.same("any element", same_addr(any_addr(v), any_addr(w)) && plen_of(v) == plen_of(w));
                e.o.raw("x", jblock(any_addr(v), true, plen_of(v)));
                rec.add(e);
                continue;
            }
            int q = r;
            if (a[0] == "start") starts(e, r, a[2], std::integral_constant<bool, Hosts>{});
            else {
                Delta<U> d{}; d.pos = Pos{0, 0};
                const std::string& op = a[0];
                const bool inplace = op == "inc" || op == "dec" || op == "adde" || op == "sube";
                if (!inplace) q = int(num(a[2]));
                if (op == "add" || op == "sub" || op == "nplus") d = delta(e, a[3]);
                if (op == "adde" || op == "sube") d = delta(e, a[2]);
                one.run(e, r, q, op, d);
                any.run(e, r, q, op, wide(d));
                const Pos up{0, 1}, down{-1, ~ip::uint128_t(0)};
                if (op == "inc") shift(r, r, up);
                else if (op == "dec") shift(r, r, down);
                else if (op == "pinc" || op == "pdec") { const Pos old = pos[r]; const bool o = rev[r]; if (q != r) { shift(r, r, op == "pinc" ? up : down); pos[q] = old; rev[q] = o; } }
                else if (op == "copy") { pos[q] = pos[r]; rev[q] = rev[r]; }
                else if (op == "turn") { const bool o = rev[r]; pos[q] = pos[r]; rev[q] = !o; }
                else if (op == "add" || op == "nplus") shift(q, r, d.pos);
                else if (op == "sub") shift(q, r, d.pos.neg());
                else if (op == "adde") shift(r, r, d.pos);
                else if (op == "sube") shift(r, r, d.pos.neg());
            }
            e.i("q", q);
            e.o.raw("x", see(e, r)).raw("y", see(e, q));
            rec.add(e);
        }
    }
};

// version-independent iterators of both versions side by side
template <bool Hosts> struct Mixed {
    using AnySeq = typename std::conditional<Hosts, ip::hosts_any_sequence, ip::subnets_any_sequence<ip_network>>::type;
    using D = Delta<ip::uint128_t>;
    Machine<AnySeq, ip::uint128_t> m;
    struct At { Pos pos; bool rev; int plen; };
    At at[5];
    std::string see(Ev& e, int r) {
        Pos p = at[r].pos;
        if (at[r].rev) p.add(Pos{-1, ~ip::uint128_t(0)});
        const auto v = m.value(e, r);
        const bool in = p.in(at[r].plen);
        return jblock(any_addr(v), in, in ? plen_of(v) : at[r].plen);
    }
    template <typename N> static void ends(const N& n, int p, Pos& b, Pos& z) {
        using A = typename N::ip_address_type;
        const unsigned w = unsigned(8 * A::base_size), sh = w - unsigned(p);
        auto index = [&](const A& a) { const ip::uint128_t v(a.to_uint()); return Pos{0, sh >= 128 ? ip::uint128_t(0) : v >> sh}; };
        b = index(n.network_address()); z = index(n.broadcast_address());
        const bool all = unsigned(n.prefixlen()) >= w - 1;
        if (Hosts && !all) b.add(Pos{0, 1});
        if (!Hosts || all || w == 128) z.add(Pos{0, 1});
    }
    static ip::hosts_any_sequence get(const ip_network& n, size_t, std::true_type) { return n.hosts(); }
    static ip::subnets_any_sequence<ip_network> get(const ip_network& n, size_t p, std::false_type) { return n.subnets(1, ip::optional<size_t>(p)); }
    void put(Ev& e, int r, const std::string& net, int p, char which) {
        Pos b{0, 0}, z{0, 0};
        ip_network n;
        if (is4arg(net)) { const auto x = net_arg<ipv4_network>(net); n = x; at[r].plen = Hosts ? 32 : p; ends(x, at[r].plen, b, z); e.i.raw("n", jnet(x)); }
        else { const auto x = net_arg<ipv6_network>(net); n = x; at[r].plen = Hosts ? 128 : p; ends(x, at[r].plen, b, z); e.i.raw("n", jnet(x)); }
        e.i("p", p)("hosts", Hosts)("rev", which == 'B' || which == 'E')("last", which == 'e' || which == 'B');
        const AnySeq s = get(n, size_t(p), std::integral_constant<bool, Hosts>{});
        at[r].rev = m.reg[r].rev = which == 'B' || which == 'E';
        at[r].pos = which == 'b' || which == 'E' ? b : z;
        switch (which) {
            case 'b': m.reg[r].f = s.begin(); break;
            case 'e': m.reg[r].f = s.end(); break;
            case 'B': m.reg[r].r = s.rbegin(); break;
            default: m.reg[r].r = s.rend();
        }
    }
    D delta(Ev& e, const std::string& s) {
        D d;
        d.is_signed = s[0] == 's';
        e.i("signed", d.is_signed);
        if (d.is_signed) { d.s = std::strtoll(s.c_str() + 1, nullptr, 10); d.word = w8(uint64_t(d.s)); d.pos = d.s < 0 ? Pos{-1, ip::uint128_t(~uint64_t(0), uint64_t(d.s))} : Pos{0, ip::uint128_t(uint64_t(d.s))}; }
        else { d.u = u128arg(s.substr(1)); d.word = wu(d.u); d.pos = Pos{0, d.u}; }
        e.i("d", d.word);
        return d;
    }
    template <typename T> static void exchange(T& x, T& y, char route) {
        if (route == 's') std::swap(x, y);
        else if (route == 'u') { using std::swap; swap(x, y); }
        else { T t(std::move(x)); x = std::move(y); y = std::move(t); }
    }
    void shift(int to, int from, const Pos& by) { At x = at[from]; x.pos.add(x.rev ? by.neg() : by); at[to] = x; }
    void run(const std::vector<Args>& cmds, Recorder& rec) {
        for (int i = 1; i <= 4; ++i) at[i] = At{Pos{0, 0}, false, Hosts ? 32 : 0};
        for (const auto& a : cmds) {
            if (a[0] == "mix") continue;
            Ev e; e.op = a[0];
            const int r = a.size() > 1 ? int(num(a[1])) : 1;
            int q = r;
            e.i("r", r)("mixed", true);
            const std::string& op = a[0];
            if (op == "put") put(e, r, a[2], int(num(a[3])), a[4][0]);
            else if (op == "cmp") {
                q = int(num(a[2])); e.i("q", q);
                const std::string x = m.cmp(e, r, q, 16);
                e.o.s = x.substr(0, x.size() - 1);
                rec.add(e);
                continue;
            } else if (op == "at") {
                const D d = delta(e, a[2]);
                const auto v = m.at(r, d);
                e.o.raw("x", jblock(any_addr(v), true, plen_of(v)));
                rec.add(e);
                continue;
            } else if (op == "swap") {
                q = int(num(a[2]));
                exchange(m.reg[r].f, m.reg[q].f, a[3][0]); exchange(m.reg[r].r, m.reg[q].r, a[3][0]); std::swap(m.reg[r].rev, m.reg[q].rev);
                std::swap(at[r], at[q]);
            } else if (op == "rev") { std::reverse(m.reg + 1, m.reg + 5); std::reverse(at + 1, at + 5); }
            else {
                D d{}; d.pos = Pos{0, 0};
                const bool inplace = op == "inc" || op == "dec" || op == "adde" || op == "sube";
                if (!inplace) q = int(num(a[2]));
                if (op == "add" || op == "sub" || op == "nplus") d = delta(e, a[3]);
                if (op == "adde" || op == "sube") d = delta(e, a[2]);
                m.run(e, r, q, op, d);
                const Pos up{0, 1}, down{-1, ~ip::uint128_t(0)};
                if (op == "inc") shift(r, r, up);
                else if (op == "dec") shift(r, r, down);
                else if (op == "pinc" || op == "pdec") { const At old = at[r]; if (q != r) { shift(r, r, op == "pinc" ? up : down); at[q] = old; } }
                else if (op == "copy") at[q] = at[r];
                else if (op == "turn") { const At o = at[r]; at[q] = o; at[q].rev = !o.rev; }
                else if (op == "add" || op == "nplus") shift(q, r, d.pos);
                else if (op == "sub") shift(q, r, d.pos.neg());
                else if (op == "adde") shift(r, r, d.pos);
                else if (op == "sube") shift(r, r, d.pos.neg());
            }
            e.i("q", q);
            std::vector<std::string> all; for (int i = 1; i <= 4; ++i) all.push_back(see(e, i));
            e.o.raw("all", jarr(all));
            rec.add(e);
        }
    }
};
