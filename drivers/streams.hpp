#pragma once
// C19, C22: streams.  Four streams per history: 1 and 2 narrow, 3 and 4 wide, each both read and written.
#include "units.hpp"
#include <iomanip>
#include <sstream>

// characters not read yet on one side, characters put on the other
template <typename Ch> struct Buf : std::basic_streambuf<Ch> {
    using Tr = std::char_traits<Ch>;
    std::basic_string<Ch> in, out;
    typename Tr::int_type overflow(typename Tr::int_type c) override { if (!Tr::eq_int_type(c, Tr::eof())) out += Tr::to_char_type(c); return Tr::not_eof(c); }
    std::basic_string<Ch> rest() const { return std::basic_string<Ch>(this->gptr(), size_t(this->egptr() - this->gptr())); }
    void feed(const std::basic_string<Ch>& u) { in = (this->gptr() ? rest() : std::basic_string<Ch>()) + u; this->setg(&in[0], &in[0], &in[0] + in.size()); }
};
template <typename Ch> struct Both {
    Buf<Ch> buf; std::basic_iostream<Ch> s;
    Both() : s(&buf) { buf.feed({}); }
    std::string seen() { Obj o; o("eof", s.eof())("fail", s.fail())("w", int(s.width()))("left", int(buf.rest().size())); return o.done(); }
};

template <typename Ch> void manip(std::basic_iostream<Ch>& s, const std::string& m) {
    if (m == "full") s << ip::full; else if (m == "compact") s << ip::compact; else if (m == "compressed") s << ip::compressed;
    else if (m == "strict") s >> ip::strict; else if (m == "non_strict") s >> ip::non_strict;
    else if (m == "uppercase") s << std::uppercase; else if (m == "nouppercase") s << std::nouppercase;
    else if (m == "left") s << std::left; else if (m == "right") s << std::right; else if (m == "internal") s << std::internal;
    else if (m == "skipws") s >> std::skipws; else if (m == "noskipws") s >> std::noskipws;
    else if (m == "hex") s << std::hex; else if (m == "dec") s << std::dec; else if (m == "oct") s << std::oct;
    else if (m == "showbase") s << std::showbase; else if (m == "unitbuf") s << std::unitbuf; else if (m == "boolalpha") s << std::boolalpha;
    else { std::fprintf(stderr, "bad manipulator\n"); std::_Exit(3); }
}
template <typename Ch, typename V> void put(Both<Ch>& b, const V& v, const std::string& jv, Ev& e) {
    const auto flags = b.s.flags() ; const Ch fill = b.s.fill();
    const V before = v;
    e.i.raw("v", jv);
    b.s << v;
    e.same("flags", b.s.flags() == flags); e.same("fill", b.s.fill() == fill); e.same("value", v == before);
}
template <typename Ch, typename V> V get(Both<Ch>& b, const V& old, Ev& e) {
    const auto flags = b.s.flags(); const Ch fill = b.s.fill();
    V v = old;
    auto& r = b.s >> v;
    e.same("stream", &r == &static_cast<std::basic_istream<Ch>&>(b.s)); e.same("flags", b.s.flags() == flags); e.same("fill", b.s.fill() == fill);
    return v;
}
template <typename Ch> void step(Both<Ch>& b, Both<Ch>& o, const Args& a, Recorder& rec) {
    Ev e; e.op = a[0]; e.i("s", int(num(a[1])));
    const size_t had = b.buf.out.size();
    bool puts = false;
    if (a[0] == "feed") { const auto u = units_of<Ch>(a[2]); e.i.raw("u", junits(u)); b.buf.feed(u); }
    else if (a[0] == "clear") b.s.clear();
    else if (a[0] == "width") { e.i("n", int(num(a[2]))); b.s << std::setw(int(num(a[2]))); }
    else if (a[0] == "fill") { e.i("n", int(num(a[2]))); b.s << std::setfill(Ch(num(a[2]))); }
    else if (a[0] == "manip") { e.i.str("m", a[2]); manip(b.s, a[2]); }
    else if (a[0] == "copyfmt") { e.i("from", int(num(a[2]))); b.s.copyfmt(o.s); }
    else if (a[0] == "other") { const std::string t = unhex(a[2]); e.i("t", txt(t)); b.s << widen<Ch>(t); puts = true; }
    else if (a[0] == "word") { std::basic_string<Ch> t; b.s >> t; e.o.raw("t", junits(t)); }
    else if (a[0] == "ins") {
        puts = true;
        const std::string& k = a[2];
        if (k == "v4") { const auto v = addr_arg<ipv4_address>(a[3]); put(b, v, jaddr(v), e); }
        else if (k == "v6") { const auto v = addr_arg<ipv6_address>(a[3]); put(b, v, jaddr(v), e); }
        else if (k == "any") { const auto v = addr_arg<ip_address>(a[3]); put(b, v, jaddr(v), e); }
        else if (k == "n4") { const auto v = net4_arg(a[3]); put(b, v, jnet(v), e); }
        else if (k == "n6") { const auto v = net6_arg(a[3]); put(b, v, jnet(v), e); }
        else { const auto v = netany_arg(a[3]); put(b, v, jnet(v), e); }
    } else if (a[0] == "insu") { puts = true; const auto v = u128arg(a[2]); put(b, v, js(w16(v)), e); }
    else if (a[0] == "extu") { const auto v = u128arg(a[2]); e.i("old", w16(v)); e.o("v", w16(get(b, v, e))); }
    else if (a[0] == "ext") {
        const std::string& k = a[2]; e.i.str("kind", k);
        if (k == "v4") e.o.raw("v", jaddr(get(b, ipv4_address::from_uint(0x01020304), e)));
        else if (k == "v6") e.o.raw("v", jaddr(get(b, ipv6_address::from_uint(77), e)));
        else if (k == "any") e.o.raw("v", jaddr(get(b, ip_address::from_uint(ip::uint128_t(77)), e)));
        else if (k == "n4") e.o.raw("v", jnet(get(b, net4_arg("0a000000/8"), e)));
        else if (k == "n6") e.o.raw("v", jnet(get(b, net6_arg("20010db8000000000000000000000000/32"), e)));
        else e.o.raw("v", jnet(get(b, netany_arg("20010db8000000000000000000000000/32"), e)));
    } else { std::fprintf(stderr, "bad command\n"); std::_Exit(3); }
    if (puts) e.o.raw("out", junits(b.buf.out.substr(had))); else e.same("silent", b.buf.out.size() == had);
    e.same("bad", !b.s.bad());
    e.o.raw("s", b.seen());
    rec.add(e);
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    Both<char> n1, n2; Both<wchar_t> w1, w2;
    for (const auto& a : cmds) {
        const int i = int(num(a[1])), j = a[0] == "copyfmt" ? int(num(a[2])) : i;
        if (i <= 2) step(i == 1 ? n1 : n2, j == 1 ? n1 : n2, a, rec);
        else step(i == 3 ? w1 : w2, j == 3 ? w1 : w2, a, rec);
    }
}
