// C15: embedded IPv4 addresses.  Commands: emb ADDR
#include "common.hpp"
template <typename T> Obj embedded(const T& x) {
    Obj o;
    const auto m = x.ipv4_mapped(), s = x.sixtofour();
    const auto t = x.teredo();
    o("mapped", m.has_value() ? bytes_of(m.value()) : Bytes())("sixtofour", s.has_value() ? bytes_of(s.value()) : Bytes())
     ("server", t.has_value() ? bytes_of(t.value().first) : Bytes())("client", t.has_value() ? bytes_of(t.value().second) : Bytes());
    return o;
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        const ip_address any = is4arg(a[1]) ? ip_address(addr_arg<ipv4_address>(a[1])) : ip_address(addr_arg<ipv6_address>(a[1]));
        e.i("b", bytes_of_any(any));
        e.o = embedded(any);
        if (any.is_v6()) {
            const auto x = any.v6().value();
            e.same("concrete", embedded(x).s == e.o.s);
            e.same("parsed", embedded(ipv6_address::parse(x.to_string())).s == e.o.s);
            // and back: the mapped form of an IPv4 address
            const auto m = x.ipv4_mapped();
            if (m) {
                const auto back = ipv6_address::parse("::ffff:" + m->to_string());
                e.same("mapped text", bytes_of(back) == bytes_of(x) && back.ipv4_mapped().value() == m.value());
            }
        }
        rec.add(e);
    }
}
