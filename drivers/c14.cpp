// C14: categories.  Commands: a ADDR   n NET
#include "common.hpp"
template <typename T> bool site(const T& x, std::true_type) { return x.is_site_local(); }
template <typename T> bool site(const T&, std::false_type) { return false; }
template <typename T, typename Has> Obj cats(const T& x, Has has) {
    Obj o;
    o("multicast", x.is_multicast())("private", x.is_private())("global", x.is_global())("reserved", x.is_reserved())("loopback", x.is_loopback())
     ("link_local", x.is_link_local())("unspecified", x.is_unspecified())("site_local", site(x, has));
    return o;
}
template <typename T, typename Has, typename Any> void run(Ev& e, const T& x, Has has, const Any& any) {
    const Obj o = cats(x, has);
    e.same("any", cats(any, std::true_type()).s == o.s);
    const T copy(x); const Any moved(std::move(const_cast<T&>(copy)));
    e.same("copies", cats(copy, has).s == o.s && cats(moved, std::true_type()).s == o.s);
    e.o = o;
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    const std::true_type yes; const std::false_type no;
    for (const auto& a : cmds) {
        Ev e;
        if (a[0] == "a") {
            e.op = "addr";
            if (is4arg(a[1])) { const auto x = addr_arg<ipv4_address>(a[1]); e.i("b", bytes_of(x)); run(e, x, no, ip_address(x)); }
            else { const auto x = addr_arg<ipv6_address>(a[1]); e.i("b", bytes_of(x)); run(e, x, yes, ip_address(x)); }
        } else {
            e.op = "net";
            if (is4arg(a[1])) { const auto x = net4_arg(a[1]); e.i.raw("n", jnet(x)); run(e, x, no, ip_network(x)); }
            else { const auto x = net6_arg(a[1]); e.i.raw("n", jnet(x)); run(e, x, yes, ip_network(x)); }
        }
        rec.add(e);
    }
}
