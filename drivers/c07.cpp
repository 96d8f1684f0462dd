// C07: relations between networks.  Commands: rel NET NET (any versions)   has NET ADDR (any versions)
#include "common.hpp"

template <typename N> void concrete(Ev& e, const N& x, const N& y, const ip_network& mx, const ip_network& my) {
    e.same("overlaps", x.overlaps(y) == mx.overlaps(my) && y.overlaps(x) == my.overlaps(mx));
    e.same("subnet_of", x.subnet_of(y) == mx.subnet_of(my) && y.subnet_of(x) == my.subnet_of(mx));
    e.same("supernet_of", x.supernet_of(y) == mx.supernet_of(my) && y.supernet_of(x) == my.supernet_of(mx));
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        Ev e; e.op = a[0];
        const ip_network x = netany_arg(a[1]);
        e.i.raw("x", jnet(x));
        if (a[0] == "rel") {
            const ip_network y = netany_arg(a[2]);
            e.i.raw("y", jnet(y));
            if (x.is_v4() && y.is_v4()) concrete(e, x.v4().value(), y.v4().value(), x, y);
            if (x.is_v6() && y.is_v6()) concrete(e, x.v6().value(), y.v6().value(), x, y);
            e.o("overlaps", x.overlaps(y))("overlapped", y.overlaps(x))("subnet", x.subnet_of(y))("supernet", x.supernet_of(y));
        } else {
            const ip_address p = is4arg(a[2]) ? ip_address(addr_arg<ipv4_address>(a[2])) : ip_address(addr_arg<ipv6_address>(a[2]));
            e.i("b", bytes_of_any(p));
            const bool has = x.contains(p);
            if (x.is_v4() && p.is_v4()) e.same("concrete", x.v4().value().contains(p.v4().value()) == has);
            if (x.is_v6() && p.is_v6()) e.same("concrete", x.v6().value().contains(p.v6().value()) == has);
            e.o("has", has);
        }
        rec.add(e);
    }
}
