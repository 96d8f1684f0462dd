// C01: IPv4 text.  Command: p HEXTEXT
#include "routes.hpp"

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        const std::string s = unhex(a[1]);
        Ev e; e.op = "parse";
        e.i("t", txt(s));
        error_code code = error_code::invalid_version;
        const auto r = ipv4_address::parse(s, code);
        e.o("code", int(code))("b", bytes_of(r));
        const auto eq = [&](const ipv4_address& x) { return same_addr(x, r); };
        all_routes<ipv4_address>(e, s, code, eq);
        LITERAL_ROUTES(e, v4, s, ipv4_address::base_max_string_len, code, eq, ipv4_address());
        // the stored value, not only the reported one: text produced from it parses to it again
        if (code == error_code::no_error) {
            error_code c = error_code::no_error;
            e.same("reparse", same_addr(ipv4_address::parse(r.to_string(), c), r) && c == error_code::no_error);
        }
        rec.add(e);
    }
}
