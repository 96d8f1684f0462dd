// C03: formatting.  Commands: a ADDR   n NET   (hex[%hexscope][/plen])
#include "routes.hpp"
#include <sstream>

static const ip::format kFmt[3] = { ip::format::full, ip::format::compact, ip::format::compressed };
#ifdef IPADDRESS_NO_OVERLOAD_STD
template <typename Ch, typename T> bool streams(const T&, int, const std::string&) { return true; }
#else
template <typename Ch> std::basic_ostream<Ch>& use(std::basic_ostream<Ch>& o, int f) { return f == 0 ? o << ip::full : f == 1 ? o << ip::compact : o << ip::compressed; }

template <typename Ch, typename T> NOINLINE bool streams(const T& x, int f, const std::string& want) {
    std::basic_ostringstream<Ch> o;
    use(o, f) << x;
    return is_text(o.str(), want);
}
#endif
template <typename T> NOINLINE void strings(Ev& e, const T& x, const char* who) {
    for (int f = 0; f < 3; ++f) {
        const std::string want = x.to_string(kFmt[f]);
        e.same(who, is_text(x.to_wstring(kFmt[f]), want) && is_text(x.to_u16string(kFmt[f]), want) && is_text(x.to_u32string(kFmt[f]), want));
#if __cpp_char8_t >= 201811L
        e.same(who, is_text(x.to_u8string(kFmt[f]), want));
#endif
        e.same("stream", streams<char>(x, f, want) && streams<wchar_t>(x, f, want));
    }
    const std::string def = x.to_string();
    e.same("default format", def == x.to_string(ip::format::compressed));
    e.same("std::to_string", std_string(x) == def && is_text(std_wstring(x), def));
    e.same("conversion", std::string(x) == def && is_text(std::wstring(x), def) && is_text(std::u16string(x), def) && is_text(std::u32string(x), def));
    e.same("default strings", default_texts(x, def));
#if __cpp_char8_t >= 201811L
    e.same("conversion", is_text(std::u8string(x), def));
#endif
#ifndef IPADDRESS_NO_OVERLOAD_STD
    std::ostringstream o; o << x; std::wostringstream w; w << x;
    e.same("default stream", o.str() == def && is_text(w.str(), def));
#endif
}
template <typename T> NOINLINE bool back(const T& x) {
    bool ok = true;
    for (int f = 0; f < 3; ++f) {
        error_code c = error_code::invalid_version;
        const auto y = T::parse(x.to_string(kFmt[f]), c);
        ok = ok && c == error_code::no_error && y == x;
        const auto z = T::parse(x.to_u16string(kFmt[f]), c);
        ok = ok && c == error_code::no_error && z == x;
    }
    return ok;
}
template <typename T> NOINLINE void texts(Ev& e, const T& x) {
    e.o("full", txt(x.to_string(ip::format::full)))("compact", txt(x.to_string(ip::format::compact)))("compressed", txt(x.to_string(ip::format::compressed)));
    strings(e, x, "strings");
    e.same("parse back", back(x));
}
template <typename A> NOINLINE void addr(Ev& e, const A& a, const std::string&) {
    e.i("b", bytes_of(a))("s", txt(scope_of(a)));
    texts(e, a);
    e.o("rev", txt(a.reverse_pointer()));
    const ip_address any(a);
    strings(e, any, "any strings");
    e.same("any parse back", back(any));
    e.same("any", any.to_string() == a.to_string() && any.to_string(ip::format::full) == a.to_string(ip::format::full)
                  && any.to_string(ip::format::compact) == a.to_string(ip::format::compact) && any.reverse_pointer() == a.reverse_pointer());
}
template <typename N> NOINLINE void net(Ev& e, const N& n) {
    e.i.raw("n", jnet(n));
    texts(e, n);
    const ip_network any(n);
    strings(e, any, "any strings");
    e.same("any parse back", back(any));
    e.same("any", any.to_string() == n.to_string() && any.to_string(ip::format::full) == n.to_string(ip::format::full)
                  && any.to_string(ip::format::compact) == n.to_string(ip::format::compact));
}

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& a : cmds) {
        Ev e;
        if (a[0] == "a") {
            e.op = "addr";
            if (is4arg(a[1])) addr(e, addr_arg<ipv4_address>(a[1]), a[1]); else addr(e, addr_arg<ipv6_address>(a[1]), a[1]);
        } else {
            e.op = "net";
            if (is4arg(a[1])) net(e, net4_arg(a[1])); else net(e, net6_arg(a[1]));
        }
        rec.add(e);
    }
}
