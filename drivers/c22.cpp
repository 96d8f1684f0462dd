// C22: texts of 128-bit integers
#include "units.hpp"
#include <locale>
using U = ip::uint128_t;
using F = U::format;
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };

static F fmt(const std::string& b) { return b == "8" ? F::octal : b == "16" ? F::hexadecimal : F::decimal; }
static void text(const U& a, const std::string& b, Recorder& rec) {
    const F f = fmt(b);
    Ev e; e.op = "text"; e.i("a", w16(a))("base", int(num(b)));
    const std::string t = a.to_string(f);
    e.o("t", txt(t));
    e.same("wide", is_text(a.to_wstring(f), t)); e.same("u16", is_text(a.to_u16string(f), t)); e.same("u32", is_text(a.to_u32string(f), t));
#if __cpp_char8_t >= 201811L
    e.same("u8", is_text(a.to_u8string(f), t));
#endif
    if (f == F::decimal) {
        e.same("default", default_texts(a, t));
        e.same("std", std_string(a) == t && is_text(std_wstring(a), t));
    }
    const auto back = U::from_string(t, f);
    e.same("back", back.has_value() && w16(back.value()) == w16(a));
    rec.add(e);
}
template <typename Ch> void parse(const char* k, const std::string& hex, const std::string& b, Recorder& rec) {
    const std::basic_string<Ch> u = units_of<Ch>(hex);
    const F f = fmt(b);
    Ev e; e.op = "parse"; e.i.str("k", k); e.i.raw("u", junits(u)); e.i("base", int(num(b)));
    const auto r = U::from_string(u, f);
    e.o("ok", r.has_value())("v", r.has_value() ? w16(r.value()) : Bytes(16, 0));
    auto like = [&](const ip::optional<U>& x) { return x.has_value() == r.has_value() && (!x || w16(x.value()) == w16(r.value())); };
    if (f == F::decimal) e.same("default", like(U::from_string(u)));
    if (u.size() < 200) { const Arr<Ch, 200> a(u); e.same("array", like(U::from_string(a.a, f)) && (f != F::decimal || like(U::from_string(a.a)))); }
    rec.add(e);
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& c : cmds) {
        if (c[0] == "locale") std::locale::global(c[1] == "1" ? std::locale(std::locale::classic(), new Grouping) : std::locale::classic());
        else if (c[0] == "text") text(u128arg(c[1]), c[2], rec);
        else switch (c[1][0]) {
            case 'c': parse<char>("c", c[2], c[3], rec); break;
            case 'w': parse<wchar_t>("w", c[2], c[3], rec); break;
            case 'u': parse<char16_t>("u", c[2], c[3], rec); break;
            case 'U': parse<char32_t>("U", c[2], c[3], rec); break;
#if __cpp_char8_t >= 201811L
            case '8': parse<char8_t>("8", c[2], c[3], rec); break;
#else
            case '8': { const Ev none; (void)none; Ev e; e.op = "none"; e.i("n", 0); e.o("n", 0); rec.add(e); break; }
#endif
        }
    }
    std::locale::global(std::locale::classic());
}
