// C24: fixed strings, byte arrays and optionals as register machines.
// Commands: cap N (1, 3, 6, 16 or 40: the capacity for the rest of the history, 6 at first)
//           fnew R KIND UNITS | fcopy R Q | fswap R Q | flook R
//           bnew W R HEX | bput R AT V HOW | bcopy R Q | bswap R Q | blook R     (W = 1, 3, 4, 7, 16 or 33 for the whole history)
//           onew R V HOW | oput R V HOW | onone R HOW | ocopy R Q | omut R V HOW | otake R | olook R
#include "units.hpp"
#include <memory>
template <typename F> bool beyond(F f) {          // out of bounds: throws where that is possible
#ifndef IPADDRESS_NO_EXCEPTIONS
    try { f(); } catch (const std::out_of_range&) { return true; } catch (...) { return false; }
    return false;
#else
    (void)f; return true;
#endif
}
inline int u8(char c) { return int((unsigned char)c); }
inline int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
template <typename A, typename B> int by_operators(const A& a, const B& b) {      // -1, 0, 1, or 9 when the operators disagree
    const bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
    const int c = lt ? -1 : gt ? 1 : 0;
    return (lt && gt) || eq != (c == 0) || ne == eq || le != (c <= 0) || ge != (c >= 0) ? 9 : c;
}
template <typename Ch, size_t N> struct Exact {    // N units on the heap
    std::unique_ptr<Ch[]> p;
    explicit Exact(const std::basic_string<Ch>& s) : p(new Ch[N]()) { for (size_t i = 0; i < s.size() && i + 1 < N; ++i) p[i] = s[i]; }
    const Ch (&get() const)[N] { return *reinterpret_cast<const Ch(*)[N]>(p.get()); }
};
template <size_t N> std::string text_of(const ip::fixed_string<N>& f) { return std::string(f.begin(), f.end()); }

template <typename Ch, size_t CAP> void fnew(Ev& e, ip::fixed_string<CAP>& f, const std::string& h) {
    using FS = ip::fixed_string<CAP>;
    static const size_t Wide = 2 * CAP, Narrow = CAP > 1 ? CAP / 2 : 1;
    const auto s = units_of<Ch>(h);
    e.i.raw("u", junits(s));
    const Exact<Ch, CAP + 1> x(s);
    error_code c = error_code::no_error;
    const FS made(x.get(), c);
    error_code c2 = error_code::empty_address;
    const FS stale = ip::make_fixed_string(x.get(), c2);
    e.same("make_fixed_string", c2 == c && text_of(stale) == text_of(made));
    const std::string t = text_of(made);
    auto same = [&](const FS& y) { return text_of(y) == t; };
    e.same("throwing", throws_like([&] { return FS(x.get()); }, c, same));
    e.same("throwing make_fixed_string", throws_like([&] { return ip::make_fixed_string(x.get()); }, c, same));
    if (s.size() + 2 <= Wide && c == error_code::no_error) {          // the same text in other capacities
        const Exact<Ch, Wide + 1> big(s); error_code c3 = error_code::no_error;
        const auto wide = ip::make_fixed_string(big.get(), c3);
        if (c3 == error_code::no_error && text_of(wide) == t) {
            e.same("wider", by_operators(made, wide) == 0 && by_operators(wide, made) == 0 && made.compare(wide) == 0 && wide.capacity() == size_t(Wide) && wide.hash() == made.hash());
        } else if (c3 == error_code::no_error) {
            e.same("wider", text_of(wide).compare(0, t.size(), t) == 0 && by_operators(made, wide) == -1 && by_operators(wide, made) == 1 && made.compare(wide) < 0);
        }
        if (t.size() <= Narrow) {
            const Exact<char, Narrow + 1> small(t); const auto narrow = ip::make_fixed_string(small.get(), c3);
            if (c3 == error_code::no_error) e.same("narrower", text_of(narrow) == t && by_operators(made, narrow) == 0 && by_operators(narrow, made) == 0 && narrow.hash() == made.hash());
        }
        const ip::fixed_string<0> none;
        e.same("no capacity", none.empty() && none.size() == 0 && none.capacity() == 0 && none.begin() == none.end() && by_operators(made, none) == (t.empty() ? 0 : 1) && by_operators(none, made) == (t.empty() ? 0 : -1));
    }
    e.o("code", int(c));
    f = made;
}

template <size_t N> struct Bytes3 {
    ip::byte_array<N> v[3];
    Bytes3() : v() {}
    bool run(const Args& a, Ev& e) {
        const std::string& op = a[0];
        if (op == "bnew") {
            const std::string raw = unhex(a[3]); const int r = int(num(a[2]));
            e.i("r", r)("v", txt(raw));
            for (size_t i = 0; i < N; ++i) v[r - 1].data()[i] = uint8_t(raw[i]);
            return true;
        }
        const int r = int(num(a[1])); auto& x = v[r - 1];
        e.i("r", r);
        if (op == "bput") {
            const size_t at = size_t(num(a[2])); uint8_t b = uint8_t(num(a[3])); const int how = int(num(a[4]));
            e.i("at", int(at))("v", int(b));
            if (how == 0) x[at] = b;
            else if (how == 1) x.at(at) = b;
            else if (how == 2) x.data()[at] = b;
            else if (how == 3 && at == 0) x.front() = b;
            else if (how == 3 && at == N - 1) x.back() = b;
            else { auto& ref = x[at]; ref = uint8_t(~b); std::swap(ref, b); }
        } else if (op == "bcopy") { const int q = int(num(a[2])); e.i("q", q); x = v[q - 1]; }
        else if (op == "bswap") { const int q = int(num(a[2])); e.i("q", q); x.swap(v[q - 1]); }
        else {
            const auto& c = x;
            Bytes t, rev, cells;
            for (auto b : c) t.push_back(b);
            for (auto it = c.rbegin(); it != c.rend(); ++it) rev.push_back(*it);
            e.o("bytes", t)("rev", rev)("size", int(c.size()))("front", int(c.front()))("back", int(c.back()));
            bool ok = c.size() == N && c.max_size() == N && !c.empty() && size_t(c.end() - c.begin()) == N && x.data() == c.data() && c.begin() == c.data();
            for (size_t i = 0; i < N && i < t.size(); ++i) ok = ok && c[i] == t[i] && c.at(i) == t[i] && x[i] == t[i] && x.at(i) == t[i] && c.data()[i] == t[i];
            e.same("elements", ok);
            e.same("references", &x.front() == x.data() && &x.back() == x.data() + (N - 1) && &c.front() == x.data() && &c.back() == x.data() + (N - 1));
            Bytes t2, rev2;
            for (auto it = c.cbegin(); it != c.cend(); ++it) t2.push_back(*it);
            for (auto it = c.crbegin(); it != c.crend(); ++it) rev2.push_back(*it);
            e.same("constant iterators", t2 == t && rev2 == rev);
            bool b = true;
            for (size_t i : {N, N + 1, N + 100, ~size_t(0), size_t(1) << 32, size_t(1) << 63})
                b = b && beyond([&] { (void)c.at(i); }) && beyond([&] { (void)x.at(i); }) && beyond([&] { (void)c[i]; }) && beyond([&] { (void)x[i]; });
            e.same("beyond", b);
            std::vector<std::string> cmp;
            for (const auto& o : v) { cmp.push_back(js(by_operators(c, o))); e.same("mirrored", by_operators(o, c) == -by_operators(c, o)); }
            e.o.raw("cmp", jarr(cmp));
        }
        return true;
    }
};

// the same optionals over three value types
struct Str { static std::string of(int v) { return v % 2 ? std::string(size_t(v), 'x') : std::to_string(v); } static int back(const std::string& s) { return s[0] == 'x' ? int(s.size()) : int(num(s)); } using T = std::string; };
struct Num { static size_t of(int v) { return size_t(v) << 40; } static int back(size_t s) { return int(s >> 40); } using T = size_t; };
struct V4 { static ipv4_address of(int v) { return ipv4_address::from_uint(uint32_t(v) << 16); } static int back(const ipv4_address& s) { return int(s.to_uint() >> 16); } using T = ipv4_address; };
template <typename K> struct Opt3 {
    using T = typename K::T; using O = ip::optional<T>;
    O v[3];
    int run(const Args& a, std::vector<std::string>& bad) {
        const std::string& op = a[0]; O& x = v[num(a[1]) - 1];
        auto check = [&](const char* n, bool ok) { if (!ok) bad.push_back(n); };
        if (op == "onew") {
            const T val = K::of(int(num(a[2]))); const int how = int(num(a[3]));
            if (how == 0) { O y(val); x = y; } else if (how == 1) { O y{T(val)}; x = y; } else if (how == 2) { x = O(val); } else { const O y(val); O z(y); x = z; check("source", K::back(y.value()) == K::back(val)); }
        } else if (op == "oput") {
            const T val = K::of(int(num(a[2]))); const int how = int(num(a[3]));
            if (how == 0) x = T(val); else if (how == 1) { T tmp(val); x = std::move(tmp); } else { O y; y = T(val); x = y; }
        } else if (op == "onone") {
            const int how = int(num(a[2]));
            if (how == 0) x = nullptr; else if (how == 1) x = O(); else { O y(nullptr); x = y; }
        } else if (op == "ocopy") { O& y = v[num(a[2]) - 1]; O& back = (x = y); check("returned", &back == &x); }
        else if (op == "omut") {
            const T val = K::of(int(num(a[2]))); const int how = int(num(a[3]));
            if (how == 0) *x = val; else if (how == 1) x.value() = val; else { T* p = x.operator->(); *p = val; }
        } else if (op == "otake") { T t = std::move(x).value(); const int r = K::back(t); x = nullptr; return r; }
        else {
            const O& c = x;
            check("truth", bool(c) == c.has_value() && bool(x) == x.has_value());
            if (!c.has_value()) return -1;
            const int r = K::back(c.value());
            check("access", K::back(*c) == r && K::back(*x) == r && K::back(x.value()) == r && K::back(*c.operator->()) == r && &x.value() == &*x && x.operator->() == &*x && c.operator->() == &*c);
            { O copy(c); check("copy", copy.has_value() && K::back(std::move(copy).value()) == r); }
            { const O copy(c); const T t = std::move(copy).value(); check("constant rvalue", K::back(t) == r && K::back(*copy) == r); }
            return r;
        }
        return 0;
    }
};
template <size_t CAP> struct Strings {
    using FS = ip::fixed_string<CAP>;
    FS f[3];
    bool run(const Args& a, Ev& e) {
        const int r = int(num(a[1])); FS& x = f[r - 1];
        e.i("r", r)("cap", int(CAP));
        if (a[0] == "fnew") {
            e.i.str("k", a[2]);
            if (a[2] == "c") fnew<char, CAP>(e, x, a[3]);
#if __cpp_char8_t >= 201811L
            else if (a[2] == "8") fnew<char8_t, CAP>(e, x, a[3]);
#endif
            else if (a[2] == "u") fnew<char16_t, CAP>(e, x, a[3]);
            else if (a[2] == "U") fnew<char32_t, CAP>(e, x, a[3]);
            else if (a[2] == "w") fnew<wchar_t, CAP>(e, x, a[3]);
            else return false;
        } else if (a[0] == "fcopy") { const int q = int(num(a[2])); e.i("q", q); const FS tmp(f[q - 1]); x = tmp; }
        else if (a[0] == "fswap") { const int q = int(num(a[2])); e.i("q", q); x.swap(f[q - 1]); }
        else {
            const FS& c = x;
            Bytes t, rev, cells, t2, rev2;
            for (char ch : c) t.push_back(u8(ch));
            for (auto it = c.rbegin(); it != c.rend(); ++it) rev.push_back(u8(*it));
            for (auto it = c.cbegin(); it != c.cend(); ++it) t2.push_back(u8(*it));
            for (auto it = c.crbegin(); it != c.crend(); ++it) rev2.push_back(u8(*it));
            for (size_t i = 0; i < CAP; ++i) cells.push_back(u8(c.at(i)));
            e.o("text", t)("rev", rev)("size", int(c.size()))("empty", c.empty())("cap", int(c.capacity()))("cells", cells)("front", u8(c.front()))("back", u8(c.back()));
            e.same("constant iterators", t2 == t && rev2 == rev);
            bool ok = c.begin() == c.data() && size_t(c.end() - c.begin()) == c.size();
            for (size_t i = 0; i < CAP; ++i) ok = ok && u8(c[i]) == cells[i] && u8(c.data()[i]) == cells[i];
            e.same("elements", ok);
            bool b = true;
            for (size_t i : {CAP, CAP + 1, CAP + 100, ~size_t(0), size_t(1) << 32, size_t(1) << 63})
                b = b && beyond([&] { (void)c.at(i); }) && beyond([&] { (void)c[i]; });
            e.same("beyond", b);
            std::vector<std::string> cmp, same;
            for (const auto& o : f) {
                cmp.push_back(js(sgn(c.compare(o)))); same.push_back(js(c == o));
                e.same("operators", by_operators(c, o) == sgn(c.compare(o)) && by_operators(o, c) == -by_operators(c, o));
                if (c == o) e.same("hash", c.hash() == o.hash());
            }
            const FS copy(c); e.same("copy", copy == c && copy.hash() == c.hash() && text_of(copy) == text_of(c));
            e.o.raw("cmp", jarr(cmp)).raw("same", jarr(same));
        }
        return true;
    }
};
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    Strings<1> f1; Strings<3> f3; Strings<6> f6; Strings<16> f16; Strings<40> f40; size_t cap = 6;
    Bytes3<1> b1; Bytes3<3> b3; Bytes3<4> b4; Bytes3<7> b7; Bytes3<16> b16; Bytes3<33> b33; int W = 0; Opt3<Str> o1; Opt3<Num> o2; Opt3<V4> o3;
    for (const auto& a : cmds) {
        if (a[0] == "cap") { cap = size_t(num(a[1])); continue; }
        Ev e; e.op = a[0];
        if (a[0][0] == 'b') {
            if (a[0] == "bnew") W = int(num(a[1]));
            if (W == 1) b1.run(a, e); else if (W == 3) b3.run(a, e); else if (W == 4) b4.run(a, e); else if (W == 7) b7.run(a, e); else if (W == 16) b16.run(a, e); else b33.run(a, e);
        } else if (a[0][0] == 'o') {
            std::vector<std::string> bad;
            e.i("r", int(num(a[1])));
            if (a[0] == "ocopy") e.i("q", int(num(a[2])));
            if (a[0] == "onew" || a[0] == "oput" || a[0] == "omut") e.i("v", int(num(a[2])));
            const int r = o1.run(a, bad), r2 = o2.run(a, bad), r3 = o3.run(a, bad);
            e.same("number", r == r2); e.same("address", r == r3);
            for (const auto& n : bad) e.same(n.c_str(), false);
            if (a[0] == "olook") { const auto& x = o1.v[num(a[1]) - 1]; e.o("has", x.has_value())("v", r); e.same("has", o2.v[num(a[1]) - 1].has_value() == x.has_value() && o3.v[num(a[1]) - 1].has_value() == x.has_value()); }
            if (a[0] == "otake") e.o("v", r);
        } else {
            const bool known = cap == 1 ? f1.run(a, e) : cap == 3 ? f3.run(a, e) : cap == 16 ? f16.run(a, e) : cap == 40 ? f40.run(a, e) : f6.run(a, e);
            if (!known) continue;
        }
        rec.add(e);
    }
}
