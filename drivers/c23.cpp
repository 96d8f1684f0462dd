// C23: integers, bytes and addresses.
// Commands: u4 WORD   u6 WORD   raw4 BYTES   raw6 BYTES   any ADDR   (all hex)
#include "common.hpp"
#include <memory>
struct Exact {                    // exactly these bytes on the heap: reading past them is caught
    std::unique_ptr<uint8_t[]> p; size_t n;
    explicit Exact(const std::string& s) : p(new uint8_t[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), s.size()); }
};
template <typename A> Bytes container(const A& a) { Bytes b; for (auto x : a.bytes()) b.push_back(x); return b; }
inline uint32_t as_int(const ipv4_address& a) { return a.to_uint(); }
inline ip::uint128_t as_int(const ipv6_address& a) { return a.to_uint(); }

template <typename A> void from_int(Ev& e, const typename A::uint_type& k) {
    const A a = A::from_uint(k);
    e.o("bytes", bytes_of(a))("back", wu(a.to_uint()))("text", txt(a.to_string()));
    e.same("explicit conversion", static_cast<typename A::uint_type>(a) == k);
    const ip_address any = ip_address::from_uint(k);
    e.same("any", same_addr(any, ip_address(a)) && any.size() == A::base_size);
    e.same("bytes()", container(a) == bytes_of(a) && a.size() == A::base_size);
    e.same("from bytes()", same_addr(A::from_bytes(a.bytes()), a) && same_addr(A(a.bytes()), a) && same_addr(ip_address(a.bytes()), any) && same_addr(ip_address::from_bytes(a.bytes()), any));
    e.same("from data()", same_addr(A::from_bytes(a.data(), a.size()), a) && same_addr(ip_address::from_bytes(any.data(), any.size(), any.version()), any));
    e.same("parsed", same_addr(A::parse(a.to_string()), a));
    A c; c = a; e.same("assigned", wu(c.to_uint()) == wu(k));
}
template <typename A> void from_raw(Ev& e, const std::string& raw, ip::ip_version v) {
    const Exact x(raw);
    const A a = A::from_bytes(x.p.get(), x.n);
    e.i("raw", txt(raw));
    e.o("bytes", bytes_of(a))("int", wu(a.to_uint()));
    const ip_address any = ip_address::from_bytes(x.p.get(), x.n, v);
    e.same("any", same_addr(any, ip_address(a)) && any.version() == v);
    typename A::base_type base = {};
    for (size_t i = 0; i < x.n && i < base.size(); ++i) base[i] = x.p[i];
    e.same("base type", same_addr(A(base), a) && same_addr(A::from_bytes(base), a) && same_addr(ip_address(base), any));
    e.same("same as integer", same_addr(A::from_uint(a.to_uint()), a) && a == A::from_uint(a.to_uint()));
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& c : cmds) {
        Ev e; e.op = c[0];
        const std::string raw = unhex(c[1].substr(0, c[1].find('%')));
        if (c[0] == "u4") {
            const uint32_t k = uint32_t(std::strtoul(c[1].c_str(), nullptr, 16));
            e.i("k", w4(k));
            from_int<ipv4_address>(e, k);
            e.o("swapped", w4(ip::swap_bytes(k)));
            uint8_t mem[4]; const uint32_t sw = ip::is_little_endian() ? ip::swap_bytes(k) : k;
            std::memcpy(mem, &sw, 4);
            e.same("memory order", ipv4_address::from_bytes(mem, 4).to_uint() == k);
        } else if (c[0] == "u6") {
            const ip::uint128_t k = u128arg(c[1]);
            e.i("k", w16(k));
            from_int<ipv6_address>(e, k);
        } else if (c[0] == "raw4") from_raw<ipv4_address>(e, raw, ip::ip_version::V4);
        else if (c[0] == "raw6") from_raw<ipv6_address>(e, raw, ip::ip_version::V6);
        else {
            const auto any = is4arg(c[1]) ? ip_address(addr_arg<ipv4_address>(c[1])) : ip_address(addr_arg<ipv6_address>(c[1]));
            e.i.raw("a", jaddr(any));
            Bytes data; for (size_t i = 0; i < any.size(); ++i) data.push_back(any.data()[i]);
            e.o("low", w4(any.to_uint32()))("all", w16(any.to_uint128()))("data", data);
            e.same("explicit conversion", static_cast<uint32_t>(any) == any.to_uint32() && static_cast<ip::uint128_t>(any) == any.to_uint128());
            if (any.is_v4()) e.same("concrete", any.to_uint32() == any.v4().value().to_uint());
            else e.same("concrete", any.to_uint128() == any.v6().value().to_uint());
        }
        rec.add(e);
    }
}
