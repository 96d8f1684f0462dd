// C21: comparison and conversions of 128-bit integers
#include "common.hpp"
#include <cmath>
#include <limits>
#include <type_traits>
#include <unordered_set>
using U = ip::uint128_t;

template <typename A, typename B> void compare(const A& a, const B& b, Ev& e) {
    e.o("eq", bool(a == b))("ne", bool(a != b))("lt", bool(a < b))("le", bool(a <= b))("gt", bool(a > b))("ge", bool(a >= b));
    e.same("reversed", (b == a) == (a == b) && (b != a) == (a != b) && (b > a) == (a < b) && (b >= a) == (a <= b) && (b < a) == (a > b) && (b <= a) == (a >= b));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    e.same("<=>", ((a <=> b) < 0) == (a < b) && ((a <=> b) > 0) == (a > b) && ((a <=> b) == 0) == (a == b) && ((b <=> a) < 0) == (b < a) && ((b <=> a) == 0) == (a == b));
#endif
}
template <typename T> void cmpk(const U& a, uint64_t bits, Recorder& rec) {
    const T k = T(bits);
    Ev e; e.op = "cmpk"; e.i("a", w16(a))("k", w8(uint64_t(k)))("signed", std::is_signed<T>::value);
    compare(a, k, e);
    rec.add(e);
}
template <typename T> void from(uint64_t bits, Recorder& rec) {
    const T k = T(bits);
    Ev e; e.op = "from"; e.i("k", w8(uint64_t(k)))("signed", std::is_signed<T>::value);
    const U x(k); U y = k; U z; z = k;
    e.o("x", w16(x)); e.same("implicit", w16(y) == w16(x)); e.same("assigned", w16(z) == w16(x));
    rec.add(e);
}
#define AS(T) \
    if (t == #T) { if (cmp) cmpk<T>(a, k, rec); else from<T>(k, rec); return; }
static void as(bool cmp, const std::string& t, const U& a, uint64_t k, Recorder& rec) {
    if (t == "bool") { if (cmp) cmpk<bool>(a, k & 1, rec); else from<bool>(k & 1, rec); return; }
    if (t == "schar") { if (cmp) cmpk<signed char>(a, k, rec); else from<signed char>(k, rec); return; }
    if (t == "uchar") { if (cmp) cmpk<unsigned char>(a, k, rec); else from<unsigned char>(k, rec); return; }
    AS(char) AS(short)
    if (t == "ushort") { if (cmp) cmpk<unsigned short>(a, k, rec); else from<unsigned short>(k, rec); return; }
    AS(int)
    if (t == "uint") { if (cmp) cmpk<unsigned>(a, k, rec); else from<unsigned>(k, rec); return; }
    AS(long)
    if (t == "ulong") { if (cmp) cmpk<unsigned long>(a, k, rec); else from<unsigned long>(k, rec); return; }
    if (t == "llong") { if (cmp) cmpk<long long>(a, k, rec); else from<long long>(k, rec); return; }
    if (cmp) cmpk<unsigned long long>(a, k, rec); else from<unsigned long long>(k, rec);
}
// a finite number as m * 2^e with m of P bits
template <typename T> std::string parts(T x, int P) {
    Obj o;
    if (std::isinf(x)) { o("m", w8(0))("e", 999); return o.done(); }
    if (x == 0) { o("m", w8(0))("e", 0); return o.done(); }
    int e; const T f = std::frexp(x, &e);
    o("m", w8(uint64_t(std::ldexp(f, P))))("e", e - P);
    return o.done();
}
template <typename T> void from_float(const char* kind, int P, T x, Recorder& rec) {
    Ev e; e.op = "fromdouble"; e.i.str("kind", kind);
    e.i.str("cls", std::isnan(x) ? "nan" : std::isinf(x) ? "inf" : "num"); e.i("neg", bool(std::signbit(x)));
    if (std::isnan(x) || std::isinf(x)) e.i("m", w8(0))("e", 0);
    else { int ex = 0; const T f = std::frexp(std::fabs(x), &ex); e.i("m", w8(uint64_t(std::ldexp(f, P))))("e", x == 0 ? 0 : ex - P); }
    const U u(x), b(uint64_t(77), uint64_t(5));
    e.o("x", w16(u));
    e.same("mixed", x + b == u + b && x - b == u - b && x * b == u * b && x / b == u / b && x % b == u % b && (x & b) == (u & b) && (x | b) == (u | b) && (x ^ b) == (u ^ b));
    rec.add(e);
}
static double bits_double(uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
static float bits_float(uint64_t b) { const uint32_t c = uint32_t(b); float d; std::memcpy(&d, &c, 4); return d; }
template <typename T, typename V> Bytes low(V v) { return be((unsigned long long)typename std::make_unsigned<T>::type(v), int(sizeof(T))); }

void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    for (const auto& c : cmds) {
        const std::string& op = c[0];
        if (op == "cmp") {
            const U a = u128arg(c[1]), b = u128arg(c[2]);
            Ev e; e.op = "cmp"; e.i("a", w16(a))("b", w16(b));
            compare(a, b, e);
            e.o("and", bool(a && b))("or", bool(a || b))("not", bool(!a))("bool", bool(a));
            const auto ha = std_hash(a), hb = std_hash(b);
            e.same("hash", ha == a.hash() && hb == b.hash() && (!(a == b) || ha == hb));
            U x = a, y = b; x.swap(y); e.same("swap", w16(x) == w16(b) && w16(y) == w16(a));
            std::swap(x, y); e.same("std::swap", w16(x) == w16(a) && w16(y) == w16(b));
            x.swap(x); e.same("self swap", w16(x) == w16(a));
            U z = std::move(x); e.same("move", w16(z) == w16(a)); z = b; e.same("assign", w16(z) == w16(b));
            z = U(a.upper(), a.lower()); e.same("halves", w16(z) == w16(a)); e.same("abs", w16(std::abs(a)) == w16(a));
            e.same("max", w16((std::max)(a, b)) == w16(a < b ? b : a));
            const std::unordered_set<U> s{a, b}; e.same("set", s.size() == (a == b ? 1u : 2u) && s.count(a) == 1 && s.count(b) == 1);
            rec.add(e);
        } else if (op == "cmpk") as(true, c[1], u128arg(c[2]), u64arg(c[3]), rec);
        else if (op == "from") as(false, c[1], U(), u64arg(c[2]), rec);
        else if (op == "to") {
            const U a = u128arg(c[1]);
            Ev e; e.op = "to"; e.i("a", w16(a));
            e.o("upper", w8(a.upper()))("lower", w8(a.lower()));
            e.o("c", low<char>(char(a)))("sc", low<signed char>((signed char)(a)))("uc", low<unsigned char>((unsigned char)(a)))("s", low<short>(short(a)))("us", low<unsigned short>((unsigned short)(a)));
            e.o("i", low<int>(int(a)))("ui", low<unsigned>(unsigned(a)))("l", low<long>(long(a)))("ul", low<unsigned long>((unsigned long)(a)))("ll", low<long long>((long long)(a)))("ull", low<unsigned long long>((unsigned long long)(a)));
            rec.add(e);
        } else if (op == "todouble") {
            const U a = u128arg(c[1]);
            Ev e; e.op = "todouble"; e.i("a", w16(a));
            const double d = double(a); const float f = float(a); const long double l = (long double)(a);
            e.o.raw("d", parts(d, 53)); e.o.raw("f", parts(f, 24)); e.o.raw("l", parts(l, 53));
            e.same("whole", l == (long double)d);
            rec.add(e);
        } else if (op == "double") { const double d = bits_double(u64arg(c[1])); from_float("d", 53, d, rec); from_float("l", 64, (long double)d, rec); }
        else if (op == "float") from_float("f", 24, bits_float(u64arg(c[1])), rec);
        else if (op == "long") from_float("l", 64, std::ldexp((long double)u64arg(c[1]), int(num(c[2]))), rec);
        else {
            using L = std::numeric_limits<U>;
            Ev e; e.op = "limits"; e.i("n", 0);
            e.o("min", w16((L::min)()))("max", w16((L::max)()))("lowest", w16(L::lowest()))("digits", int(L::digits))("digits10", int(L::digits10))("radix", int(L::radix));
            e.o("integer", bool(L::is_integer))("signed", bool(L::is_signed))("exact", bool(L::is_exact))("bounded", bool(L::is_bounded))("modulo", bool(L::is_modulo))("special", bool(L::is_specialized))("infinity", bool(L::has_infinity));
            const U z, z2{}; e.same("default", w16(z) == Bytes(16, 0) && w16(z2) == Bytes(16, 0));
            rec.add(e);
        }
    }
}
