// C20: 128-bit integer arithmetic
#include "common.hpp"
#include <type_traits>
using U = ip::uint128_t;
static U acc;

template <typename F> U upd(U x, F f) { f(x); return x; }

static void pair(const U& a, const U& b, Recorder& rec) {
    Ev e; e.op = "pair"; e.i("a", w16(a))("b", w16(b));
    const U add = a + b, sub = a - b, mul = a * b, an = a & b, orr = a | b, xo = a ^ b, q = a / b, r = a % b;
    const U neg = -a, nt = ~a;
    e.o("add", w16(add))("sub", w16(sub))("mul", w16(mul))("and", w16(an))("or", w16(orr))("xor", w16(xo))("q", w16(q))("r", w16(r));
    e.o("neg", w16(neg))("not", w16(nt))("inc", w16(upd(a, [](U& x) { ++x; })))("dec", w16(upd(a, [](U& x) { --x; })));
    auto is = [](const U& x, const U& y) { return w16(x) == w16(y); };
    e.same("+=", is(upd(a, [&](U& x) { x += b; }), add)); e.same("-=", is(upd(a, [&](U& x) { x -= b; }), sub)); e.same("*=", is(upd(a, [&](U& x) { x *= b; }), mul));
    e.same("/=", is(upd(a, [&](U& x) { x /= b; }), q)); e.same("%=", is(upd(a, [&](U& x) { x %= b; }), r)); e.same("&=", is(upd(a, [&](U& x) { x &= b; }), an));
    e.same("|=", is(upd(a, [&](U& x) { x |= b; }), orr)); e.same("^=", is(upd(a, [&](U& x) { x ^= b; }), xo));
    e.same("x++", is(upd(a, [](U& x) { x++; }), a + U(1))); e.same("x--", is(upd(a, [](U& x) { x--; }), a - U(1)));
    e.same("+a", is(+a, a));
    rec.add(e);
}
template <typename T> void shift_as(const U& a, long long n, const U& l, const U& r, Ev& e, const char* name) {
    const T t = T(n);
    if ((long long)(t) != n || (std::is_unsigned<T>::value && n < 0)) return;
    auto is = [](const U& x, const U& y) { return w16(x) == w16(y); };
    e.same(name, is(a << t, l) && is(a >> t, r) && is(upd(a, [&](U& x) { x <<= t; }), l) && is(upd(a, [&](U& x) { x >>= t; }), r));
}
static void shift(const U& a, long long n, Recorder& rec) {
    Ev e; e.op = "shift"; e.i("a", w16(a))("n", int(n));
    const U l = a << int64_t(n), r = a >> int64_t(n);
    e.o("l", w16(l))("r", w16(r));
    shift_as<bool>(a, n, l, r, e, "bool"); shift_as<signed char>(a, n, l, r, e, "signed char"); shift_as<unsigned char>(a, n, l, r, e, "unsigned char"); shift_as<char>(a, n, l, r, e, "char");
    shift_as<short>(a, n, l, r, e, "short"); shift_as<unsigned short>(a, n, l, r, e, "unsigned short"); shift_as<int>(a, n, l, r, e, "int"); shift_as<unsigned>(a, n, l, r, e, "unsigned");
    shift_as<long>(a, n, l, r, e, "long"); shift_as<unsigned long>(a, n, l, r, e, "unsigned long"); shift_as<long long>(a, n, l, r, e, "long long"); shift_as<unsigned long long>(a, n, l, r, e, "unsigned long long");
    rec.add(e);
}
template <typename T> void mixed(const U& a, uint64_t bits, Recorder& rec) {
    const T k = T(bits);
    Ev e; e.op = "mixed"; e.i("a", w16(a))("k", w8(uint64_t(k)))("signed", std::is_signed<T>::value);
    e.o("add", w16(a + k))("sub", w16(a - k))("rsub", w16(k - a))("mul", w16(a * k))("and", w16(a & k))("or", w16(a | k))("xor", w16(a ^ k));
    e.o("q", w16(a / k))("r", w16(a % k))("rq", w16(k / a))("rr", w16(k % a));
    auto is = [](const U& x, const U& y) { return w16(x) == w16(y); };
    e.same("+=", is(upd(a, [&](U& x) { x += k; }), a + k) && is(k + a, a + k)); e.same("-=", is(upd(a, [&](U& x) { x -= k; }), a - k));
    e.same("*=", is(upd(a, [&](U& x) { x *= k; }), a * k) && is(k * a, a * k)); e.same("/=", is(upd(a, [&](U& x) { x /= k; }), a / k)); e.same("%=", is(upd(a, [&](U& x) { x %= k; }), a % k));
    e.same("&=", is(upd(a, [&](U& x) { x &= k; }), a & k) && is(k & a, a & k)); e.same("|=", is(upd(a, [&](U& x) { x |= k; }), a | k) && is(k | a, a | k));
    e.same("^=", is(upd(a, [&](U& x) { x ^= k; }), a ^ k) && is(k ^ a, a ^ k));
    rec.add(e);
}
static void mixed_as(const std::string& t, const U& a, uint64_t k, Recorder& rec) {
    if (t == "bool") mixed<bool>(a, k & 1, rec); else if (t == "schar") mixed<signed char>(a, k, rec); else if (t == "uchar") mixed<unsigned char>(a, k, rec);
    else if (t == "char") mixed<char>(a, k, rec); else if (t == "short") mixed<short>(a, k, rec); else if (t == "ushort") mixed<unsigned short>(a, k, rec);
    else if (t == "int") mixed<int>(a, k, rec); else if (t == "uint") mixed<unsigned>(a, k, rec); else if (t == "long") mixed<long>(a, k, rec);
    else if (t == "ulong") mixed<unsigned long>(a, k, rec); else if (t == "llong") mixed<long long>(a, k, rec); else mixed<unsigned long long>(a, k, rec);
}
static void step(const Args& a, Recorder& rec) {
    const std::string& f = a[1]; const bool self = a[2] == "self"; const U b = self ? acc : u128arg(a[2]); const int n = int(num(a[3]));
    Ev e; e.op = "acc"; e.i.str("f", f); e.i("self", self)("b", w16(b))("n", n);
    U got; const U* ret = &acc;
    if (f == "add") ret = self ? &(acc += acc) : &(acc += b);
    else if (f == "sub") ret = self ? &(acc -= acc) : &(acc -= b);
    else if (f == "mul") ret = self ? &(acc *= acc) : &(acc *= b);
    else if (f == "div") ret = self ? &(acc /= acc) : &(acc /= b);
    else if (f == "mod") ret = self ? &(acc %= acc) : &(acc %= b);
    else if (f == "and") ret = self ? &(acc &= acc) : &(acc &= b);
    else if (f == "or") ret = self ? &(acc |= acc) : &(acc |= b);
    else if (f == "xor") ret = self ? &(acc ^= acc) : &(acc ^= b);
    else if (f == "shl") ret = &(acc <<= n);
    else if (f == "shr") ret = &(acc >>= n);
    else if (f == "inc") ret = &++acc;
    else if (f == "dec") ret = &--acc;
    else if (f == "neg") acc = -acc;
    else if (f == "not") acc = ~acc;
    if (f == "pinc") got = acc++; else if (f == "pdec") got = acc--; else { got = *ret; e.same("reference", ret == &acc); }
    e.o("x", w16(acc))("got", w16(got));
    rec.add(e);
}
void run_history(const std::vector<Args>& cmds, Recorder& rec) {
    acc = U(0);
    for (const auto& a : cmds) {
        if (a[0] == "pair") pair(u128arg(a[1]), u128arg(a[2]), rec);
        else if (a[0] == "shift") shift(u128arg(a[1]), num(a[2]), rec);
        else if (a[0] == "mixed") mixed_as(a[1], u128arg(a[2]), u64arg(a[3]), rec);
        else if (a[0] == "set") { acc = u128arg(a[1]); Ev e; e.op = "set"; e.i("b", w16(acc)); e.o("x", w16(acc)); rec.add(e); }
        else step(a, rec);
    }
}
