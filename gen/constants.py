"""Constant expressions over the library's operations, with what the specification needs to know of them."""
import json
from gen import encoded, texts, u128, values

CHAR = {"8": "char8_t", "c": "char", "u": "char16_t", "U": "char32_t", "w": "wchar_t"}
TYPE = {"v4": "ipv4_address", "v6": "ipv6_address", "any": "ip_address", "n4": "ipv4_network", "n6": "ipv6_network", "nany": "ip_network"}
SUFFIX = {"v4": "_ipv4", "v6": "_ipv6", "any": "_ip", "n4": "_ipv4_net", "n6": "_ipv6_net", "nany": "_net"}

def J(x): return json.dumps(x, separators=(",", ":"))
def units(k, u): return [[x >> 16, x & 0xffff] if k in "Uw" else x for x in u]
def B(x): return list(x)
def cstr(u): return '"%s"' % "".join("\\%03o" % x for x in u)
def b(x): return "true" if x else "false"
def leave(f, strict, u): return "" if f[0] != "n" or (strict and sum(u) % 2) else ", " + b(strict)   # strict is the default

def array(k, u, name="d"):
    lit = lambda x: "'\\%03o'" % x if k == "c" else "%s(0x%x)" % (CHAR[k], x)
    return "constexpr %s %s[] = {%s};" % (CHAR[k], name, ", ".join(lit(x) for x in list(u) + [0]))

class Set:
    def __init__(self, rng):
        self.rng, self.lines, self.turn = rng, [], -1
    def add(self, op, i, expr, decl="", std=14):
        self.lines.append('"op":"%s","i":%s\t%d\t%s\t%s' % (op, J(i), std, decl, expr))

    # ---- operands: (C++ expression, JSON)
    def addr(self, n=None, scopes=0.3, arg=None):
        arg = arg or values.addr(self.rng, n, scopes)
        h, _, s = arg.partition("%")
        raw, sc = bytes.fromhex(h), bytes.fromhex(s)
        if len(raw) == 4:
            x = "v4(0x%su)" % h
        else:
            x = "v6(0x%s, 0x%s%s)" % (h[:16], h[16:], ", " + cstr(sc) if sc else "")
        return x, {"b": B(raw), "s": B(sc)}
    def net(self, n=None, arg=None, scopes=0.15, plen=None):
        arg = arg or values.net(self.rng, n, scopes, plen)
        a, p = arg.split("/")
        x, j = self.addr(arg=a)
        return "net(%s, %s)" % (x, p), {"addr": j["b"], "scope": j["s"], "plen": int(p)}, arg
    def word(self, v=None):
        v = u128.word(self.rng) if v is None else v
        return "u(0x%xull, 0x%xull)" % (v >> 64, v & (1 << 64) - 1), B(v.to_bytes(16, "big"))
    def point(self, kind, near=None):
        """a comparable value of a type: expression, JSON, argument"""
        if kind in ("v4", "v6", "any"):
            arg = near or values.addr(self.rng, {"v4": 4, "v6": 16}.get(kind), 0.4)
            x, j = self.addr(arg=arg)
            return ("ip_address(%s)" % x if kind == "any" else x), dict(j, p=-1), arg
        x, j, arg = self.net({"n4": 4, "n6": 16}.get(kind), near)
        return ("ip_network(%s)" % x if kind == "nany" else x), {"b": j["addr"], "s": j["scope"], "p": j["plen"]}, arg

    # ---- texts
    def text(self):
        rng = self.rng
        j = rng.randrange(8)
        if j < 2: t = texts.v4_valid(rng)
        elif j < 4: t = texts.v6_valid(rng)
        elif j == 4: t = rng.choice(encoded.BASES)
        else: t = texts.mutate(rng, rng.choice([texts.v4_valid(rng), texts.v6_valid(rng)]), b"0123456789af:./% g")
        return list(t[:70])
    def parse(self):
        rng = self.rng
        k = rng.choice("cccuUw8"); f = rng.choice(["v4", "v6", "v6", "any"])
        u = self.text()
        if k != "c" and rng.random() < 0.35:
            p = rng.randrange(len(u) + 1); u[p:p] = encoded.odd(rng, k, rng.choice(b"0123456789af:.%"))
        u = [x for x in u if x]
        view = rng.random() < 0.3
        if view and rng.random() < 0.1: u.insert(rng.randrange(len(u) + 1), 0)
        self.add("parse", {"k": k, "u": units(k, u), "f": f, "view": view}, "q_parse<%s>(%s)" % (TYPE[f], "sv(d)" if view else "d"), array(k, u), 20 if k == "8" else 17 if view else 14)
    def nettext(self):
        rng = self.rng
        w = rng.choice([4, 16])
        if rng.random() < 0.5:
            a, p = values.net(rng, w).split("/")
            x = bytes.fromhex(a.split("%")[0])
            t = (".".join(map(str, x)) if w == 4 else ":".join("%x" % (x[2 * i] * 256 + x[2 * i + 1]) for i in range(8))).encode() + b"/" + p.encode()
        else:
            t = (texts.v4_valid(rng) if w == 4 else texts.v6_valid(rng)) + b"/" + texts.mask_text(rng, w)[:20]
        if rng.random() < 0.25: t = texts.mutate(rng, t, texts.NET_ALPHA)
        return [x for x in t[:90] if x]
    def pnet(self):
        rng = self.rng
        k = rng.choice("cccuUw8"); f = rng.choice(["n4", "n6", "nany"]); strict = rng.random() < 0.5
        u = self.nettext()
        if k != "c": u = [x for x in u if x < 128]
        view = rng.random() < 0.3
        self.add("pnet", {"k": k, "u": units(k, u), "f": f, "strict": strict, "view": view}, "q_pnet<%s>(%s, %s)" % (TYPE[f], "sv(d)" if view else "d", b(strict)), array(k, u), 20 if k == "8" else 17 if view else 14)
    def setscope(self):
        rng = self.rng
        x, j = self.addr(16 if rng.random() < 0.9 else 4, 0.6)
        either = len(j["b"]) == 4 or rng.random() < 0.5
        if either: x = "ip_address(%s)" % x
        k = rng.choice("cuUw8")
        u = list(rng.choice([rng.choice(texts.BAD_SCOPES), texts.scope_text(rng).encode()]))
        if k != "c": u = [x for x in u if x < 128]
        if k != "c" and rng.random() < 0.3: p = rng.randrange(len(u) + 1); u[p:p] = encoded.odd(rng, k, 0x31)
        u = [y for y in u if y]
        view = rng.random() < 0.4
        if not view and not either: u = u[:16]               # longer arrays do not compile
        self.add("setscope", {"x": j, "k": k, "u": units(k, u), "view": view or either}, "q_setscope(%s, %s)" % (x, "sv(d)" if view else "d"), array(k, u), 20 if k == "8" else 17 if view or either else 14)   # a version-independent address takes arrays as views here

    # ---- addresses
    def cats(self):
        x, j = self.addr(); self.add("cats", {"x": j}, "q_cats(%s)" % x)
    def ints(self):
        x, j = self.addr(); self.add("ints", {"x": j}, "q_ints(%s)" % x)
    def embed(self):
        x, j = self.addr(16); self.add("embed", {"x": j}, "q_embed(%s)" % x)
    def scope(self):
        x, j = self.addr(16, 0.85); self.add("scope", {"x": j}, "q_scope(%s)" % x)
    def scopes(self):
        x, j = self.addr(16, 0.85); y, k = self.addr(16, 0.85)
        if self.rng.random() < 0.2: y, k = x, j
        self.add("scopes", {"x": j, "y": k}, "q_scopes(%s, %s)" % (x, y))
    def any(self):
        x, j = self.addr(None, 0.5); self.add("any", {"x": j}, "q_any(ip_address(%s))" % x)
    def either(self, x):
        """the network as it is, or as a version-independent one"""
        return "ip_network(%s)" % x if self.rng.random() < 0.4 else x
    def cmp(self):
        rng = self.rng
        kind = rng.choice(["v4", "v6", "v6", "any", "n4", "n6", "nany"])
        x, j, a = self.point(kind)
        r = rng.random()
        near = None
        if r < 0.2: near = a
        elif r < 0.6 and kind[0] == "n": near = values.neighbour(rng, a)
        elif r < 0.7:
            h, sep, rest = a.partition("%")
            near = h if kind[0] != "n" and sep else None
        elif kind[0] != "n":
            v = bytearray(bytes.fromhex(a.split("%")[0])); v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
            near = bytes(v).hex() + a[len(v) * 2:]
        y, k, _ = self.point(kind, near)
        if rng.random() < 0.5: x, j, y, k = y, k, x, j
        self.add("cmp", {"x": j, "y": k}, "q_cmp(%s, %s)" % (x, y))
    # ---- networks
    def from_(self):
        rng = self.rng
        x, j = self.addr()
        p = values.prefix(rng, len(j["b"])) if rng.random() < 0.85 else rng.choice([33, 64, 129, 255, 256, 2**31 - 1])
        if rng.random() < 0.4 and p <= 8 * len(j["b"]):
            h = values.mask(bytes(j["b"]), p).hex()
            x, j = self.addr(arg=h + ("%" + bytes(j["s"]).hex() if j["s"] else ""))
        s = rng.random() < 0.6
        self.add("from", {"x": j, "p": p, "strict": s}, "q_from<%s>(%s, %d, %s)" % ("ip_network" if rng.random() < 0.4 else "ipv4_network" if len(j["b"]) == 4 else "ipv6_network", x, p, b(s)))
    def attrs(self):
        x, j, _ = self.net(); self.add("attrs", {"n": j}, "q_attrs(%s)" % self.either(x))
    def anynet(self):
        x, j, _ = self.net(); self.add("anynet", {"n": j}, "q_anynet(ip_network(%s))" % x)
    def ncats(self):
        x, j, _ = self.net(); self.add("ncats", {"n": j}, "q_ncats(%s)" % self.either(x))
    def rel(self):
        x, j, a = self.net()
        y, k, _ = self.net(arg=values.neighbour(self.rng, a) if self.rng.random() < 0.85 else values.net(self.rng, len(j["addr"])))
        if self.rng.random() < 0.5: x, j, y, k = y, k, x, j
        self.add("rel", {"n": j, "o": k}, "q_rel(%s, %s)" % (x, y))
    def args(self, j, up):
        rng = self.rng; w = 8 * len(j["addr"]); room = j["plen"] if up else w - j["plen"]
        diff, new = rng.choice([1, 1, 2, room, room - 1, room + 1, 0, rng.randrange(w + 2)]), -1
        if rng.random() < 0.4:
            new = rng.choice([j["plen"], j["plen"] - 1, j["plen"] + 1, 0, w, w + 1, rng.randrange(w + 1)]); diff = 1 if rng.random() < 0.8 else diff
        return max(0, diff), max(-1, new)
    def super_(self):
        x, j, _ = self.net(); d, n = self.args(j, True)
        self.add("super", {"n": j, "diff": d, "new": n}, "q_super(%s, %d, %d)" % (self.either(x), d, n))
    def subs(self):
        x, j, _ = self.net(); d, n = self.args(j, False)
        self.add("subs", {"n": j, "diff": d, "new": n}, "q_subs(%s, %d, %d)" % (self.either(x), d, n))
    def excl(self):
        rng = self.rng
        x, j, a = self.net()
        w = 8 * len(j["addr"])
        q = min(w, j["plen"] + rng.choice([0, 1, 2, 3, 8, 20, w]))
        v = int.from_bytes(bytes(j["addr"]), "big") + rng.choice([0, (1 << w - j["plen"]) - 1, rng.randrange(1 << w - j["plen"])])
        near = values.neighbour(rng, a) if rng.random() < 0.2 else "%s/%d" % (values.mask((v % (1 << w)).to_bytes(w // 8, "big"), q).hex(), q)
        y, k, _ = self.net(arg=near)
        if rng.random() < 0.4: x, y = "ip_network(%s)" % x, "ip_network(%s)" % y
        self.add("excl", {"n": j, "o": k}, "q_excl(%s, %s)" % (x, y))
    def hosts(self):
        n = self.rng.choice([4, 16])
        x, j, _ = self.net(n, plen=self.rng.choice([8 * n - self.rng.randrange(6), values.prefix(self.rng, n)]))
        self.add("hosts", {"n": j}, "q_hosts(%s)" % self.either(x))
    # ---- iterators: positions are block numbers in the whole address space, and always of a block that exists
    def iter(self):
        rng = self.rng
        w = rng.choice([4, 16]); hosts = rng.random() < 0.5; rev = rng.random() < 0.5
        x, j, a = self.net(w, plen=rng.choice([8 * w - rng.randrange(9), values.prefix(rng, w)]))
        v, q = int.from_bytes(bytes(j["addr"]), "big"), j["plen"]
        p = 8 * w if hosts else min(8 * w, q + rng.choice([0, 1, 2, 3, 8, 31, 64, 8 * w]))
        top = 1 << p
        first, last = v >> (8 * w - p), (v + (1 << 8 * w - q) - 1) >> (8 * w - p)
        if hosts and q < 8 * w - 1: first, last = first + 1, last - (w == 4)
        size = last - first + 1
        at = rng.choice([0, size - 1, rng.randrange(size)])
        if at >= 1 << 64: at = rng.choice([0, (1 << 64) - 1])
        if w == 4 and size == 1 << 32: at = min(at, (1 << 32) - 1)
        here, steps, cpp = (last if rev else first), [], []
        for _ in range(4):
            for _ in range(40):
                op = rng.randrange(10)
                if op < 4: d = 1 if op in (0, 2) else -1
                else:
                    t = rng.choice([here + rng.choice([-2, -1, 0, 1, 2, 3, 255, 256]), first, last, first - 1, last + 1, 0, top - 1, rng.randrange(first, last + 1), rng.randrange(top)])
                    d = here - t if rev else t - here
                t = here - d if rev else here + d
                if not 0 <= t < top or abs(d) >= 1 << 8 * w: continue
                n = -d if op in (5, 8) else d
                sg = -(1 << 63) <= n < 1 << 63 and (n < 0 or rng.random() < 0.5)
                if n < 0 and not sg: continue
                break
            else:
                op, d, n, sg, t = 6, 0, 0, True, here
            if op != 9: here = t
            steps.append({"op": op, "signed": sg, "d": B((n % (1 << 64)).to_bytes(8, "big")) if sg else B(n.to_bytes(w, "big"))})
            cpp.append("S{%d, %s, %s, 0x%xull, 0x%xull}" % (op, b(sg), ("%dll" % n if n > -(1 << 63) else "(-9223372036854775807ll - 1)") if sg else "0", 0 if sg else n >> 64, 0 if sg else n & (1 << 64) - 1))
        x = self.either(x)
        self.add("iter", {"n": j, "p": p, "hosts": hosts, "rev": rev, "at": B(at.to_bytes(w, "big")), "steps": steps},
                 "%s(%s, %s%s, 0x%xull, %s)" % ("q_walkhosts" if hosts else "q_walksubs", x, "" if hosts else "%d, " % p, b(rev), at, ", ".join(cpp)))
    # ---- 128-bit integers
    def more(self):
        a, c = u128.division(self.rng) if self.rng.random() < 0.5 else (u128.word(self.rng), u128.word(self.rng))
        if self.rng.random() < 0.15: c = 0
        (x, j), (y, k) = self.word(a), self.word(c)
        self.add("more", {"a": j, "b": k}, "q_more(%s, %s)" % (x, y))
    def limits(self):
        x, j = self.word(); self.add("limits", {"a": j}, "q_limits(%s)" % x)
    def arith(self):
        a, c = u128.division(self.rng) if self.rng.random() < 0.5 else (u128.word(self.rng), u128.word(self.rng))
        (x, j), (y, k) = self.word(a), self.word(c)
        self.add("arith", {"a": j, "b": k}, "q_arith(%s, %s)" % (x, y))
    def shift(self):
        x, j = self.word(); n = self.rng.choice([-1, 0, 1, 63, 64, 65, 127, 128, 129, self.rng.randrange(130)])
        self.add("shift", {"a": j, "n": n}, "q_shift(%s, %s)" % (x, self.rng.choice(["%d", "%dll", "short(%d)", "(signed char)(%d)"] + ["%du", "%dull", "(unsigned char)(%d)"] * (n >= 0)) % n))
    def mixed(self):
        rng = self.rng
        x, j = self.word()
        t, bits, sg = rng.choice([("long long", 64, True), ("long", 64, True), ("int", 32, True), ("short", 16, True), ("unsigned long long", 64, False), ("unsigned long", 64, False), ("unsigned", 32, False), ("unsigned short", 16, False)])
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
        k = rng.choice([0, 1, lo, hi, lo + 1, hi - 1, 2, max(lo, -1), max(lo, -2), rng.randrange(lo, hi + 1)])
        lit = "-9223372036854775807ll - 1" if k == -(1 << 63) else "%d%s" % (k, "ll" if sg else "ull")
        self.add("mixed", {"a": j, "signed": sg, "k": B((k % 2**bits).to_bytes(bits // 8, "big"))}, "q_mixed(%s, (%s)(%s))" % (x, t, lit))
    def digits(self):
        rng = self.rng
        k = rng.choice("ccuUw8"); base = rng.choice(u128.BASES)
        u = list(u128.number_text(rng, base))
        if rng.random() < 0.3: u = list(texts.mutate(rng, bytes(u), b"0123456789abcdefABCDEFgG x+-"))
        if k != "c" and rng.random() < 0.2: p = rng.randrange(len(u) + 1); u[p:p] = encoded.odd(rng, k, 0x31)
        u = [x for x in u if x]
        self.add("digits", {"k": k, "u": units(k, u), "base": base}, "q_digits(d, %d)" % base, array(k, u), 20 if k == "8" else 14)
    def fixed(self):
        rng = self.rng
        def one(k, u, name):
            return array(k, u, name)
        k, k2 = rng.choice("cuUw"), rng.choice("cuUw")
        u = [x for x in self.text()[:rng.choice([0, 1, 3, 8, 40])] if x]
        v = list(u) if rng.random() < 0.5 else [x for x in self.text()[:rng.choice([1, 3, 8])] if x]
        if v and rng.random() < 0.6: v[rng.randrange(len(v))] = rng.choice(b"09afAF:~")
        if rng.random() < 0.3:
            p = rng.randrange(len(u) + 1); u[p:p] = encoded.odd(rng, k, 0x61) if k != "c" else [rng.randrange(1, 256)]
        n = max(len(u), len(v)); u = [x for x in u if x]; v = [x for x in v if x]
        u, v = u + [0] * (n - len(u)), v + [0] * (n - len(v))                     # fixed strings of one capacity
        self.add("fixed", {"k": k, "u": units(k, u), "k2": k2, "u2": units(k2, v)}, "q_fixed(d, e)", array(k, u) + " " + array(k2, v, "e"))

    def bytes(self):
        rng = self.rng
        n = rng.choice([1, 2, 4, 16])
        v = [rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n)]
        y = list(v) if rng.random() < 0.7 else [rng.randrange(256) for _ in range(n)]
        if rng.random() < 0.7: y[rng.randrange(n)] = rng.choice([0, 1, 127, 128, 255])
        k, c = rng.randrange(n), rng.randrange(256)
        lit = lambda z: "ip::byte_array<%d>{{%s}}" % (n, ", ".join(map(str, z)))
        self.add("bytes", {"x": v, "y": y, "k": k, "v": c}, "q_bytes(%s, %s, %d, %d)" % (lit(v), lit(y), k, c))
    def opt(self):
        x, j = self.addr(); y, k = self.addr()
        self.add("opt", {"x": j, "y": k}, "q_opt(ip_address(%s), ip_address(%s))" % (x, y))

    # ---- literals and acceptance
    def literal_text(self, f):
        rng = self.rng
        while True:
            t = bytes(self.nettext() if f[0] == "n" else self.text())
            if t and b"\0" not in t and b"0000" not in t.partition(b"/")[2] and all(x < 128 for x in t):
                return list(t)
    def quoted(self, k, u):
        return {"c": "", "u": "u", "U": "U", "w": "L"}[k] + cstr(u)
    def accept(self):
        rng = self.rng
        r = rng.randrange(12)
        f = rng.choice(list(TYPE)); k = rng.choice("cccuUw")
        u = self.literal_text(f) if r < 6 else None
        i = {"f": f, "k": k, "u": units(k, u), "strict": True, "view": False} if u else None
        if r == 3 and rng.random() < 0.5:
            i["strict"] = rng.random() < 0.5 if f[0] == "n" else True
            i["view"] = True
            self.add("accept", i, "%s::parse(sv(d)%s)" % (TYPE[f], leave(f, i["strict"], u)), array(k, u), 17)
        elif r < 2:
            self.add("accept", i, self.quoted(k, u) + SUFFIX[f])
        elif r < 4:
            i["strict"] = rng.random() < 0.5 if f[0] == "n" else True
            self.add("accept", i, "%s::parse(%s%s)" % (TYPE[f], self.quoted(k, u), leave(f, i["strict"], u)))
        elif r < 6:
            i["strict"] = rng.random() < 0.5 if f[0] == "n" else True
            self.add("accept", i, "%s::parse<%s%s>()" % (TYPE[f], self.quoted(k, u), leave(f, i["strict"], u)), std=20)
        elif r == 6:
            x, j = self.addr(); p = values.prefix(rng, len(j["b"])); s = rng.random() < 0.7
            if rng.random() < 0.15: p = rng.choice([33, 129, 256, 300])
            N = TYPE["n4" if len(j["b"]) == 4 else "n6"] if rng.random() < 0.6 else "ip_network"
            self.add("accept", {"f": "from", "x": j, "p": p, "strict": s}, "%s::from_address(%s, %d, %s)" % (N, x, p, b(s)))
        elif r == 7:
            x, j, _ = self.net(); d, n = self.args(j, True)
            if rng.random() < 0.4: x = "ip_network(%s)" % x
            self.add("accept", {"f": "super", "n": j, "diff": d, "new": n}, "%s.supernet(%d, opt(%d))" % (x, d, n))
        elif r == 8:
            x, j, _ = self.net(); d, n = self.args(j, False)
            if rng.random() < 0.4: x = "ip_network(%s)" % x
            self.add("accept", {"f": "subs", "n": j, "diff": d, "new": n}, "(void(%s.subnets(%d, opt(%d))), 1)" % (x, d, n))
        elif r == 9:
            x, j, a = self.net()
            near = values.neighbour(rng, a)
            if rng.random() < 0.4: near = a.split("%")[0].split("/")[0] + "/%d" % (8 * len(j["addr"]))
            y, o, _ = self.net(arg=near)
            if rng.random() < 0.4: x, y = "ip_network(%s)" % x, "ip_network(%s)" % y
            self.add("accept", {"f": "excl", "n": j, "o": o}, "(void(%s.address_exclude(%s)), 1)" % (x, y))
        elif r == 10:
            t = rng.choice([x for x in texts.BAD_SCOPES if 0 < len(x) <= 16 and b"\0" not in x] + [texts.scope_text(rng).encode() for _ in range(12)])
            k = rng.choice("ccuUw"); view = rng.random() < 0.3
            if k != "c": t = bytes(y for y in t if y < 128)
            u = [y for y in t if y]
            x, j = self.addr(16 if rng.random() < 0.9 else 4)
            if len(j["b"]) == 4 or rng.random() < 0.5: x = "ip_address(%s)" % x
            self.add("accept", {"f": "scope", "x": j, "k": k, "u": units(k, u), "view": view}, "scoped(%s, %s)" % (x, "sv(d)" if view else "d"), array(k, u), 17 if view else 14)
        else:
            n = rng.choice([1, 2, 4, 16]); at = rng.choice([0, n - 1, n, n + 1, rng.randrange(40)])
            if rng.random() < 0.5:
                self.add("accept", {"f": "at", "size": n, "at": at}, "element<%d>(%d)" % (n, at))
            else:
                self.add("accept", {"f": "at", "size": n, "at": at}, "unit(%s, %d)" % (cstr([97] * n), at))
    def valid(self, f):
        """the text of some value of a type"""
        rng = self.rng
        w = {"n4": 4, "n6": 16, "v4": 4, "v6": 16}.get(f) or rng.choice([4, 16])
        if f[0] != "n": return list(texts.v4_valid(rng) if w == 4 else texts.v6_valid(rng))
        a, p = values.net(rng, w).split("/")
        x = bytes.fromhex(a.split("%")[0])
        t = (".".join(map(str, x)) if w == 4 else ":".join("%x" % (x[2 * i] * 256 + x[2 * i + 1]) for i in range(8))).encode()
        if w == 16 and "%" in a: t += b"%" + bytes.fromhex(a.split("%")[1])
        return list(t + b"/" + p.encode())
    def literal(self):
        """a literal that is accepted, and its value; and integers as addresses"""
        rng = self.rng
        if rng.random() < 0.2:
            x = int.from_bytes(values.v4(rng), "big")
            self.add("literal", {"f": "v4", "k": "c", "view": False, "u": list(("%d.%d.%d.%d" % tuple(x.to_bytes(4, "big"))).encode())}, "q_addr(%s_ipv4)" % rng.choice(["%d" % x, "0x%x" % x, "0x%X" % x]))
            return
        self.turn += 1                                       # every type with every kind of character in turn
        f = list(TYPE)[self.turn % 6]; k = "cuUw"[self.turn // 6 % 4]
        u = self.valid(f)
        q = self.quoted(k, u)
        how = rng.choice([0, 0, 1, 2])
        e = q + SUFFIX[f] if how == 0 else "%s::parse(%s)" % (TYPE[f], q) if how == 1 else "%s::parse<%s>()" % (TYPE[f], q)
        i = {"f": f, "k": k, "u": units(k, u), "strict": True, "view": False}
        self.add("literalnet" if f[0] == "n" else "literal", i, "%s(%s)" % ("q_netv" if f[0] == "n" else "q_addr", e), std=20 if how == 2 else 14)

OPS = ["parse", "parse", "parse", "pnet", "pnet", "literal", "literal", "cats", "ints", "embed", "scope", "cmp", "cmp", "from_", "attrs", "ncats", "rel", "rel", "super_", "subs", "subs", "excl", "hosts", "arith", "arith", "shift", "mixed", "digits", "fixed",
       "iter", "any", "setscope", "more", "iter", "parse", "bytes", "iter", "opt", "anynet", "iter", "scopes", "mixed", "limits", "iter", "cmp"]

def grid(s):
    """every form of text with every kind of character, once"""
    rng = s.rng
    for f in TYPE:
        for k in "cuUw8":
            for view in (False, True):
                std = 20 if k == "8" else 17 if view else 14
                u = s.literal_text(f); strict = rng.random() < 0.5
                i = {"f": f, "k": k, "u": units(k, u), "view": view}
                t = "sv(d)" if view else "d"
                if f[0] == "n":
                    s.add("pnet", dict(i, strict=strict), "q_pnet<%s>(%s, %s)" % (TYPE[f], t, b(strict)), array(k, u), std)
                else:
                    s.add("parse", i, "q_parse<%s>(%s)" % (TYPE[f], t), array(k, u), std)
                while True:                                 # texts accepted more often than not
                    u = s.valid(f)
                    if rng.random() < 0.2: u = list(texts.mutate(rng, bytes(u), b"0123456789af:./%"))
                    if u and 0 not in u and b"0000" not in bytes(u).partition(b"/")[2]: break
                strict = strict if f[0] == "n" else True
                i = {"f": f, "k": k, "u": units(k, u), "strict": strict, "view": view}
                s.add("accept", i, "%s::parse(%s%s)" % (TYPE[f], t, leave(f, strict, u)), array(k, u), std)
                if not view and k != "8":
                    s.add("accept", dict(i, strict=True), s.quoted(k, u) + SUFFIX[f])
                    s.add("accept", i, "%s::parse<%s%s>()" % (TYPE[f], s.quoted(k, u), leave(f, strict, u)), std=20)
    for either in (False, True):
        for k in "cuUw8":
            for view in (False, True):
                x, j = s.addr(16)
                u = list(texts.scope_text(rng)[:16].encode())
                u = [y for y in u if 0 < y < 128]
                e = "ip_address(%s)" % x if either else x
                std = 20 if k == "8" else 17 if view or either else 14
                s.add("setscope", {"x": j, "k": k, "u": units(k, u), "view": view or either}, "q_setscope(%s, %s)" % (e, "sv(d)" if view else "d"), array(k, u), std)
                s.add("accept", {"f": "scope", "x": j, "k": k, "u": units(k, u), "view": view}, "scoped(%s, %s)" % (e, "sv(d)" if view else "d"), array(k, u), 20 if k == "8" else 17 if view else 14)
    for _ in range(3):
        x = int.from_bytes(values.v4(rng), "big")
        s.add("literal", {"f": "v4", "k": "c", "view": False, "u": list(("%d.%d.%d.%d" % tuple(x.to_bytes(4, "big"))).encode())}, "q_addr(ipv4_address::from_uint<%du>())" % x)

def inputs(rng, n, accepts):
    s = Set(rng)
    grid(s)
    for k in range(n):
        getattr(s, OPS[k % len(OPS)])()
    for _ in range(accepts):
        s.accept()
    return s.lines
