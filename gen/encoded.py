"""Texts as code units of an encoding, well and badly encoded."""
import json
from gen import texts

WIDTH = {"8": 2, "c": 2, "u": 4, "U": 8, "w": 8}

def hexs(k, units):
    return "".join("%0*x" % (WIDTH[k], u) for u in units) if units else "-"

def from_model(printed):
    """units as integers (UTF-32 units are pairs)"""
    r = []
    for x in printed:
        r.append([u[0] * 65536 + u[1] if isinstance(u, list) else u for u in json.loads(x)])
    return r

def enc8(v, n):
    """v written in n bytes, shortest or not"""
    if n == 1:
        return [v & 0x7f]
    t = []
    for _ in range(n - 1):
        t.insert(0, 0x80 | (v & 0x3f)); v >>= 6
    return [{2: 0xc0, 3: 0xe0, 4: 0xf0}[n] | (v & {2: 0x1f, 3: 0x0f, 4: 0x07}[n])] + t

def odd(rng, k, c):
    """a spelling of a character near c that is not its plain one"""
    if k in "8c":
        j = rng.randrange(12)
        if j < 4:
            return enc8(c, rng.choice([2, 3, 4]))                         # over-long
        if j < 6:
            n = rng.choice([2, 3, 4])
            v = rng.choice([c + 0x80, c + 0x100, c + 0x400, c * 257, 0x80, 0x7ff, 0x800, 0xd800 + c, 0xfee0 + c, 0xffff, 0x10000 + c, 0x10ffff, 0x110000, 0x1fffff, 0x1f300 + c])
            return enc8(v, n if rng.random() < 0.2 else 2 if v < 0x800 else 3 if v < 0x10000 else 4)
        if j < 8:
            e = enc8(rng.choice([c, 0xe9, 0x20ac, 0x1f600]), rng.choice([2, 3, 4]))
            return e[:rng.randrange(1, len(e))] + ([] if rng.random() < 0.5 else [c])   # truncated
        if j < 9:
            return [c | 0x80]
        if j < 10:
            e = enc8(c, rng.choice([2, 3, 4])); i = rng.randrange(len(e)); e[i] ^= rng.choice([0x40, 0x80, 0xc0, 0x20]); return e
        return [rng.choice([0xf8, 0xfb, 0xfc, 0xfe, 0xff, 0xc0, 0xc1, 0xf5, 0xf4, 0x80, 0xbf, 0x7f, 0])]
    if k == "u":
        return rng.choice([[c | 0x80], [c | 0x100], [c | 0x3000], [c * 256], [0xff00 + c - 0x20 if c > 0x20 else 0xff00], [0xd800 | rng.randrange(1024)], [0xdc00 | c], [0xd800 | rng.randrange(1024), 0xdc00 | c],
                           [0xd800, 0xdc00 | c], [0xdbff, 0xdfff], [0xdc00 | c, 0xd800], [0xd800, 0xd800, 0xdc00], [0xd800, c], [0xd7ff], [0xe000], [0x80], [0xffff], [0], [0xfeff, c]])
    return [rng.choice([c | 0x80, c | 0x100, c | 0x10000, c | 0x1000000, c | 0x80000000, 0xffffff00 | c, 0xffffff80 | c, 0xd800 | c, 0x10ffff, 0x110000, 0xffffffff, 0x80, 0x100, 0, 0x7fffffff])]

BASES = [b"1.2.3.4", b"255.255.255.255", b"::1", b"1:2:3:4:5:6:7:8", b"::ffff:1.2.3.4", b"fe80::1%eth0", b"10.0.0.0/8", b"10.0.0.0/255.0.0.0", b"2001:db8::/32", b"fe80::%e/128", b"1.2.3", b"", b"zz", b"1.2.3.4.5", b"/", b"1.2.300.4", b"::g", b"1..2"]

def inputs(rng, n, models, keep):
    cmds = []
    def add(k, units):
        h = hexs(k, units)
        cmds.append("text %s %s" % (k, h))
        if rng.random() < 0.6:
            cmds.append("array %s %s" % (k, h))
        if len(units) <= 16 and rng.random() < 0.4:
            cmds.append("scope_array %s %s" % (k, h))
    for ks, gen in models:
        for g in from_model(gen):
            for k in ks:
                if k != "c" or rng.random() < 0.4:
                    add(k, g)
                if rng.random() > keep:
                    continue
                b = list(rng.choice(BASES)); p = rng.choice([0, len(b), rng.randrange(len(b) + 1)])
                add(k, b[:p] + g + b[p:])
    for k in "8cuUw":
        for c in range(128):                                   # every character written in every odd way, on its own and in a text
            for _ in range(4):
                b = list(rng.choice(BASES)); p = rng.choice([0, len(b), rng.randrange(len(b) + 1)])
                add(k, b[:p] + odd(rng, k, c) + b[p:])
        for v in list(range(0, 256)) + [0x131, 0x3031, 0xff11]:   # and every small unit
            if v < 1 << 4 * WIDTH[k]:
                add(k, [v]); add(k, [49, v]); add(k, list(b"1.2.3.") + [v]); add(k, list(b"::") + [v])
        for bit in range(4 * WIDTH[k]):                        # one bit away from a valid text
            for t in (b"1.2.3.4", b"::a", b"10.0.0.0/8", b"::/16", b"eth0"):
                u = list(t); p = rng.randrange(len(u)); u[p] ^= 1 << bit; add(k, u)
        for _ in range(n):
            j = rng.randrange(5)
            t = texts.v4_valid(rng) if j == 0 else texts.v6_valid(rng) if j == 1 else rng.choice(BASES) if j == 2 else texts.scope_text(rng).encode() if j == 3 else texts.mutate(rng, rng.choice([texts.v4_valid(rng), texts.v6_valid(rng)]), b"0123456789af:./% g")
            if rng.random() < 0.3:
                t += b"/" + str(rng.randrange(40)).encode()
            u = list(t)
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                p = rng.randrange(len(u) + 1)
                if u and rng.random() < 0.6:
                    p = min(p, len(u) - 1); u[p:p + 1] = odd(rng, k, u[p] & 0x7f)
                else:
                    u[p:p] = odd(rng, k, rng.choice(b"0123456789abcdef:./%"))
            add(k, u)
    # one kind per history: not every configuration has every kind
    out = []
    for k in "8cuUw":
        mine = list(dict.fromkeys(c for c in cmds if c.split(" ")[1] == k))
        out += ["\t".join(mine[i:i + 20]) for i in range(0, len(mine), 20)]
    return out
