"""Calls that fail, in every way, and some that do not."""
from gen import encoded, texts, values

LIT_MAX = {"v4": 15, "v6": 41 + 16, "any": 41 + 16, "n4": 31, "n6": 45 + 16, "nany": 2 * (41 + 16) + 1}

def failing_texts(rng, n):
    ts = texts.v4_texts(rng, n) + texts.v6_texts(rng, n) + texts.net_texts(rng, n)
    return rng.sample(ts, min(len(ts), 3 * n))

def units(rng, k, t, odd):
    """t as units, sometimes with odd ones in it"""
    u = list(t)
    if k != "c" and not odd:
        u = [c & 0x7f for c in u]
    for _ in range(odd):
        p = rng.randrange(len(u) + 1)
        if u and rng.random() < 0.5:
            p = min(p, len(u) - 1); u[p:p + 1] = encoded.odd(rng, k, u[p] & 0x7f)
        else:
            u[p:p] = encoded.odd(rng, k, rng.choice(b"0123456789abcdef:./%"))
    return u

def inputs(rng, n, gen):
    by = {k: [] for k in "8cuUw"}
    other = []
    def add(k, u):
        h = encoded.hexs(k, u)
        by[k].append("text %s %s" % (k, h))
        if rng.random() < 0.4 and len(u) < 299 and len(u) != 100 and 0 not in u:      # an array's message is made of its first 100 units, padding included
            by[k].append("array %s %s" % (k, h))
        if rng.random() < 0.2:
            by[k].append("scope %s %s" % (k, h))
    ts = failing_texts(rng, n) + gen
    for t in ts:
        k = rng.choice("cccc8uUw")
        add(k, units(rng, k, t, rng.choice([0, 0, 0, 1, 2]) if k != "c" else rng.random() < 0.1))
    for k in by:
        for size in list(range(0, 20)) + list(range(90, 115)) + [71, 72, 73, 140, 200, 250, 298, 299, 300, 320]:      # around what a message shows
            for t in rng.sample([b"1" * size, (b"1.2.3.4." * 130)[:size], (b"1:2:3:4:" * 130)[:size], (b"10.0.0.0/8" + b"/1" * 500)[:size], (b"::%" + b"a" * 1000)[:size]], 1 if size < 90 else 2):
                odd = rng.choice([0, 0, 1, 3])
                u = units(rng, k, t, odd)
                if size > 80 and rng.random() < 0.6:
                    for p in (rng.randrange(96, 104), rng.randrange(96, 104), 100, 99):
                        u[p:p + 1] = encoded.odd(rng, k, 0x39)
                add(k, u)
        for size in range(0, 36):
            for t in (b"a" * size, b"a" * size + b"%", b"/" + b"b" * size, b" " * size):
                by[k].append("scope %s %s" % (k, encoded.hexs(k, units(rng, k, t, rng.choice([0, 0, 1])))))
        for v in (0x80, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff):      # every width of a symbol's number
            u = encoded.enc8(v, 2 if v < 0x800 else 3 if v < 0x10000 else 4) if k in "8c" else [v] if k in "Uw" else [v] if v < 0x10000 else [0xd800 + ((v - 0x10000) >> 10 & 0x3ff), 0xdc00 + (v & 0x3ff)]
            for t in (b"1.2.3.", b"::", b"10.0.0.0/", b"fe80::%"):
                add(k, list(t) + u + [0x31]); add(k, u + list(t))
            by[k].append("scope %s %s" % (k, encoded.hexs(k, [97] + u)))
        if k in "cuUw":
            for kind, m in LIT_MAX.items():
                for size in (m + 1, m + 2, m + 3, 120, 250):
                    if size > m:
                        for t in (b"1.2.3.4", b"::", b"1.2.3.4/", b"x"):
                            by[k].append("long %s %s %s" % (kind, k, encoded.hexs(k, units(rng, k, (t * 250)[:size], rng.choice([0, 0, 2]))[:m + 1 + size])))
    for w in (4, 16):
        for p in range(8 * w + 1):
            a = values.addr(rng, w, 0.3)
            other.append("from %s %d %d" % (a, p, rng.randrange(2)))
            net = values.net(rng, w, 0.3, p)
            for op in ("super", "subs"):
                d = rng.choice([0, 1, 2, p, p + 1, 8 * w - p, 8 * w - p + 1, 8 * w, 200])
                q = rng.choice(["-", "-", 0, p - 1 if p else 0, p, p + 1, 8 * w, 8 * w + 1, rng.randrange(8 * w + 1)])
                other.append("%s %s %d %s" % (op, net, d, q))
                other.append("%s %s %d %s" % (op, net, 1, q))
        for p in (8 * w + 1, 64, 129, 255, 256, 257, 2**32, 2**64 - 1):
            other.append("from %s %d %d" % (values.addr(rng, w, 0.3), p, rng.randrange(2)))
    for _ in range(n // 2):
        net = values.net(rng, None, 0.1)
        w = 4 if net.index("/") == 8 else 16
        p = int(net.split("/")[1])
        d = rng.choice([0, 1, 1, 1, 2, rng.randrange(8 * w + 2), p, p + 1, 2**63, 2**64 - 1])
        q = rng.choice(["-", "-", rng.randrange(8 * w + 3), 2**64 - 1])
        other.append("%s %s %d %s" % (rng.choice(["super", "subs"]), net, d, q))
        other.append("from %s %d %d" % (values.addr(rng, w, 0.3), rng.choice([rng.randrange(8 * w + 3), 8 * w, 8 * w - 1]), rng.randrange(2)))
        o = values.neighbour(rng, net) if rng.random() < 0.7 else values.net(rng)
        other.append("excl %s %s" % ((net, o) if rng.random() < 0.7 else (o, net)))
    out = []
    for k in list(by):
        mine = list(dict.fromkeys(by[k]))
        out += ["\t".join(mine[i:i + 12]) for i in range(0, len(mine), 12)]
    return out + ["\t".join(other[i:i + 20]) for i in range(0, len(other), 20)]
