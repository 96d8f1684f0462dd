"""Histories of three registers of networks of one version."""
from gen import anyip, texts, values

def put(rng, r, n, net=None):
    a, p = (net or values.net(rng, n, 0.15)).split("/")
    if net is None and rng.random() < 0.3: a = values.addr(rng, n, 0.15)
    return "put %d %s %s %d" % (r, a, p, rng.randrange(2) if net is None else 1)
def copy_route(rng): return rng.choice("=cmra")
def swap_route(rng): return rng.choice("xsuma")
def step(rng, n, ts):
    r, q, o = (rng.randrange(1, 4) for _ in range(3))
    k = rng.randrange(20)
    if k < 3: return [put(rng, r, n)]
    if k < 5:      # a network and another close to it
        x = values.net(rng, n, 0.15)
        return [put(rng, r, n, x), put(rng, q, n, values.neighbour(rng, x))]
    if k < 7: return ["parse %d %s %d" % (r, texts.hx(rng.choice(ts)), rng.randrange(2))]
    if k < 9: return ["copy %d %d %s" % (r, q, copy_route(rng))]
    if k < 12: return ["swap %d %d %s" % (r, q, swap_route(rng))]
    if k < 13: return ["reverse"]
    if k < 14: return ["rotate"]
    if k < 16: return ["sort"]
    if k < 17: return ["super %d %d %d %d" % ((r, q) + rng.choice([(1, -1), (0, -1), (8, -1), (200, -1), (1, rng.randrange(8 * n + 1)), (2, 3), (rng.randrange(8 * n + 1), -1)]))]
    if k < 18: return ["sub %d %d %d %s" % (r, q, rng.randrange(8 * n + 2), rng.choice("flm"))]
    return ["rest %d %d %d %d" % (r, q, o, rng.randrange(8 * n))]

def histories(rng, count, length=10):
    ts = texts.net_texts(rng, 800)
    out = []
    for _ in range(count):
        n = rng.choice((4, 16))
        h = ["regs %d" % (4 if n == 4 else 6)]
        while len(h) < length: h += step(rng, n, ts)
        out.append("\t".join(h))
    return out

def from_model(rng, lines):
    """each printed transition, with concrete values of each version"""
    out = []
    for line in lines:
        x, y, z, op = line.split()
        for n in (4, 16):
            base, p = values.net(rng, n, 0, rng.randrange(1, 8 * n - 2)).split("/")
            p = int(p)
            sub = bytearray(bytes.fromhex(base)); k = rng.randrange(p + 1, 8 * n + 1)
            if k > p: sub[(k - 1) // 8] |= (128 >> (k - 1) % 8) * rng.randrange(2)
            val = {"0": None, "1": "%s/%d" % (base, p), "2": "%s/%d" % (bytes(sub).hex(), k), "3": values.net(rng, n, 1, 8 * n), "4": values.net(rng, n, 0), "5": "00" * n + "/0"}
            h = ["regs %d" % (4 if n == 4 else 6)]
            for r, v in ((1, x), (2, y), (3, z)):
                if val[v]: h.append(put(rng, r, n, val[v]))
            c = "copy 1 %d " + copy_route(rng)
            w = "swap 1 %d " + swap_route(rng)
            h.append({"copy": c % 2, "selfcopy": "copy 1 1 =", "swap": w % 2, "selfswap": "swap 1 1 " + rng.choice("xsu"), "super": "super 2 1 1 -1", "sub": "sub 3 1 %d %s" % (min(8 * n, p + rng.randrange(3)), rng.choice("flm")),
                      "rest": "rest 3 1 2 %d" % rng.randrange(3)}.get(op, op))
            out.append("\t".join(h))
    return out

def exclusion(rng, n):
    """a network, a subnetwork of it, and how many blocks are left"""
    w = 8 * n
    p = rng.randrange(w + 1)
    q = min(w, p + rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))
    v = rng.choice([values.word(rng, n), values.word(rng, n), b"\0" * n, b"\xff" * n])
    return "%s/%d %s/%d" % (values.mask(v, p).hex(), p, values.mask(v, q).hex(), q), q - p

def exclusions(rng, count, length=14):
    """histories of three registers of iterators over exclusions"""
    out = []
    for _ in range(count):
        kind = rng.choice("46aa")
        def some():
            return exclusion(rng, 4 if kind == "4" else 16 if kind == "6" else rng.choice((4, 16)))
        pool = [some() for _ in range(rng.choice((1, 2, 3)))]
        h, reg = ["regs " + kind], {}
        def put(r):
            x, n = rng.choice(pool)
            last = rng.random() < 0.15
            h.append("%s %d %s" % ("end" if last else "put", r, x)); reg[r] = (x, n, n if last else 0)
        for r in (1, 2, 3): put(r)
        while len(h) < length:
            r, q = rng.randrange(1, 4), rng.randrange(1, 4)
            x, n, k = reg[r]
            c = rng.randrange(10)
            if c < 1: put(r)
            elif c < 4:
                if k < n: h.append("inc %d" % r); reg[r] = (x, n, k + 1)
            elif c < 5:
                if k < n and r != q: h.append("pinc %d %d" % (r, q)); reg[q] = reg[r]; reg[r] = (x, n, k + 1)
            elif c < 7: h.append("copy %d %d %s" % (r, q, copy_route(rng))); reg[q] = reg[r]
            elif c < 9: h.append("swap %d %d %s" % (r, q, rng.choice("sum"))); reg[r], reg[q] = reg[q], reg[r]
            # what equality says of iterators over different exclusions is not part of the property
            elif reg[r][0] == reg[q][0]: h.append("cmp %d %d" % (r, q))
        out.append("\t".join(h))
    return out
