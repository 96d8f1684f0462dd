"""Histories of version-independent objects in registers."""
from gen import texts, values

def routes_a(rng): return rng.choice("cbBfutk")
def routes_n(rng): return rng.choice("catk")
def copy_route(rng): return rng.choice("=cmr")
def swap_route(rng): return rng.choice("xsum")
def parse_route(rng): return rng.choice("cwuU8a")

def text_addr(rng):
    k = rng.randrange(10)
    if k < 3:
        return rng.choice(texts.v4_texts(rng, 12))
    if k < 7:
        return rng.choice(texts.v6_texts(rng, 12))
    return rng.choice([b"", b"::", b"::1", b"1.2.3.4", b"::1.2.3.4", b"::ffff:1.2.3.4", b"1.2.3.4%1", b"fe80::1%eth0", b"1.2.3", b"1:2:3:4:5:6:7:8", b"0.0.0.0", b"255.255.255.256", b"1.2.3.4 ", b"%a", b"::1%"])

class Walk:
    def __init__(self, rng, pool_t, pool_n):
        self.rng, self.cmds, self.t, self.n = rng, [], pool_t, pool_n

    def step(self):
        rng = self.rng
        r, q = rng.randrange(1, 4), rng.randrange(1, 4)
        k = rng.randrange(24)
        c = self.cmds.append
        if k < 3:
            c("puta %d %s %s" % (r, routes_a(rng), values.addr(rng)))
            if rng.random() < 0.7: c("viewa %d" % r)
        elif k < 6:
            c("putn %d %s %s" % (r, routes_n(rng), values.net(rng)))
            if rng.random() < 0.7: c("viewn %d" % r)
        elif k < 8:
            c("parsea %d %s %s" % (r, parse_route(rng), texts.hx(rng.choice(self.t))))
            c("viewa %d" % r)
        elif k < 10:
            c("parsen %d %s %s %d" % (r, parse_route(rng), texts.hx(rng.choice(self.n)), rng.randrange(2)))
            c("viewn %d" % r)
        elif k < 11: c("copya %d %d %s" % (r, q, copy_route(rng)))
        elif k < 12: c("copyn %d %d %s" % (r, q, copy_route(rng)))
        elif k < 13: c("swapa %d %d %s" % (r, q, swap_route(rng)))
        elif k < 14: c("swapn %d %d %s" % (r, q, swap_route(rng)))
        elif k < 15: c("scope %d %s" % (r, texts.hx(rng.choice([b"", b"a", b"eth0", b"7", b"a%b", b"x" * 17, b"x" * 16]))))
        elif k < 17:
            c("make %d %d %s %d" % (r, q, rng.choice(["-", "0", "8", "24", "31", "32", "33", "64", "127", "128", "129", str(rng.randrange(140))]), rng.randrange(2)))
            c("viewn %d" % r)
        elif k < 18: c("super %d %d %d %s" % (r, q, rng.choice([1, 1, 1, 0, 2, 8, 33, 129]), rng.choice(["-", "-", "0", "8", "24", "40"])))
        elif k < 19: c("sub %d %d %d %s" % (r, q, rng.choice([1, 1, 1, 0, 2, 8, 33, 129]), rng.choice(["-", "-", "8", "24", "32", "33", "64", "128", "129"])))
        elif k < 20: c("cmpa %d %d" % (r, q))
        elif k < 22:
            if rng.random() < 0.5:      # something near it
                base = values.net(rng)
                c("putn %d c %s" % (r, base)); c("putn %d c %s" % (q, values.neighbour(rng, base)))
            c("cmpn %d %d" % (r, q)); c("cmpn %d %d" % (q, r))
        else:
            if rng.random() < 0.5:
                base = values.net(rng)
                c("putn %d c %s" % (r, base)); c("puta %d c %s" % (q, values.neighbour(rng, base).split("/")[0]))
            c("has %d %d" % (r, q))

def histories(rng, count, length=12):
    t = [text_addr(rng) for _ in range(1500)]
    n = texts.net_texts(rng, 1500)
    out = []
    for _ in range(count):
        w = Walk(rng, t, n)
        while len(w.cmds) < length:
            w.step()
        out.append("\t".join(w.cmds))
    return out

def from_model(rng, lines):
    """each printed transition, with several concrete values"""
    out = []
    for line in lines:
        kind, x, y, op, arg = line.split()
        def val(k):
            k = int(k)
            if kind == "a":
                return {0: "00000000", 1: values.addr(rng, 4), 2: values.v6(rng).hex(), 3: "%s%%%s" % (values.v6(rng).hex(), values.scope(rng).hex()), 4: values.addr(rng, 4)}[k]
            return {0: "00000000/32", 1: values.net(rng, 4), 2: values.net(rng, 16, 0), 3: values.net(rng, 16, 1), 4: values.net(rng, 4)}[k]
        rt = routes_a if kind == "a" else routes_n
        h = ["put%s 1 %s %s" % (kind, rt(rng), val(x)), "put%s 2 %s %s" % (kind, rt(rng), val(y))]
        if op in ("put", "parse"):
            h.append("put%s 1 %s %s" % (kind, "t" if op == "parse" else rt(rng), val(arg)))
        elif op == "bad":
            bad = rng.choice([b"", b"1.2.3", b"::g", b"1.2.3.4.5", b"/", b"12345::"])
            h.append("parse%s 1 %s %s" % (kind, parse_route(rng), texts.hx(bad)) + (" 1" if kind == "n" else ""))
        elif op == "copy": h.append("copy%s 1 2 %s" % (kind, copy_route(rng)))
        elif op == "swap": h.append("swap%s 1 2 %s" % (kind, swap_route(rng)))
        elif op == "selfcopy": h.append("copy%s 1 1 =" % kind)
        elif op == "selfswap": h.append("swap%s 1 1 %s" % (kind, rng.choice("xsu")))
        elif op == "scope": h.append("scope 1 " + texts.hx({"0": b"", "1": b"e1", "2": b"a/b"}[arg]))
        h += ["view%s 1" % kind, "view%s 2" % kind, "cmp%s 1 2" % kind, "cmp%s 2 1" % kind]
        out.append("\t".join(h))
    return out
