"""Histories of narrow and wide streams."""
from gen import encoded, texts, values

KINDS = ["v4", "v6", "any", "n4", "n6", "nany"]
FORMATS = ["full", "compact", "compressed"]
FLAGS = ["uppercase", "nouppercase", "left", "right", "internal", "skipws", "noskipws", "hex", "dec", "oct", "showbase", "unitbuf", "boolalpha", "strict", "non_strict"]
BLANKS = [b" ", b"\n", b"\t", b"\v", b"\f", b"\r", b"  \n", b" \t "]

def k_of(s): return "c" if s <= 2 else "w"

def value(rng, kind):
    if kind == "v4": return values.addr(rng, 4)
    if kind == "v6": return values.addr(rng, 16, 0.4)
    if kind == "any": return values.addr(rng, None, 0.4)
    return values.net(rng, {"n4": 4, "n6": 16}.get(kind), 0.4)

def token(rng, kind, pool4, pool6, pooln):
    r = rng.random()
    if r < 0.05: return rng.choice([b"", b"x", b"0", b"::", b"1.2.3.4", b"/", b"1.2.3.4/8", b"::1/64", b"10.0.0.0/8", b"fe80::1%eth0", b"fe80::1%\xff"])
    if r < 0.15: kind = rng.choice(KINDS)
    if kind[0] == "n":
        if rng.random() < 0.4:      # host bits decide
            net = values.net(rng, {"n4": 4, "n6": 16}.get(kind), 0)
            a, p = net.split("/"); b = bytearray(bytes.fromhex(a))
            if rng.random() < 0.6: b[-1] |= 1
            t = ".".join(map(str, b)) if len(b) == 4 else ":".join("%x" % (b[i] * 256 + b[i + 1]) for i in range(0, 16, 2))
            return ("%s/%s" % (t, p)).encode()
        t = rng.choice(pooln)
    elif kind == "v4" or (kind == "any" and rng.random() < 0.5): t = rng.choice(pool4)
    else: t = rng.choice(pool6)
    return t

def units(rng, k, t):
    if k == "c": return list(t)
    u = [c for c in t]
    if rng.random() < 0.05 and u:
        p = rng.randrange(len(u)); u[p:p + 1] = encoded.odd(rng, "w", u[p] & 0x7f)
    return [c for c in u if c != 0xffffffff]      # the end-of-file mark of wide streams

def walk(rng, pools):
    cmds = []
    c = cmds.append
    only = rng.choice([None, None, 1, 3])
    for _ in range(rng.randrange(6, 40)):
        s = only or rng.randrange(1, 5)
        r = rng.random()
        if r < 0.17: c("manip %d %s" % (s, rng.choice(FORMATS)))
        elif r < 0.32: c("manip %d %s" % (s, rng.choice(FLAGS)))
        elif r < 0.37: c("width %d %d" % (s, rng.choice([0, 1, 3, 8, 15, 20, 44, 60])))
        elif r < 0.40: c("fill %d %d" % (s, rng.choice([32, 48, 42, 97, 46])))
        elif r < 0.44: c("copyfmt %d %d" % (s, {1: 2, 2: 1, 3: 4, 4: 3}[s]))
        elif r < 0.48: c("other %d %s" % (s, texts.hx(rng.choice([b"", b"x", b"->", b"abcdef", b"%z"]))))
        elif r < 0.50: c("word %d" % s)
        elif r < 0.53: c("insu %d %032x" % (s, rng.getrandbits(rng.randrange(1, 129))))
        elif r < 0.58: c("clear %d" % s)
        elif r < 0.78:
            k = rng.choice(KINDS); c("ins %d %s %s" % (s, k, value(rng, k)))
        else:
            k = rng.choice(KINDS)
            t = token(rng, k, *pools)
            if rng.random() < 0.3: t = rng.choice(BLANKS) + t
            if rng.random() < 0.8: t = t + rng.choice(BLANKS)
            if rng.random() < 0.3: t = t + b" " + token(rng, k, *pools) + rng.choice([b"", b" "])
            if rng.random() < 0.9: c("feed %d %s" % (s, encoded.hexs(k_of(s), units(rng, k_of(s), t))))
            if rng.random() < 0.5: c("clear %d" % s)
            c("ext %d %s" % (s, k))
    return "\t".join(cmds)

def from_model(rng, printed):
    out = []
    for line in printed:
        f1, x1, u1, f2, x2, u2, op = line.split(" ")
        a = rng.choice([1, 3]); b = a + 1
        if rng.random() < 0.5: a, b = b, a
        cmds = []; c = cmds.append
        for s, f, x, u in ((a, f1, x1, u1), (b, f2, x2, u2)):
            pre = []
            if f != "9": pre.append("manip %d %s" % (s, FORMATS[int(f)]))
            if x == "FALSE": pre.append("manip %d non_strict" % s)
            if u == "TRUE": pre.append("manip %d uppercase" % s)
            rng.shuffle(pre); cmds += pre
        feed = lambda s, t: c("feed %d %s" % (s, encoded.hexs(k_of(s), list(t))))
        def insert(s):
            k = rng.choice(["v6", "any", "n6", "nany"])
            v = "0123%s00000000000000000000abcd" % rng.choice(["00ab", "0000", "0a0b"]) + rng.choice(["", "%6162"])
            c("ins %d %s %s" % (s, k, v + ("/128" if k[0] == "n" else "")))
        def read(s):
            k = rng.choice(["n4", "n6", "nany"])
            feed(s, b"1.1.1.1/8 " if k == "n4" else b"::1/64 " if k == "n6" else rng.choice([b"1.1.1.1/8 ", b"::1/64 "])); c("ext %d %s" % (s, k)); c("clear %d" % s)
        if op[0] == "f" and op[1:].isdigit(): c("manip %d %s" % (a, FORMATS[int(op[1])]))
        elif op in ("strict", "non_strict", "uppercase", "nouppercase"): c("manip %d %s" % (a, op))
        elif op == "value": insert(a)
        elif op == "read": read(a)
        elif op == "other": c("other %d 2d2d" % a)
        elif op == "readaddr": feed(a, b"::1 "); c("ext %d v6" % a)
        elif op == "readbad": feed(a, b"x "); c("ext %d v4" % a); c("clear %d" % a)
        else: c("copyfmt %d %d" % (a, b))
        for s in (a, b): insert(s); read(s); insert(s); read(s)
        out.append("\t".join(cmds))
    return out

def inputs(rng, n, printed):
    pools = [[t for t in p if b" " not in t] for p in (texts.v4_texts(rng, 400), texts.v6_texts(rng, 600), texts.net_texts(rng, 600))]
    return from_model(rng, printed) + [walk(rng, pools) for _ in range(n)]
