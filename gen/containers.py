"""Histories of fixed strings, byte arrays and optionals."""
import re
from gen import encoded

CAP = 6

CAPS = (6, 6, 6, 1, 3, 16, 40)

def units(rng, k, cap=CAP):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 6, 7, 8]) if cap == CAP else rng.choice([0, 1, cap - 1, cap, cap, cap + 1, cap + 2, rng.randrange(cap + 3)])
    us = []
    while len(us) < n:
        c = rng.choice([0x61, 0x61, 0x62, 0x7f, 0x01, 0x20, rng.randrange(1, 128)])
        j = rng.random()
        if k == "c":
            us.append(rng.choice([c, c, 0x80, 0xff, rng.randrange(1, 256)]))
        elif j < 0.06:
            us += encoded.odd(rng, k, c)
        elif j < 0.12:
            us.append(0)
        else:
            us.append(c)
    return us

def strings(rng):
    cap = rng.choice(CAPS)
    cmds = ["cap %d" % cap]
    for r in (1, 2, 3):
        cmds.append(new(rng, r, cap))
    for _ in range(rng.randrange(4, 14)):
        r, q = rng.randrange(1, 4), rng.randrange(1, 4)
        cmds.append(rng.choice([new(rng, r, cap), "fcopy %d %d" % (r, q), "fswap %d %d" % (r, q), "fswap %d %d" % (r, q)]))
        if rng.random() < 0.7:
            cmds.append("flook %d" % r)
        if rng.random() < 0.3:
            cmds.append("flook %d" % q)
    return cmds + ["flook 1", "flook 2", "flook 3"]

def new(rng, r, cap=CAP):
    k = rng.choice("cccuUw8")
    return "fnew %d %s %s" % (r, k, encoded.hexs(k, units(rng, k, cap)))

def arrays(rng):
    w = rng.choice([4, 16, 1, 3, 7, 33])
    base = bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(w))
    cmds = []
    for r in (1, 2, 3):
        b = bytearray(base)
        if rng.random() < 0.7:
            b[rng.randrange(w)] = rng.choice([0, 1, 127, 128, 255, rng.randrange(256)])
        cmds.append("bnew %d %d %s" % (w, r, b.hex()))
    for _ in range(rng.randrange(4, 14)):
        r, q = rng.randrange(1, 4), rng.randrange(1, 4)
        j = rng.randrange(6)
        if j < 3:
            cmds.append("bput %d %d %d %d" % (r, rng.choice([0, w - 1, rng.randrange(w)]), rng.choice([0, 128, 255, rng.randrange(256)]), rng.randrange(5)))
        elif j == 3:
            cmds.append("bcopy %d %d" % (r, q))
        else:
            cmds.append("bswap %d %d" % (r, q))
        if rng.random() < 0.7:
            cmds.append("blook %d" % r)
        if rng.random() < 0.3:
            cmds.append("blook %d" % q)
    return cmds + ["blook 1", "blook 2", "blook 3"]

def optionals(rng):
    has = [False] * 3
    cmds = []
    for _ in range(rng.randrange(6, 18)):
        r, q = rng.randrange(1, 4), rng.randrange(1, 4)
        v = rng.randrange(1, 40)
        j = rng.randrange(7)
        if j == 0:
            cmds.append("onew %d %d %d" % (r, v, rng.randrange(4))); has[r - 1] = True
        elif j == 1:
            cmds.append("oput %d %d %d" % (r, v, rng.randrange(3))); has[r - 1] = True
        elif j == 2:
            cmds.append("onone %d %d" % (r, rng.randrange(3))); has[r - 1] = False
        elif j == 3:
            cmds.append("ocopy %d %d" % (r, q)); has[r - 1] = has[q - 1]
        elif j == 4 and has[r - 1]:
            cmds.append("omut %d %d %d" % (r, v, rng.randrange(3)))
        elif j == 5 and has[r - 1] and rng.random() < 0.5:
            cmds.append("otake %d" % r); has[r - 1] = False
        else:
            cmds.append("olook %d" % q)
    return cmds + ["olook 1", "olook 2", "olook 3"]

def histories(rng, count, walk):
    r = []
    hexes = lambda t: "".join("%02x" % int(x) for x in re.findall(r"\d+", t)) or "-"
    for line in walk:
        a, b, op = line.split("|")
        cmds = ["fnew 1 c " + hexes(a), "fnew 2 c " + hexes(b)]
        cmds += {"swap": ["fswap 1 2"], "copy": ["fcopy 1 2"], "look": []}[op]
        r.append("\t".join(cmds + ["flook 1", "flook 2", "flook 3"]))
    for i in range(count):
        r.append("\t".join((strings, arrays, optionals)[i % 3](rng)))
    return r
