"""Histories of iterator registers that stay within the sequence of all blocks of one prefix length."""
from gen import values

class Walk:
    def __init__(self, rng, n, hosts, net, plen):
        self.rng, self.n, self.hosts = rng, n, hosts
        self.p = 8 * n if hosts else plen
        self.top = 1 << self.p
        self.cmds = ["seq %s %d" % (net, -1 if hosts else plen)]
        a, q = net.split("/")
        v = int.from_bytes(bytes.fromhex(a.split("%")[0]), "big")
        q = int(q)
        w = 8 * n
        if hosts:
            last = v + (1 << (w - q)) - 1
            b, z = (v, last + 1) if q >= w - 1 else (v + 1, last + 1 if n == 16 else last)
        else:
            b = v >> (w - plen)
            z = b + (1 << (plen - q))
        self.b, self.z = b, z
        self.reg = {1: (False, b), 2: (False, z), 3: (True, z), 4: (True, b)}

    def ok(self, rev, k):
        return 0 <= k <= self.top + 1 if rev else -1 <= k <= self.top

    def target(self, rev, k):
        r = self.rng
        c = r.randrange(12)
        if c < 4:
            t = k + r.choice([-3, -2, -1, 0, 1, 2, 3, 7, -7])
        elif c < 6:
            t = r.choice([self.b, self.z, self.b - 1, self.z - 1, self.b + 1, self.z + 1])
        elif c < 8:
            t = r.choice([0, -1, 1, self.top - 1, self.top, self.top - 2, self.top // 2])
        elif c < 9:
            t = k + r.choice([-1, 1]) * r.choice([1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 255, 256, 65536])
        elif c < 10:
            t = r.randrange(self.b, self.z + 1) if self.z > self.b else self.b
        else:
            t = r.randrange(self.top + 1)
        return t

    def delta(self, rev, k, exists=False):
        """a displacement (in iteration direction) to a valid position, and its argument; None if not found"""
        for _ in range(8):
            t = self.target(rev, k)
            if exists:
                e = t - 1 if rev else t
                if not 0 <= e < self.top:
                    continue
            if not self.ok(rev, t) or abs(t - k) > self.top or abs(t - k) >= 1 << 8 * self.n:
                continue
            return (k - t) if rev else (t - k), t
        return None

    def arg(self, d, allow_u):
        """text of a displacement d as an argument to + : signed when it fits, sometimes unsigned"""
        fits = -(1 << 63) <= d < (1 << 63)
        if d >= 0 and allow_u and (not fits or self.rng.random() < 0.5):
            return "u%0*x" % (2 * self.n, d)
        return "s%d" % d if fits else None

    def step(self):
        rng = self.rng
        r, q = rng.randrange(1, 5), rng.randrange(1, 5)
        rev, k = self.reg[r]
        c = rng.randrange(20)
        if c < 4:
            op = rng.choice(["inc", "dec", "pinc", "pdec"])
            up = op in ("inc", "pinc")
            t = k + (1 if up != rev else -1)
            if not self.ok(rev, t):
                return
            self.reg[r] = (rev, t)
            if op[0] == "p":
                self.cmds.append("%s %d %d" % (op, r, q))
                self.reg[q] = (rev, k)
            else:
                self.cmds.append("%s %d" % (op, r))
        elif c < 11:
            x = self.delta(rev, k)
            if not x:
                return
            d, t = x
            op = rng.choice(["add", "sub", "nplus", "adde", "sube", "adde", "sube"])
            a = self.arg(-d if op.startswith("sub") else d, True)
            if a is None:
                op = "sube" if d < 0 else "adde"
                a = self.arg(abs(d), True)
            if op in ("adde", "sube"):
                self.cmds.append("%s %d %s" % (op, r, a))
                self.reg[r] = (rev, t)
            else:
                self.cmds.append("%s %d %d %s" % (op, r, q, a))
                self.reg[q] = (rev, t)
        elif c < 12:
            self.cmds.append("copy %d %d" % (r, q))
            self.reg[q] = (rev, k)
        elif c < 14:
            if self.ok(not rev, k):
                self.cmds.append("turn %d %d" % (r, q))
                self.reg[q] = (not rev, k)
        elif c < 16:
            x = self.delta(rev, k, True)
            if x:
                a = self.arg(x[0], True)
                if a:
                    self.cmds.append("at %d %s" % (r, a))
        elif c < 17 and self.hosts:
            v = rng.choice([0, self.top - 1, rng.randrange(self.top), min(self.b + rng.randrange(4), self.top - 1), max(self.z - rng.randrange(1, 4), 0)])
            self.cmds.append("start %d %0*x" % (r, 2 * self.n, v))
            self.reg[r] = (False, v)
        self.compare(rng.randrange(1, 5), rng.randrange(1, 5))

    def compare(self, r, q):
        if self.reg[r][0] == self.reg[q][0] and abs(self.reg[r][1] - self.reg[q][1]) <= self.top:
            self.cmds.append("cmp %d %d" % (r, q))

    def done(self):
        return "\t".join(self.cmds)

def sequence(rng, hosts, n=None):
    n = n or rng.choice([4, 16])
    w = 8 * n
    q = values.prefix(rng, n)
    if hosts:
        plen = -1
    else:
        plen = rng.choice([q, min(w, q + 1), min(w, q + 2), min(w, q + 3), w, rng.randrange(q, w + 1), 0 if q == 0 else min(w, q + 1)])
    v = rng.choice([values.word(rng, n), b"\xff" * n, b"\0" * n])
    return n, values.mask(v, q).hex() + "/%d" % q, plen

def histories(rng, count, hosts):
    out = []
    for _ in range(count):
        n, net, plen = sequence(rng, hosts)
        w = Walk(rng, n, hosts, net, plen)
        for _ in range(rng.randrange(8, 22)):
            w.step()
        out.append(w.done())
    return out

def from_walk(rng, lines, hosts):
    """histories from the model's transitions 'reva ka revb kb op arg' over a sequence of 4 blocks placed at
    the start of the address space (its one-before-the-first is before address 0), at its end, in the middle,
    or (networks only) being the whole of it"""
    out = []
    for x in lines:
        ra, ka, rb, kb, op, arg = x.split()
        ra, rb, ka, kb = ra == "TRUE", rb == "TRUE", int(ka), int(kb)
        n = rng.choice([4, 16])
        w = 8 * n
        if hosts:
            net = rng.choice(["00" * n, "ff" * (n - 1) + "fe", values.mask(values.word(rng, n), w - 1).hex()]) + "/%d" % (w - 1)     # two addresses
            net4 = net
            base = int(net.split("/")[0], 16)
            lo = base if base != (1 << w) - 2 else base - 2          # four addresses from lo
            if base not in (0, (1 << w) - 2):
                lo = base
            cmds = ["seq %s -1" % net4]
            def put(r, rev, k):
                over = rev and lo + k == (1 << w) + 1
                a = lo + k - over
                if 0 <= a < 1 << w:
                    cmds.append("start %d %0*x" % (r, 2 * n, a))
                elif a < 0:
                    cmds.append("start %d %0*x\tdec %d" % (r, 2 * n, 0, r))
                else:
                    cmds.append("start %d %0*x\tinc %d" % (r, 2 * n, (1 << w) - 1, r))
                if rev:
                    cmds.append("turn %d %d" % (r, r) + ("\tdec %d" % r if over else ""))
        else:
            kind = rng.choice(["zero", "end", "whole", "mid"])
            plen = 2 if kind == "whole" else rng.choice([w, w - 1, 8, 9, 3, rng.randrange(3, w + 1)])
            v = {"zero": b"\0" * n, "end": b"\xff" * n, "whole": b"\0" * n, "mid": values.word(rng, n)}[kind]
            net = values.mask(v, plen - 2).hex() + "/%d" % (plen - 2)
            lo = int(net.split("/")[0], 16) >> (w - plen)
            cmds = ["seq %s %d" % (net, plen), "copy 1 2"]
            def put(r, rev, k):
                cmds.append("seq %s %d" % (net, plen) if r == 1 else "copy 4 2\tturn 2 2")
                over = rev and lo + k == (1 << plen) + 1         # a reverse iterator one before its first
                k -= over
                if k:
                    cmds.append(rng.choice(["adde %d s%d" % (r, k)] + (["inc %d" % r] * 1 if k == 1 else [])) if k > 0 else "dec %d" % r)
                if rev:
                    cmds.append("turn %d %d" % (r, r) + ("\tdec %d" % r if over else ""))
        top = 1 << (w if hosts else plen)
        def bad(rev, k):
            return not (0 <= lo + k <= top + 1 if rev else -1 <= lo + k <= top)
        if bad(ra, ka) or bad(rb, kb):
            continue
        put(1, ra, ka)
        put(2, rb, kb)
        cmds.append({"inc": "inc 1", "dec": "dec 1", "pinc": "pinc 1 3", "pdec": "pdec 1 3", "jump": "%s" % rng.choice(["adde 1 s" + arg, "add 1 1 s" + arg, "sube 1 s%d" % -int(arg), "sub 1 1 s%d" % -int(arg), "nplus 1 1 s" + arg]),
                     "turn": "turn 1 1", "at": "at 1 s" + arg, "cmp": "cmp 1 2"}[op])
        if op == "cmp":
            cmds.append("cmp 2 1")
        if op == "turn":
            ra = not ra
        d = {"inc": 1, "pinc": 1, "dec": -1, "pdec": -1, "jump": int(arg)}.get(op, 0)
        ka += -d if ra else d
        if abs(ka - kb) <= top and ra == rb and op in ("inc", "dec", "pinc", "pdec", "jump", "turn"):
            cmds.append("cmp 1 2\tcmp 2 1")
        out.append("\t".join(cmds))
    return out

class Mix:
    """registers of version-independent iterators, each over the sequence of its version"""
    def __init__(self, rng, hosts):
        self.rng, self.hosts = rng, hosts
        self.walks = {}
        for n in (4, 16):
            _, net, plen = sequence(rng, hosts, n)
            self.walks[n] = Walk(rng, n, hosts, net, plen)
            self.walks[n].net, self.walks[n].plen = net, plen
        self.cmds = ["mix"]
        self.reg = {}
        for r in range(1, 5):
            self.put(r, rng.choice((4, 16)), rng.choice("beBE"))

    def put(self, r, n, which):
        w = self.walks[n]
        self.cmds.append("put %d %s %d %s" % (r, w.net, w.plen, which))
        self.reg[r] = (n, which in "BE", w.b if which in "bE" else w.z)

    def arg(self, d, signed):
        if signed and -(1 << 63) <= d < (1 << 63): return "s%d" % d
        return "u%032x" % d if d >= 0 else None

    def compare(self, r, q):
        (n, v, k), (n2, v2, k2) = self.reg[r], self.reg[q]
        if v == v2 and (n != n2 or abs(k - k2) <= self.walks[n].top): self.cmds.append("cmp %d %d" % (r, q))

    def step(self):
        rng = self.rng
        r, q = rng.randrange(1, 5), rng.randrange(1, 5)
        n, rev, k = self.reg[r]
        w = self.walks[n]
        c = rng.randrange(20)
        if c < 2:
            self.put(r, rng.choice((4, 16)), rng.choice("beBE"))
        elif c < 6:
            op = rng.choice(["inc", "dec", "pinc", "pdec"])
            t = k + (1 if (op[-3:] == "inc") != rev else -1)
            if w.ok(rev, t):
                self.reg[r] = (n, rev, t)
                if op[0] == "p": self.reg[q] = (n, rev, k)
                self.cmds.append("%s %d" % (op, r) + (" %d" % q if op[0] == "p" else ""))
        elif c < 11:
            x = w.delta(rev, k)
            if x:
                op = rng.choice(["add", "sub", "nplus", "adde", "sube"])
                a = self.arg(-x[0] if op.startswith("sub") else x[0], rng.random() < 0.6)
                if a and op in ("adde", "sube"):
                    self.cmds.append("%s %d %s" % (op, r, a)); self.reg[r] = (n, rev, x[1])
                elif a:
                    self.cmds.append("%s %d %d %s" % (op, r, q, a)); self.reg[q] = (n, rev, x[1])
        elif c < 13:
            self.cmds.append("copy %d %d" % (r, q)); self.reg[q] = self.reg[r]
        elif c < 15:
            self.cmds.append("swap %d %d %s" % (r, q, rng.choice("sum"))); self.reg[r], self.reg[q] = self.reg[q], self.reg[r]
        elif c < 16:
            self.cmds.append("rev"); self.reg = {i: self.reg[5 - i] for i in self.reg}
        elif c < 18:
            if w.ok(not rev, k):
                self.cmds.append("turn %d %d" % (r, q)); self.reg[q] = (n, not rev, k)
        else:
            x = w.delta(rev, k, True)
            a = x and self.arg(x[0], rng.random() < 0.6)
            if a: self.cmds.append("at %d %s" % (r, a))
        self.compare(rng.randrange(1, 5), rng.randrange(1, 5))

def mixed(rng, count, hosts):
    out = []
    for _ in range(count):
        m = Mix(rng, hosts)
        for _ in range(rng.randrange(8, 20)): m.step()
        out.append("\t".join(m.cmds))
    return out

def from_regs(rng, lines, hosts):
    """the model's transitions 'A B op' with A and B like 4f2: version, direction, place"""
    out = []
    for x in lines:
        a, b, op = x.split()
        net = {4: values.mask(values.word(rng, 4), 30).hex() + "/30", 16: values.mask(values.word(rng, 16), 126).hex() + "/126"}
        cmds = ["mix"]
        for r, y in ((1, a), (2, b)):
            n = 4 if y[0] == "4" else 16
            k = int(y[2])
            if hosts: k = min(k, 2)                     # two hosts
            cmds.append("put %d %s %d %s" % (r, net[n], -1 if hosts else 8 * n, "b" if y[1] == "f" else "E"))
            if k: cmds.append("%s %d s%d" % ("adde" if y[1] == "f" else "sube", r, k))
        cmds.append({"copy": "copy 1 2", "swap": "swap 1 2 " + rng.choice("sum"), "turn": "turn 1 2", "inc": "inc 1", "dec": "dec 1", "pinc": "pinc 1 2", "pdec": "pdec 1 2",
                     "add": "add 1 2 s2", "sub": "sub 1 2 s2", "cmp": "cmp 1 2"}[op])
        if op == "cmp": cmds.append("cmp 2 1")
        elif op == "swap" and a[1] == b[1]: cmds.append("cmp 1 2")
        out.append("\t".join(cmds))
    return out
