"""What each property's check builds, feeds and validates."""
from gen import constants, anyip, containers, encoded, errors, iters, netregs, streams, texts, u128, values

def size(tier, quick, thorough):
    return thorough if tier == "thorough" else quick

def packed(cmds, per=25):
    """stateless commands, several to a history"""
    cmds = list(dict.fromkeys(cmds))
    return ["\t".join(cmds[i:i + per]) for i in range(0, len(cmds), per)]

def c01_inputs(rng, tier, model):
    ts = texts.v4_texts(rng, size(tier, 30000, 1000000))
    gen = texts.from_model(model("Gen_Ipv4Text"))
    for t in gen:
        ts.append(t)
        for tail in (b".1", b".1.2", b".1.2.3", b"1.2.3", b"9.8.7.6", b"."):
            ts.append(t + tail)
    return packed(["p " + texts.hx(t) for t in ts])

def c02_inputs(rng, tier, model):
    ts = texts.v6_texts(rng, size(tier, 20000, 600000))
    gen = texts.from_model(model("Gen_Ipv6Text"))
    if tier != "thorough":
        gen = rng.sample(gen, min(14000, len(gen)))
    for t in gen:
        ts.append(t)
        ts.append(t + rng.choice([b":1", b"::", b":1.2.3.4", b"%a", b"::1:2", b":1:2:3:4:5", b":1:2:3:4:5:6", b"1", b".2.3.4"]))
    return packed(["p " + texts.hx(t) for t in ts])

def c03_inputs(rng, tier, model):
    cmds = []
    gen = [bytes(a) for a in texts.from_model(model("Gen_Format"))]
    for b in gen:
        cmds.append("a " + b.hex())
        if rng.random() < 0.1:
            cmds.append("n %s/128" % b.hex())
    for v in range(256):
        for p in range(4):
            b = [3, 200, 17, 99]; b[p] = v
            cmds.append("a " + bytes(b).hex())
    for v in range(65536 if tier == "thorough" else 2048):
        g = v if tier == "thorough" else rng.randrange(65536)
        b = bytearray(values.v6(rng)); k = 2 * rng.randrange(8)
        b[k:k + 2] = g.to_bytes(2, "big")
        cmds.append("a " + b.hex())
    for n in (4, 16):
        for p in range(8 * n + 1):
            for _ in range(3):
                cmds.append("n " + values.net(rng, n, 0.3, p))
    for k in range(1, 17):
        for _ in range(3):
            cmds.append("a %s%%%s" % (values.v6(rng).hex(), bytes(rng.choice(b"abzABZ0189-_.~!:[]") for _ in range(k)).hex()))
    for c in range(1, 127):
        if c not in b"\t\n\v\f\r %/":
            cmds.append("a %s%%%s" % (values.v6(rng).hex(), bytes([c, 97, c]).hex()))
    for _ in range(size(tier, 4000, 150000)):
        cmds.append("a " + values.addr(rng))
        if rng.random() < 0.4:
            cmds.append("n " + values.net(rng))
    return packed(cmds)

def c05_inputs(rng, tier, model):
    ts = texts.net_texts(rng, size(tier, 9000, 300000))
    gen = texts.from_model(model("Gen_NetText")) + texts.from_model(model("Gen_NetText@masks"))
    ts += gen if tier == "thorough" else rng.sample(gen, min(6000, len(gen)))
    return packed(["p " + texts.hx(t) for t in ts])

def c06_inputs(rng, tier, model):
    cmds = []
    for n in (4, 16):
        for p in range(8 * n + 1):
            for _ in range(size(tier, 8, 200)):
                a = values.addr(rng, n, 0.2)
                cmds.append("f %s %d %d" % (a, p, rng.randrange(2)))
                m = values.net(rng, n, 0.2, p).split("/")[0]
                cmds.append("f %s %d %d" % (m, p, rng.randrange(2)))
                v = bytearray(bytes.fromhex(m.split("%")[0]))      # exactly one host bit set
                if p < 8 * n:
                    b = rng.choice([p, 8 * n - 1, rng.randrange(p, 8 * n)])
                    v[b // 8] |= 128 >> b % 8
                    cmds.append("f %s %d %d" % (bytes(v).hex(), p, rng.randrange(2)))
            cmds.append("f %s %d 1" % ("00" * n, p)); cmds.append("f %s %d 0" % ("ff" * n, p))
        for p in (8 * n + 1, 8 * n + 2, 64, 127, 129, 255, 256, 256 + 24, 257, 65535, 65536 + 8, 2**31 - 1, 2**31, 2**32, 2**32 + 8, 2**63, 2**64 - 1, 2**64 - 8):
            for _ in range(4):
                cmds.append("f %s %d %d" % (values.addr(rng, n), p, rng.randrange(2)))
    for _ in range(size(tier, 300, 20000)):
        cmds.append("d " + values.addr(rng))
    for _ in range(size(tier, 3000, 200000)):
        a = values.addr(rng)
        cmds.append("f %s %d %d" % (a, values.prefix(rng, 4 if len(a) == 8 else 16), rng.randrange(2)))
    return packed(cmds) + netregs.from_model(rng, model("Gen_NetRegs")) + netregs.histories(rng, size(tier, 400, 20000))

def pair(rng, n=None):
    """two networks, mostly close to each other"""
    x = values.net(rng, n, 0.1)
    y = values.neighbour(rng, x) if rng.random() < 0.85 else values.net(rng)
    return (x, y) if rng.random() < 0.5 else (y, x)

def c07_inputs(rng, tier, model):
    cmds = []
    for _ in range(size(tier, 12000, 400000)):
        cmds.append("rel %s %s" % pair(rng))
    for n in (4, 16):
        for p in range(8 * n + 1):
            for q in (p - 1, p, p + 1, 0, 8 * n, rng.randrange(8 * n + 1)):
                if 0 <= q <= 8 * n:
                    a = values.word(rng, n)
                    for x in (values.mask(a, p).hex() + "/%d" % p,):
                        cmds.append("rel %s %s/%d" % (x, values.mask(a, q).hex(), q))
    for _ in range(size(tier, 5000, 200000)):
        x = values.net(rng)
        y = values.neighbour(rng, x) if rng.random() < 0.9 else values.net(rng)
        a = y.split("/")[0]
        if len(a) == 32 and rng.random() < 0.2:
            a += "%" + values.scope(rng).hex()
        elif "%" not in a:
            v = bytearray(bytes.fromhex(a))
            for _ in range(rng.randrange(3)):
                v[rng.randrange(len(v))] ^= 1 << rng.randrange(8)
            a = bytes(v).hex()
        cmds.append("has %s %s" % (x, a))
    return packed(cmds)

def indexes(rng, n, count, k):
    """positions below count (a number), as words"""
    top = (1 << 8 * n)
    r = []
    for _ in range(k if count else 0):
        c = rng.choice([0, count - 1, count // 2, count // 3, rng.randrange(count), rng.randrange(min(count, 300)), count - 1 - rng.randrange(min(count, 300)), int.from_bytes(values.word(rng, n), "big") % count])
        r.append("%0*x" % (2 * n, c % top))
    return " ".join(r)

def c08_inputs(rng, tier, model):
    cmds = []
    def add(net, diff, new):
        n = len(net.split("/")[0].split("%")[0]) // 2
        p = int(net.split("/")[1])
        q = new if new is not None else p + diff
        ok = p < 8 * n and p <= q <= 8 * n and (new is None or diff == 1)
        count = 1 if p == 8 * n else (1 << (q - p)) if ok else 0
        cmds.append(("subs %s %d %s %s" % (net, diff, "-" if new is None else new, indexes(rng, n, count, 3))).strip())
    def sup(net, diff, new):
        cmds.append("sup %s %d %s" % (net, diff, "-" if new is None else new))
    for n in (4, 16):
        w = 8 * n
        for p in range(w + 1):
            for d in range(8):
                add(values.net(rng, n, 0.1, p), d, None)
                sup(values.net(rng, n, 0.1, p), d, None)
            for _ in range(size(tier, 6, 60)):
                q = rng.randrange(p, w + 1)
                add(values.net(rng, n, 0.1, p), 1, q)
                add(values.net(rng, n, 0.1, p), q - p, None)
                q = rng.randrange(0, p + 1)
                sup(values.net(rng, n, 0.1, p), 1, q)
                sup(values.net(rng, n, 0.1, p), p - q, None)
            last = "ff" * n + "/%d" % p
            last = values.mask(b"\xff" * n, p).hex() + "/%d" % p       # the last block of the address space
            zero = "00" * n + "/%d" % p
            for x in (last, zero):
                for q in {p, min(w, p + 1), min(w, p + 3), w - 1, w}:
                    if q >= p:
                        add(x, 1, q)
                        add(x, q - p, None)
                add(x, w - p + 1, None); sup(x, p + 1, None); sup(x, p, None); sup(x, 1, p + 1); sup(x, 1, max(p - 1, 0)); add(x, 1, max(p - 1, 0)); add(x, 0, None); sup(x, 0, None)
    odd = [0, 1, 2, 3, 7, 8, 31, 32, 33, 64, 127, 128, 129, 255, 256, 2**31, 2**32, 2**32 + 1, 2**63, 2**64 - 1, 2**64 - 2, 2**64 - 32, 2**64 - 128]
    for _ in range(size(tier, 2500, 100000)):
        net = values.net(rng, None, 0.1)
        add(net, rng.choice(odd), rng.choice(odd + [None] * len(odd)))
        sup(net, rng.choice(odd), rng.choice(odd + [None] * len(odd)))
    return packed(cmds)

def c09_inputs(rng, tier, model):
    cmds = []
    for n in (4, 16):
        w = 8 * n
        for p in range(w + 1):
            for q in {p, min(p + 1, w), min(p + 2, w), w, rng.randrange(p, w + 1), rng.randrange(p, w + 1)}:
                for v in (values.word(rng, n), b"\0" * n, b"\xff" * n) if n == 4 or q - p < 20 or rng.random() < 0.2 else (values.word(rng, n),):
                    cmds.append("exc %s/%d %s/%d" % (values.mask(v, p).hex(), p, values.mask(v, q).hex(), q))
    for _ in range(size(tier, 2500, 100000)):
        n = rng.choice([4, 4, 16])
        x = values.net(rng, n, 0.2)
        p = int(x.split("/")[1])
        a = bytes.fromhex(x.split("/")[0].split("%")[0])
        q = min(8 * n, p + rng.choice([0, 1, 2, 3, 5, 8, 13, 30]))
        v = int.from_bytes(a, "big") | (int.from_bytes(values.word(rng, n), "big") & ((1 << (8 * n - p)) - 1))
        y = values.mask(v.to_bytes(n, "big"), q).hex() + ("%" + values.scope(rng).hex() if n == 16 and rng.random() < 0.1 else "") + "/%d" % q
        cmds.append("exc %s %s" % (x, y) if rng.random() < 0.9 else "exc %s %s" % (y, x))
    for _ in range(size(tier, 1500, 100000)):
        cmds.append("exc %s %s" % pair(rng))
    return packed(cmds) + netregs.exclusions(rng, size(tier, 1200, 40000))

def c10_inputs(rng, tier, model):
    cmds = []
    def add(net):
        a, p = net.split("/")
        n, p = len(a.split("%")[0]) // 2, int(p)
        k = 1 << (8 * n - p)
        count = k if p >= 8 * n - 1 else k - 2 if n == 4 else k - 1
        cmds.append("hosts %s %s" % (net, indexes(rng, n, count, 4)))
    for n in (4, 16):
        for p in range(8 * n + 1):
            for _ in range(size(tier, 25, 500)):
                add(values.net(rng, n, 0.1, p))
            add("00" * n + "/%d" % p)
            add(values.mask(b"\xff" * n, p).hex() + "/%d" % p)
    for _ in range(size(tier, 1500, 60000)):
        add(values.net(rng))
    return packed(cmds)

def c11_inputs(rng, tier, model):
    gen = model("Gen_Iter")
    return iters.histories(rng, size(tier, 1500, 60000), True) + iters.from_walk(rng, gen, True) \
        + iters.mixed(rng, size(tier, 600, 30000), True) + iters.from_regs(rng, model("Gen_IterRegs"), True)

def c12_inputs(rng, tier, model):
    gen = model("Gen_Iter")
    return iters.histories(rng, size(tier, 1500, 60000), False) + iters.from_walk(rng, gen, False) \
        + iters.mixed(rng, size(tier, 600, 30000), False) + iters.from_regs(rng, model("Gen_IterRegs"), False)

BLOCKS = ["0.0.0.0/8", "10.0.0.0/8", "127.0.0.0/8", "169.254.0.0/16", "172.16.0.0/12", "192.0.0.0/29", "192.0.0.170/31", "192.0.2.0/24", "192.168.0.0/16", "198.18.0.0/15",
          "198.51.100.0/24", "203.0.113.0/24", "240.0.0.0/4", "255.255.255.255/32", "100.64.0.0/10", "224.0.0.0/4", "192.0.0.0/24", "192.88.99.0/24", "192.31.196.0/24", "192.52.193.0/24", "192.175.48.0/24",
          "::1/128", "::/128", "::ffff:0:0/96", "100::/64", "2001::/23", "2001:2::/48", "2001:db8::/32", "2001:10::/28", "fc00::/7", "fe80::/10", "::/8", "100::/8", "200::/7", "400::/6", "800::/5",
          "1000::/4", "4000::/3", "6000::/3", "8000::/3", "a000::/3", "c000::/3", "e000::/4", "f000::/5", "f800::/6", "fe00::/9", "ff00::/8", "fec0::/10", "2002::/16", "2001::/32", "64:ff9b::/96",
          "64:ff9b:1::/48", "2001:20::/28", "2000::/3", "3fff::/20", "5f00::/16", "2620:4f:8000::/48", "2001:1::1/128", "2001:3::/32", "2001:4:112::/48", "2001:30::/28"]

def block_edges(rng, near=1):
    """addresses on both sides of every edge of every block, as integers with their width"""
    import ipaddress
    for b in BLOCKS:
        net = ipaddress.ip_network(b)
        n = net.max_prefixlen // 8
        lo, hi = int(net.network_address), int(net.broadcast_address)
        pts = {lo, hi, (lo + hi) // 2}
        for d in range(1, near + 1):
            pts |= {lo - d, lo + d, hi - d, hi + d}
        for k in (1, 8, 16, 64, net.max_prefixlen - net.prefixlen):
            pts |= {lo - (1 << k), hi + (1 << k), lo ^ (1 << (k - 1 if k else 0))}
        for v in pts:
            if 0 <= v < 1 << 8 * n:
                yield n, v.to_bytes(n, "big"), net.prefixlen

def c14_inputs(rng, tier, model):
    cmds = []
    for n, b, p in block_edges(rng, size(tier, 2, 40)):
        cmds.append("a " + b.hex())
        if n == 4:
            cmds += ["a " + "00" * 10 + "ffff" + b.hex(), "a " + "00" * 12 + b.hex(), "a 2002" + b.hex() + "00" * 10]
        elif rng.random() < 0.3:
            cmds.append("a %s%%%s" % (b.hex(), values.scope(rng).hex()))
        for q in {p, p - 1, p + 1, p + 2, 8 * n, rng.randrange(8 * n + 1), rng.randrange(8 * n + 1)}:
            if 0 <= q <= 8 * n:
                cmds.append("n %s/%d" % (values.mask(b, q).hex(), q))
    for p in range(33):
        for m in ("00" * 4, "ff" * 4, "0a000000", "7f000001", "e0000000"):
            cmds.append("n %s/%d" % (values.mask(bytes.fromhex(m), p).hex(), p))
    for p in range(129):
        for m in ("00" * 16, "ff" * 16, "00" * 15 + "01", "00" * 10 + "ffff" + "0a000001", "fe80" + "00" * 14, "fc" + "00" * 15, "20010db8" + "00" * 12, "ff02" + "00" * 14, "fec0" + "00" * 14):
            cmds.append("n %s/%d" % (values.mask(bytes.fromhex(m), p).hex(), p))
    for k in range(256):                      # every leading byte, with all and no bits after it
        for n in (4, 16):
            for rest in ("00", "ff"):
                cmds += ["a %02x" % k + rest * (n - 1), "n %02x" % k + "00" * (n - 1) + "/8"]
    for bit in range(128):                    # one bit away from the special single addresses
        for v in (0, 1, 0xffff00000000, 0xffff0a000001, 0xffff08080808):
            cmds.append("a %032x" % (v ^ (1 << bit)))
    for bit in range(32):
        cmds.append("a %08x" % (1 << bit))
    for _ in range(size(tier, 4000, 300000)):
        cmds.append("a " + values.addr(rng, None, 0.1))
        cmds.append("n " + values.net(rng, None, 0.1))
    return packed(cmds)

def c15_inputs(rng, tier, model):
    cmds = []
    pre = ["00" * 10 + "ffff", "2002", "20010000"]
    for p in pre:
        for bit in range(128):               # the prefix with one bit of the whole address changed
            for _ in range(size(tier, 3, 30)):
                v = bytearray(bytes.fromhex(p) + values.word(rng, 16 - len(p) // 2))
                v[bit // 8] ^= 128 >> bit % 8
                cmds.append("emb " + v.hex())
        for _ in range(size(tier, 800, 30000)):
            v = bytearray(bytes.fromhex(p) + values.word(rng, 16 - len(p) // 2))
            if rng.random() < 0.3:
                v[rng.randrange(len(p) // 2)] = rng.choice([0, 1, 2, 0x20, 0xfe, 0xff])
            cmds.append("emb " + v.hex() + ("%" + values.scope(rng).hex() if rng.random() < 0.15 else ""))
        for i in range(len(p) // 2):         # every value of every byte of the prefix
            for c in range(256):
                v = bytearray(bytes.fromhex(p) + values.word(rng, 16 - len(p) // 2)); v[i] = c
                cmds.append("emb " + v.hex())
    for i in range(2, 16):
        for c in (0, 1, 128, 255):
            for p in pre:
                v = bytearray(bytes.fromhex(p) + bytes(range(101, 101 + 16 - len(p) // 2)))
                v[i] = c
                cmds.append("emb " + v.hex())
    for _ in range(size(tier, 1500, 100000)):
        cmds.append("emb " + values.addr(rng))
    return packed(cmds)

def close(rng, x):
    """an address or network that differs from x in one place or not at all"""
    a, _, p = x.partition("/")
    b, _, sc = a.partition("%")
    v = bytearray(bytes.fromhex(b)); sc = bytearray(bytes.fromhex(sc))
    k = rng.randrange(8)
    if k == 0:
        pass
    elif k < 4:
        i = rng.randrange(len(v)); v[i] = (v[i] + rng.choice([1, -1, 127, 128, 255])) % 256
        if k == 3 and i < len(v) - 1:      # and the other way round at a less significant place
            j = rng.randrange(i + 1, len(v)); v[j] = (v[j] + rng.choice([1, -1, 127, 128])) % 256
    elif k < 7 and len(v) == 16:
        m = rng.randrange(5)
        if m == 0 or not sc:
            sc = bytearray(values.scope(rng))
        elif m == 1:
            sc = sc[:-1]
        elif m == 2 and len(sc) < 16:
            sc = sc + rng.choice([b"0", b"a", b"~", b"!"])
        else:
            i = rng.randrange(len(sc)); sc[i] = rng.choice(b"019azAZ~!")
    if p:
        p = str(int(p) if rng.random() < 0.5 else max(0, min(8 * len(v), int(p) + rng.choice([-1, 1, -8, 8, 2]))))
        v = values.mask(bytes(v), int(p))
    return bytes(v).hex() + ("%" + bytes(sc).hex() if sc else "") + ("/" + p if p else "")

def c13_inputs(rng, tier, model):
    cmds = []
    for _ in range(size(tier, 6000, 200000)):
        make = values.addr if rng.random() < 0.5 else values.net
        x = make(rng, rng.choice([4, 16, 16]), 0.5)
        y = make(rng) if rng.random() < 0.25 else close(rng, x)
        cmds.append("pair %s %s" % ((x, y) if rng.random() < 0.5 else (y, x)))
    for _ in range(size(tier, 700, 20000)):
        make = values.addr if rng.random() < 0.5 else values.net
        only = rng.choice([None, 4, 16])
        xs = [make(rng, only, 0.4)]
        for _ in range(rng.randrange(1, 14)):
            xs.append(make(rng, only, 0.4) if rng.random() < 0.35 else close(rng, rng.choice(xs)))
        rng.shuffle(xs)
        cmds.append("sort " + " ".join(xs))
    for i in range(16):                                # every byte decides in its turn
        for a, b in ((0, 1), (127, 128), (1, 255), (254, 255)):
            for n in (4, 16):
                if i < n:
                    x = bytearray(rng.choice(b"\0\xff\x55") for _ in range(n)); y = bytearray(255 - c for c in x)
                    y[:i] = x[:i]; x[i], y[i] = a, b
                    cmds.append("pair %s %s" % (x.hex(), y.hex()))
                    cmds.append("pair %s %s" % (y.hex(), x.hex()))
    return packed(cmds)

SCOPE_TEXTS = [b"", b"0", b"00", b"1", b"a", b"eth0", b"4294967295", b"4294967296", b"4294967294", b"99999999999", b"18446744073709551616", b"1844674407370955161", b"00000000000000001", b"0000000000000001",
               b"-1", b"+1", b" 1", b"1 ", b"1a", b"a1", b"abcd", b"abcde", b"x" * 15, b"x" * 16, b"x" * 17, b"x" * 32, b"x" * 33, b"a b", b"1\x001", b"\x00", b"\x001", b"4\x00", b"%", b"a%", b"/", b"9999999999999999", b"42949672960"]

def c04_inputs(rng, tier, model):
    out = []
    for k in range(size(tier, 2500, 100000)):
        cmds = []
        for i in range(rng.randrange(6, 16)):
            r, q = rng.randrange(1, 4), rng.randrange(1, 4)
            j = rng.randrange(16)
            if j < 2 or i == 0:
                b = rng.choice([b"::1", b"fe80::1", b"1.2.3.4", b"ff02::%eth0", b"::1%4294967296", b"::ffff:127.0.0.1%1", b"1:2:3:4:5:6:7:8%abcd", b"::%abcde", b"", b"zz", b"127.0.0.1", b"127.0.0.1%1",
                                texts.v6_valid(rng), texts.v4_valid(rng), b"fe80::%" + texts.scope_text(rng).encode(), b"::%" + rng.choice(texts.BAD_SCOPES), b"::%" + rng.choice(SCOPE_TEXTS)])
                cmds.append("parse %d %s" % (r, texts.hx(b)))
            elif j < 10:
                t = rng.choice([rng.choice(SCOPE_TEXTS), rng.choice(texts.BAD_SCOPES), texts.scope_text(rng).encode(), texts.scope_text(rng, 4).encode(), texts.scope_text(rng, 32).encode(),
                                bytes(rng.choice(b"ab01%/ \t\x00\x7f\xc3\xa9") for _ in range(rng.randrange(20)))])
                cmds.append("set %d %s %s" % (r, rng.choice("cctwuU8aAv"), texts.hx(t)))
            elif j < 12:
                cmds.append("copy %d %d" % (r, q))
            elif j < 13:
                cmds.append("swap %d %d" % (r, r % 3 + 1))
            else:
                cmds.append("cmp %d %d" % (r, q))
        out.append("\t".join(cmds))
    # every single character, at the start, in the middle and at the end of a scope id
    for c in range(256):
        for t in (bytes([c]), bytes([c]) + b"a", b"a" + bytes([c]), b"a" + bytes([c]) + b"a"):
            out.append("parse 1 3a3a31\tset 1 c 7a\tset 1 %s %s\tparse 2 3a3a25%s\tcmp 1 2" % (rng.choice("ctwuU8aAv"), t.hex(), t.hex()))
    # every length, and every number of leading zeros
    for k in range(40):
        for t in (b"a" * k, b"1" * k, b"0" * k, b"9" * k, b"0" * k + b"7", b"0" * k + b"4294967296", b"0" * k + b"4294967295", b"a" * (k - 1) + b"%" if k else b"", b"a" * k + b"\x00"):
            out.append("parse 1 3a3a31\tset 1 c 7a\tset 1 %s %s\tparse 2 3a3a25%s\tcmp 1 2" % (rng.choice("ctwuU8aAv"), texts.hx(t), t.hex()))
    return out

SCOPE_CONFIGS = {
    "M4": ("g++", "-std=c++17 -O1 -Dalways_inline=unused -fsanitize=address,undefined -fno-sanitize-recover=all -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=4"),
    "M0": ("clang++", "-std=c++20 -O1 -Dalways_inline=unused -DIPADDRESS_NO_IPV6_SCOPE"),
    "S32": ("clang++", "-std=c++14 -O1 -Dalways_inline=unused -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=32 -DIPADDRESS_SCOPE_ID_SUPPORT_SPACES"),
}
SCOPE_CONSTS = {"M4": {"ScopeMax": 4, "ScopeSpaces": "FALSE"}, "M0": {"ScopeMax": 0, "ScopeSpaces": "FALSE"}, "S32": {"ScopeMax": 32, "ScopeSpaces": "TRUE"}}
SCOPE16 = {"ScopeMax": 16, "ScopeSpaces": "FALSE"}

NO_SPACESHIP = {"N": ("clang++", "-std=c++20 -O1 -Dalways_inline=unused -DIPADDRESS_NO_SPACESHIP_OPERATOR")}

def c16_inputs(rng, tier, model):
    return encoded.inputs(rng, size(tier, 500, 20000), [("8c", model("Gen_Unicode")), ("u", model("Gen_Unicode@u16")), ("Uw", model("Gen_Unicode@u32"))], size(tier, 0.15, 1))

UTF8_CONFIGS = {
    "U8": ("g++", "-std=c++11 -O1 -Dalways_inline=unused -fsanitize=address,undefined -fno-sanitize-recover=all -DIPADDRESS_CHAR_IS_UTF8"),
    "V8": ("clang++", "-std=c++20 -O1 -Dalways_inline=unused -fno-exceptions -DIPADDRESS_NO_EXCEPTIONS -DIPADDRESS_CHAR_IS_UTF8"),
}
PLAIN = dict(SCOPE16, CharUtf8="FALSE")
UTF8 = dict(SCOPE16, CharUtf8="TRUE")

def c17_inputs(rng, tier, model):
    gen = model("Gen_AnyIp")
    hs = anyip.histories(rng, size(tier, 2500, 60000), 14)
    for _ in range(size(tier, 3, 60)):
        hs += anyip.from_model(rng, gen)
    return hs

def c18_inputs(rng, tier, model):
    gen = texts.from_model(model("Gen_NetText"))
    return errors.inputs(rng, size(tier, 600, 60000), rng.sample(gen, min(len(gen), size(tier, 300, 20000))))

def c19_inputs(rng, tier, model):
    return streams.inputs(rng, size(tier, 1800, 60000), model("Gen_Streams"))

def c20_inputs(rng, tier, model):
    return u128.arithmetic(rng, size(tier, 6000, 300000), u128.from_model(model("Gen_Division")), size(tier, 1500, 30000))

def c21_inputs(rng, tier, model):
    return u128.conversions(rng, size(tier, 5000, 200000))

def c22_texts(rng, tier, model):
    return u128.text_inputs(rng, size(tier, 3500, 150000))
def c22_streams(rng, tier, model):
    return u128.stream_inputs(rng, size(tier, 900, 40000))

def c23_inputs(rng, tier, model):
    cmds = []
    for k in range(32):
        for d in (-1, 0, 1):
            cmds.append("u4 %08x" % (((1 << k) + d) & 0xffffffff))
    for v in range(256):
        for p in range(4):
            cmds.append("u4 %08x" % (v << 8 * p))
        for p in range(16):
            cmds.append("u6 %032x" % (v << 8 * p))
            if tier == "thorough":
                cmds.append("u6 %032x" % ((1 << 128) - 1 ^ (v << 8 * p)))
    for k in range(128):
        for d in (-1, 0, 1):
            cmds.append("u6 %032x" % (((1 << k) + d) % (1 << 128)))
    for n in range(0, 22):
        for _ in range(size(tier, 15, 300)):
            for op in ("raw4", "raw6"):
                b = bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256), rng.randrange(1, 256)]) for _ in range(n))
                cmds.append("%s %s" % (op, b.hex() or "-"))
    for _ in range(size(tier, 3000, 150000)):
        cmds.append("u4 " + values.v4(rng).hex())
        cmds.append("u6 " + values.v6(rng).hex())
        cmds.append("any " + values.addr(rng))
    return packed(cmds)

def c24_inputs(rng, tier, model):
    return containers.histories(rng, size(tier, 2500, 80000), model("Gen_Containers"))

# constant evaluation: programs generated per test, by compiler and standard
CONSTANT_CONFIGS = {
    "G20": ("g++", "-std=c++20 -O0 -Dalways_inline=unused"), "G14": ("g++", "-std=c++14 -O0 -Dalways_inline=unused"),
    "L17": ("clang++", "-std=c++17 -O0 -Dalways_inline=unused"), "L23": ("clang++", "-std=c++23 -O0 -Dalways_inline=unused"),
}
def c25_gcc(rng, tier, model):
    return constants.inputs(rng, size(tier, 1100, 14000), size(tier, 800, 9000))
def c25_clang(rng, tier, model):
    return constants.inputs(rng, size(tier, 450, 6000), size(tier, 500, 6000))

CHECKS = {
    "C25": {
        "models": ["MC_U128", "MC_NetAlg"], "thorough_models": ["MC_U128_deep"],
        "configs": CONSTANT_CONFIGS,
        "stages": [{"program": "c25.hpp", "trace": "T_C25", "inputs": c25_gcc, "consts": PLAIN, "configs": ["G20", "G14"]},
                   {"program": "c25.hpp", "trace": "T_C25", "inputs": c25_clang, "consts": PLAIN, "configs": ["L23", "L17"]}],
    },
    "C24": {
        "models": ["MC_Containers", "Gen_Containers"], "thorough_models": ["MC_Containers_deep"],
        "configs": NO_SPACESHIP,
        "stages": [{"driver": "c24", "trace": "T_C24", "inputs": c24_inputs, "consts": PLAIN, "configs": ["A", "B", "C", "N"]}],
    },
    "C23": {
        "models": ["MC_Convert"], "thorough_models": ["MC_Convert_deep"],
        "stages": [{"driver": "c23", "trace": "T_C23", "inputs": c23_inputs, "consts": SCOPE16}],
    },
    "C22": {
        "models": ["MC_U128", "MC_Streams"], "thorough_models": ["MC_U128_deep", "MC_Streams_deep"],
        "configs": UTF8_CONFIGS,
        "stages": [{"driver": "c22", "trace": "T_C22", "inputs": c22_texts, "consts": PLAIN, "configs": ["A", "B", "C", "U8"], "config_consts": {"U8": UTF8}},
                   {"driver": "c19", "trace": "T_Streams", "inputs": c22_streams, "consts": PLAIN}],
    },
    "C21": {
        "models": ["MC_U128"], "thorough_models": ["MC_U128_deep"],
        "configs": NO_SPACESHIP,
        "stages": [{"driver": "c21", "trace": "T_C21", "inputs": c21_inputs, "configs": ["A", "B", "C", "N"]}],
    },
    "C20": {
        "models": ["MC_U128", "MC_Division", "Gen_Division"], "thorough_models": ["MC_U128_deep", "MC_Division_deep"],
        "stages": [{"driver": "c20", "trace": "T_C20", "inputs": c20_inputs}],
    },
    "C19": {
        "models": ["MC_Streams", "Gen_Streams"], "thorough_models": ["MC_Streams_deep"],
        "stages": [{"driver": "c19", "trace": "T_Streams", "inputs": c19_inputs, "consts": PLAIN}],
    },
    "C18": {
        "models": ["MC_Errors", "Gen_NetText"], "thorough_models": ["MC_Errors_deep"],
        "configs": UTF8_CONFIGS,
        "stages": [{"driver": "c18", "trace": "T_C18", "inputs": c18_inputs, "consts": dict(PLAIN, Throws="TRUE"),
                    "configs": ["A", "B", "C", "U8"], "config_consts": {"C": dict(PLAIN, Throws="FALSE"), "U8": dict(UTF8, Throws="TRUE")}}],
    },
    "C17": {
        "models": ["MC_AnyIp", "Gen_AnyIp"], "thorough_models": ["MC_AnyIp_deep"],
        "stages": [{"driver": "c17", "trace": "T_C17", "inputs": c17_inputs, "consts": SCOPE16}],
    },
    "C16": {
        "models": ["MC_Unicode", "MC_Unicode@u16", "MC_Unicode@u32", "Gen_Unicode", "Gen_Unicode@u16", "Gen_Unicode@u32"],
        "thorough_models": ["MC_Unicode_deep", "MC_Unicode_deep@u16"],
        "configs": UTF8_CONFIGS,
        "stages": [{"driver": "c16", "trace": "T_C16", "inputs": c16_inputs, "consts": PLAIN,
                    "configs": ["A", "B", "C", "U8", "V8"], "config_consts": {"U8": UTF8, "V8": UTF8}}],
    },
    "C15": {
        "models": ["MC_Embed"], "thorough_models": ["MC_Embed_deep", "MC_Classify"],
        "stages": [{"driver": "c15", "trace": "T_C15", "inputs": c15_inputs, "consts": SCOPE16}],
    },
    "C14": {
        "models": ["MC_Classify"], "thorough_models": ["MC_Classify_deep"],
        "stages": [{"driver": "c14", "trace": "T_C14", "inputs": c14_inputs, "consts": SCOPE16}],
    },
    "C13": {
        "models": ["MC_Order"], "thorough_models": ["MC_Order_deep"],
        "configs": NO_SPACESHIP,
        "stages": [{"driver": "c13", "trace": "T_C13", "inputs": c13_inputs, "configs": ["A", "B", "C", "N"]}],
    },
    "C12": {
        "models": ["MC_Iter", "Gen_Iter", "MC_IterRegs", "Gen_IterRegs"], "thorough_models": ["MC_Iter_deep", "MC_IterRegs_deep"],
        "stages": [{"driver": "c12", "trace": "T_Iter", "inputs": c12_inputs, "consts": SCOPE16}],
    },
    "C11": {
        "models": ["MC_Iter", "Gen_Iter", "MC_IterRegs", "Gen_IterRegs"], "thorough_models": ["MC_Iter_deep", "MC_IterRegs_deep"],
        "stages": [{"driver": "c11", "trace": "T_Iter", "inputs": c11_inputs, "consts": SCOPE16}],
    },
    "C10": {
        "models": ["MC_NetAlg"], "thorough_models": ["MC_NetAlg_deep"],
        "stages": [{"driver": "c10", "trace": "T_C10", "inputs": c10_inputs, "consts": SCOPE16}],
    },
    "C09": {
        "models": ["MC_Exclude", "MC_ExcludeRegs"], "thorough_models": ["MC_Exclude_deep", "MC_NetAlg_deep", "MC_ExcludeRegs_deep"],
        "stages": [{"driver": "c09", "trace": "T_C09", "inputs": c09_inputs, "consts": SCOPE16}],
    },
    "C08": {
        "models": ["MC_NetAlg"], "thorough_models": ["MC_NetAlg_deep"],
        "stages": [{"driver": "c08", "trace": "T_C08", "inputs": c08_inputs, "consts": SCOPE16}],
    },
    "C07": {
        "models": ["MC_NetAlg"], "thorough_models": ["MC_NetAlg_deep"],
        "stages": [{"driver": "c07", "trace": "T_C07", "inputs": c07_inputs, "consts": SCOPE16}],
    },
    "C06": {
        "models": ["MC_NetAlg", "MC_NetRegs", "Gen_NetRegs"], "thorough_models": ["MC_NetAlg_deep", "MC_NetRegs_deep"],
        "stages": [{"driver": "c06", "trace": "T_C06", "inputs": c06_inputs, "consts": SCOPE16}],
    },
    "C05": {
        "models": ["MC_NetText", "MC_NetText@masks", "Gen_NetText", "Gen_NetText@masks"],
        "thorough_models": ["MC_NetText_deep", "MC_NetText_deep@masks"],
        "stages": [{"driver": "c05", "trace": "T_C05", "inputs": c05_inputs, "consts": SCOPE16}],
    },
    "C04": {
        "models": ["MC_Scope", "MC_Scope@none", "MC_Scope@spaces"],
        "thorough_models": ["MC_Scope_deep"],
        "configs": SCOPE_CONFIGS,
        "stages": [{"driver": "c04", "trace": "T_C04", "inputs": c04_inputs, "consts": SCOPE16,
                    "configs": ["A", "B", "C", "M4", "M0", "S32"], "config_consts": SCOPE_CONSTS}],
    },
    "C03": {
        "models": ["MC_Format", "Gen_Format"],
        "thorough_models": ["MC_Format_deep"],
        "stages": [{"driver": "c03", "trace": "T_C03", "inputs": c03_inputs, "consts": SCOPE16}],
    },
    "C02": {
        "models": ["MC_Ipv6Text", "MC_Ipv6Text@tail", "MC_Ipv6Text@groups", "Gen_Ipv6Text"],
        "thorough_models": ["MC_Ipv6Text_deep", "MC_Ipv6Text_deep@tail", "MC_Ipv6Text_deep@groups"],
        "stages": [{"driver": "c02", "trace": "T_C02", "inputs": c02_inputs, "consts": SCOPE16}],
    },
    "C01": {
        "models": ["MC_Ipv4Text", "Gen_Ipv4Text"],
        "thorough_models": ["MC_Ipv4Text_deep"],
        "stages": [{"driver": "c01", "trace": "T_C01", "inputs": c01_inputs}],
    },
}

# ---- every configuration: the drivers and specifications of the other checks, in more builds ----
_I = "-Dalways_inline=unused "
ALL_CONFIGS = {
    "E11": ("g++", _I + "-std=c++11 -O0"), "E14": ("g++", _I + "-std=c++14 -O2"), "E17": ("g++", _I + "-std=c++17 -O0"), "E23": ("g++", _I + "-std=c++23 -O0 -D_GLIBCXX_ASSERTIONS"),
    "L11": ("clang++", _I + "-std=c++11 -O0"), "L14": ("clang++", _I + "-std=c++14 -O0"), "L20": ("clang++", _I + "-std=c++20 -O1 -fsanitize=undefined -fno-sanitize-recover=all"), "L23": ("clang++", _I + "-std=c++23 -O0"),
    "N": NO_SPACESHIP["N"], "NG": ("g++", _I + "-std=c++20 -O0 -DIPADDRESS_NO_SPACESHIP_OPERATOR -DIPADDRESS_NO_NODISCARD"),
    "O": ("g++", _I + "-std=c++17 -O0 -DIPADDRESS_NO_OVERLOAD_STD -DIPADDRESS_NAMESPACE=other -DIPADDRESS_NO_NODISCARD"),
    "X": ("g++", _I + "-std=c++14 -O0 -fno-exceptions -DIPADDRESS_NO_EXCEPTIONS"), "X20": ("g++", _I + "-std=c++20 -O0 -fno-exceptions -DIPADDRESS_NO_EXCEPTIONS"),
    "M1": ("g++", _I + "-std=c++14 -O0 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=1"),
    "M64": ("clang++", _I + "-std=c++20 -O0 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=100 -DIPADDRESS_SCOPE_ID_SUPPORT_SPACES"),      # limited to 64
    "MN": ("g++", _I + "-std=c++20 -O0 -fno-exceptions -DIPADDRESS_NO_EXCEPTIONS -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=-5"),             # none
    "MX": ("g++", _I + "-std=c++11 -O0 -DIPADDRESS_NO_IPV6_SCOPE -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=8"),                             # none
    "MU": ("g++", _I + "-std=c++20 -O0 -DIPADDRESS_CHAR_IS_UTF8 -DIPADDRESS_IPV6_SCOPE_MAX_LENGTH=7 -DIPADDRESS_SCOPE_ID_SUPPORT_SPACES"),
    "UG": ("g++", _I + "-std=c++17 -O0 -DIPADDRESS_CHAR_IS_UTF8 -DIPADDRESS_NO_OVERLOAD_STD"),
    "MOD": ("clang++", _I + "-std=c++20 -O0 -DDRIVER_IMPORTS_MODULE"),              # src/ipaddress.ixx, imported
}
for _c, (_cc, _flags) in list(SCOPE_CONFIGS.items()) + list(UTF8_CONFIGS.items()):          # without the sanitizers, which the other checks use
    ALL_CONFIGS[_c] = (_cc, _flags.replace("-O1 ", "-O0 ").replace("-fsanitize=address,undefined -fno-sanitize-recover=all ", ""))
ALL_SCOPE = dict(SCOPE_CONSTS, M1={"ScopeMax": 1, "ScopeSpaces": "FALSE"}, M64={"ScopeMax": 64, "ScopeSpaces": "TRUE"}, MN={"ScopeMax": 0, "ScopeSpaces": "FALSE"},
                 MX={"ScopeMax": 0, "ScopeSpaces": "FALSE"}, MU={"ScopeMax": 7, "ScopeSpaces": "TRUE"})
STANDARD = ["E11", "E14", "E17", "E23", "L11", "L14", "L20", "L23", "N", "NG", "O", "X", "X20"]

import os, re
TIER = "thorough" if "thorough" in __import__("sys").argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"

def some(inputs, quick, thorough, keep=lambda line: True):
    def f(rng, tier, model):
        r = [x for x in inputs(rng, "quick", lambda m: []) if keep(x)]          # without the models' own texts
        return rng.sample(r, min(len(r), size(tier, quick, thorough)))
    return f

def short_scopes(limit):
    """only addresses whose scope identifier fits the configuration"""
    return lambda line: all(len(x) <= 2 * limit for x in re.findall(r"%([0-9a-f]*)", line))

def ascii_only(line):
    """(where plain characters are UTF-8 they differ from the others beyond ASCII)"""
    return all(int(x[i:i + 2], 16) < 128 for x in re.findall(r"\b(?:[0-9a-f]{2})+\b", line) for i in range(0, len(x), 2))

def c26_stages():
    stages = []
    def std(name, trace, inputs, consts, quick, k, throws=False, skip=()):
        """the standard configurations; the quick check takes some of them in turn"""
        cfgs = [c for c in STANDARD if c not in skip]
        turn = cfgs if TIER == "thorough" else list(dict.fromkeys([cfgs[(5 * k + 3 * j) % len(cfgs)] for j in range(2)] + [c for c in (["X20"], ["O"], ["X"], ["N"])[k % 4] if c not in skip]))
        turn = turn + ["MOD"]
        if throws and turn[0] in ("X", "X20"): turn = [c for c in turn if c not in ("X", "X20")] + [c for c in turn if c in ("X", "X20")]
        st = {"driver": name, "trace": trace, "inputs": some(inputs, quick, quick * 20), "consts": dict(consts), "configs": turn, "corruptions": 20, "workers": 3, "mem": "3g"}
        if throws:
            st["consts"]["Throws"] = "TRUE"; st["config_consts"] = {c: dict(consts, Throws="FALSE") for c in ("X", "X20")}
        stages.append(st)
    table = [("c01", "T_C01", c01_inputs, {}, 30), ("c02", "T_C02", c02_inputs, SCOPE16, 60), ("c03", "T_C03", c03_inputs, SCOPE16, 40), ("c04", "T_C04", c04_inputs, SCOPE16, 150),
             ("c05", "T_C05", c05_inputs, SCOPE16, 50), ("c06", "T_C06", c06_inputs, SCOPE16, 30), ("c07", "T_C07", c07_inputs, SCOPE16, 40), ("c08", "T_C08", c08_inputs, SCOPE16, 30),
             ("c09", "T_C09", c09_inputs, SCOPE16, 20), ("c10", "T_C10", c10_inputs, SCOPE16, 15), ("c11", "T_Iter", c11_inputs, SCOPE16, 30), ("c12", "T_Iter", c12_inputs, SCOPE16, 30),
             ("c13", "T_C13", c13_inputs, {}, 120), ("c14", "T_C14", c14_inputs, SCOPE16, 30), ("c15", "T_C15", c15_inputs, SCOPE16, 20), ("c16", "T_C16", c16_inputs, PLAIN, 50),
             ("c17", "T_C17", c17_inputs, SCOPE16, 100), ("c20", "T_C20", c20_inputs, {}, 50), ("c21", "T_C21", c21_inputs, {}, 60), ("c22", "T_C22", c22_texts, PLAIN, 40),
             ("c23", "T_C23", c23_inputs, SCOPE16, 30), ("c24", "T_C24", c24_inputs, PLAIN, 120)]
    for k, (name, trace, inputs, consts, quick) in enumerate(table):
        std(name, trace, inputs, consts, quick, k, skip=("O",) if name == "c21" else ())
    std("c18", "T_C18", c18_inputs, PLAIN, 60, 0, throws=True)
    std("c19", "T_Streams", c19_inputs, PLAIN, 80, 1, skip=("O",))
    # plain characters as UTF-8
    for name, trace, inputs, consts, quick in [("c16", "T_C16", c16_inputs, UTF8, 80), ("c22", "T_C22", c22_texts, UTF8, 30), ("c24", "T_C24", c24_inputs, UTF8, 100), ("c19", "T_Streams", c19_inputs, UTF8, 50)]:
        stages.append({"driver": name, "trace": trace, "inputs": some(inputs, quick, quick * 20), "consts": consts, "configs": ["U8", "V8"] + (["UG"] if name != "c19" else []), "corruptions": 20, "workers": 3, "mem": "3g"})
    # scope identifiers of other lengths, none, and with spaces
    texts = [("c04", "T_C04", c04_inputs, {}, 150, ["M64", "M1", "MN", "MX"]), ("c04", "T_C04", c04_inputs, {}, 80, ["MU"]), ("c02", "T_C02", c02_inputs, {}, 50, ["M64", "M0"]), ("c05", "T_C05", c05_inputs, {}, 30, ["M1", "MX"]), ("c03", "T_C03", c03_inputs, {}, 30, ["M64", "M0"]),
             ("c17", "T_C17", c17_inputs, {}, 80, ["S32", "MN"]), ("c13", "T_C13", c13_inputs, None, 100, ["M4", "MX"]), ("c07", "T_C07", c07_inputs, {}, 30, ["M4", "M0"]), ("c09", "T_C09", c09_inputs, {}, 15, ["M1"]), ("c11", "T_Iter", c11_inputs, {}, 20, ["M0"]),
             ("c15", "T_C15", c15_inputs, {}, 20, ["M0"]), ("c23", "T_C23", c23_inputs, {}, 20, ["MX"])]
    for name, trace, inputs, consts, quick, cfgs in texts:
        every = ["M0", "M1", "M4", "M64", "S32", "MN", "MX"]
        cfgs = cfgs + [c for c in every if c not in cfgs] if TIER == "thorough" and cfgs != ["MU"] else cfgs
        least = min(int(ALL_SCOPE[c]["ScopeMax"]) for c in cfgs)
        keep = ascii_only if cfgs == ["MU"] else (lambda line: True) if name in ("c02", "c04", "c05") else short_scopes(least)
        st = {"driver": name, "trace": trace, "inputs": some(inputs, quick, quick * 20, keep), "consts": {}, "configs": cfgs, "corruptions": 20, "workers": 3, "mem": "3g"}
        if consts is not None:
            st["consts"] = ALL_SCOPE[cfgs[0]]; st["config_consts"] = {c: ALL_SCOPE[c] for c in cfgs}
        stages.append(st)
    return stages
CHECKS["C26"] = {"models": ["MC_Scope@none", "MC_Scope@spaces"], "configs": ALL_CONFIGS, "parallel": 6, "must_compile": True, "java": ["-XX:+UseSerialGC"] + ([] if TIER == "thorough" else ["-XX:TieredStopAtLevel=1"]), "stages": c26_stages()}
