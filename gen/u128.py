"""128-bit integers: operands that take every path of the arithmetic, conversions and texts."""
import re, struct
from gen import encoded, values

M = 1 << 128
HALF = [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]
DIGIT = {0: 0, 1: 1, 2: 2, 3: 0x7fffffff, 4: 0x80000000, 5: 0x80000001, 6: 0xfffffffe, 7: 0xffffffff}
TYPES = {"bool": (1, 0), "schar": (8, 1), "uchar": (8, 0), "char": (8, 1), "short": (16, 1), "ushort": (16, 0), "int": (32, 1), "uint": (32, 0), "long": (64, 1), "ulong": (64, 0), "llong": (64, 1), "ullong": (64, 0)}

def h(v): return "%032x" % (v % M)

def word(rng):
    k = rng.randrange(5)
    if k == 0:
        return sum(rng.choice(HALF) << (32 * i) for i in range(4))
    if k == 1:      # about 2^64 and its multiples
        return (rng.choice([0, 1, 2, (1 << 64) - 1, rng.randrange(1 << 64)]) << 64) + rng.choice([-1, 0, 1, 2, rng.randrange(1 << 64), (1 << 63), (1 << 63) - 1]) & (M - 1)
    return int.from_bytes(values.word(rng, 16), "big")

def digits(rng, n):
    v = 0
    for i in range(n):
        v |= (rng.choice(HALF) if rng.random() < 0.7 else rng.randrange(1 << 32)) << (32 * i)
    return v

def division(rng):
    """a dividend near a multiple of its divisor"""
    b = digits(rng, rng.randrange(1, 5)) or 1
    q = digits(rng, rng.randrange(1, 5))
    if b * q >= M:
        q = digits(rng, 1) if b < 1 << 96 else rng.randrange(1, 1 + (M - 1) // b)
        q = min(q, (M - 1) // b)
    r = rng.choice([0, 1, b - 1, b // 2, rng.randrange(b)]) if b else 0
    return min(b * q + r, M - 1), b

def from_model(printed):
    out = []
    for line in printed:
        m = re.match(r"(\d+) <<(.*?)>> <<(.*?)>>", line)
        a, b = ([int(x) for x in m.group(i).split(",")] for i in (2, 3))
        out.append((int(m.group(1)), sum(DIGIT[d] << (32 * i) for i, d in enumerate(a)), sum(DIGIT[d] << (32 * i) for i, d in enumerate(b))))
    return out

def arithmetic(rng, n, model_pairs, keep):
    cmds = []
    hard = [p for p in model_pairs if p[0] >= 10]; easy = [p for p in model_pairs if p[0] < 10]
    for _, a, b in rng.sample(hard, min(len(hard), keep)) + rng.sample(easy, min(len(easy), keep)):
        cmds.append("pair %s %s" % (h(a), h(b)))
    for _ in range(n):
        k = rng.randrange(4)
        a, b = (word(rng), word(rng)) if k == 0 else division(rng) if k < 3 else (digits(rng, 4), digits(rng, rng.randrange(1, 5)))
        cmds.append("pair %s %s" % (h(a), h(b)))
    for a, b in [(0, 0), (1, 0), (M - 1, 0), (0, 1), (M - 1, 1), (M - 1, M - 1), (1, M - 1), (M - 1, 2), (1 << 64, 1 << 64), ((1 << 64) - 1, (1 << 64) - 1), (1 << 127, 3), (M - 1, 10)]:
        cmds.append("pair %s %s" % (h(a), h(b)))
    for s in list(range(-3, 132)) + [191, 192, 193, 255, 256, 257, 512, 32767, 65535, 65536, 65600, -64, -128, -129, -65536, 2**31 - 1, -2**31]:
        for _ in range(2):
            cmds.append("shift %s %d" % (h(word(rng)), s))
    for _ in range(n // 2):
        t = rng.choice(list(TYPES))
        k = rng.choice([0, 1, 2, 10, 127, 128, 255, 256, 32767, 32768, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, rng.randrange(2**64), rng.randrange(2**32)])
        a = word(rng) if rng.random() < 0.8 else rng.randrange(1, 20)
        cmds.append("mixed %s %s %x" % (t, h(a), k))
    rng.shuffle(cmds)
    lines = ["\t".join(cmds[i:i + 20]) for i in range(0, len(cmds), 20)]
    for _ in range(n // 12):
        c = ["set " + h(word(rng))]
        for _ in range(rng.randrange(4, 16)):
            f = rng.choice(["add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "inc", "dec", "pinc", "pdec", "neg", "not"])
            c.append("acc %s %s %d" % (f, "self" if rng.random() < 0.12 else h(word(rng) if f != "div" else digits(rng, rng.randrange(1, 3))), rng.choice([0, 1, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, -1])))
            if rng.random() < 0.15: c.append("set " + h(word(rng)))
        lines.append("\t".join(c))
    return lines

def near(rng):
    """values where rounding to 53 bits is decided"""
    L = rng.randrange(1, 129)
    m = rng.choice([1 << 52, (1 << 53) - 1, (1 << 52) + 1, (1 << 53) - 2, rng.randrange(1 << 52, 1 << 53)])
    if L <= 53:
        return m >> (53 - L)
    k = L - 53
    low = rng.choice([0, 1, (1 << (k - 1)) - 1, 1 << (k - 1), (1 << (k - 1)) + 1, (1 << k) - 1, rng.randrange(1 << k), 1 << rng.randrange(k), (1 << (k - 1)) + (1 << rng.randrange(k))])
    return ((m << k) + (low & ((1 << k) - 1))) % M

def conversions(rng, n):
    cmds = ["limits"]
    for _ in range(n):
        a, b = word(rng), word(rng)
        if rng.random() < 0.4: b = rng.choice([a, a + 1, a - 1, a ^ (1 << rng.randrange(128)), (a >> 64 << 64) + (b & (1 << 64) - 1), (b >> 64 << 64) + (a & (1 << 64) - 1)]) % M
        cmds.append("cmp %s %s" % (h(a), h(b)))
        t = rng.choice(list(TYPES))
        k = rng.choice([0, 1, 2, 10, 127, 128, 255, 256, 32767, 32768, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 2, rng.randrange(2**64), rng.randrange(2**32)])
        cmds.append("from %s %x" % (t, k))
        bits, signed = TYPES[t]
        v = k % (1 << bits)
        if signed and v >> (bits - 1): v -= 1 << bits
        x = rng.choice([v, v, v + 1, v - 1, k, a, v & ((1 << 64) - 1), v + (1 << 64)])
        cmds.append("cmpk %s %s %x" % (t, h(x), k))
        cmds.append("to %s" % h(a))
        cmds.append("todouble %s" % h(near(rng) if rng.random() < 0.85 else a))
    for L in range(1, 129):      # every length, about halfway
        for m in ((1 << 52), (1 << 53) - 1, (1 << 52) + 1):
            for low in ("0", "1", "half-", "half", "half+", "all"):
                k = L - 53
                if k <= 1: cmds.append("todouble %s" % h(m >> -k if k < 0 else m << k)); continue
                d = {"0": 0, "1": 1, "half-": (1 << (k - 1)) - 1, "half": 1 << (k - 1), "half+": (1 << (k - 1)) + 1, "all": (1 << k) - 1}[low]
                cmds.append("todouble %s" % h((m << k) + d))
    dbl = lambda v: struct.unpack(">Q", struct.pack(">d", v))[0]
    flt = lambda v: struct.unpack(">I", struct.pack(">f", v))[0]
    for ex in list(range(1010, 1160)) + [0, 1, 2046, 2047, 900, 2000]:
        for m in (0, 1, (1 << 52) - 1, 1 << 51, rng.randrange(1 << 52)):
            for s in (0, 1):
                if s == 0 or rng.random() < 0.2:
                    cmds.append("double %x" % (s << 63 | ex << 52 | m))
    for ex in range(0, 256):
        for m in (0, 1, (1 << 23) - 1, rng.randrange(1 << 23)):
            cmds.append("float %x" % ((0 if rng.random() < 0.9 else 1) << 31 | ex << 23 | m))
    for v in (0.0, 0.5, 0.99999999999999989, 1.0, 1.5, 2.0**64, 2.0**63, 2.0**127, 2.0**128, 1e38, 3.4e38, -1.0, -0.5, 1e300, 5e-324):
        cmds.append("double %x" % dbl(v))
    for _ in range(n // 4):
        cmds.append("double %x" % (rng.randrange(1023, 1152) << 52 | rng.randrange(1 << 52)))
        cmds.append("long %x %d" % (rng.choice([2**64 - 1, 2**63 + 1, 2**53 - 1, 2**54 - 1, 2**64 - 1024, 2**64 - 1025, rng.randrange(2**63, 2**64)]), rng.choice([-70, -64, -63, -11, 0, 1, 63, 64, 65, 70, rng.randrange(-64, 66)])))
    cmds = list(dict.fromkeys(cmds))
    rng.shuffle(cmds)
    return ["\t".join(cmds[i:i + 20]) for i in range(0, len(cmds), 20)]

BASES = [8, 10, 16]
def digits_text(rng, v, base):
    t = {8: "%o", 10: "%d", 16: "%x"}[base] % v
    if rng.random() < 0.3: t = t.upper()
    if rng.random() < 0.15: t = "".join(rng.choice([c, c.upper()]) for c in t)
    return t

def number_text(rng, base):
    k = rng.randrange(10)
    v = word(rng) if k < 6 else rng.randrange(M, M * rng.choice([2, 8, 1 << 40])) if k < 8 else rng.choice([0, 1, M - 1, M, M + 1, 2 * M - 1, (1 << 64) - 1, 1 << 64])
    if rng.random() < 0.2: v >>= rng.randrange(128)
    return ("0" * rng.choice([0, 0, 0, 1, 5, 40]) + digits_text(rng, v, base)).encode()

def edges(base):
    """values about which the number of digits changes"""
    v, out = 1, []
    while v < M:
        out += [v - 1, v, v + 1]; v *= base
    return [x for x in out + [M - 1] if 0 <= x < M]

def text_inputs(rng, n):
    cmds = []
    for b in BASES:
        for v in edges(b) + [d * b ** i for i in range(0, 128) for d in range(1, b) if d * b ** i < M]:
            cmds.append("text %s %d" % (h(v), b))
    for _ in range(n):
        b = rng.choice(BASES)
        cmds.append("text %s %d" % (h(word(rng) >> rng.choice([0, 0, rng.randrange(128)])), b))
        k = rng.choice("cwuU8")
        t = number_text(rng, b)
        u = list(t)
        r = rng.random()
        if r < 0.25 and u:
            p = rng.randrange(len(u)); u[p:p + 1] = encoded.odd(rng, k, u[p])
        elif r < 0.4:
            u.insert(rng.randrange(len(u) + 1), rng.choice([0x20, 0x2d, 0x2b, 0x2e, 0x2c, 0x27, 0x5f, 0x78, 0x67, 0x47, 0x40, 0x60, 0x2f, 0x3a, 0x38, 0x39, 0x41, 0x46, 0x61, 0x66, 9, 10, 0]))
        elif r < 0.45: u = list({8: b"0", 10: b"+", 16: b"0x"}[b]) + u
        elif r < 0.47: u = []
        cmds.append("parse %s %s %d" % (k, encoded.hexs(k, u), b))
    for b in BASES:
        for k in "cwuU8":
            for c in range(256):
                if k not in "c8" or rng.random() < 0.5:
                    cmds.append("parse %s %s %d" % (k, encoded.hexs(k, [0x31, c, 0x37] if rng.random() < 0.5 else [c] if rng.random() < 0.7 else [0x37, c]), b))
    cmds = list(dict.fromkeys(cmds))
    rng.shuffle(cmds)
    lines = []
    for i in range(0, len(cmds), 20):
        part = cmds[i:i + 20]
        lines.append("\t".join((["locale 1"] if rng.random() < 0.4 else []) + part))
    return lines

def stream_inputs(rng, n):
    lines = []
    for _ in range(n):
        cmds = []; c = cmds.append
        base = {i: 10 for i in range(1, 5)}
        for _ in range(rng.randrange(5, 30)):
            s = rng.randrange(1, 5); k = "c" if s <= 2 else "w"
            r = rng.random()
            if r < 0.15: m = rng.choice(["hex", "dec", "oct"]); c("manip %d %s" % (s, m)); base[s] = {"hex": 16, "dec": 10, "oct": 8}[m]
            elif r < 0.27: c("manip %d %s" % (s, rng.choice(["uppercase", "nouppercase", "left", "right", "internal", "skipws", "noskipws", "showbase", "full", "compact", "non_strict", "boolalpha"])))
            elif r < 0.33: c("width %d %d" % (s, rng.choice([0, 1, 3, 10, 32, 38, 39, 40, 43, 50])))
            elif r < 0.37: c("fill %d %d" % (s, rng.choice([32, 48, 42, 97])))
            elif r < 0.40: o = {1: 2, 2: 1, 3: 4, 4: 3}[s]; c("copyfmt %d %d" % (s, o)); base[s] = base[o]
            elif r < 0.42: c("other %d 2d" % s)
            elif r < 0.46: c("clear %d" % s)
            elif r < 0.49: c("ins %d v6 %s" % (s, values.addr(rng, 16, 0.2)))
            elif r < 0.75: c("insu %d %s" % (s, h(word(rng) >> rng.choice([0, 0, rng.randrange(128)]))))
            else:
                u = list(number_text(rng, base[s] if rng.random() < 0.9 else rng.choice(BASES)))
                if rng.random() < 0.2 and u: p = rng.randrange(len(u)); u[p:p + 1] = [x for x in encoded.odd(rng, k, u[p]) if x != 0xffffffff]
                if rng.random() < 0.3: u = [rng.choice([32, 9, 10])] + u
                if rng.random() < 0.8: u = u + [rng.choice([32, 10])]
                if rng.random() < 0.9: c("feed %d %s" % (s, encoded.hexs(k, u)))
                if rng.random() < 0.6: c("clear %d" % s)
                c("extu %d %s" % (s, h(rng.choice([77, word(rng)]))))
        lines.append("\t".join(cmds))
    return lines
