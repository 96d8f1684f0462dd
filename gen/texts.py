"""Seeded generators of input texts (bytes objects)."""
import json

def hx(b):
    return b.hex() if b else "-"

def from_model(printed):
    return [bytes(json.loads(x)) for x in printed]

INTEREST_OCT = ["0", "1", "9", "10", "99", "100", "127", "128", "199", "200", "249", "250", "254", "255", "256", "260", "299", "300", "999", "00", "01", "001", "010", "0255", "1000", "2550", "", " 1", "1 ", "+1", "-1", "1a", "a", "0x1", "٣"]

def v4_valid(rng):
    return ".".join(str(rng.choice([0, 1, 9, 10, 99, 100, 127, 128, 249, 250, 254, 255, rng.randrange(256), rng.randrange(256)])) for _ in range(4)).encode()

def mutate(rng, b, alphabet):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(6)
        p = rng.randrange(len(b) + 1)
        if k == 0 or not b:
            b.insert(p, rng.choice(alphabet))
        elif k == 1:
            del b[min(p, len(b) - 1)]
        elif k == 2:
            b[min(p, len(b) - 1)] = rng.choice(alphabet)
        elif k == 3:
            q = rng.randrange(len(b) + 1)
            b[min(p, q):max(p, q)] = b[min(p, q):max(p, q)] * 2
        elif k == 4:
            b = b[:p] + b[p + 1:p + 2] + b[p:p + 1] + b[p + 2:]
        else:
            b = b[:p]
    return bytes(b)

V4_ALPHA = b"0123456789...:/% aAxX-+\0\t\n\x7f\x80\xff,"

def v4_texts(rng, n, max_len=300):
    out = []
    # every octet value in every position, with every width of its neighbours
    for pos in range(4):
        for v in list(range(0, 270)) + [299, 300, 399, 999, 1000]:
            o = [str(rng.choice([0, 7, 45, 210])) for _ in range(4)]
            o[pos] = str(v)
            out.append(".".join(o).encode())
    # each unusual octet spelling in each position, and each number of octets
    for w in INTEREST_OCT:
        for pos in range(4):
            o = ["1", "20", "240", "7"]
            o[pos] = w
            out.append(".".join(o).encode())
    for k in range(0, 8):
        out.append(".".join(["1"] * k).encode())
        out.append(("." + ".".join(["255"] * k)).encode())
        out.append((".".join(["0"] * k) + ".").encode())
        out.append(b"." * k)
    # every single byte value at every position of a valid text
    for c in range(256):
        base = b"1.22.133.4"
        p = rng.randrange(len(base) + 1)
        out += [base[:p] + bytes([c]) + base[p:], base[:p] + bytes([c]) + base[p + 1:], bytes([c]), bytes([c]) + base, base + bytes([c])]
    # lengths around buffers and beyond
    for L in [14, 15, 16, 17, 18, 19, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300]:
        out += [b"1" * L, b"1." * (L // 2), b"0" * L, (b"1.2.3.4" + b"5" * L)[:L], (b"255.255.255.255" + b"." * L)[:L], (b"1.2.3.4" + b"\0" * L)[:L]]
    out += [b"4294967297.1.1.1", b"1.4294967297.1.1", b"1.1.1.4294967296", b"18446744073709551617.1.1.1", b"256.256.256.256", b"1.2.3.260", b"1.2.3.0256"]
    while len(out) < n:
        k = rng.randrange(10)
        b = v4_valid(rng)
        if k < 2:
            out.append(b)
        elif k < 8:
            out.append(mutate(rng, b, V4_ALPHA))
        elif k < 9:
            out.append(bytes(rng.choice(V4_ALPHA[:14]) for _ in range(rng.randrange(1, 20))))
        else:
            out.append(bytes(rng.choice(V4_ALPHA) for _ in range(rng.randrange(1, 40))))
    return out


V6_ALPHA = b"0123456789abcdefABCDEF::::::....%%/ gG\0\t-_\x7f\x80\xc3"

def group(rng):
    v = rng.choice([0, 0, 0, 1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xfffe, 0x8000, rng.randrange(65536), rng.randrange(65536)])
    s = rng.choice(["%x", "%x", "%04x", "%X", "%03x", "%02x"]) % v
    return s

def v6_valid(rng, scope=True):
    dotted = rng.random() < 0.25
    total = 6 if dotted else 8
    if rng.random() < 0.35:
        gs = [group(rng) for _ in range(total)]
        t = ":".join(gs) + (":" + v4_valid(rng).decode() if dotted else "")
    else:
        k = rng.randrange(0, total)
        l = rng.randrange(0, k + 1)
        left, right = [group(rng) for _ in range(l)], [group(rng) for _ in range(k - l)]
        if dotted:
            right.append(v4_valid(rng).decode())
        t = ":".join(left) + "::" + ":".join(right)
    if scope and rng.random() < 0.3:
        t += "%" + scope_text(rng)
    return t.encode()

def scope_text(rng, max_len=16):
    k = rng.randrange(6)
    if k == 0:
        return str(rng.choice([0, 1, 7, 42, 4294967295, 4294967296, 4294967297, 42949672950, 99999999999, 18446744073709551615, 18446744073709551616, 1844674407370955]))[:max_len]
    if k == 1:
        return "0" * rng.randrange(1, max_len + 1)
    if k == 2:
        return ("eth0", "lo", "wlan-1", "en_p0", "a", "Z", "~", "!", "-1", "+1", "1a", "0x10")[rng.randrange(12)]
    return "".join(rng.choice("abcxyzABC0123456789-_.:~!") for _ in range(rng.choice([1, 2, 3, max_len - 1, max_len, max_len, rng.randrange(1, max_len + 1)])))

BAD_SCOPES = [b"", b"%", b"a%b", b"/", b"a/b", b" ", b"a b", b"\t", b"a\n", b"\v", b"\f", b"a\r", b"\0", b"a\0", b"a\0b", b"x" * 17, b"x" * 16 + b" ", b"x" * 16 + b"%", b"x" * 40,
              b"a" * 15 + b"%", b"a" * 15 + b" ", b"a" * 15 + b"/", b"\x7f", b"\x08", b"\x0e", b"\x1f", b"\x80", b"\xff", b"9" * 16, b"9" * 17, b"0" * 16, b"0" * 15 + b"1", b"0000004294967295", b"0000004294967296"]

def v6_texts(rng, n):
    out = []
    # '::' at each place with each number of groups around it, with and without a dotted tail
    for tail in ([], ["1.2.3.4"], ["255.255.255.255"], ["1.2.3"], ["1.2.3.4.5"], ["1.2.3.256"], ["01.2.3.4"], ["1..3.4"]):
        for hi in range(0, 10):
            for lo in range(0, 10 - hi + 1):
                L = ["%x" % (i + 1) for i in range(hi)]
                R = ["%x" % (i + 10) for i in range(lo)] + tail
                for sep in ("::", ":", ":::", "::::"):
                    out.append((":".join(L) + sep + ":".join(R)).encode())
                for second in (":", "::", ":1", "%1"):
                    out.append((":".join(L) + "::" + ":".join(R) + second).encode())
                    out.append((second.replace("%1", "") + ":".join(L) + "::" + ":".join(R)).encode())
    for k in range(0, 12):
        out += [b":" * k, b":".join([b"1"] * k), b":".join([b"ffff"] * k), b":".join([b"0"] * k) + b":", b":" + b":".join([b"0"] * k)]
    # each group spelling at each place
    for g in ["", "0", "00", "000", "0000", "00000", "1", "01", "001", "0001", "00001", "ffff", "FFFF", "10000", "fffff", "g", "fffg", "x1", "-1", "+1", " 1", "1 ", "1.", ".1", "1.2.3.4", "\0", "1\0"]:
        for place in range(8):
            gs = ["1", "2", "3", "4", "5", "6", "7", "8"]
            gs[place] = g
            out.append(":".join(gs).encode())
            out.append((":".join(gs[:place + 1]) + "::").encode())
            out.append(("::" + ":".join(gs[place:])).encode())
    # every byte value somewhere
    for c in range(256):
        base = rng.choice([b"1:22:333:4444:5:6:7:8", b"::ffff:1.2.3.4", b"fe80::1%eth0", b"::"])
        for p in {0, len(base), rng.randrange(len(base) + 1)}:
            out += [base[:p] + bytes([c]) + base[p:], base[:p] + bytes([c]) + base[p + 1:]]
        out += [bytes([c]), b"fe80::1%" + bytes([c]), b"fe80::1%ab" + bytes([c]) + b"c", bytes([c]) + b"::1"]
    for sc in BAD_SCOPES:
        for base in (b"::1", b"fe80::1", b"1:2:3:4:5:6:7:8", b"::ffff:1.2.3.4", b"", b"zz", b"1:2", b"1.2.3.4"):
            out.append(base + b"%" + sc)
    for k in range(0, 20):
        out += [b"fe80::1%" + b"a" * k, b"fe80::1%" + b"1" * k, b"::1%" + b"0" * k]
    for v in list(range(4294967290, 4294967302)) + [2 ** 32 * 10, 2 ** 64 - 1, 2 ** 53, 10 ** 15, 10 ** 10, 9999999999]:
        out += [b"::%" + str(v).encode(), b"::%0" + str(v).encode(), b"::%" + str(v).encode() + b"x"]
    # lengths around the buffers
    for L in [4, 5, 14, 15, 16, 17, 18, 32, 45, 46, 55, 56, 57, 58, 59, 62, 63, 64, 100, 101, 255, 256, 257]:
        out += [b"a" * L, b"::" + b"1" * L, b"::" + b"." * L, (b"1:" * L)[:L], (b"::1.2.3.4" + b"4" * L)[:L], b"::%" + b"z" * L, (b"ffff:" * 60)[:L],
                (b"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255%" + b"s" * L)[:L]]
    while len(out) < n:
        k = rng.randrange(10)
        b = v6_valid(rng)
        if k < 3:
            out.append(b)
        elif k < 9:
            out.append(mutate(rng, b, V6_ALPHA))
        else:
            out.append(bytes(rng.choice(V6_ALPHA[:34]) for _ in range(rng.randrange(1, 30))))
    return out


NET_ALPHA = b"0123456789////....::::%abfF -+x\0\t"

def mask_text(rng, w):
    bits = 8 * w
    k = rng.randrange(12)
    if k < 4:
        return str(rng.choice([0, 1, 8, 24, bits - 1, bits, bits + 1, rng.randrange(bits + 3)])).encode()
    if k == 4:
        return b"0" * rng.randrange(1, 30) + str(rng.choice([0, 1, 8, bits, bits + 1, rng.randrange(bits + 1)])).encode()
    if k == 5 and rng.random() < 0.3:      # a number long past any machine word
        return str(rng.choice([1, 2, 8, 12, 13, 24, 33, 64, 128, 130, 256])).encode() + bytes(rng.choice(b"0000000001248") if rng.random() < 0.2 else 48 for _ in range(rng.randrange(1, 72)))
    if k == 5:
        return str(rng.choice([33, 129, 100, 255, 256, 999, 65536, 65544, 2 ** 31, 2 ** 32, 2 ** 32 + 8, 2 ** 63, 2 ** 64, 2 ** 64 + 8, 2 ** 64 + 24, 2 ** 64 * 10 + 16, 10 ** 30])).encode()
    p = rng.randrange(33)
    m = (0xffffffff << (32 - p)) & 0xffffffff
    if k in (6, 7):
        v = m
    elif k == 8:
        v = m ^ 0xffffffff
    elif k == 9:
        v = m ^ (1 << rng.randrange(32))
    elif k == 10:
        return rng.choice([b"", b"/", b"a", b" 8", b"8 ", b"+8", b"-8", b"0x8", b"8.", b".8", b"8.8", b"1.2.3", b"255.255.255", b"255.255.255.0.", b"255.255.255.256", b"255.255.255.00", b"::", b"ffff::", b"24%1", b"8\x00", b"\x008", b"\xd9\xa1"])
    else:
        v = rng.randrange(1 << 32)
    return b"%d.%d.%d.%d" % (v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255)

def net_texts(rng, n):
    from gen import values
    out = []
    for w in (4, 16):
        for p in range(8 * w + 2):
            for _ in range(2):
                b = values.v4(rng) if w == 4 else values.v6(rng)
                for x in (b, values.mask(b, min(p, 8 * w))):
                    t = (".".join(map(str, x)) if w == 4 else ":".join("%x" % (x[2 * i] * 256 + x[2 * i + 1]) for i in range(8))).encode()
                    out.append(t + b"/" + str(p).encode())
                    if w == 4 and p <= 32:
                        m = (0xffffffff << (32 - p)) & 0xffffffff
                        for v in (m, m ^ 0xffffffff):
                            out.append(t + b"/%d.%d.%d.%d" % (v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255))
    # one host bit set at every distance from the prefix
    for w in (4, 16):
        for p in range(8 * w):
            b = (1 << (8 * w - 1 - p)) | ((1 << (8 * w - 1)) if p else 0)
            x = b.to_bytes(w, "big")
            t = (".".join(map(str, x)) if w == 4 else ":".join("%x" % (x[2 * i] * 256 + x[2 * i + 1]) for i in range(8))).encode()
            out += [t + b"/" + str(p).encode(), t + b"/" + str(p + 1).encode(), t + b"%eth0" + b"/" + str(p).encode()]
    for k in list(range(0, 40)) + [60, 61, 62, 63, 64, 65, 66, 90, 91, 92, 110, 114, 115, 116, 120, 200]:
        out += [b"1.2.3.4/" + b"0" * k + b"32", b"::/" + b"0" * k + b"128", b"::/" + b"1" * k, b"::/1" + b"0" * k, b"0.0.0.0/1" + b"0" * k, b"::/13" + b"0" * k, b"0.0.0.0/4" + b"0" * k, b"1.2.3.4" + b"0" * k + b"/8", b"1" * k + b"/8", b"::%" + b"a" * k + b"/128", b"/" * k, b"1.2.3.4" + b"/" * k,
                b"ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255%" + b"s" * k + b"/128", b"ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff%" + b"s" * k + b"/0", b"a" * k]
    while len(out) < n:
        w = rng.choice([4, 4, 16])
        a = v4_valid(rng) if w == 4 else v6_valid(rng)
        k = rng.randrange(10)
        if k < 2:
            a = mutate(rng, a, V4_ALPHA if w == 4 else V6_ALPHA)
        if k < 9:
            t = a + b"/" + mask_text(rng, w)
        else:
            t = a
        if k in (5, 6):
            t = mutate(rng, t, NET_ALPHA)
        if k == 7:      # an aligned address
            p = rng.randrange(8 * w + 1)
            b = values.mask(values.v4(rng) if w == 4 else values.v6(rng), p)
            t = (".".join(map(str, b)) if w == 4 else ":".join("%x" % (b[2 * i] * 256 + b[2 * i + 1]) for i in range(8))).encode() + b"/" + str(p).encode()
        out.append(t)
    return out
