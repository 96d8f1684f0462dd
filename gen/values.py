"""Seeded generators of addresses, networks and machine words (bytes objects)."""
from gen.texts import scope_text

def word(rng, n):
    """an n-byte word with structure: boundaries, runs of ones, single bits, random bytes"""
    bits = 8 * n
    k = rng.randrange(12)
    top = (1 << bits) - 1
    if k == 0:
        v = rng.choice([0, 1, 2, 3, 255, 256, 257, top, top - 1, top - 2, top >> 1, (top >> 1) + 1])
    elif k == 1:
        v = 1 << rng.randrange(bits)
    elif k == 2:
        v = top ^ (1 << rng.randrange(bits))
    elif k == 3:
        v = top << rng.randrange(bits)
    elif k == 4:
        v = top >> rng.randrange(bits)
    elif k == 5:
        v = (1 << rng.randrange(bits)) + rng.choice([-1, 1, 2, 3])
    elif k == 6:
        v = rng.randrange(1 << rng.randrange(1, bits + 1))
    elif k == 7:
        v = int.from_bytes(bytes(rng.choice([0, 0, 1, 127, 128, 254, 255, 255]) for _ in range(n)), "big")
    elif k == 8:
        v = (rng.randrange(1 << bits) << rng.randrange(bits))
    else:
        v = rng.randrange(1 << bits)
    return (v & top).to_bytes(n, "big")

def mask(b, p):
    n = len(b)
    top = (1 << (8 * n)) - 1
    m = (top << (8 * n - p)) & top
    return (int.from_bytes(b, "big") & m).to_bytes(n, "big")

def prefix(rng, n):
    return rng.choice([0, 1, 7, 8, 9, 8 * n, 8 * n - 1, 8 * n - 2, 8 * n - 8, rng.randrange(8 * n + 1), rng.randrange(8 * n + 1), rng.randrange(8 * n + 1)])

V4_POINTS = ["0.0.0.0", "0.0.0.1", "9.255.255.255", "10.0.0.0", "10.255.255.255", "11.0.0.0", "100.63.255.255", "100.64.0.0", "100.127.255.255", "100.128.0.0",
             "126.255.255.255", "127.0.0.0", "127.0.0.1", "127.255.255.255", "128.0.0.0", "169.254.0.0", "172.16.0.0", "172.31.255.255", "172.32.0.0", "192.0.0.0",
             "192.0.0.8", "192.0.0.170", "192.0.0.171", "192.0.0.172", "192.0.2.255", "192.168.0.0", "192.168.1.1", "198.17.255.255", "198.18.0.0", "198.19.255.255",
             "198.51.100.0", "203.0.113.255", "223.255.255.255", "224.0.0.0", "239.255.255.255", "240.0.0.0", "255.255.255.254", "255.255.255.255"]

def v4(rng):
    if rng.random() < 0.2:
        return bytes(int(x) for x in rng.choice(V4_POINTS).split("."))
    return word(rng, 4)

V6_PREFIXES = ["00" * 10 + "ffff", "00" * 12, "2002", "20010000", "200100000000", "20010002", "20010db8", "200100100000", "fe80", "fec0", "fc00", "fd00", "ff02", "ff", "0064ff9b" + "00" * 8, "0100", "fdff", "febf", "feff"]

def v6(rng):
    k = rng.randrange(6)
    if k == 0:
        p = bytes.fromhex(rng.choice(V6_PREFIXES))
        return p + word(rng, 16 - len(p))
    if k == 1:      # zero and non-zero groups
        return b"".join(rng.choice([b"\0\0", b"\0\0", b"\0\1", b"\0\x10", b"\x01\0", b"\x10\0", b"\xff\xff", bytes([rng.randrange(256), rng.randrange(256)])]) for _ in range(8))
    return word(rng, 16)

def scope(rng, max_len=16):
    return scope_text(rng, max_len).encode()[:max_len]

def addr(rng, n=None, scopes=0.3, max_len=16):
    """an address argument: hex[%hexscope]"""
    n = n or rng.choice([4, 16])
    if n == 4:
        return v4(rng).hex()
    b = v6(rng).hex()
    return b + "%" + scope(rng, max_len).hex() if rng.random() < scopes else b

def net(rng, n=None, scopes=0.15, plen=None, max_len=16):
    """a network argument: hex[%hexscope]/plen, aligned"""
    n = n or rng.choice([4, 16])
    p = prefix(rng, n) if plen is None else plen
    b = mask(v4(rng) if n == 4 else v6(rng), p).hex()
    if n == 16 and rng.random() < scopes:
        b += "%" + scope(rng, max_len).hex()
    return "%s/%d" % (b, p)

def neighbour(rng, arg):
    """a network close to a given one: nested, enclosing, adjacent or the same"""
    a, p = arg.split("/")
    b = bytes.fromhex(a.split("%")[0])
    n, p = len(b), int(p)
    v = int.from_bytes(b, "big")
    q = max(0, min(8 * n, p + rng.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3, 8, -8, 30, 64])))
    step = 1 << (8 * n - p)
    k = rng.randrange(6)
    if k == 0:
        v += step
    elif k == 1:
        v -= step
    elif k == 2:
        v += step - 1
    elif k == 3 and step > 1:
        v += rng.randrange(step)
    elif k == 4:
        v ^= 1 << rng.randrange(8 * n)
    return "%s/%d" % (mask((v % (1 << 8 * n)).to_bytes(n, "big"), q).hex(), q)
