"""HighwayHash (64/128/256) written from Google's reference specification
(highwayhash/c/highwayhash.c), over terms: concrete integers in, integers out; symbolic
values in, terms out.  Independent of the code under test."""
from terms import *

M64 = (1 << 64) - 1
INIT0 = [0xdbe6d5d5fe4cce2f, 0xa4093822299f31d0, 0x13198a2e03707344, 0x243f6a8885a308d3]
INIT1 = [0x3bd39e10cb0ef593, 0xc0acf169b5f18a8c, 0xbe5466cf34e90c6c, 0x452821e638d01377]


def xor64(a, b):
    return xor_(64, a, b)


def add64(a, b):
    return add(64, a, b)


def lo32(x):
    return zext(ext(x, 0, 32), 32, 64)


def hi32(x):
    return lshr(64, x, 32)


def mul64(a, b):
    return mul(64, a, b)


def byte(x, i):
    """byte i of x, in place 0"""
    return zext(ext(x, 8 * i, 8), 8, 64)


def or64(a, b):
    return or_(64, a, b)


def rot32half(x, count):
    """rotate both 32-bit halves of x left by count"""
    if count == 0:
        return x
    out = 0
    for half in (0, 1):
        h = ext(x, 32 * half, 32)
        r = cat([(32 - count, ext(h, 0, 32 - count)), (count, ext(h, 32 - count, count))])
        out = or64(out, shl(64, zext(r, 32, 64), 32 * half) if half else zext(r, 32, 64))
    return out


class State:
    def __init__(self):
        self.v0 = [0] * 4
        self.v1 = [0] * 4
        self.mul0 = [0] * 4
        self.mul1 = [0] * 4

    def copy(self):
        s = State()
        s.v0, s.v1, s.mul0, s.mul1 = list(self.v0), list(self.v1), list(self.mul0), list(self.mul1)
        return s


def reset(key):
    s = State()
    s.mul0 = list(INIT0)
    s.mul1 = list(INIT1)
    for i in range(4):
        s.v0[i] = xor64(INIT0[i], key[i])
        k = key[i]
        rot = cat([(32, ext(k, 0, 32)), (32, ext(k, 32, 32))])
        s.v1[i] = xor64(INIT1[i], rot)
    return s


def zipper_merge_and_add(v1, v0, add1, add0):
    """returns the updated (add1, add0)"""
    def m(x, mask):
        return and_(64, x, mask)
    a = or64(lshr(64, or64(m(v0, 0xff000000), m(v1, 0xff00000000)), 24),
             lshr(64, or64(m(v0, 0xff0000000000), m(v1, 0xff000000000000)), 16))
    a = or64(a, m(v0, 0xff0000))
    a = or64(a, shl(64, m(v0, 0xff00), 32))
    a = or64(a, lshr(64, m(v1, 0xff00000000000000), 8))
    a = or64(a, shl(64, v0, 56))
    b = or64(lshr(64, or64(m(v1, 0xff000000), m(v0, 0xff00000000)), 24), m(v1, 0xff0000))
    b = or64(b, lshr(64, m(v1, 0xff0000000000), 16))
    b = or64(b, shl(64, m(v1, 0xff00), 24))
    b = or64(b, lshr(64, m(v0, 0xff000000000000), 8))
    b = or64(b, shl(64, m(v1, 0xff), 48))
    b = or64(b, m(v0, 0xff00000000000000))
    return add64(add1, b), add64(add0, a)


def update(s, lanes):
    for i in range(4):
        s.v1[i] = add64(s.v1[i], add64(s.mul0[i], lanes[i]))
        s.mul0[i] = xor64(s.mul0[i], mul64(lo32(s.v1[i]), hi32(s.v0[i])))
        s.v0[i] = add64(s.v0[i], s.mul1[i])
        s.mul1[i] = xor64(s.mul1[i], mul64(lo32(s.v0[i]), hi32(s.v1[i])))
    s.v0[1], s.v0[0] = zipper_merge_and_add(s.v1[1], s.v1[0], s.v0[1], s.v0[0])
    s.v0[3], s.v0[2] = zipper_merge_and_add(s.v1[3], s.v1[2], s.v0[3], s.v0[2])
    s.v1[1], s.v1[0] = zipper_merge_and_add(s.v0[1], s.v0[0], s.v1[1], s.v1[0])
    s.v1[3], s.v1[2] = zipper_merge_and_add(s.v0[3], s.v0[2], s.v1[3], s.v1[2])


def lanes_of(packet):
    """32 bytes -> four little-endian lanes"""
    return [cat([(8, packet[8 * i + k]) for k in range(7, -1, -1)]) for i in range(4)]


def update_packet(s, packet):
    update(s, lanes_of(packet))


def update_remainder(s, bs):
    n = len(bs)            # 1..31
    for i in range(4):
        s.v0[i] = add64(s.v0[i], (n << 32) + n)
        s.v1[i] = rot32half(s.v1[i], n & 31)
    mod4 = n & 3
    rem = bs[n & ~3:]
    packet = [0] * 32
    for i in range(n & ~3):
        packet[i] = bs[i]
    if n & 16:
        for i in range(4):
            packet[28 + i] = bs[n - 4 + i]
    elif mod4:
        packet[16] = rem[0]
        packet[17] = rem[mod4 >> 1]
        packet[18] = rem[mod4 - 1]
    update_packet(s, packet)


def permute_and_update(s):
    def rot(x):
        return cat([(32, ext(x, 0, 32)), (32, ext(x, 32, 32))])
    update(s, [rot(s.v0[2]), rot(s.v0[3]), rot(s.v0[0]), rot(s.v0[1])])


def modular_reduction(a3u, a2, a1, a0):
    a3 = and_(64, a3u, 0x3FFFFFFFFFFFFFFF)
    m1 = xor64(xor64(a1, or64(shl(64, a3, 1), lshr(64, a2, 63))),
               or64(shl(64, a3, 2), lshr(64, a2, 62)))
    m0 = xor64(xor64(a0, shl(64, a2, 1)), shl(64, a2, 2))
    return m1, m0


def final(s, w):
    for _ in range({64: 4, 128: 6, 256: 10}[w]):
        permute_and_update(s)
    if w == 64:
        return [add64(add64(s.v0[0], s.v1[0]), add64(s.mul0[0], s.mul1[0]))]
    if w == 128:
        return [add64(add64(s.v0[0], s.mul0[0]), add64(s.v1[2], s.mul1[2])),
                add64(add64(s.v0[1], s.mul0[1]), add64(s.v1[3], s.mul1[3]))]
    h1, h0 = modular_reduction(add64(s.v1[1], s.mul1[1]), add64(s.v1[0], s.mul1[0]),
                               add64(s.v0[1], s.mul0[1]), add64(s.v0[0], s.mul0[0]))
    h3, h2 = modular_reduction(add64(s.v1[3], s.mul1[3]), add64(s.v1[2], s.mul1[2]),
                               add64(s.v0[3], s.mul0[3]), add64(s.v0[2], s.mul0[2]))
    return [h0, h1, h2, h3]


def absorb(s, pending, bs):
    """feed bytes; returns the new pending bytes (fewer than 32)"""
    b = list(pending) + list(bs)
    i = 0
    while len(b) - i >= 32:
        update_packet(s, b[i:i + 32])
        i += 32
    return b[i:]


def finish(s, pending, w):
    s = s.copy()
    if pending:
        update_remainder(s, pending)
    return final(s, w)


def hash(key, bs, w):
    s = reset(key)
    p = absorb(s, [], bs)
    return finish(s, p, w)


def state_of_checkpoint(c):
    """logical state encoded by 160 bytes (little-endian lanes v0, v1, mul0, mul1)"""
    def lanes(o):
        return lanes_of(c[o:o + 32])
    s = State()
    s.v0, s.v1, s.mul0, s.mul1 = lanes(0), lanes(32), lanes(64), lanes(96)
    return s


def checkpoint_of(s, pending):
    out = []
    for l in s.v0 + s.v1 + s.mul0 + s.mul1:
        out += [ext(l, 8 * k, 8) for k in range(8)]
    out += list(pending) + [0] * (32 - len(pending))
    out += list(len(pending).to_bytes(4, "little"))
    return out


def selftest():
    """Google's published vectors (key 00..1F, data 00 01 02 ...), lengths 0..64, all widths"""
    import json
    import os
    v = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vectors.json")))
    n = 0
    for w in (64, 128, 256):
        for k, r in enumerate(v[str(w)]):
            if hash(v["key"], list(range(k)), w) != r:
                raise AssertionError("specification disagrees with vector %d/%d" % (w, k))
            n += 1
    return n


if __name__ == "__main__":
    print("ok", selftest())
