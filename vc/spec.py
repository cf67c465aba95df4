"""The published t1ha algorithms as mathematical functions over bit-vector terms.

Written from the algorithm, independent of host byte order, word size and alignment:
a key is a byte sequence, words are assembled explicitly as little- or big-endian.
`key(off)` gives the byte at an offset (a term); results are terms."""
import term as t
from term import const, add, xor, mul, mulhi, rotr, not_, trunc, zext, cat, ext

P64 = [0xEC99BF0D8372CAAB, 0x82434FE90EDCEF39, 0xD4F06DB99D67BE4B, 0xBD9CACC22C6E9571,
       0x9C06FAF4D023E3AB, 0xC060724A8424F345, 0xCB5AF53AE3AAAC31]
P32 = [0x92D78269, 0xCA9B4735, 0xA4ABA1C3, 0xF6499843, 0x86F0FD61, 0xCA2DA6FB, 0xC4BB3575]


def p64(i):
    return const(64, P64[i])


def p32(i):
    return const(32, P32[i])


def word(key, off, n, big=False):
    bs = [key(t.addc(off, i)) for i in range(n)]
    if not big:
        bs.reverse()
    return cat(*bs)


def tailword(key, off, n, size, big=False):
    """1..size bytes as a word of `size` bytes, numerically zero-extended"""
    return zext(word(key, off, n, big), 8 * size)


# ------------------------------------------------------------------ shared 64-bit parts

def mux64(v, p):
    return xor(mul(v, p), mulhi(v, p))


def final64(a, b):
    x = mul(add(a, rotr(b, 41)), p64(0))
    y = mul(add(rotr(a, 23), b), p64(6))
    return mux64(xor(x, y), p64(5))


def mixup64(a, b, v, p):
    bv = add(b, v)
    return xor(a, mul(bv, p)), add(b, mulhi(bv, p))


# ------------------------------------------------------------------ t1ha2

def t2_ab(x, y):
    return x, y


def t2_cd(x, y):
    return add(rotr(y, 23), not_(x)), add(not_(y), rotr(x, 19))


def t2_step(s, w):
    a, b, c, d = s
    w0, w1, w2, w3 = w
    d02 = add(w0, rotr(add(w2, d), 56))
    c13 = add(w1, rotr(add(w3, c), 19))
    d2 = xor(d, add(b, rotr(w1, 38)))
    c2 = xor(c, add(a, rotr(w0, 57)))
    b2 = xor(b, mul(p64(6), add(c13, w2)))
    a2 = xor(a, mul(p64(5), add(d02, w3)))
    return (a2, b2, c2, d2)


def t2_squash(s):
    a, b, c, d = s
    return (xor(a, mul(p64(6), add(c, rotr(d, 23)))),
            xor(b, mul(p64(5), add(rotr(c, 19), d))), c, d)


def t2_final128(a, b, c, d):
    """-> (low result, high result)"""
    a, b = mixup64(a, b, xor(rotr(c, 41), d), p64(0))
    b, c = mixup64(b, c, xor(rotr(d, 23), a), p64(6))
    c, d = mixup64(c, d, xor(rotr(a, 19), b), p64(5))
    d, a = mixup64(d, a, xor(rotr(b, 31), c), p64(4))
    return xor(a, b), add(c, d)


def chunks(key, off, n, size, big):
    """the tail as [word...]: full words first, then the partial one; n concrete"""
    out = []
    while n > size:
        out.append(word(key, off, size, big))
        off = t.addc(off, size)
        n -= size
    if n:
        out.append(tailword(key, off, n, size, big))
    return out


def t2_tail_ab(s, key, off, n):
    a, b, c, d = s
    ws = chunks(key, off, n, 8, False)
    k = len(ws)
    for j, w in enumerate(ws):
        lvl = k - j                 # 4,3,2,1
        if lvl in (4, 2):
            a, b = mixup64(a, b, w, p64(lvl))
        else:
            b, a = mixup64(b, a, w, p64(lvl))
    return final64(a, b)


def t2_tail_abcd(s, key, off, n):
    a, b, c, d = s
    ws = chunks(key, off, n, 8, False)
    k = len(ws)
    for j, w in enumerate(ws):
        lvl = k - j
        if lvl == 4:
            a, d = mixup64(a, d, w, p64(4))
        elif lvl == 3:
            b, a = mixup64(b, a, w, p64(3))
        elif lvl == 2:
            c, b = mixup64(c, b, w, p64(2))
        else:
            d, c = mixup64(d, c, w, p64(1))
    return t2_final128(a, b, c, d)


class Hash(object):
    """block: bytes per loop block; small: the longest length handled without the loop.
    init(seed, len) -> comps ; step(comps, words) ; finish(comps, looped, key, off, n, len, seed)"""
    big = False
    outs = 1


class T2(Hash):
    block, small, nw, ws = 32, 32, 4, 8

    def init(self, seed, ln):
        return t2_ab(seed, ln) + t2_cd(seed, ln)

    def step(self, s, key, off):
        return t2_step(s, [word(key, t.addc(off, 8 * i), 8) for i in range(4)])

    def finish(self, s, looped, key, off, n):
        if looped:
            s = t2_squash(s)
        return (t2_tail_ab(s, key, off, n),)


class T2_128(T2):
    outs = 2

    def finish(self, s, looped, key, off, n):
        return t2_tail_abcd(s, key, off, n)


# ------------------------------------------------------------------ t1ha1

class T1(Hash):
    block, small, nw, ws = 32, 32, 4, 8

    def __init__(self, big):
        self.big = big

    def init(self, seed, ln):
        # (a, b, c, d)
        return (seed, ln, add(rotr(ln, 17), seed), xor(ln, rotr(seed, 17)))

    def step(self, s, key, off):
        a, b, c, d = s
        w0, w1, w2, w3 = [word(key, t.addc(off, 8 * i), 8, self.big) for i in range(4)]
        d02 = xor(w0, rotr(add(w2, d), 17))
        c13 = xor(w1, rotr(add(w3, c), 17))
        d = t.sub(d, xor(b, rotr(w1, 31)))
        c = add(c, xor(a, rotr(w0, 41)))
        b = xor(b, mul(p64(0), add(c13, w2)))
        a = xor(a, mul(p64(1), add(d02, w3)))
        return (a, b, c, d)

    def finish(self, s, looped, key, off, n):
        a, b, c, d = s
        if looped:
            a = xor(a, mul(p64(6), add(rotr(c, 17), d)))
            b = xor(b, mul(p64(5), add(c, rotr(d, 17))))
        ws = chunks(key, off, n, 8, self.big)
        k = len(ws)
        for j, w in enumerate(ws):
            lvl = k - j
            if lvl in (4, 2):
                b = add(b, mux64(w, p64(lvl)))
            else:
                a = add(a, mux64(w, p64(lvl)))
        return (t1_final(a, b),)


def t1_mix64(v, p):
    v = mul(v, p)
    return xor(v, rotr(v, 41))


def t1_final(a, b):
    return add(mux64(rotr(add(a, b), 17), p64(4)), t1_mix64(xor(a, b), p64(0)))


# ------------------------------------------------------------------ t1ha0 (32-bit)

def mixup32(a, b, v, p):
    bv = add(b, v)
    return xor(a, mul(bv, p)), add(b, mulhi(bv, p))


def final32(a, b):
    l = cat(a, xor(b, rotr(a, 13)))
    l = mul(l, p64(0))
    l = xor(l, t.lshr_c(l, 41))
    l = mul(l, p64(4))
    l = xor(l, t.lshr_c(l, 47))
    return mul(l, p64(6))


class T0(Hash):
    block, small, nw, ws = 16, 16, 4, 4

    def __init__(self, big):
        self.big = big

    def init(self, seed, ln):
        n = trunc(ln, 32)
        a = add(rotr(n, 17), trunc(seed, 32))
        b = xor(n, ext(seed, 63, 32))
        return (a, b, not_(a), rotr(b, 5))

    def step(self, s, key, off):
        a, b, c, d = s
        w0, w1, w2, w3 = [word(key, t.addc(off, 4 * i), 4, self.big) for i in range(4)]
        d13 = add(w1, rotr(add(w3, d), 17))
        c02 = xor(w0, rotr(add(w2, c), 11))
        d = xor(d, rotr(add(a, w0), 3))
        c = xor(c, rotr(add(b, w1), 7))
        b = mul(p32(1), add(c02, w3))
        a = mul(p32(0), xor(d13, w2))
        return (a, b, c, d)

    def finish(self, s, looped, key, off, n):
        a, b, c, d = s
        if looped:
            c = add(c, a)
            d = add(d, b)
            a = xor(a, mul(p32(6), add(rotr(c, 16), d)))
            b = xor(b, mul(p32(5), add(c, rotr(d, 16))))
        ws = chunks(key, off, n, 4, self.big)
        k = len(ws)
        for j, w in enumerate(ws):
            lvl = k - j
            if lvl in (4, 2):
                a, b = mixup32(a, b, w, p32(lvl))
            else:
                b, a = mixup32(b, a, w, p32(lvl))
        return (final32(a, b),)


# ------------------------------------------------------------------ t1ha0 (AES)

def enc(s, k):
    return xor(t.uf("aesenc0", 128, s), k)


def dec(s, k):
    return xor(t.uf("aesdec0", 128, s), k)


def lane(f, a, b):
    return cat(f(ext(a, 127, 64), ext(b, 127, 64)), f(ext(a, 63, 0), ext(b, 63, 0)))


def padd(a, b):
    return lane(add, a, b)


def psub(a, b):
    return lane(t.sub, a, b)


def set64(hi, lo):
    return cat(hi, lo)


class AES(Hash):
    small = 32
    block = 128

    def tail(self, a, b, key, off, n):
        ws = chunks(key, off, n, 8, False)
        k = len(ws)
        for j, w in enumerate(ws):
            lvl = k - j
            if lvl in (4, 2):
                a, b = mixup64(a, b, w, p64(lvl))
            else:
                b, a = mixup64(b, a, w, p64(lvl))
        return (final64(a, b),)

    def v(self, key, off, i):
        return word(key, t.addc(off, 16 * i), 16)

    def closing(self, x, y):
        x = padd(dec(x, enc(y, x)), y)
        return ext(x, 63, 0), ext(x, 127, 64)

    def pair(self, x, y, v0, v1):
        v0y = padd(y, v0)
        v1x = psub(x, v1)
        return dec(x, v0y), dec(y, v1x)


class AESA(AES):
    """t1ha0_ia32aes_noavx / _avx"""

    def init(self, seed, ln):
        x = set64(seed, ln)
        return (x, enc(x, set64(p64(5), p64(6))))

    def step(self, s, key, off):
        x, y = s
        v0, v1, v2, v3, v4, v5, v6, v7 = [self.v(key, off, i) for i in range(8)]
        v0y = enc(v0, y)
        v2x6 = enc(v2, xor(x, v6))
        v45_67 = xor(enc(v4, v5), padd(v6, v7))
        v0y7_1 = dec(psub(v7, v0y), v1)
        v2x6_3 = enc(v2x6, v3)
        x2 = enc(v45_67, padd(x, y))
        y2 = enc(v2x6_3, xor(v0y7_1, v5))
        return (x2, y2)

    def finish(self, s, looped, key, off, n):
        """n: bytes left after the 128-byte blocks (looped), else the whole length"""
        if not looped:
            return self.tail(s[0], s[1], key, off, n)
        x, y = s
        if n & 64:
            x, y = self.pair(x, y, self.v(key, off, 0), self.v(key, off, 1))
            x, y = self.pair(x, y, self.v(key, off, 2), self.v(key, off, 3))
            off = t.addc(off, 64)
        if n & 32:
            x, y = self.pair(x, y, self.v(key, off, 0), self.v(key, off, 1))
            off = t.addc(off, 32)
        if n & 16:
            y = padd(x, y)
            x = dec(x, self.v(key, off, 0))
            off = t.addc(off, 16)
        a, b = self.closing(x, y)
        return self.tail(a, b, key, off, n & 15)


class AESB(AES):
    """t1ha0_ia32aes_avx2"""
    prefix = True

    def init(self, seed, ln, key=None, n=0):
        """n: length mod 128 (its bit 4 selects the 16-byte prefix)"""
        x = set64(seed, ln)
        y = enc(x, set64(p64(0), p64(1)))
        if n & 16:
            x = padd(x, self.v(key, self.zero, 0))
            y = enc(x, y)
        return (x, y, y)

    def step(self, s, key, off):
        x, y, salt = s
        vs = [self.v(key, off, i) for i in range(8)]
        z = enc(vs[0], salt)
        for v in vs[1:]:
            z = dec(z, v)
        salt = padd(salt, set64(p64(5), p64(6)))
        z = enc(x, z)
        x = padd(y, x)
        return (x, z, salt)

    def finish(self, s, looped, key, off, n):
        if not looped:
            return self.tail(s[0], s[1], key, off, n)
        x, y, salt = s
        m = n & 0x60
        while m:
            x, y = self.pair(x, y, self.v(key, off, 0), self.v(key, off, 1))
            off = t.addc(off, 32)
            m -= 32
        a, b = self.closing(x, y)
        return self.tail(a, b, key, off, n & 15)


SPECS = {
    "t1ha2_atonce": T2(),
    "t1ha2_atonce128": T2_128(),
    "t1ha1_le": T1(False),
    "t1ha1_be": T1(True),
    "t1ha0_32le": T0(False),
    "t1ha0_32be": T0(True),
    "t1ha0_ia32aes_noavx": AESA(),
    "t1ha0_ia32aes_avx": AESA(),
    "t1ha0_ia32aes_avx2": AESB(),
}


# ------------------------------------------------------------------ evaluation

def evaluate(sp, data, seed, ln=None):
    """concrete result(s) of a spec on a byte string"""
    n = len(data)
    key = lambda o: const(8, data[o.a]) if o.a < n else const(8, 0)
    s64, l64 = const(64, seed), const(64, n if ln is None else ln)
    z = const(64, 0)
    if isinstance(sp, AES):
        sp.zero = z
        if n <= 32:
            r = sp.finish((s64, l64), False, key, z, n)
        else:
            if isinstance(sp, AESB):
                s = sp.init(s64, l64, key, n % 128)
                off = const(64, 16 if n & 16 else 0)
                k = (n - n % 16 - off.a) // 128
            else:
                s = sp.init(s64, l64)
                off = z
                k = n // 128
            for i in range(k):
                s = sp.step(s, key, off)
                off = t.addc(off, 128)
            r = sp.finish(s, True, key, off, n - 128 * k if isinstance(sp, AESA) else n % 128)
    else:
        s = sp.init(s64, l64)
        off = z
        if n <= sp.small:
            r = sp.finish(s, False, key, z, n)
        else:
            for i in range(n // sp.block):
                s = sp.step(s, key, off)
                off = t.addc(off, sp.block)
            r = sp.finish(s, True, key, off, n % sp.block)
    return [x.a for x in r]


def stream(data, x, y):
    """t1ha2 streaming result (64-bit, (low, high)) as the published function of the message"""
    n = len(data)
    bits = ((n << 3) ^ (1 << 63)) & ((1 << 64) - 1)
    msg = data + bits.to_bytes(8, "little")
    key = lambda o: const(8, msg[o.a]) if o.a < len(msg) else const(8, 0)
    s = t2_ab(const(64, x), const(64, y)) + t2_cd(const(64, x), const(64, y))
    off = const(64, 0)
    for i in range(len(msg) // 32):
        s = t2_step(s, [word(key, t.addc(off, 8 * j), 8) for j in range(4)])
        off = t.addc(off, 32)
    r64 = t2_tail_ab(t2_squash(s), key, off, len(msg) % 32)
    r128 = t2_tail_abcd(s, key, off, len(msg) % 32)
    return r64.a, (r128[0].a, r128[1].a)
