"""Hash-consed bit-vector terms with a local normal form.

The same terms carry symbolic proofs (atoms are variables and uninterpreted
functions) and concrete execution (everything folds to constants).

Uninterpreted on purpose:  `mul`   low half of a product of two non-constants
                           `mulhi` high half of a product
                           `uf`    byte reads of a symbolic region, AES rounds, cpuid...
so a proof never depends on their meaning; evaluation (`ev`) interprets them.
"""
import itertools

_tab = {}
_ids = itertools.count()


class T(object):
    __slots__ = ("op", "w", "a", "id", "nz", "z")

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("terms are process-local")


def _mk(op, w, a, nz):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t.nz = nz
        t.id = next(_ids)
        t.z = None
        _tab[k] = t
    return t


def reset():
    _tab.clear()
    global TRUE, FALSE
    TRUE = const(1, 1)
    FALSE = const(1, 0)


def M(w):
    return (1 << w) - 1


def const(w, v):
    v &= (1 << w) - 1
    return _mk("c", w, v, v)


def var(w, name, ub=None, align=0, kind=None):
    nz = M(w)
    if ub is not None:
        nz = M(ub.bit_length())
    nz &= ~((1 << align) - 1)
    k = ("v", w, (name, ub, align, kind))
    return _mk("v", w, (name, ub, align, kind), nz)


_fresh = itertools.count()


def fresh(w, name="u", ub=None, align=0, kind=None):
    return var(w, "%s#%d" % (name, next(_fresh)), ub, align, kind)


TRUE = const(1, 1)
FALSE = const(1, 0)


def is_c(t):
    return t.op == "c"


def ub(t):
    if t.op == "v" and t.a[1] is not None:
        return t.a[1]
    if t.op == "lin":
        c, items = t.a
        s = c
        for k, x in items:
            s += k * ub(x)
            if s >> t.w:
                return t.nz
        return min(s, t.nz)
    return t.nz


# ---------------------------------------------------------------- linear sums

def _lin_add(acc, c0, t, k, w):
    """acc += k*t ; returns new const part"""
    m = (1 << w) - 1
    st = [(t, k)]
    while st:
        t, k = st.pop()
        if not k & m:
            continue
        op = t.op
        if op == "c":
            c0 += k * t.a
        elif op == "lin":
            c0 += k * t.a[0]
            for kk, x in t.a[1]:
                n = (acc.get(x, 0) + k * kk) & m
                if n:
                    acc[x] = n
                else:
                    acc.pop(x, None)
        elif op == "cat" and t.a[-1].op == "c":
            low = t.a[-1]
            n = low.w
            hi = t.a[:-1]
            c0 += k * low.a
            h = cat(*hi) if len(hi) > 1 else hi[0]
            # 2^n * widen(h)
            kk = k << n
            if h.op == "lin":
                c0 += kk * h.a[0]
                for k2, x in h.a[1]:
                    # coefficients are modulo 2^(w-n); after scaling by 2^n modulo 2^w
                    st.append((_widen(x, w), kk * k2))
            else:
                st.append((_widen(h, w), kk))
        else:
            n = (acc.get(t, 0) + k) & m
            if n:
                acc[t] = n
            else:
                acc.pop(t, None)
    return c0


def _widen(x, w):
    """some w-bit term whose low x.w bits are x (used under a multiplication that
    discards the rest)"""
    if x.w == w:
        return x
    if x.op == "ext" and x.a[1] == 0 and x.a[2].w == w:
        return x.a[2]
    if x.op == "c":
        return const(w, x.a)
    return zext(x, w)


def _lin_build(w, acc, c0):
    c0 &= (1 << w) - 1
    if not acc:
        return const(w, c0)
    items = sorted(((k, x) for x, k in acc.items()), key=lambda p: p[1].id)
    if len(items) == 1:
        k, x = items[0]
        if k == 1 and c0 == 0:
            return x
        if w == 1:
            return not_(x) if c0 & 1 else x
        if k & (k - 1) == 0 and c0 == 0:
            n = k.bit_length() - 1
            return cat(ext(x, w - 1 - n, 0), const(n, 0))
    # disjoint sum -> concatenation
    if len(items) + (c0 != 0) <= 9:
        ok = True
        used = c0
        for k, x in items:
            if k & (k - 1) or (x.op == "v" and x.a[3] in ("n", "base")):
                ok = False
                break
            mk = x.nz * k & M(w)
            if mk & used:
                ok = False
                break
            used |= mk
        if ok:
            parts = [shl_c(x, k.bit_length() - 1) if k > 1 else x for k, x in items]
            if c0:
                parts.append(const(w, c0))
            r = _piecewise(w, parts)
            if r is not None:
                return r
    # nz
    tz = w
    tot = c0
    if c0:
        tz = (c0 & -c0).bit_length() - 1
    for k, x in items:
        p = k * x.nz if x.nz else 0
        if p:
            tz = min(tz, (k & -k).bit_length() - 1 + (x.nz & -x.nz).bit_length() - 1)
        tot += k * ub(x)
    nz = M(w)
    if tot >> w == 0:
        nz = M(tot.bit_length())
    nz &= ~((1 << tz) - 1)
    return _mk("lin", w, (c0, tuple(items)), nz)


def lin(w, terms, c0=0):
    """terms: iterable of (coef, term)"""
    if w == 1:
        r = const(1, c0)
        for k, t in terms:
            if k & 1:
                r = xor(r, t)
        return r
    acc = {}
    for k, t in terms:
        c0 = _lin_add(acc, c0, t, k, w)
    return _lin_build(w, acc, c0)


def add(*ts):
    w = ts[0].w
    if all(t.op == "c" for t in ts):
        return const(w, sum(t.a for t in ts))
    return lin(w, [(1, t) for t in ts])


def sub(a, b):
    return lin(a.w, [(1, a), (-1, b)])


def neg(a):
    return lin(a.w, [(-1, a)])


def addc(a, c):
    return lin(a.w, [(1, a)], c) if c else a


def lin_parts(t):
    """(const, [(coef, atom)]) of any term"""
    if t.op == "lin":
        return t.a[0], list(t.a[1])
    if t.op == "c":
        return t.a, []
    acc = {}
    c0 = _lin_add(acc, 0, t, 1, t.w)
    m = M(t.w)
    return c0 & m, sorted(((k, x) for x, k in acc.items()), key=lambda p: p[1].id)


# ---------------------------------------------------------------- products

def mul(a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        return const(w, a.a * b.a)
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        # 2W-bit product of a zero-extended factor by a wide constant
        if w in (64, 128) and a.a >> 16 and a.a >> (w // 2) == 0 and b.nz >> (w // 2) == 0:
            return _wide(w, ext(a, w // 2 - 1, 0), ext(b, w // 2 - 1, 0))
        return lin(w, [(a.a, b)])
    if w in (64, 128) and a.nz >> (w // 2) == 0 and b.nz >> (w // 2) == 0:
        return _wide(w, ext(a, w // 2 - 1, 0), ext(b, w // 2 - 1, 0))
    ca, ia = lin_parts(a)
    cb, ib = lin_parts(b)
    # pull out a constant factor of a one-atom sum: (k*x)*(j*y) = kj * x*y
    k = 1
    if len(ia) == 1 and ca == 0:
        k *= ia[0][0]
        a = ia[0][1]
    if len(ib) == 1 and cb == 0:
        k *= ib[0][0]
        b = ib[0][1]
    if a.id > b.id:
        a, b = b, a
    t = _mk("mul", w, (a, b), M(w))
    return lin(w, [(k, t)]) if k != 1 else t


def mulhi(a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        return const(w, (a.a * b.a) >> w)
    if a.op == "c" and a.a < 2 or b.op == "c" and b.a < 2:
        return const(w, 0)
    if a.id > b.id:
        a, b = b, a
    return _mk("mulhi", w, (a, b), M(w))


def _wide(w, a, b):
    return cat(mulhi(a, b), mul(a, b))


# ---------------------------------------------------------------- slices

def zext(x, w):
    if x.w == w:
        return x
    return cat(const(w - x.w, 0), x)


def sext(x, w):
    if x.w == w:
        return x
    if x.op == "c":
        v = x.a
        if v >> (x.w - 1):
            v -= 1 << x.w
        return const(w, v)
    if not x.nz >> (x.w - 1):
        return zext(x, w)
    return _mk("sext", w, x, M(w))


def trunc(x, w):
    return ext(x, w - 1, 0)


def ext(x, hi, lo):
    w = hi - lo + 1
    if w == x.w:
        return x
    if w <= 0:
        raise ValueError("empty slice")
    op = x.op
    if op == "c":
        return const(w, x.a >> lo)
    if (x.nz >> lo) & M(w) == 0:
        return const(w, 0)
    if op == "ext":
        return ext(x.a[2], hi + x.a[1], lo + x.a[1])
    if op == "cat":
        out = []
        p = x.w
        for t in x.a:
            p -= t.w
            h = min(hi, p + t.w - 1)
            l = max(lo, p)
            if h >= l:
                out.append(ext(t, h - p, l - p))
        return cat(*out)
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return f(*[ext(t, hi, lo) for t in x.a])
    if op == "ite":
        return ite(x.a[0], ext(x.a[1], hi, lo), ext(x.a[2], hi, lo))
    if op == "sext":
        y = x.a
        if hi < y.w:
            return ext(y, hi, lo)
    if op == "lin":
        c0, items = x.a
        if lo == 0:
            return lin(w, [(k, ext(t, hi, 0)) for k, t in items], c0)
        g = (1 << lo) - 1
        if all(not k & g for k, t in items):
            ww = x.w - lo
            y = lin(ww, [(k >> lo, ext(t, ww - 1, 0)) for k, t in items], c0 >> lo)
            return ext(y, hi - lo, 0)
    if op == "mul" and lo == 0:
        return mul(ext(x.a[0], hi, 0), ext(x.a[1], hi, 0))
    return _mk("ext", w, (hi, lo, x), (x.nz >> lo) & M(w))


def cat(*ts):
    """high to low"""
    out = []
    for t in ts:
        if t.op == "cat":
            out.extend(t.a)
        else:
            out.append(t)
    r = [out[0]]
    for t in out[1:]:
        p = r[-1]
        if t.op == "c" and p.op == "c":
            r[-1] = const(p.w + t.w, p.a << t.w | t.a)
        elif t.op == "ext" and p.op == "ext" and p.a[2] is t.a[2] and p.a[1] == t.a[0] + 1:
            r[-1] = ext(t.a[2], p.a[0], t.a[1])
        elif p.op == "ext" and t.op in ("lin", "mul") and p.a[1] == t.w and ext(p.a[2], t.w - 1, 0) is t:
            r[-1] = ext(p.a[2], p.a[0], 0)
        else:
            r.append(t)
    if len(r) == 1:
        return r[0]
    w = sum(t.w for t in r)
    # zero-extension of a truncation that lost nothing
    if len(r) == 2 and r[0].op == "c" and r[0].a == 0:
        x = r[1]
        if x.op == "ext" and x.a[1] == 0 and x.a[2].w == w and not x.a[2].nz >> x.w:
            return x.a[2]
        if x.op == "lin":
            # undo the truncation of a sum when it cannot wrap at the narrow width
            c0, items = x.a
            wide = []
            tot = c0
            for k, t in items:
                if t.op == "ext" and t.a[1] == 0 and t.a[2].w == w and not t.a[2].nz >> t.w:
                    wide.append((k, t.a[2]))
                    tot += k * ub(t.a[2])
                else:
                    wide = None
                    break
            if wide is not None and tot >> x.w == 0:
                return lin(w, wide, c0)
    nz = 0
    for t in r:
        nz = nz << t.w | t.nz
    return _mk("cat", w, tuple(r), nz)


def _bounds(t):
    """piece boundaries (low offsets) of a term seen as a concatenation"""
    if t.op == "cat":
        s = set()
        p = t.w
        for x in t.a:
            p -= x.w
            s.add(p)
        return s
    return {0}


def _zruns(v, w):
    s = {0}
    prev = None
    for i in range(w):
        b = v >> i & 1
        if b != prev:
            s.add(i)
            prev = b
    return s


def _piecewise(w, ts):
    """or/xor/add of terms with disjoint support as a concatenation, or None"""
    cuts = {0}
    for t in ts:
        if t.op == "c":
            cuts |= _zruns(t.a, w)
        elif t.op == "cat":
            cuts |= _bounds(t)
    if len(cuts) > 40:
        return None
    cl = sorted(cuts) + [w]
    out = []
    for i in range(len(cl) - 1):
        lo, hi = cl[i], cl[i + 1] - 1
        nzs = [x for x in (ext(t, hi, lo) for t in ts) if not (x.op == "c" and x.a == 0)]
        if len(nzs) > 1:
            return None
        out.append(nzs[0] if nzs else const(hi - lo + 1, 0))
    out.reverse()
    return cat(*out)


# ---------------------------------------------------------------- bitwise

def not_(x):
    if x.w == 1:
        if x.op == "c":
            return const(1, 1 - x.a)
        if x.op == "not":
            return x.a
        return _mk("not", 1, x, 1)
    return lin(x.w, [(-1, x)], -1)


def _is_not(t):
    """x if t == ~x structurally"""
    if t.op == "not":
        return t.a
    if t.op == "lin" and t.a[0] == M(t.w) and len(t.a[1]) == 1 and t.a[1][0][0] == M(t.w):
        return t.a[1][0][1]
    return None


def _mask_cat(x, m):
    """x & m for a constant with few runs"""
    cuts = sorted(_zruns(m, x.w)) + [x.w]
    if len(cuts) > 12:
        return None
    out = []
    for i in range(len(cuts) - 1):
        lo, hi = cuts[i], cuts[i + 1] - 1
        out.append(ext(x, hi, lo) if m >> lo & 1 else const(hi - lo + 1, 0))
    out.reverse()
    return cat(*out)


def and_(*ts):
    w = ts[0].w
    c = M(w)
    s = []
    for t in ts:
        if t.op == "c":
            c &= t.a
        elif t.op == "and":
            for x in t.a:
                if x.op == "c":
                    c &= x.a
                else:
                    s.append(x)
        else:
            s.append(t)
    if c == 0:
        return const(w, 0)
    s = list(dict.fromkeys(s))
    if w == 1:
        st = set(s)
        for x in s:
            if x.op == "not" and x.a in st:
                return FALSE
    nz = c
    for x in s:
        nz &= x.nz
    if nz == 0 or not s:
        return const(w, nz if not s else 0)
    if len(s) == 1:
        x = s[0]
        if x.nz & ~c == 0:
            return x
        r = _mask_cat(x, c)
        if r is not None:
            return r
    s.sort(key=lambda t: t.id)
    if c != M(w):
        s.append(const(w, c))
    return _mk("and", w, tuple(s), nz)


def or_(*ts):
    w = ts[0].w
    c = 0
    s = []
    for t in ts:
        if t.op == "c":
            c |= t.a
        elif t.op == "or":
            for x in t.a:
                if x.op == "c":
                    c |= x.a
                else:
                    s.append(x)
        else:
            s.append(t)
    if c == M(w):
        return const(w, c)
    s = list(dict.fromkeys(s))
    if not s:
        return const(w, c)
    if len(s) == 1 and c == 0:
        return s[0]
    if w == 1:
        st = set(s)
        for x in s:
            if x.op == "not" and x.a in st:
                return TRUE
    else:
        allp = s + ([const(w, c)] if c else [])
        used = 0
        dis = True
        for x in allp:
            if x.nz & used:
                dis = False
                break
            used |= x.nz
        if dis:
            r = _piecewise(w, allp)
            if r is not None:
                return r
    s.sort(key=lambda t: t.id)
    nz = c
    for x in s:
        nz |= x.nz
    if c:
        s.append(const(w, c))
    return _mk("or", w, tuple(s), nz)


def xor(*ts):
    w = ts[0].w
    c = 0
    acc = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.op == "c":
            c ^= t.a
            continue
        if t.op == "xor":
            st.extend(t.a)
            continue
        n = _is_not(t)
        if n is not None:
            c ^= M(w)
            st.append(n)
            continue
        if t in acc:
            del acc[t]
        else:
            acc[t] = 1
    s = sorted(acc, key=lambda t: t.id)
    if not s:
        return const(w, c)
    if c == M(w):
        return not_(xor(*s) if len(s) > 1 else s[0])
    if len(s) == 1 and c == 0:
        return s[0]
    if w > 1:
        allp = s + ([const(w, c)] if c else [])
        used = 0
        dis = True
        for x in allp:
            if x.nz & used:
                dis = False
                break
            used |= x.nz
        if dis:
            r = _piecewise(w, allp)
            if r is not None:
                return r
    nz = c
    for x in s:
        nz |= x.nz
    if c:
        s.append(const(w, c))
    return _mk("xor", w, tuple(s), nz)


# ---------------------------------------------------------------- shifts

def shl_c(x, n):
    if n == 0:
        return x
    if n >= x.w:
        return const(x.w, 0)
    if x.op == "c":
        return const(x.w, x.a << n)
    return cat(ext(x, x.w - 1 - n, 0), const(n, 0))


def lshr_c(x, n):
    if n == 0:
        return x
    if n >= x.w:
        return const(x.w, 0)
    return cat(const(n, 0), ext(x, x.w - 1, n))


def shl(x, y):
    if y.op == "c":
        return shl_c(x, y.a)
    return _mk("shl", x.w, (x, y), M(x.w))


def lshr(x, y):
    if y.op == "c":
        return lshr_c(x, y.a)
    return _mk("lshr", x.w, (x, y), M(x.w))


def ashr(x, y):
    if y.op == "c":
        n = min(y.a, x.w - 1)
        if n == 0:
            return x
        return sext(ext(x, x.w - 1, n), x.w)
    return _mk("ashr", x.w, (x, y), M(x.w))


def rotr(x, n):
    n %= x.w
    if n == 0:
        return x
    return cat(ext(x, n - 1, 0), ext(x, x.w - 1, n))


def bswap(x):
    return cat(*[ext(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)])


def divrem(op, a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        if b.a == 0:
            return None
        if op == "udiv":
            return const(w, a.a // b.a)
        if op == "urem":
            return const(w, a.a % b.a)
        sa = a.a - (1 << w) if a.a >> (w - 1) else a.a
        sb = b.a - (1 << w) if b.a >> (w - 1) else b.a
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return const(w, q if op == "sdiv" else sa - q * sb)
    if b.op == "c" and b.a and b.a & (b.a - 1) == 0:
        n = b.a.bit_length() - 1
        sgn = op[0] == "s" and a.nz >> (w - 1)
        if not sgn and not (op[0] == "s" and b.a >> (w - 1)):
            if op[1:] == "div":
                return lshr_c(a, n)
            return and_(a, const(w, b.a - 1))
    return _mk(op, w, (a, b), M(w))


# ---------------------------------------------------------------- predicates

def eq(a, b):
    if a is b:
        return TRUE
    w = a.w
    if a.op == "c" and b.op == "c":
        return TRUE if a.a == b.a else FALSE
    if w == 1:
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            return a if b.a else not_(a)
        return not_(xor(a, b))
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        if a.a & ~b.nz:
            return FALSE
        if b.op == "cat":
            # piecewise against a constant; drop constant pieces
            p = b.w
            cs = []
            for t in b.a:
                p -= t.w
                v = (a.a >> p) & M(t.w)
                if t.op == "c":
                    if t.a != v:
                        return FALSE
                else:
                    cs.append((t, v))
            if len(cs) < len(b.a):
                return and_(*[eq(t, const(t.w, v)) for t, v in cs]) if len(cs) > 1 else eq(cs[0][0], const(cs[0][0].w, cs[0][1]))
        if b.op == "ite":
            x, y = b.a[1], b.a[2]
            if x.op == "c" or y.op == "c":
                return ite(b.a[0], eq(x, a), eq(y, a))
        if b.op == "lin":
            # a sum that cannot wrap is at its least (greatest) only if every summand is
            top = sum(k * ub(y) for k, y in b.a[1])
            if b.a[0] + top < 1 << w:
                d = a.a - b.a[0]
                if d < 0 or d > top:
                    return FALSE
                if d == 0 or d == top:
                    return and_(*[eq(y, const(y.w, ub(y) if d else 0)) for k, y in b.a[1]])
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.a == 0 else FALSE
    if a.id > b.id and a.op != "c":
        a, b = b, a
    return _mk("eq", 1, (a, b), 1)


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.a < b.a else FALSE
    if b.op == "c":
        if b.a == 0:
            return FALSE
        if ub(a) < b.a:
            return TRUE
        if b.a == 1:
            return eq(a, const(a.w, 0))
    if a.op == "c":
        if a.a >= ub(b):
            return FALSE
        if a.a == 0:
            return ne(b, const(b.w, 0))
        lb = b.a[0] if b.op == "lin" and _nowrap(b) else 0
        if a.a < lb:
            return TRUE
    if b.op == "c" and a.op == "lin" and a.a[0] >= b.a and _nowrap(a):
        return FALSE
    return _mk("ult", 1, (a, b), 1)


def _nowrap(t):
    c0, items = t.a
    s = c0
    for k, x in items:
        s += k * ub(x)
    return s >> t.w == 0


def ule(a, b):
    return not_(ult(b, a))


def _flip(a):
    return add(a, const(a.w, 1 << (a.w - 1)))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        s = 1 << (a.w - 1)
        return TRUE if (a.a ^ s) < (b.a ^ s) else FALSE
    if not a.nz >> (a.w - 1) and not b.nz >> (b.w - 1):
        return ult(a, b)
    if b.op == "c" and b.a == 0 and a.w > 1:
        return eq(ext(a, a.w - 1, a.w - 1), TRUE)
    return _mk("slt", 1, (a, b), 1)


def sle(a, b):
    return not_(slt(b, a))


def ite(c, a, b):
    if c.op == "c":
        return a if c.a else b
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.a, b, a
    if a.w == 1:
        if a.op == "c":
            return or_(c, b) if a.a else and_(not_(c), b)
        if b.op == "c":
            return or_(not_(c), a) if b.a else and_(c, a)
    return _mk("ite", a.w, (c, a, b), a.nz | b.nz)


def uf(name, w, *args):
    if all(x.op == "c" for x in args):
        f = FOLD.get(name)
        if f is not None:
            return const(w, f(*[x.a for x in args]))
    return _mk("uf", w, (name,) + args, M(w))


# ---------------------------------------------------------------- AES (FIPS-197)

def _aes_tables():
    p = q = 1
    sbox = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q
        r = x
        for i in range(1, 5):
            r ^= ((x << i) | (x >> (8 - i))) & 0xff
        sbox[p] = r ^ 0x63
        if p == 1:
            break
    sbox[0] = 0x63
    inv = [0] * 256
    for i, v in enumerate(sbox):
        inv[v] = i
    return sbox, inv


SBOX, INV = _aes_tables()


def _gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


_MUL = {k: [_gm(x, k) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}


def aesenc(s, k):
    b = s.to_bytes(16, "little")
    t = [SBOX[b[(i + 4 * (i % 4)) % 16]] for i in range(16)]
    m2, m3 = _MUL[2], _MUL[3]
    o = bytearray(16)
    for c in range(0, 16, 4):
        a, b_, d, e = t[c:c + 4]
        o[c] = m2[a] ^ m3[b_] ^ d ^ e
        o[c + 1] = a ^ m2[b_] ^ m3[d] ^ e
        o[c + 2] = a ^ b_ ^ m2[d] ^ m3[e]
        o[c + 3] = m3[a] ^ b_ ^ d ^ m2[e]
    return int.from_bytes(o, "little") ^ k


def aesdec(s, k):
    b = s.to_bytes(16, "little")
    t = [INV[b[(i - 4 * (i % 4)) % 16]] for i in range(16)]
    m9, mb, md, me = _MUL[9], _MUL[11], _MUL[13], _MUL[14]
    o = bytearray(16)
    for c in range(0, 16, 4):
        a, b_, d, e = t[c:c + 4]
        o[c] = me[a] ^ mb[b_] ^ md[d] ^ m9[e]
        o[c + 1] = m9[a] ^ me[b_] ^ mb[d] ^ md[e]
        o[c + 2] = md[a] ^ m9[b_] ^ me[d] ^ mb[e]
        o[c + 3] = mb[a] ^ md[b_] ^ m9[d] ^ me[e]
    return int.from_bytes(o, "little") ^ k


FOLD = {"aesenc0": lambda s: aesenc(s, 0), "aesdec0": lambda s: aesdec(s, 0)}


# ---------------------------------------------------------------- traversal

def children(t):
    op = t.op
    if op in ("c", "v"):
        return ()
    if op == "lin":
        return tuple(x for _, x in t.a[1])
    if op == "ext":
        return (t.a[2],)
    if op in ("sext", "not"):
        return (t.a,)
    if op == "uf":
        return t.a[1:]
    return t.a


def postorder(roots):
    seen = set()
    out = []
    for r in roots:
        st = [(r, False)]
        while st:
            t, done = st.pop()
            if t in seen:
                continue
            if done:
                seen.add(t)
                out.append(t)
            else:
                st.append((t, True))
                for c in children(t):
                    if c not in seen:
                        st.append((c, False))
    return out


def ev(roots, env, ufs=None, default=None):
    """concrete values of the roots. env: var term -> int; ufs: name -> function.
    default(term) supplies values for variables and functions not given."""
    single = isinstance(roots, T)
    rs = [roots] if single else list(roots)
    val = {}
    ufs = ufs or {}
    for t in postorder(rs):
        op, w, a = t.op, t.w, t.a
        m = M(w)
        if op == "c":
            v = a
        elif op == "v":
            v = env.get(t)
            if v is None:
                v = default(t) if default else 0
        elif op == "lin":
            v = a[0]
            for k, x in a[1]:
                v += k * val[x]
            v &= m
        elif op == "and":
            v = m
            for x in a:
                v &= val[x]
        elif op == "or":
            v = 0
            for x in a:
                v |= val[x]
        elif op == "xor":
            v = 0
            for x in a:
                v ^= val[x]
        elif op == "not":
            v = 1 - val[a]
        elif op == "ext":
            v = (val[a[2]] >> a[1]) & m
        elif op == "cat":
            v = 0
            for x in a:
                v = v << x.w | val[x]
        elif op == "ite":
            v = val[a[1]] if val[a[0]] else val[a[2]]
        elif op == "mul":
            v = (val[a[0]] * val[a[1]]) & m
        elif op == "mulhi":
            v = (val[a[0]] * val[a[1]]) >> w
        elif op == "eq":
            v = int(val[a[0]] == val[a[1]])
        elif op == "ult":
            v = int(val[a[0]] < val[a[1]])
        elif op == "slt":
            s = 1 << (a[0].w - 1)
            v = int((val[a[0]] ^ s) < (val[a[1]] ^ s))
        elif op == "sext":
            v = val[a]
            if v >> (a.w - 1):
                v = (v - (1 << a.w)) & m
        elif op == "shl":
            v = (val[a[0]] << val[a[1]]) & m if val[a[1]] < w else 0
        elif op == "lshr":
            v = val[a[0]] >> val[a[1]]
        elif op == "ashr":
            x = val[a[0]]
            if x >> (w - 1):
                x -= 1 << w
            v = (x >> min(val[a[1]], w - 1)) & m
        elif op in ("udiv", "urem", "sdiv", "srem"):
            r = divrem(op, const(w, val[a[0]]), const(w, val[a[1]]))
            v = r.a if r is not None else 0
        elif op == "uf":
            f = ufs.get(a[0]) or FOLD.get(a[0])
            args = [val[x] for x in a[1:]]
            if f is not None:
                v = f(*args) & m
            elif default:
                v = default(t, *args) & m
            else:
                v = 0
        else:
            raise ValueError(op)
        val[t] = v
    return val[rs[0]] if single else [val[r] for r in rs]


def subst(roots, mp):
    """simultaneous substitution, rebuilding through the normalizer"""
    single = isinstance(roots, T)
    rs = [roots] if single else list(roots)
    new = dict(mp)
    for t in postorder(rs):
        if t in new:
            continue
        ch = children(t)
        if not ch or all(new[c] is c for c in ch):
            new[t] = t
            continue
        op, w, a = t.op, t.w, t.a
        if op == "lin":
            r = lin(w, [(k, new[x]) for k, x in a[1]], a[0])
        elif op == "and":
            r = and_(*[new[x] for x in a])
        elif op == "or":
            r = or_(*[new[x] for x in a])
        elif op == "xor":
            r = xor(*[new[x] for x in a])
        elif op == "not":
            r = not_(new[a])
        elif op == "ext":
            r = ext(new[a[2]], a[0], a[1])
        elif op == "cat":
            r = cat(*[new[x] for x in a])
        elif op == "ite":
            r = ite(*[new[x] for x in a])
        elif op == "mul":
            r = mul(new[a[0]], new[a[1]])
        elif op == "mulhi":
            r = mulhi(new[a[0]], new[a[1]])
        elif op == "eq":
            r = eq(new[a[0]], new[a[1]])
        elif op == "ult":
            r = ult(new[a[0]], new[a[1]])
        elif op == "slt":
            r = slt(new[a[0]], new[a[1]])
        elif op == "sext":
            r = sext(new[a], w)
        elif op == "shl":
            r = shl(new[a[0]], new[a[1]])
        elif op == "lshr":
            r = lshr(new[a[0]], new[a[1]])
        elif op == "ashr":
            r = ashr(new[a[0]], new[a[1]])
        elif op in ("udiv", "urem", "sdiv", "srem"):
            r = divrem(op, new[a[0]], new[a[1]])
        elif op == "uf":
            r = uf(a[0], w, *[new[x] for x in a[1:]])
        else:
            raise ValueError(op)
        new[t] = r
    return new[rs[0]] if single else [new[r] for r in rs]


def vars_of(roots):
    return [t for t in postorder(roots) if t.op == "v"]


def show(t, depth=6):
    if t.op == "c":
        return hex(t.a) if t.a > 9 else str(t.a)
    if t.op == "v":
        return t.a[0]
    if depth == 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if t.op == "lin":
        c0, items = t.a
        half = 1 << (t.w - 1)
        ps = []
        for k, x in items:
            if k >= half:
                k -= 1 << t.w
            ps.append(s(x) if k == 1 else "%s*%s" % (k if abs(k) < 1000 else hex(k), s(x)))
        if c0:
            c = c0 - (1 << t.w) if c0 >= half else c0
            ps.append(str(c) if abs(c) < 100000 else hex(c))
        return "(" + " + ".join(ps) + ")"
    if t.op == "ext":
        return "%s[%d:%d]" % (s(t.a[2]), t.a[0], t.a[1])
    if t.op == "cat":
        return "{" + ",".join("%d'%s" % (x.w, s(x)) if x.op == "c" else s(x) for x in t.a) + "}"
    if t.op == "uf":
        return "%s(%s)" % (t.a[0], ",".join(s(x) for x in t.a[1:]))
    if t.op in ("not", "sext"):
        return "%s(%s)" % (t.op, s(t.a))
    return "%s(%s)" % (t.op, ",".join(s(x) for x in t.a))


# ---------------------------------------------------------------- z3

_z3 = None


def z3mod():
    global _z3
    if _z3 is None:
        import z3
        _z3 = z3
    return _z3


def _zf(name, ws, w):
    z3 = z3mod()
    return z3.Function(name, *([z3.BitVecSort(x) for x in ws] + [z3.BitVecSort(w)]))


def to_z3(roots):
    z3 = z3mod()
    single = isinstance(roots, T)
    rs = [roots] if single else list(roots)
    for t in postorder([r for r in rs if r.z is None]):
        if t.z is not None:
            continue
        op, w, a = t.op, t.w, t.a
        if op == "c":
            v = z3.BitVecVal(a, w)
        elif op == "v":
            v = z3.BitVec(a[0], w)
        elif op == "lin":
            v = None
            for k, x in a[1]:
                if k == 1:
                    y = x.z
                elif k == M(w):
                    y = None
                    v = -x.z if v is None else v - x.z
                    continue
                else:
                    y = x.z * z3.BitVecVal(k, w)
                v = y if v is None else v + y
            if a[0]:
                v = v + z3.BitVecVal(a[0], w)
        elif op in ("and", "or", "xor"):
            v = a[0].z
            for x in a[1:]:
                v = v & x.z if op == "and" else v | x.z if op == "or" else v ^ x.z
        elif op == "not":
            v = ~a.z
        elif op == "ext":
            v = z3.Extract(a[0], a[1], a[2].z)
        elif op == "cat":
            v = z3.Concat(*[x.z for x in a])
        elif op == "ite":
            v = z3.If(a[0].z == 1, a[1].z, a[2].z)
        elif op in ("mul", "mulhi"):
            v = _zf("%s%d" % (op, w), [w, w], w)(a[0].z, a[1].z)
        elif op == "eq":
            v = z3.If(a[0].z == a[1].z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == "ult":
            v = z3.If(z3.ULT(a[0].z, a[1].z), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == "slt":
            v = z3.If(a[0].z < a[1].z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        elif op == "sext":
            v = z3.SignExt(w - a.w, a.z)
        elif op == "shl":
            v = a[0].z << a[1].z
        elif op == "lshr":
            v = z3.LShR(a[0].z, a[1].z)
        elif op == "ashr":
            v = a[0].z >> a[1].z
        elif op == "udiv":
            v = z3.UDiv(a[0].z, a[1].z)
        elif op == "urem":
            v = z3.URem(a[0].z, a[1].z)
        elif op == "sdiv":
            v = a[0].z / a[1].z
        elif op == "srem":
            v = z3.SRem(a[0].z, a[1].z)
        elif op == "uf":
            if len(a) == 1:
                v = z3.BitVec("uf!" + a[0], w)
            else:
                v = _zf("uf!%s_%s_%d" % (a[0], "_".join(str(x.w) for x in a[1:]), w), [x.w for x in a[1:]], w)(*[x.z for x in a[1:]])
        else:
            raise ValueError(op)
        t.z = v
    return rs[0].z if single else [r.z for r in rs]


def var_facts(roots):
    """range/alignment facts carried by the variables, as terms"""
    out = []
    for v in vars_of(roots):
        name, u, al, kind = v.a
        if u is not None and u != M(v.w):
            out.append(_mk("ult", 1, (v, const(v.w, u + 1)), 1))
        if al:
            x = _mk("ext", al, (al - 1, 0, v), M(al))
            out.append(_mk("eq", 1, (const(al, 0), x), 1))
    return out


def schoolbook(a, b):
    al, ah = trunc(a, 32), ext(a, 63, 32)
    bl, bh = trunc(b, 32), ext(b, 63, 32)
    w = lambda x, y: cat(mulhi(x, y), mul(x, y))
    z = lambda x, n: shl_c(zext(x, 128), n)
    p = add(z(w(al, bl), 0), z(w(ah, bl), 32), z(w(al, bh), 32), z(w(ah, bh), 64))
    top = const(64, (2 ** 32 - 1) ** 2)
    bounds = [ule(w(x, y), top) for x, y in ((al, bl), (ah, bl), (al, bh), (ah, bh))]
    return [eq(mul(a, b), ext(p, 63, 0)), eq(mulhi(a, b), ext(p, 127, 64))] + [x for x in bounds if x.op != "c"]
