"""Contracts of t1ha2_init / t1ha2_update / t1ha2_final over an abstract view of the
context: (state words, buffered bytes, their number, total length).

t1ha2_update(ctx, data, len) is specified by  absorb : the full 32-byte blocks of
(buffered ++ data) are folded into the state, the rest is what is buffered afterwards.
Lemma absorb_append (lean/Absorb.lean) makes any split into chunks equivalent."""
import os
import tempfile
import term as t
from term import T, const, TRUE, FALSE, add, trunc, zext, ext, cat
import spec
from spec import t2_step, t2_ab, t2_cd, t2_squash, t2_tail_ab, t2_tail_abcd, word
from exec import Exec, State, Ghost, Unsupported
from contracts import Ctx
import funcs
from funcs import key_region
import config

LAYOUT = """#include <stddef.h>
#include "t1ha.h"
const unsigned long long layout[9] = {sizeof(t1ha_context_t), _Alignof(t1ha_context_t),
 offsetof(t1ha_context_t, state.n.a), offsetof(t1ha_context_t, state.n.b),
 offsetof(t1ha_context_t, state.n.c), offsetof(t1ha_context_t, state.n.d),
 offsetof(t1ha_context_t, buffer), offsetof(t1ha_context_t, partial), offsetof(t1ha_context_t, total)};
"""


class Layout(object):
    def __init__(self, cfg):
        d = tempfile.mkdtemp(prefix="vc-")
        f = os.path.join(d, "layout.c")
        try:
            with open(f, "w") as h:
                h.write(LAYOUT)
            m = config.compile_ir(cfg, "layout", src=f)
        finally:
            os.remove(f)
            os.rmdir(d)
        ex = Exec(m, None)
        g = ex.glob("layout")
        st = State()
        v = [ex.read(st, g, const(m.W, 8 * i), 8).a for i in range(9)]
        self.size, self.align, self.a, self.b, self.c, self.d, self.buf, self.partial, self.total = v
        self.words = (self.a, self.b, self.c, self.d)


def context(ex, st, lay, p=None):
    """a context at any (aligned) address; with p: in a state a history of calls can leave it in,
    p bytes buffered. -> (region, state words, buffered bytes, total)"""
    W = ex.W
    r = ex.region("ctx", "mut", lay.size, None, lay.align.bit_length() - 1)
    for o in range(0, lay.size, 4):
        ex.write(st, r, const(W, o), 4, t.var(32, "ctx%d" % o))
    s = [t.var(64, "s%d" % i) for i in range(4)]
    buf = [t.var(8, "buf%d" % i) for i in range(32)]
    # representation invariant: the buffered count is the total modulo the block size
    total = cat(t.var(59, "blocks"), const(5, p or 0))
    if p is not None:
        for i in range(4):
            ex.write(st, r, const(W, lay.words[i]), 8, s[i])
        for i in range(32):
            ex.write(st, r, const(W, lay.buf + i), 1, buf[i])
        ex.write(st, r, const(W, lay.partial), W // 8, const(W, p))
        ex.write(st, r, const(W, lay.total), 8, total)
    return r, s, buf[:p or 0], total


def words_of(bs):
    """four little-endian words of 32 bytes"""
    return [cat(*reversed(bs[8 * i:8 * i + 8])) for i in range(4)]


def absorb_bytes(s, bs):
    """fold the full blocks of a byte list -> (state, rest)"""
    while len(bs) >= 32:
        s = t2_step(s, words_of(bs[:32]))
        bs = bs[32:]
    return list(s), bs


# ------------------------------------------------------------------ init

def run_init(ex, lay):
    st = State()
    r, _, _, _ = context(ex, st, lay)
    W = ex.W
    x, y = t.var(64, "x"), t.var(64, "y")
    want = t2_ab(x, y) + t2_cd(x, y)
    n = 0
    for s, v in ex.call("t1ha2_init", [r.base, x, y], st):
        n += 1
        ex.cover(s)
        ex.where = "t1ha2_init"
        for i in range(4):
            ex.oblige(s, "post", t.eq(ex.read(s, r, const(W, lay.words[i]), 8), want[i]),
                      "t1ha2_init sets state word %d from the two seeds only" % i)
        ex.oblige(s, "post", t.eq(ex.read(s, r, const(W, lay.partial), W // 8), const(W, 0)),
                  "t1ha2_init leaves nothing buffered, whatever the context held before")
        ex.oblige(s, "post", t.eq(ex.read(s, r, const(W, lay.total), 8), const(64, 0)),
                  "t1ha2_init resets the total length")
    return n


# ------------------------------------------------------------------ update

def update_cases():
    out = []
    for p in range(32):
        for l in range(32 - p if p else 32):
            out.append(("part", p, l))
        for r in range(32):
            out.append(("full", p, r))
    return out


def case_label(c):
    if c[0] == "part":
        return "buffered=%d,len=%d" % (c[1], c[2])
    if c[0] == "full":
        return "buffered=%d,len=%s32*Q+%d" % (c[1], "%d+" % (32 - c[1]) if c[1] else "", c[2])
    return "%s" % (c,)


def run_update(ex, lay, case, full=False):
    kind, p, x = case
    W = ex.W
    st = State()
    r, s, buf, total = context(ex, st, lay, p)
    Q = None
    if kind == "part":
        n = x
        ln = const(W, n)
        D, key = key_region(ex, st, "data", n)
        comps, rest = absorb_bytes(s, buf + [key(const(W, i)) for i in range(n)])
    else:
        head = (32 - p) % 32
        qmax = (funcs.longest(W, full) - x - head) // 32
        Q = t.var(W, "Q", qmax, 0, "n")
        if p == 0:
            st.assume(t.not_(t.ult(Q, const(W, 1))))
        ln = t.lin(W, [(32, Q)], head + x)
        D, key = key_region(ex, st, "data", None, ln)
        comps = list(s)
        if p:
            comps, _ = absorb_bytes(s, buf + [key(const(W, i)) for i in range(head)])
        step = lambda cs, k: t2_step(cs, [word(key, t.lin(W, [(32, k)], head + 8 * i), 8) for i in range(4)])
        st.ghost = Ghost(Q, Q, 32, tuple(comps), step)
    ends = ex.call("t1ha2_update", [r.base, D, ln], st)
    n_ = 0
    for s1, v in ends:
        g = s1.ghost
        todo = [(s1, g.K if g else None, g.comps if g else comps)]
        if g is not None and g.phase == "pre":
            vals = ex.small_values(s1, Q, 10)
            if vals is None:
                ex.where = "t1ha2_update"
                ex.oblige(s1, "post", FALSE, "t1ha2_update processes every block of the input")
                continue
            todo = []
            for s2, k in vals:
                s2.subst({Q: const(W, k)})
                cs = s2.ghost.comps
                for j in range(k):
                    cs = step(cs, const(W, j))
                todo.append((s2, const(W, k), cs))
        for s2, K, cs in todo:
            n_ += 1
            ex.cover(s2)
            ex.where = "t1ha2_update"
            if Q is None:
                rs, ll = rest, zext(ln, 64)
            else:
                rs = [key(t.lin(W, [(32, K)], head + i)) for i in range(x)]
                ll = zext(t.lin(W, [(32, K)], head + x), 64)
            for i in range(4):
                ex.oblige(s2, "post", t.eq(ex.read(s2, r, const(W, lay.words[i]), 8), cs[i]),
                          "t1ha2_update folds the complete blocks of (buffered ++ data) into state word %d" % i)
            for i in range(len(rs)):
                ex.oblige(s2, "post", t.eq(ex.read(s2, r, const(W, lay.buf + i), 1), rs[i]),
                          "t1ha2_update keeps the remaining bytes buffered, in order")
            ex.oblige(s2, "post", t.eq(ex.read(s2, r, const(W, lay.partial), W // 8), const(W, len(rs))),
                      "t1ha2_update keeps exactly the remaining bytes buffered")
            ex.oblige(s2, "post", t.eq(ex.read(s2, r, const(W, lay.total), 8), add(total, ll)),
                      "t1ha2_update adds the length to the 64-bit total")
    return n_


class UpdateContract(object):
    """t1ha2_update at a call site (constant buffered count and length)"""

    def __init__(self, lay):
        self.lay = lay

    def apply(self, ex, st, args):
        lay, W = self.lay, ex.W
        if len(args) != 3:
            return None
        c, d, ln = args
        r, off = ex.resolve(st, c)
        if r is None or r.kind != "mut" or off.op != "c" or off.a != 0 or r.size != lay.size or ln.op != "c":
            return None
        pt = ex.read(st, r, const(W, lay.partial), W // 8)
        if pt.op != "c" or pt.a > 31 or ln.a > 64:
            return None
        p, n = pt.a, ln.a
        bs = [ex.read(st, r, const(W, lay.buf + i), 1) for i in range(p)]
        if n:
            bs += Ctx(ex, st, False).bytes(d, n, True)
        s = [ex.read(st, r, const(W, o), 8) for o in lay.words]
        total = ex.read(st, r, const(W, lay.total), 8)
        s, rest = absorb_bytes(s, bs)
        for o in range(0, lay.size, 4):
            ex.write(st, r, const(W, o), 4, t.fresh(32, "junk"))
        for i in range(4):
            ex.write(st, r, const(W, lay.words[i]), 8, s[i])
        for i in range(32):
            ex.write(st, r, const(W, lay.buf + i), 1, rest[i] if i < len(rest) else t.fresh(8, "junk"))
        ex.write(st, r, const(W, lay.partial), W // 8, const(W, len(rest)))
        ex.write(st, r, const(W, lay.total), 8, add(total, const(64, n)))
        return [(st, None)]


# ------------------------------------------------------------------ final

def final_cases():
    return [(p, e) for p in range(32) for e in (0, 1)]


def run_final(ex, lay, case):
    p, extra = case
    W = ex.W
    st = State()
    r, s, buf, total = context(ex, st, lay, p)
    bits = t.xor(t.shl_c(total, 3), const(64, 1 << 63))
    cs, rest = absorb_bytes(s, buf + [ext(bits, 8 * i + 7, 8 * i) for i in range(8)])
    z = const(W, 0)
    key = lambda o: rest[o.a]
    if extra:
        o = ex.region("extra", "mut", 8, None, 3 if W == 64 else 2)
        want = t2_tail_abcd(cs, key, z, len(rest))
        arg = o.base
    else:
        want = (t2_tail_ab(t2_squash(cs), key, z, len(rest)),)
        arg = z
    ex.contracts["t1ha2_update"] = UpdateContract(lay)
    n = 0
    for s1, v in ex.call("t1ha2_final", [r.base, arg], st):
        n += 1
        ex.cover(s1)
        ex.where = "t1ha2_final"
        if v is None or v.w != 64:
            ex.oblige(s1, "post", FALSE, "t1ha2_final returns 64 bits")
            continue
        ex.oblige(s1, "post", t.eq(v, want[0]), "t1ha2_final returns the %s of (buffered ++ bit length)" %
                  ("lower half of the 128-bit hash" if extra else "64-bit hash"))
        if extra:
            ex.oblige(s1, "post", t.eq(ex.read(s1, o, z, 8), want[1]), "t1ha2_final stores the upper half")
    return n
