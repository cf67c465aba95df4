"""Contracts of the public functions and their proof obligations, case by case.

A case fixes only what the specification itself branches on: short lengths are taken
one by one; longer ones as  len = block*Q + r  with r fixed and Q a variable over its
whole range. Seed, input bytes, input address, prior contents of outputs are symbolic
in every case."""
import term as t
from term import T, const, TRUE, FALSE, add, trunc, zext, ext, cat
import spec
from spec import SPECS, AES, AESA, AESB
from exec import Exec, State, Ghost, Unsupported, Solver
import contracts

UNIT = {"t1ha2_atonce": "t1ha2", "t1ha2_atonce128": "t1ha2", "t1ha1_le": "t1ha1", "t1ha1_be": "t1ha1",
        "t1ha0_32le": "t1ha0", "t1ha0_32be": "t1ha0", "t1ha0_ia32aes_noavx": "t1ha0_ia32aes_noavx",
        "t1ha0_ia32aes_avx": "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2": "t1ha0_ia32aes_avx2"}


def newexec(mod, cfg, helpers, rep, solver=None, policy=None):
    ex = Exec(mod, solver or Solver(), {"align64": cfg.align64}, dict(helpers), rep)
    ex.align_obl = cfg.align64 if cfg.strict_align else None
    ex.key_policy = policy or ("page" if cfg.oneshot else "exact")
    return ex


def prove_helpers(mod, cfg, record, policy=None):
    """-> {name: Contract} proved against the bodies in this unit"""
    proved = {}
    solver = Solver()
    for c in contracts.table():
        F = mod.funcs.get(c.name)
        if F is None or F.decl:
            continue
        if c.prove(lambda rep: newexec(mod, cfg, proved, rep, solver, policy), record):
            proved[c.name] = c
    return proved, solver


# ------------------------------------------------------------------ input regions

def key_region(ex, st, name, n=None, size=None):
    """an input of n (int) or size (term) bytes at any address; -> pointer term, key function"""
    W = ex.W
    if n == 0:
        return t.var(W, name), (lambda off: t.uf("rd:none", 8, off))
    r = ex.region(name, "ro", n if n is not None else size, None, 0)
    sz = const(W, n) if n is not None else size
    if n is None:
        st.sizes[r] = size
    # no object lives in the first or the last page of the address space, or wraps around
    top = (1 << W) - 1 - ex.pagesize
    st.assume(t.not_(t.ult(r.base, const(W, ex.pagesize))))
    st.assume(t.not_(t.ult(const(W, top), r.base)))
    st.assume(t.not_(t.ult(t.sub(const(W, top), r.base), sz)))
    st.exact += [t.add(r.base, sz, const(W, ex.pagesize))]
    return r.base, r.byte


def hash_cases(name, W):
    sp = SPECS[name]
    out = [("small", n) for n in range(sp.small + 1)]
    out += [("big", r) for r in range(sp.block)]
    return out


def case_label(case):
    return "len=%d" % case[1] if case[0] == "small" else "len=B*Q+%d" % case[1]


def longest(W, full):
    """the longest key: an object of C is no longer than PTRDIFF_MAX, which on 64-bit targets no address space
    reaches; on 32-bit targets `full` admits every length (mmap provides longer ones there)"""
    return (1 << W) - 1 - 2 * 4096 if full and W == 32 else (1 << W - 1) - 1


def big_len(W, sp, r, full):
    """len = B*Q + r over every such length above the small ones"""
    qmax = (longest(W, full) - r) // sp.block
    Q = t.var(W, "Q", qmax, 0, "n")
    qmin = (sp.small + 1 - r + sp.block - 1) // sp.block
    return Q, t.lin(W, [(sp.block, Q)], r), max(0, qmin)


def run_hash(ex, name, case, full=False):
    """proves the public contract of an at-once function in one case"""
    sp = SPECS[name]
    W = ex.W
    sp.zero = const(W, 0)
    st = State()
    seed = t.var(64, "seed")
    Q = None
    if case[0] == "small":
        n = case[1]
        ln = const(W, n)
        P, key = key_region(ex, st, "key", n)
    else:
        Q, ln, qmin = big_len(W, sp, case[1], full)
        if qmin:
            st.assume(t.not_(t.ult(Q, const(W, qmin))))
        P, key = key_region(ex, st, "key", None, ln)
    l64 = zext(ln, 64)
    args = [P, ln, seed]
    outr = None
    if sp.outs == 2:
        outr = ex.region("extra", "mut", 8, None, 3 if W == 64 else 2)
        args = [outr.base] + args
    off0 = 0
    if Q is not None:
        if isinstance(sp, AESB):
            comps = sp.init(seed, l64, key, case[1])
            off0 = 16 if case[1] & 16 else 0
        else:
            comps = sp.init(seed, l64)
        B = sp.block
        step = lambda cs, k: sp.step(cs, key, t.lin(W, [(B, k)], off0))
        st.ghost = Ghost(Q, Q, B, comps, step)
    elif not isinstance(sp, AES):
        comps = sp.init(seed, l64)
    else:
        comps = (seed, l64)
    ends = ex.call(name, args, st)
    n = 0
    for s, v in ends:
        g = s.ghost
        todo = [(s, g.K if g else None, g.comps if g else comps)]
        if g is not None and g.phase == "pre":
            vals = ex.small_values(s, Q, 10)
            if vals is None:
                ex.where = name
                ex.oblige(s, "post", FALSE, "%s processes every block of the input" % name)
                continue
            todo = []
            for s2, k in vals:
                s2.subst({Q: const(W, k)})
                cs = s2.ghost.comps
                for j in range(k):
                    cs = step(cs, const(W, j))
                todo.append((s2, const(W, k), cs))
        for s2, K, cs in todo:
            n += 1
            ex.cover(s2)
            if Q is not None:
                want = sp.finish(cs, True, key, t.lin(W, [(sp.block, K)], off0), case[1])
            else:
                want = sp.finish(comps, False, key, const(W, 0), case[1])
            ex.where = name
            if v is None or v.w != 64:
                ex.oblige(s2, "post", FALSE, "%s returns 64 bits" % name)
                continue
            vv = v
            if g is not None and g.phase == "pre":
                vv = t.subst(v, {Q: K})
            ex.oblige(s2, "post", t.eq(vv, want[0]), "%s returns the specified hash value" % name)
            if outr is not None:
                ex.oblige(s2, "post", t.eq(ex.read(s2, outr, const(W, 0), 8), want[1]),
                          "%s stores the specified upper half" % name)
    return n
