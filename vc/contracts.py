"""Contracts of the internal helper functions.

Each contract is a functional postcondition (a state transformer written with the
specification's operators), a precondition and a footprint. It is proved against the
helper's own body in every configuration and translation unit where the helper
exists, and only then used at call sites (callers see the contract, never the body).
A helper whose body does not meet its contract - or whose signature changed - is
inlined instead, so that the property is decided by what the public function does."""
import term as t
from term import T, const, TRUE, FALSE, add, xor, mul, mulhi, rotr, not_, trunc, zext, cat, ext
import spec
from exec import Exec, State, Unsupported


class Ctx(object):
    """what a contract may do: read the pre-state, write the listed cells"""

    def __init__(self, ex, st, proving):
        self.ex, self.st, self.proving = ex, st, proving

    def ld(self, p, n):
        r = self.ex.load(self.st, p, n)
        if len(r) != 1 or r[0][0] is not self.st:
            raise Unsupported("contract load")
        return r[0][1]

    def sto(self, p, n, v):
        r = self.ex.store(self.st, p, n, v)
        if len(r) != 1 or r[0] is not self.st:
            raise Unsupported("contract store")

    def require(self, goal, desc, kind="ub"):
        if not self.proving:
            self.ex.oblige(self.st, kind, goal, desc)

    def bytes(self, p, n, exact=False):
        """reads n input bytes (the footprint of the contract); exact: all n belong to the
        input itself, otherwise the reading policy of the caller applies"""
        ex, st = self.ex, self.st
        r, off = ex.resolve(st, p)
        if r is None:
            ex.oblige(st, "mem", FALSE, "read of %d bytes through a pointer that designates no object" % n)
            return [t.fresh(8, "bad") for _ in range(n)]
        if r.kind == "ro":
            if not self.proving:
                pol = ex.key_policy
                if exact:
                    ex.key_policy = "exact"
                try:
                    g = ex.key_read_ok(st, r, off, n)
                finally:
                    ex.key_policy = pol
                ex.oblige(st, "mem", g, "callee's precondition: %d bytes at %s+%s belong to the input" % (n, r.name, t.show(off, 3)))
            return [r.byte(t.addc(off, i)) for i in range(n)]
        out = []
        for i in range(n):
            v = ex.load(st, t.addc(p, i), 1)
            if len(v) != 1 or v[0][0] is not st:
                raise Unsupported("contract read")
            out.append(v[0][1])
        return out

    def word(self, p, n, big, size=None):
        bs = self.bytes(p, n, size is not None)
        if not big:
            bs.reverse()
        w = cat(*bs)
        return zext(w, 8 * size) if size else w

    def aligned(self, p, a):
        """p is a-byte aligned"""
        if a > 1:
            nb = a.bit_length() - 1
            self.require(t.eq(ext(p, nb - 1, 0), const(nb, 0)), "callee's precondition: pointer is %d-byte aligned" % a, "align")


class Contract(object):
    def __init__(self, name, kinds, fn, cases=None, resolvable=None, const_args=()):
        self.name, self.kinds, self.fn = name, kinds, fn
        self.cases = cases or [{}]
        self.const_args = const_args    # (index, width of low bits) that must be known at a call
        self.need = None

    # -------------------------------------------------- use at a call site
    def apply(self, ex, st, args):
        if len(args) != len(self.kinds):
            return None
        for a, k in zip(args, self.kinds):
            w = self.width(ex, k)
            if not isinstance(a, T) or a.w != w:
                return None
            if k[0] == "p":
                r, off = ex.resolve(st, a)
                if r is None or (r.kind != "ro" and off.op != "c"):
                    return None
        for i, bits in self.const_args:
            x = args[i] if bits is None else ext(args[i], bits - 1, 0)
            if x.op != "c":
                return None
        return [(st, self.fn(Ctx(ex, st, False), *args))]

    def width(self, ex, k):
        if k in ("v64",):
            return 64
        if k in ("v32", "int"):
            return 32
        return ex.W

    # -------------------------------------------------- proof against the body
    def prove(self, mkexec, record):
        """True when every obligation of the body holds"""
        ok = [True]

        def rep(kind, where, desc, good, be, model, st, goal=None):
            if not good:
                ok[0] = False
            record(kind, self.name, desc, good, be)
        for case in self.cases:
            ex = mkexec(rep)
            W = ex.W
            st = State()
            args = []
            muts = []
            for i, k in enumerate(self.kinds):
                if ("arg%d" % i) in case:
                    args.append(case["arg%d" % i](ex))
                elif k == "v64":
                    args.append(t.var(64, "x%d" % i))
                elif k in ("v32", "int"):
                    args.append(t.var(32, "x%d" % i))
                elif k == "size":
                    args.append(t.var(W, "x%d" % i))
                elif k.startswith("pin"):
                    # input bytes: pin<align>
                    al = int(k[3:] or 1)
                    al = min(al, ex.cfg["align64"]) if al == 8 else al
                    r = ex.region("in%d" % i, "ro", case.get("n", 8), None, al.bit_length() - 1)
                    st.assume(t.not_(t.ult(r.base, const(W, ex.pagesize))))
                    st.assume(t.not_(t.ult(t.not_(r.base), const(W, r.size if isinstance(r.size, int) else 0))))
                    args.append(r.base)
                elif k.startswith("pm"):
                    n = int(k[2:])
                    r = ex.region("mem%d" % i, "mut", n, None, 3 if W == 64 else 2)
                    for o in range(0, n, case.get("cell", 8)):
                        ex.write(st, r, const(W, o), case.get("cell", 8), t.var(8 * case.get("cell", 8), "m%d_%d" % (i, o)))
                    muts.append(r)
                    args.append(r.base)
                else:
                    raise ValueError(k)
            st2 = st.copy()
            try:
                want = self.fn(Ctx(ex, st2, True), *args)
                for pre in case.get("pre", []):
                    st.assume(pre(args))
                ends = ex.call(self.name, args, st)
                if not ends:
                    rep("post", self.name, "no path returns", False, "-", None, st)
                for s, v in ends:
                    if want is not None:
                        if v is None or v.w != want.w:
                            rep("post", self.name, "result width", False, "-", None, s)
                            continue
                        ex.where = self.name
                        ex.oblige(s, "post", self.goal(ex, s, v, want, args), "%s returns its specified value%s" % (self.name, case.get("label", "")))
                    for r in muts:
                        for o in range(0, r.size, case.get("cell", 8)):
                            n = case.get("cell", 8)
                            g = ex.read(s, r, const(W, o), n)
                            w = ex.read(st2, r, const(W, o), n)
                            ex.oblige(s, "post", self.goal(ex, s, g, w, args), "%s leaves the specified value in its output at +%d%s" % (self.name, o, case.get("label", "")))
            except Unsupported as e:
                rep("post", self.name, "not within the verifier's reach: %s" % e, False, "-", None, st)
            if not ok[0]:
                return False
        return True

    def goal(self, ex, s, got, want, args):
        return t.eq(got, want)


class MulContract(Contract):
    """64x64->128: when the body multiplies 32-bit halves, the schoolbook identity
    (lean/Schoolbook.lean, accepted by Lean on every run) relates the products"""

    def goal(self, ex, s, got, want, args):
        if got is want:
            return TRUE
        for f in t.schoolbook(args[0], args[1]):
            s.assume(f)
        return t.eq(got, want)


def _fetch(n, big, al):
    def f(c, v):
        if al:
            c.aligned(v, min(n, c.ex.cfg["align64"]) if n == 8 else n)
        return c.word(v, n, big)
    return f


def _tail(size, big, al):
    def f(c, v, tail):
        k = ext(tail, size.bit_length() - 2, 0).a
        n = k or size
        c.require(t.ne(tail, const(tail.w, 0)), "callee's precondition: tail is not empty")
        if al:
            c.aligned(v, min(size, c.ex.cfg["align64"]) if size == 8 else size)
        return c.word(v, n, big, size)
    return f


def _tailcases(size):
    nb = size.bit_length() - 1
    out = []
    for k in range(size):
        def mk(ex, k=k):
            q = t.var(ex.W, "tq", (1 << (ex.W - nb)) - 1, 0, "n")
            return t.lin(ex.W, [(size, q)], k)
        out.append({"arg1": mk, "n": k or size, "label": " (tail %% %d == %d)" % (size, k),
                    "pre": [] if k else [lambda a: t.ne(a[1], const(a[1].w, 0))]})
    return out


def _rot(w):
    def f(c, v, s):
        return rotr(v, s.a)
    return f


def _rotcases(w):
    return [{"arg1": (lambda ex, s=s: const(32, s)), "label": " (s == %d)" % s} for s in range(1, w)]


def _state(c, p):
    return [c.ld(t.addc(p, 8 * i), 8) for i in range(4)]


def _put(c, p, vals, idx):
    for i in idx:
        c.sto(t.addc(p, 8 * i), 8, vals[i])


def _mul128(c, a, b, h):
    c.sto(h, 8, mulhi(a, b))
    return mul(a, b)


def _addc_first(c, a, b, p):
    s = add(a, b)
    c.sto(p, 8, s)
    return zext(t.ult(s, b), 32)


def _addc_next(c, k, a, b, p):
    x = add(zext(a, 65), zext(b, 65), zext(trunc(k, 1), 65))
    c.sto(p, 8, trunc(x, 64))
    return zext(ext(x, 64, 64), 32)


def _addc_last(c, k, a, b, p):
    c.sto(p, 8, add(a, b, zext(trunc(k, 1), 64)))
    return None


def _carry_pre(i):
    return lambda args: t.not_(t.ult(const(32, 1), args[i]))


def _mixup64(c, a, b, v, p):
    x, y = spec.mixup64(c.ld(a, 8), c.ld(b, 8), v, p)
    c.sto(a, 8, x)
    c.sto(b, 8, y)


def _mixup32(c, a, b, v, p):
    x, y = spec.mixup32(c.ld(a, 4), c.ld(b, 4), v, p)
    c.sto(a, 4, x)
    c.sto(b, 4, y)


def _init_ab(c, s, x, y):
    _put(c, s, spec.t2_ab(x, y) + (None, None), (0, 1))


def _init_cd(c, s, x, y):
    _put(c, s, (None, None) + spec.t2_cd(x, y), (2, 3))


def _squash(c, s):
    _put(c, s, spec.t2_squash(tuple(_state(c, s))), (0, 1))


def _final128(c, a, b, cc, d, h):
    lo, hi = spec.t2_final128(a, b, cc, d)
    c.sto(h, 8, hi)
    return lo


def table():
    """in dependency order"""
    L = []
    A = L.append
    for n in (2, 4, 8):
        for big in (False, True):
            e = "be" if big else "le"
            A(Contract("fetch%d_%s_aligned" % (8 * n, e), ["pin%d" % n], _fetch(n, big, True), [{"n": n}]))
            A(Contract("fetch%d_%s_unaligned" % (8 * n, e), ["pin1"], _fetch(n, big, False), [{"n": n}]))
    for size in (4, 8):
        for big in (False, True):
            e = "be" if big else "le"
            A(Contract("tail%d_%s_aligned" % (8 * size, e), ["pin%d" % size, "size"], _tail(size, big, True),
                       _tailcases(size), None, [(1, size.bit_length() - 1)]))
            A(Contract("tail%d_%s_unaligned" % (8 * size, e), ["pin1", "size"], _tail(size, big, False),
                       _tailcases(size), None, [(1, size.bit_length() - 1)]))
    A(Contract("rot64", ["v64", "int"], _rot(64), _rotcases(64), None, [(1, None)]))
    A(Contract("rot32", ["v32", "int"], _rot(32), _rotcases(32), None, [(1, None)]))
    A(Contract("mul_32x32_64", ["v32", "v32"], lambda c, a, b: cat(mulhi(a, b), mul(a, b))))
    A(Contract("add64carry_first", ["v64", "v64", "pm8"], _addc_first))
    A(CarryContract("add64carry_next", ["int", "v64", "v64", "pm8"], _addc_next, [{"pre": [_carry_pre(0)]}]))
    A(CarryContract("add64carry_last", ["int", "v64", "v64", "pm8"], _addc_last, [{"pre": [_carry_pre(0)]}]))
    A(MulContract("mul_64x64_128", ["v64", "v64", "pm8"], _mul128))
    A(MulContract("mul_64x64_high", ["v64", "v64"], lambda c, a, b: mulhi(a, b)))
    A(Contract("mux64", ["v64", "v64"], lambda c, v, p: spec.mux64(v, p)))
    A(Contract("final64", ["v64", "v64"], lambda c, a, b: spec.final64(a, b)))
    A(Contract("mixup64", ["pm8", "pm8", "v64", "v64"], _mixup64))
    A(Contract("mix64", ["v64", "v64"], lambda c, v, p: spec.t1_mix64(v, p)))
    A(Contract("final_weak_avalanche", ["v64", "v64"], lambda c, a, b: spec.t1_final(a, b)))
    A(Contract("init_ab", ["pm32", "v64", "v64"], _init_ab))
    A(Contract("init_cd", ["pm32", "v64", "v64"], _init_cd))
    A(Contract("squash", ["pm32"], _squash))
    A(Contract("final128", ["v64", "v64", "v64", "v64", "pm8"], _final128))
    A(Contract("mixup32", ["pm4", "pm4", "v32", "v32"], _mixup32, [{"cell": 4}]))
    A(Contract("final32", ["v32", "v32"], lambda c, a, b: spec.final32(a, b)))
    return L


class CarryContract(Contract):
    def apply(self, ex, st, args):
        if len(args) != 4 or args[0].w != 32:
            return None
        # precondition: the carry is 0 or 1
        ex.oblige(st, "ub", t.not_(t.ult(const(32, 1), args[0])), "callee's precondition: carry is 0 or 1")
        return Contract.apply(self, ex, st, args)
