"""Verification-condition generator: symbolic execution of LLVM IR with function
contracts at calls, inferred-and-checked loop invariants, and proof obligations.

Executing with constant inputs gives a concrete interpreter of the same IR (used to
replay counterexamples for targets this machine cannot run)."""
import hashlib
import itertools
import time
import subprocess
import term as t
from term import T, const, TRUE, FALSE
import llvmir


UBSAN = {0: "no signed overflow in +", 1: "unreachable code is not reached", 3: "no overflow or zero divisor in / or %",
         10: "loaded bool/enum holds a valid value", 11: "value returned on every path", 12: "no signed overflow in *",
         13: "no overflow in negation", 16: "argument declared nonnull is not NULL", 18: "array index in bounds",
         19: "pointer arithmetic does not wrap or start from NULL", 20: "shift amount and shifted value within the type",
         21: "no signed overflow in -", 22: "object accessed is not NULL and suitably aligned"}


class Unsupported(Exception):
    pass


class Region(object):
    __slots__ = ("name", "base", "kind", "size", "data", "W", "align", "glob", "need", "frozen")

    def __init__(self, name, base, kind, size, data=None, align=1):
        self.name, self.base, self.kind, self.size = name, base, kind, size
        self.data = data
        self.align = align
        self.glob = None
        self.need = None
        self.frozen = False

    def byte(self, off):
        d = self.data
        if callable(d):
            return d(off)
        if d is not None:
            if off.op == "c":
                o = off.a
                if o < len(d):
                    return const(8, d[o])
            return t.uf("oob:" + self.name, 8, off)
        return t.uf("rd:" + self.name, 8, off)


class Frame(object):
    __slots__ = ("F", "args", "env", "block", "idx", "prev", "call", "regs")

    def copy(self):
        f = Frame()
        f.F, f.args, f.env = self.F, self.args, dict(self.env)
        f.block, f.idx, f.prev, f.call = self.block, self.idx, self.prev, self.call
        f.regs = list(self.regs)
        return f


class State(object):
    __slots__ = ("mem", "frames", "pc", "pcs", "ghost", "exact", "unroll", "steps", "trace", "sizes")

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.pc = []
        self.pcs = set()
        self.ghost = None
        self.exact = []
        self.sizes = {}         # region -> length term, where it is not a constant
        self.unroll = {}
        self.steps = 0
        self.trace = []

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.ghost = self.ghost
        s.exact = list(self.exact)
        s.sizes = dict(self.sizes)
        s.unroll = dict(self.unroll)
        s.steps = self.steps
        s.trace = list(self.trace)
        return s

    def assume(self, c):
        if c.op == "c":
            if c.a:
                return True
            self.pc.append(c)
            return False
        if c.op == "and" and c.w == 1:
            for x in c.a:
                self.assume(x)
            return True
        if c in self.pcs:
            return True
        self.pc.append(c)
        self.pcs.add(c)
        return True

    def subst(self, mp):
        """apply a substitution of variables everywhere"""
        pool = []
        for r, cells in self.mem.items():
            for o, (n, v) in cells.items():
                pool.append(v)
        for f in self.frames:
            for v in f.env.values():
                if isinstance(v, tuple):
                    pool.extend(v)
                else:
                    pool.append(v)
            for v in f.args:
                if isinstance(v, T):
                    pool.append(v)
        pool += self.pc
        pool += self.exact
        pool += list(self.sizes.values())
        new = t.subst(pool, mp)
        d = dict(zip(pool, new))
        for r in list(self.mem):
            self.mem[r] = {o: (n, d[v]) for o, (n, v) in self.mem[r].items()}
        for f in self.frames:
            f.env = {k: (tuple(d[x] for x in v) if isinstance(v, tuple) else d[v]) for k, v in f.env.items()}
            f.args = [d[v] if isinstance(v, T) else v for v in f.args]
        old = self.pc
        self.pc = []
        self.pcs = set()
        for c in old:
            self.assume(d[c])
        self.exact = [d[x] for x in self.exact]
        self.sizes = {r: d[x] for r, x in self.sizes.items()}
        if self.ghost is not None:
            self.ghost = self.ghost.subst(mp)


class Ghost(object):
    """specification state carried in lockstep with the code.
    phase 'pre': the spec's block loop still has to run, K blocks, comps initial.
    phase 'done': comps are the spec state after all K blocks."""

    def __init__(self, Q, K, B, comps, step, phase="pre", off0=None, extra=()):
        self.Q, self.K, self.B, self.comps, self.step = Q, K, B, comps, step
        self.phase = phase
        self.extra = extra      # further terms of the case (kept in step with substitutions)

    def subst(self, mp):
        allv = list(self.comps) + [self.K] + list(self.extra)
        nv = t.subst(allv, mp)
        n = len(self.comps)
        return Ghost(self.Q, nv[n], self.B, nv[:n], self.step, self.phase, None, tuple(nv[n + 1:]))


class Solver(object):
    def __init__(self, timeout=20000):
        self.timeout = timeout
        self.n = {}
        self.time = {}
        self.cross = False

    def _count(self, k, dt=0.0):
        self.n[k] = self.n.get(k, 0) + 1
        self.time[k] = self.time.get(k, 0.0) + dt

    def check(self, pc, goal=None, timeout=None):
        """('unsat'|'sat'|'unknown', model)  of pc and not goal"""
        z3 = t.z3mod()
        t0 = time.time()
        fs = list(pc)
        if goal is not None:
            if goal.op != "c":
                fs = relevant(fs, goal)
            fs = fs + [t.not_(goal)]
        fs = [f for f in fs if not (f.op == "c" and f.a == 1)]
        if any(f.op == "c" for f in fs):
            return "unsat", None
        facts = t.var_facts(fs)
        fs = fs + facts
        zs = t.to_z3(fs)
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for z in zs:
            s.add(z == 1)
        r = s.check()
        dt = time.time() - t0
        self._count("z3", dt)
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            m = s.model()
            env = {}
            for v in t.vars_of(fs):
                mv = m.eval(t.to_z3(v), model_completion=True)
                env[v] = mv.as_long()
            return "sat", env
        # second opinion
        r2 = self.cvc5(s, (timeout or self.timeout) / 1000.0)
        return r2, None

    def cvc5(self, s, secs):
        t0 = time.time()
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            o = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(secs * 1000)], input=txt.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 5).stdout.decode()
        except Exception:
            o = ""
        self._count("cvc5", time.time() - t0)
        o = o.strip().split("\n")[0] if o.strip() else ""
        if o == "unsat":
            return "unsat"
        if o == "sat":
            return "sat"
        return "unknown"


def relevant(fs, goal):
    """cone of influence of the goal over shared variables (dropping facts is sound)"""
    vs = set(t.vars_of([goal]))
    rest = [(f, set(t.vars_of([f]))) for f in fs]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f, s in rest:
            if s & vs or not s:
                out.append(f)
                vs |= s
                ch = True
            else:
                nr.append((f, s))
        rest = nr
    return out


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Exec(object):
    def __init__(self, mod, solver, cfg=None, contracts=None, report=None):
        self.m = mod
        self.W = mod.W
        self.big = mod.big
        self.solver = solver
        self.cfg = cfg or {}
        self.contracts = contracts or {}
        self.report = report            # callback(kind, where, desc, ok, backend, model, state)
        self.regions = {}               # base var -> Region
        self.globs = {}
        self.fns = {}
        self.quiet = 0
        self.buf = None
        self.extern = {}                # external function models
        self.key_policy = "exact"       # or 'page'
        self.align_obl = None           # max alignment enforced on key loads, or None
        self.read_globals_ok = set()
        self.write_globals_ok = set()
        self.max_unroll = 4200
        self.max_forks = 12             # iterations of a loop whose trip count depends on the symbolic length
        self.max_steps = 2000000
        self.events = []
        self.notes = []
        self.used_contracts = set()
        self.inlined = set()
        self.where = None
        self.loops_proved = 0
        self.concrete = False
        self.covered = False
        self.pagesize = 4096
        self.fvars = {}
        self.wits = {}

    # ------------------------------------------------------------ regions
    def region(self, name, kind, size, data=None, align=0, base=None):
        b = base or t.var(self.W, "&" + name, None, align, "base")
        r = Region(name, b, kind, size, data, align)
        self.regions[b] = r
        return r

    def newregion(self, name, kind, size, data=None, align=0):
        b = t.fresh(self.W, "&" + name, None, align, "base")
        r = Region(name, b, kind, size, data, align)
        self.regions[b] = r
        return r

    def glob(self, name):
        r = self.globs.get(name)
        if r is None:
            g = self.m.globals.get(name)
            if g is None:
                raise Unsupported("unknown global %s" % name)
            al = max(0, (g.ty.align or 1).bit_length() - 1)
            r = self.region("@" + name, "glob", g.ty.size, None, al)
            r.glob = g
            self.globs[name] = r
        return r

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            f = t.var(self.W, "@" + name, None, 0, "fn")
            self.fns[name] = f
        return f

    # ------------------------------------------------------------ obligations
    def loc(self, st):
        if not st.frames:
            return self.where or "?"
        f = st.frames[-1]
        return "%s" % f.F.name

    def fail(self, st, kind, desc):
        if self.quiet:
            return
        rec = (kind, self.loc(st), desc, False, "-", None, st, FALSE)
        if self.buf is not None:
            self.buf.append(rec)
        elif self.report:
            self.report(*rec)

    def oblige(self, st, kind, goal, desc):
        if self.quiet:
            return True
        ok, be, model = self.prove(st, goal)
        if not ok and model is None and kind == "post" and not self.concrete:
            facts = self.product_facts(goal)
            if facts:
                r, m = self.solver.check(st.pc + facts, goal, 30000)
                if r == "unsat":
                    ok, be, model = True, "z3 (schoolbook lemma)", None
        rec = (kind, self.loc(st), desc, ok, be, model, st, goal)
        if self.buf is not None:
            self.buf.append(rec)
        elif self.report:
            self.report(*rec)
        if not ok and goal.op != "c":
            st.assume(goal)
        return ok

    def lose(self, st, kind, desc):
        """a violation after which the path cannot be followed"""
        if not self.oblige(st, kind, FALSE, desc) and not self.quiet:
            self.oblige(st, "lost", FALSE, "what happens afterwards: " + desc)

    def product_facts(self, goal):
        """instances of the schoolbook lemma for the 64-bit products of a goal"""
        nodes = t.postorder([goal])
        if not any(x.op in ("mul", "mulhi") and x.w == 32 for x in nodes):
            return []
        pairs = set(x.a for x in nodes if x.op in ("mul", "mulhi") and x.w == 64)
        for x in nodes:
            if x.op == "lin" and x.w == 64:
                for k, y in x.a[1]:
                    if 16 < k.bit_length() and (1 << 64) - k > 1 << 16 and y.op != "mul":
                        pairs.add((const(64, k), y))
        out = []
        for a, b in sorted(pairs, key=lambda p: (p[0].id, p[1].id))[:24]:
            out += t.schoolbook(a, b)
        return out

    def prove(self, st, goal):
        if goal.op == "c":
            if goal.a:
                return True, "normal form", None
        else:
            if goal in st.pcs:
                return True, "normal form", None
            if goal.op == "and":
                be = "normal form"
                for g in goal.a:
                    ok, b, m = self.prove(st, g)
                    if not ok:
                        return False, b, m
                    if b != "normal form":
                        be = b
                return True, be, None
            if self.fast(st, goal):
                return True, "normal form", None
        if self.concrete:
            return False, "evaluation", None
        if self.quiet and goal.op != "c" and self.witness(st.pc + [t.not_(goal)]):
            return False, "evaluation", None
        m = self.refute(st, goal)
        if m is not None:
            return False, "evaluation", m
        r, m = self.solver.check(st.pc, goal)
        if r == "unsat":
            return True, "z3", None
        if r == "sat":
            return False, "z3", m
        return False, "undecided", None

    def refute(self, st, goal):
        """an assignment that satisfies the path condition and violates the goal, found by
        evaluation; worth trying before a solver when products are involved"""
        if not any(x.op in ("mul", "mulhi") or x.op == "uf" and x.a[0].startswith("aes") for x in t.postorder([goal])):
            return None
        fs = [f for f in st.pc if f.op != "c"]
        _, base = self.solver.check(fs, None, 4000)
        if base is None:
            if fs:
                return None
            base = {}
        inpc = set(t.vars_of(fs))
        vs = t.vars_of([goal])
        for salt in range(6):
            def rnd(name, *args):
                return int.from_bytes(hashlib.sha256(repr((salt, name, args)).encode()).digest()[:32], "big")
            env = dict(base)
            for v in vs:
                if v in inpc and v in base:
                    continue
                name, ub, al, kind = v.a
                x = rnd(name) & ((1 << v.w) - 1)
                if kind == "base":
                    x = (x >> 3 & 0xFFFFF0) << 4
                if ub is not None and x > ub:
                    x %= ub + 1
                env[v] = x & ~((1 << (al or 0)) - 1)
            default = lambda x, *args: rnd(x.a[0], *args)
            r = t.ev(fs + [goal], env, default=default)
            if all(r[:-1]) and not r[-1]:
                ufs = [x for x in t.postorder([goal]) if x.op == "uf" and x.a[0].startswith("rd:") and len(x.a) == 2]
                by = {}
                for x, o, b in zip(ufs, t.ev([x.a[1] for x in ufs], env, default=default), t.ev(ufs, env, default=default)):
                    by.setdefault(x.a[0][3:], {})[o] = b
                out = {"bytes": by, "refutes": True, "addr": {}}
                for v, x in env.items():
                    if v.a[3] == "base":
                        out["addr"][v.a[0][1:]] = x % 4096
                    else:
                        out[v.a[0]] = x
                for g, sz in st.sizes.items():
                    out["len:" + g.name] = t.ev(sz, env, default=default)
                return {"hint": out}
        return None

    # integer reasoning over sums known not to wrap
    def exactly(self, st, x):
        """(constant, items) when x, read as an integer sum with a signed constant, does not
        wrap; else None"""
        c, it = t.lin_parts(x)
        W = x.w
        if c >> (W - 1):
            c -= 1 << W
        if c < 0:
            low = 0
            for k, y in it:
                r = self.regions.get(y) if y.op == "v" and y.a[3] == "base" else None
                if r is not None:
                    low += k * self.pagesize      # no object lies in the first page
            if low + c < 0:
                return None
        if len(it) == 1 and it[0][0] == 1:
            r = self.regions.get(it[0][1])
            if r is not None and isinstance(r.size, int) and c <= r.size + self.pagesize:
                return c, it                      # nor in the last one
        for L in st.exact:
            if L.w != W:
                continue
            lc, li = t.lin_parts(L)
            if c > lc:
                continue
            d = dict((y, k) for k, y in li)
            if all(k <= d.get(y, 0) for k, y in it):
                return c, it
        s = max(c, 0)
        for k, y in it:
            s += k * t.ub(y)
        return (c, it) if s >> W == 0 and c >= 0 else None

    def ult(self, st, a, b):
        """a < b, simplified with no-wrap facts"""
        g = t.ult(a, b)
        if g.op == "c":
            return g
        ea = self.exactly(st, a)
        if ea:
            eb = self.exactly(st, b) if ea else None
            if eb:
                ca, ia = ea
                cb, ib = eb
                d = {}
                for k, x in ib:
                    d[x] = d.get(x, 0) + k
                for k, x in ia:
                    d[x] = d.get(x, 0) - k
                d = {x: k for x, k in d.items() if k}
                c = cb - ca            # a < b  iff  0 < c + sum d
                if all(k > 0 for k in d.values()) and c > 0:
                    return TRUE
                if all(k < 0 for k in d.values()) and c <= 0:
                    return FALSE
                if len(d) == 1:
                    (x, k), = d.items()
                    if k > 0:          # k*x > -c
                        return t.ult(const(x.w, (-c) // k), x)
                    k = -k             # k*x < c
                    return t.ult(x, const(x.w, -(-c // k))) if -(-c // k) >> x.w == 0 else TRUE
        return g

    def fast(self, st, goal):
        """goal is  not(ult(b,a))  i.e. a<=b , or ult(a,b)"""
        if goal.op == "not" and goal.a.op == "ult":
            b, a = goal.a.a
            r = self.ult(st, b, a)
            if r is not goal.a and (r is FALSE or t.not_(r) in st.pcs):
                return True
        elif goal.op == "ult":
            r = self.ult(st, *goal.a)
            if r is not goal and (r is TRUE or r in st.pcs):
                return True
        elif goal.op == "not" and goal.a.op == "eq":
            a, b = goal.a.a
            x = b if a.op == "c" and not a.a else a if b.op == "c" and not b.a else None
            e = self.exactly(st, x) if x is not None else None
            if e is not None:
                low = e[0]
                for k, y in e[1]:
                    r = self.regions.get(y) if y.op == "v" and y.a[3] == "base" else None
                    if r is not None:
                        low += k * self.pagesize
                return low > 0
        return False

    def feasible(self, st, c):
        if c.op == "c":
            return bool(c.a)
        if c in st.pcs:
            return True
        if t.not_(c) in st.pcs:
            return False
        if not self.concrete and self.witness(st.pc + [c]):
            return True
        r, m = self.solver.check(st.pc + [c], None, 5000)
        return r != "unsat"

    def cover(self, st):
        """vacuity guard: the assumptions along this path can all hold"""
        if not self.covered and not self.concrete:
            self.covered = self.witness(st.pc) or self.solver.check(st.pc, None, 10000)[0] == "sat"

    def witness(self, fs):
        """cheap attempt to exhibit an assignment satisfying the path condition"""
        vs = t.vars_of(fs)
        if len(vs) > 24:
            return False
        unary, joint = {}, []
        for f in fs:
            u = self.fvars.get(f)
            if u is None:
                u = self.fvars[f] = t.vars_of([f])
            if len(u) == 1:
                unary.setdefault(u[0], []).append(f)
            elif u:
                joint.append(f)
            elif not t.ev(f, {}):
                return False
        cand = []
        j = 0
        for v in vs:
            name, ub, al, kind = v.a
            if kind == "base":
                j += 1
                xs = [(j << 20) + a for a in self.WITB]
            elif kind == "n":
                xs = self.WIT
            else:
                xs = self.WIT2
            xs = [x & ~((1 << al) - 1) & ((1 << v.w) - 1) for x in xs]
            if ub is not None:
                xs = [min(x, ub) for x in xs]
            key = (v, tuple(xs), tuple(unary.get(v, ())))
            ok = self.wits.get(key)
            if ok is None:
                ok = []
                for x in dict.fromkeys(xs):
                    if all(t.ev(unary.get(v, ()), {v: x})):
                        ok.append(x)
                        if len(ok) == 4:
                            break
                self.wits[key] = ok
            if not ok:
                return False
            cand.append(ok)
        n = 1
        for c in cand:
            n *= len(c)
        for rot in range(min(n, 16)):
            env = {}
            r = rot
            # mixed radix, the last variable moving fastest
            for v, c in zip(reversed(vs), reversed(cand)):
                env[v] = c[r % len(c)]
                r //= len(c)
            if all(t.ev(joint, env)):
                return True
        return False

    WIT = (0, 1, 2, 3, 8, 5, 40, 4, 16, 33)
    WIT2 = (0, 32, 64, 96, 1, 3, 128, 256, 8, 16, 5, 40)
    WITB = (0, 1, 2, 3, 4, 5, 6, 7, 8, 4088, 4092, 4094, 4095)

    # ------------------------------------------------------------ memory
    def resolve(self, st, p):
        """pointer term -> (region, offset term) or raises"""
        c, it = t.lin_parts(p)
        base = None
        rest = []
        for k, x in it:
            if k == 1 and x.op == "v" and x.a[3] == "base" and base is None:
                base = x
            else:
                rest.append((k, x))
        if base is None:
            return None, p
        r = self.regions.get(base)
        if r is None:
            return None, p
        return r, t.lin(self.W, rest, c)

    def read(self, st, r, off, n):
        """n-byte word in target byte order"""
        if r.kind in ("ro",):
            bs = [r.byte(t.addc(off, i)) for i in range(n)]
            if not self.big:
                bs.reverse()
            return t.cat(*bs)
        if r.kind == "glob":
            cells = st.mem.get(r)
            if cells is None:
                cells = self.globcells(r)
                st.mem[r] = cells
        cells = st.mem.get(r)
        if cells is None:
            cells = {}
            st.mem[r] = cells
        o = off.a
        c = cells.get(o)
        if c is not None and c[0] == n:
            return c[1]
        bs = [self.byteof(st, r, cells, o + i) for i in range(n)]
        if not self.big:
            bs.reverse()
        return t.cat(*bs)

    def byteof(self, st, r, cells, o):
        c = cells.get(o)
        if c is not None:
            n, v = c
            return self.part(n, v, 0)
        for k in range(1, 33):
            c = cells.get(o - k)
            if c is not None:
                if c[0] > k:
                    return self.part(c[0], c[1], k)
                break
        if r.data is not None:
            return r.byte(const(self.W, o))
        # unwritten byte: arbitrary but fixed
        v = t.var(8, "init:%s[%d]" % (r.base.a[0], o))
        return v

    def part(self, n, v, i):
        if self.big:
            i = n - 1 - i
        return t.ext(v, 8 * i + 7, 8 * i)

    def write(self, st, r, off, n, v):
        cells = dict(st.mem.get(r) or (self.globcells(r) if r.kind == "glob" else {}))
        o = off.a
        c = cells.get(o)
        if c is not None and c[0] == n:
            cells[o] = (n, v)
            st.mem[r] = cells
            return
        for k in range(-31, n):
            c = cells.get(o + k)
            if c is None:
                continue
            cn, cv = c
            if k < 0 and cn <= -k:
                continue
            # overlaps: split into bytes
            del cells[o + k]
            for i in range(cn):
                p = o + k + i
                if p < o or p >= o + n:
                    cells[p] = (1, self.part(cn, cv, i))
        cells[o] = (n, v)
        st.mem[r] = cells

    def globcells(self, r):
        g = r.glob
        cells = {}
        if g.data is None:
            return cells
        for off, size, op in g.data:
            if op[0] == "zero":
                for i in range(size):
                    cells[off + i] = (1, const(8, 0))
            elif op[0] == "undef":
                pass
            elif op[0] == "null":
                cells[off] = (size, const(8 * size, 0))
            elif op[0] == "c":
                cells[off] = (size, const(8 * size, op[2]))
            elif op[0] == "f":
                cells[off] = (size, self.fn(op[1]))
            elif op[0] == "g":
                cells[off] = (size, self.glob(op[1]).base)
            else:
                raise Unsupported("initializer %r" % (op,))
        return cells

    def key_read_ok(self, st, r, off, n):
        """goal: reading [off, off+n) of a read-only input region is permitted"""
        W = self.W
        size = st.sizes.get(r, r.size)
        size = size if isinstance(size, T) else const(W, size)
        end = t.addc(off, n)
        nowrap = self.ult(st, off, end) if n else TRUE
        exact = t.and_(t.not_(self.ult(st, size, end)), nowrap)
        if exact.op == "c" and exact.a:
            return exact
        if self.key_policy == "exact":
            return exact
        # page policy: both end bytes lie in pages that hold a byte of the input
        pb = self.pagesize.bit_length() - 1
        pg = lambda a: t.ext(a, W - 1, pb)
        a0 = t.add(r.base, off)
        a1 = t.addc(a0, n - 1)
        lo = pg(r.base)
        hi = pg(t.addc(t.add(r.base, size), -1))
        nonempty = t.ne(size, const(W, 0))
        inpage = t.and_(nonempty, t.ule(lo, pg(a0)), t.ule(pg(a1), hi), t.ule(a0, a1))
        return t.or_(exact, inpage)

    def access(self, st, p, n, align, write, what):
        """checks an access; yields (state, region, offset)"""
        r, off = self.resolve(st, p)
        if r is None:
            if p.op == "ite":
                out = []
                for c, q in ((p.a[0], p.a[1]), (t.not_(p.a[0]), p.a[2])):
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        out += self.access(s2, q, n, align, write, what)
                return out
            self.lose(st, "frame" if write else "mem", "%s of %d bytes through a pointer that designates no object (%s)" % (what, n, t.show(p, 3)))
            return []
        if r.kind in ("ro",):
            if write:
                self.lose(st, "frame", "writes %d bytes into %s, which the caller owns and is read-only" % (n, r.name))
                return []
            self.oblige(st, "mem", self.key_read_ok(st, r, off, n),
                        "read of %d bytes at %s+%s stays in the permitted footprint" % (n, r.name, t.show(off, 3)))
            self.alignment(st, t.add(r.base, off), n, align)
            return [(st, r, off)]
        self.alignment(st, p, n, align)
        if off.op != "c":
            return self.enumerate_off(st, r, off, n, write, what)
        if r.kind == "glob":
            g = r.glob
            if write:
                if g.name not in self.write_globals_ok:
                    self.oblige(st, "frame", FALSE, "writes global %s" % g.name)
            elif not g.const and g.name not in self.read_globals_ok:
                self.oblige(st, "frame", FALSE, "reads mutable global %s" % g.name)
        if off.a + n > r.size:
            self.lose(st, "frame" if write else "mem", "%s of %d bytes at %s+%d beyond its %d bytes" % (what, n, r.name, signed(off.a, self.W), r.size))
            return []
        if write and r.frozen:
            self.oblige(st, "frame", FALSE, "writes %s+%d, which the contract does not list" % (r.name, off.a))
        elif write and r.kind != "glob":
            self.oblige(st, "frame", TRUE, "write stays inside a local or listed object")
        elif r.kind == "glob" and g.const and not write:
            self.oblige(st, "frame", TRUE, "the global read is immutable")
        return [(st, r, off)]

    def alignment(self, st, a, n, align):
        # 16-byte vector accesses fault when misaligned; narrower ones matter where the
        # configuration says so
        al = align if n >= 16 else min(align, self.align_obl or 1)
        if al > 1:
            nb = al.bit_length() - 1
            if not t.ext(a, nb - 1, 0).nz:
                return
            self.oblige(st, "align", t.eq(t.ext(a, nb - 1, 0), const(nb, 0)),
                        "access of %d bytes requires %d-byte alignment" % (n, al))

    def enumerate_off(self, st, r, off, n, write, what):
        out = []
        s = st
        W = self.W
        inb = t.not_(t.ult(const(W, r.size - n), off)) if r.size >= n else FALSE
        if not self.oblige(s, "frame" if write else "mem", inb, "%s of %d bytes at %s+%s inside its %d bytes" % (what, n, r.name, t.show(off, 3), r.size)):
            return []
        seen = []
        at = t.fresh(W, "at")       # its value in the model is the offset, whatever the functions in it are
        for _ in range(600):
            rr, m = self.solver.check(s.pc + [t.eq(at, off)] + [t.ne(off, const(W, v)) for v in seen], None, 5000)
            if rr == "unsat":
                break
            if rr != "sat" or m is None:
                raise Unsupported("cannot enumerate offset")
            v = m.get(at)
            if v is None or v in seen or v >= r.size:
                raise Unsupported("symbolic offset %s" % t.show(off, 3))
            seen.append(v)
            s2 = st.copy()
            s2.assume(t.eq(off, const(W, v)))
            out.append((s2, r, const(W, v)))
        else:
            raise Unsupported("too many values of an offset")
        if not seen:
            raise Unsupported("no feasible offset")
        return out

    def load(self, st, p, n, align=1):
        """-> [(state, value)]"""
        return [(s, self.read(s, r, off, n)) for s, r, off in self.access(st, p, n, align, False, "read")]

    def store(self, st, p, n, v, align=1):
        out = []
        for s, r, off in self.access(st, p, n, align, True, "write"):
            self.write(s, r, off, n, v)
            out.append(s)
        return out

    # ------------------------------------------------------------ operands
    def val(self, st, f, o):
        k = o[0]
        if k == "i":
            return f.env[o[1].idx]
        if k == "c":
            return const(o[1], o[2])
        if k == "a":
            return f.args[o[1]]
        if k == "null":
            return const(self.W, 0)
        if k == "g":
            return self.glob(o[1]).base
        if k == "f":
            return self.fn(o[1])
        if k == "gep":
            return t.addc(self.val(st, f, o[1]), o[2])
        if k == "vec":
            vs = [self.val(st, f, x) for x in o[1]]
            return t.cat(*reversed(vs))
        if k == "zero":
            if o[1].k == "struct":
                return tuple(const(e.bits, 0) for e in o[1].els)
            return const(o[1].bits, 0)
        if k == "undef":
            ty = o[1]
            if ty.k == "struct":
                return tuple(t.fresh(e.bits, "undef") for e in ty.els)
            if ty.bits is None:
                raise Unsupported("undef %r" % ty)
            return t.fresh(ty.bits, "undef")
        if k == "agg" and o[2].k == "struct":
            return tuple(self.val(st, f, x) for x in o[1])
        if k == "cast":
            v = self.val(st, f, o[2])
            if o[3].bits == v.w:
                return v
            if o[3].bits < v.w:
                return t.trunc(v, o[3].bits)
            return t.zext(v, o[3].bits)
        if k == "metadata":
            return None
        raise Unsupported("operand %r" % (o,))

    # ------------------------------------------------------------ calls
    def push(self, st, F, args, call):
        if len(st.frames) > 40:
            raise Unsupported("call depth (recursion?) at %s" % F.name)
        fr = Frame()
        fr.F, fr.args, fr.env, fr.block, fr.idx, fr.prev, fr.call = F, args, {}, 0, 0, None, call
        fr.regs = []
        st.frames.append(fr)

    def docall(self, st, f, I):
        """returns list of states ready to continue (frames already advanced)"""
        callee = I.x
        args = [self.val(st, f, o) for o in I.ops]
        if callee[0] == "asm":
            return self.asm(st, f, I, args)
        if callee[0] == "f":
            name = callee[1]
        else:
            p = self.val(st, f, callee)
            h = self.extern.get("*")
            if h is not None:
                r = h(self, st, p, args, I)
                if r is not None:
                    return self.cont(r, I)
            if p.op == "v" and p.a[3] == "fn":
                name = p.a[0][1:]
            elif p.op == "ite":
                out = []
                for c, q in ((p.a[0], p.a[1]), (t.not_(p.a[0]), p.a[2])):
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.assume(c)
                        out += self.callname(s2, s2.frames[-1], I, args, q)
                return out
            else:
                self.lose(st, "frame", "indirect call through an unknown pointer %s" % t.show(p, 3))
                return []
        return self.callfn(st, f, I, args, name)

    def callname(self, st, f, I, args, p):
        if p.op == "v" and p.a[3] == "fn":
            return self.callfn(st, f, I, args, p.a[0][1:])
        self.lose(st, "frame", "indirect call through an unknown pointer %s" % t.show(p, 3))
        return []

    def cont(self, res, I):
        out = []
        for s, v in res:
            fr = s.frames[-1]
            if v is not None:
                fr.env[I.idx] = v
            fr.idx += 1
            out.append(s)
        return out

    def callfn(self, st, f, I, args, name):
        h = self.extern.get(name)
        if h is not None:
            return self.cont(h(self, st, args, I), I)
        c = self.contracts.get(name)
        if c is not None:
            r = c.apply(self, st, args)
            if r is not None:
                self.used_contracts.add(name)
                return self.cont(r, I)
        F = self.m.funcs.get(name)
        if F is not None and not F.decl:
            self.inlined.add(name)
            self.push(st, F, args, I)
            return [st]
        if name in self.m.aliases:
            return self.callfn(st, f, I, args, self.m.aliases[name])
        r = self.intrinsic(st, name, args, I)
        if r is None:
            self.lose(st, "frame", "calls external function %s, which no contract covers" % name)
            return []
        return self.cont(r, I)

    def asm(self, st, f, I, args):
        h = self.extern.get("asm")
        if h is not None:
            r = h(self, st, I, args)
            if r is not None:
                return self.cont(r, I)
        self.lose(st, "frame", "inline assembly not covered by a contract: %s" % I.x[1][:80])
        return []

    def intrinsic(self, st, n, a, I):
        if n.startswith("llvm."):
            b = n[5:]
            if b.startswith("bswap"):
                return [(st, t.bswap(a[0]))]
            if b.startswith("expect"):
                return [(st, a[0])]
            if b.startswith("assume"):
                self.oblige(st, "ub", a[0], "compiler assumption (assume / assume_aligned) holds")
                return [(st, None)]
            if b.startswith(("prefetch", "lifetime", "dbg.", "x86.avx.vzeroupper", "x86.mmx.emms", "donothing",
                             "experimental.noalias.scope.decl")):
                return [(st, None)]
            if b.startswith("smul.with.overflow"):
                w = a[0].w
                x = t.mul(t.sext(a[0], 2 * w), t.sext(a[1], 2 * w))
                lo = t.trunc(x, w)
                return [(st, (lo, t.ne(x, t.sext(lo, 2 * w))))]
            if b.startswith(("sadd.with.overflow", "ssub.with.overflow")):
                w = a[0].w
                op = t.add if b.startswith("sadd") else t.sub
                x = op(t.sext(a[0], w + 1), t.sext(a[1], w + 1))
                lo = t.trunc(x, w)
                return [(st, (lo, t.ne(x, t.sext(lo, w + 1))))]
            if b.startswith("objectsize"):
                return [(st, const(I.ty.bits, (1 << I.ty.bits) - 1))]
            if b.startswith("ubsantrap"):
                self.lose(st, "ub", UBSAN.get(a[0].a, "undefined behaviour"))
                return []
            if b.startswith(("trap", "debugtrap")):
                self.lose(st, "ub", "trap reached")
                return []
            if b.startswith("uadd.with.overflow"):
                s = t.add(a[0], a[1])
                return [(st, (s, t.ult(s, a[0])))]
            if b.startswith("usub.with.overflow"):
                return [(st, (t.sub(a[0], a[1]), t.ult(a[0], a[1])))]
            if b.startswith("umul.with.overflow"):
                w = a[0].w
                hi = t.mulhi(a[0], a[1])
                return [(st, (t.mul(a[0], a[1]), t.ne(hi, const(w, 0))))]
            if b.startswith("fshl"):
                w = a[0].w
                if a[2].op == "c":
                    k = a[2].a % w
                    return [(st, a[0] if k == 0 else t.or_(t.shl_c(a[0], k), t.lshr_c(a[1], w - k)))]
            if b.startswith("fshr"):
                w = a[0].w
                if a[2].op == "c":
                    k = a[2].a % w
                    return [(st, a[1] if k == 0 else t.or_(t.shl_c(a[0], w - k), t.lshr_c(a[1], k)))]
            if b.startswith("umin"):
                return [(st, t.ite(t.ult(a[0], a[1]), a[0], a[1]))]
            if b.startswith("umax"):
                return [(st, t.ite(t.ult(a[0], a[1]), a[1], a[0]))]
            if b == "x86.aesni.aesenc":
                return [(st, aes("aesenc", a[0], a[1]))]
            if b == "x86.aesni.aesdec":
                return [(st, aes("aesdec", a[0], a[1]))]
            if b.startswith("x86.addcarry."):
                w = a[1].w
                x = t.add(t.zext(a[1], w + 1), t.zext(a[2], w + 1), t.zext(t.zext(t.ne(a[0], const(8, 0)), 1), w + 1))
                return [(st, (t.zext(t.ext(x, w, w), 8), t.trunc(x, w)))]
            if b.startswith(("memcpy", "memmove")):
                return [(s, None) for s in self.memcpy(st, a[0], a[1], a[2], n)]
            if b.startswith("memset"):
                return [(s, None) for s in self.memset(st, a[0], a[1], a[2])]
            if b.startswith("stacksave"):
                return [(st, const(self.W, 0))]
            if b.startswith("stackrestore"):
                return [(st, None)]
            return None
        if n in ("memcpy", "memmove"):
            return [(s, a[0]) for s in self.memcpy(st, a[0], a[1], a[2], n)]
        if n == "memset":
            return [(s, a[0]) for s in self.memset(st, a[0], a[1], a[2])]
        if n in ("vphb_assert_fail", "__assert_fail"):
            self.lose(st, "assert", "assert() can fail")
            return []
        if n == "abort":
            self.lose(st, "ub", "abort() reached")
            return []
        return None

    def values(self, st, x, limit=600):
        """all feasible values of a term as [(state, int)]"""
        if x.op == "c":
            return [(st, x.a)]
        if x.op == "ite":
            out = []
            for c, q in ((x.a[0], x.a[1]), (t.not_(x.a[0]), x.a[2])):
                if self.feasible(st, c):
                    s2 = st.copy()
                    s2.assume(c)
                    out += self.values(s2, q, limit)
            return out
        z3 = t.z3mod()
        s = z3.Solver()
        s.set("timeout", 10000)
        fs = st.pc + t.var_facts(st.pc + [x])
        for z in t.to_z3(fs):
            s.add(z == 1)
        zx = t.to_z3(x)
        out = []
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat or len(out) >= limit:
                raise Unsupported("symbolic size %s" % t.show(x, 3))
            v = s.model().eval(zx, model_completion=True).as_long()
            s.add(zx != v)
            s2 = st.copy()
            s2.assume(t.eq(x, const(x.w, v)))
            out.append((s2, v))
        return out

    def memcpy(self, st, d, s, n, name):
        out = []
        # the C library contract: pointers valid even for size 0
        for p, what in ((d, "destination"), (s, "source")):
            r, off = self.resolve(st, p)
            if r is None and not name.startswith("llvm."):
                self.oblige(st, "ub", t.ne(p, const(self.W, 0)), "%s %s is not NULL" % (name, what))
        for st, k in self.values(st, n):
            if k == 0:
                out.append(st)
                continue
            if k > 1 << 16:
                raise Unsupported("memcpy of %d bytes" % k)
            for st2, rs, so in self.access(st, s, k, 1, False, "memcpy read"):
                for st3, rd, do in self.access(st2, d, k, 1, True, "memcpy write"):
                    if rs is rd and not name.endswith("memmove"):
                        self.oblige(st3, "ub", t.const(1, int(so.op == "c" and do.op == "c" and abs(so.a - do.a) >= k)),
                                    "memcpy regions do not overlap")
                    pos = 0
                    chunks = []
                    cells = st3.mem.get(rs) or {}
                    while pos < k:
                        step = 1
                        if rs.kind == "ro":
                            for w in (8, 4, 2, 1):
                                if pos + w <= k and (do.a + pos) % w == 0:
                                    step = w
                                    break
                        else:
                            c = cells.get(so.a + pos)
                            if c is not None and pos + c[0] <= k:
                                step = c[0]
                        chunks.append((pos, step, self.read(st3, rs, t.addc(so, pos), step)))
                        pos += step
                    for pos, step, v in chunks:
                        self.write(st3, rd, t.addc(do, pos), step, v)
                    out.append(st3)
        return out

    def memset(self, st, d, c, n):
        out = []
        for st, k in self.values(st, n):
            if k == 0:
                out.append(st)
                continue
            for st2, rd, do in self.access(st, d, k, 1, True, "memset write"):
                b = t.trunc(c, 8)
                for i in range(k):
                    self.write(st2, rd, t.addc(do, i), 1, b)
                out.append(st2)
        return out

    # ------------------------------------------------------------ instructions
    def lanes(self, ty, op, a, b):
        n, w = ty.n, ty.el.bits
        out = []
        for i in range(n):
            out.append(op(t.ext(a, (i + 1) * w - 1, i * w), t.ext(b, (i + 1) * w - 1, i * w)))
        return t.cat(*reversed(out))

    def shiftok(self, st, w, y, desc):
        if y.op == "c":
            if y.a >= w:
                self.oblige(st, "ub", FALSE, desc)
            return
        self.oblige(st, "ub", t.ult(y, const(w, w)), desc)

    def step(self, st):
        """executes one instruction; returns None to continue with the same state or a
        list of successor states / events"""
        f = st.frames[-1]
        I = f.F.blocks[f.block][f.idx]
        op = I.op
        V = lambda o: self.val(st, f, o)
        st.steps += 1
        if st.steps > self.max_steps:
            raise Unsupported("step limit")
        if op == "load":
            p = V(I.ops[0])
            n = I.ty.size if I.ty.k != "int" else (I.ty.bits + 7) // 8
            if I.ty.k in ("struct", "array"):
                raise Unsupported("aggregate load")
            r = self.load(st, p, n, I.x[0])
            for s, v in r:
                fr = s.frames[-1]
                fr.env[I.idx] = t.trunc(v, I.ty.bits) if I.ty.bits < v.w else v
                fr.idx += 1
            return [s for s, _ in r] if len(r) != 1 or r[0][0] is not st else None
        if op == "store":
            v = V(I.ops[0])
            p = V(I.ops[1])
            if isinstance(v, tuple):
                raise Unsupported("aggregate store")
            n = (v.w + 7) // 8
            if v.w != 8 * n:
                v = t.zext(v, 8 * n)
            r = self.store(st, p, n, v, I.x[0])
            for s in r:
                s.frames[-1].idx += 1
            return r if len(r) != 1 or r[0] is not st else None
        if op == "alloca":
            cnt = V(I.ops[0])
            if cnt.op != "c":
                raise Unsupported("variable-length array")
            nm = "%s.%s" % (f.F.name, I.name or I.idx)
            al = max(1, I.x[1]).bit_length() - 1
            r = self.newregion(nm, "mut", I.x[0].size * cnt.a, None, al)
            f.regs.append(r)
            f.env[I.idx] = r.base
        elif op == "gep":
            ty = I.x
            terms = [(1, V(I.ops[0]))]
            c0 = 0
            for k, o in enumerate(I.ops[1:]):
                v = V(o)
                if k == 0:
                    sz = ty.size
                elif ty.k == "struct":
                    c0 += ty.offs[v.a]
                    ty = ty.els[v.a]
                    continue
                else:
                    ty = ty.el
                    sz = ty.size
                if v.w < self.W:
                    v = t.sext(v, self.W)
                elif v.w > self.W:
                    v = t.trunc(v, self.W)
                terms.append((sz, v))
            f.env[I.idx] = t.lin(self.W, terms, c0)
        elif op in ("add", "sub", "and", "or", "xor", "mul"):
            a, b = V(I.ops[0]), V(I.ops[1])
            fn = {"add": t.add, "sub": t.sub, "and": t.and_, "or": t.or_, "xor": t.xor, "mul": t.mul}[op]
            if I.ty.k == "vector" and op in ("add", "sub", "mul"):
                f.env[I.idx] = self.lanes(I.ty, fn, a, b)
            else:
                f.env[I.idx] = fn(a, b)
        elif op in ("shl", "lshr", "ashr"):
            a, b = V(I.ops[0]), V(I.ops[1])
            fn = {"shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}[op]
            if I.ty.k == "vector":
                f.env[I.idx] = self.lanes(I.ty, fn, a, b)
            else:
                self.shiftok(st, a.w, b, "shift amount is below the operand width (%d)" % a.w)
                if b.op == "c" and b.a >= a.w:
                    f.env[I.idx] = t.fresh(a.w, "badshift")
                else:
                    f.env[I.idx] = fn(a, b)
        elif op in ("udiv", "urem", "sdiv", "srem"):
            a, b = V(I.ops[0]), V(I.ops[1])
            self.oblige(st, "ub", t.ne(b, const(b.w, 0)), "divisor is not zero")
            r = t.divrem(op, a, b)
            f.env[I.idx] = r if r is not None else t.fresh(a.w, "div0")
        elif op == "icmp":
            a, b = V(I.ops[0]), V(I.ops[1])
            f.env[I.idx] = self.cmp(st, I, a, b)
        elif op in ("zext",):
            a = V(I.ops[0])
            f.env[I.idx] = t.zext(a, I.ty.bits)
        elif op == "sext":
            f.env[I.idx] = t.sext(V(I.ops[0]), I.ty.bits)
        elif op == "trunc":
            f.env[I.idx] = t.trunc(V(I.ops[0]), I.ty.bits)
        elif op in ("ptrtoint", "inttoptr"):
            a = V(I.ops[0])
            w = I.ty.bits
            f.env[I.idx] = a if a.w == w else t.trunc(a, w) if a.w > w else t.zext(a, w)
        elif op in ("bitcast", "freeze", "addrspacecast"):
            if op == "bitcast" and self.big:
                raise Unsupported("vector bitcast on a big-endian target")
            f.env[I.idx] = V(I.ops[0])
        elif op == "select":
            c = V(I.ops[0])
            a, b = V(I.ops[1]), V(I.ops[2])
            if c.w != 1:
                raise Unsupported("vector select")
            f.env[I.idx] = t.ite(c, a, b)
        elif op == "phi":
            for o, b in I.x:
                if b == f.prev:
                    # parallel assignment: read all phis of the block first
                    pass
            blk = f.F.blocks[f.block]
            new = {}
            i = f.idx
            while i < len(blk) and blk[i].op == "phi":
                J = blk[i]
                for o, b in J.x:
                    if b == f.prev:
                        new[J.idx] = self.val(st, f, o)
                        break
                else:
                    raise Unsupported("phi")
                i += 1
            f.env.update(new)
            f.idx = i
            return None
        elif op == "extractvalue":
            v = V(I.ops[0])
            for k in I.x:
                v = v[k]
            f.env[I.idx] = v
        elif op == "insertvalue":
            v = list(V(I.ops[0]))
            if len(I.x) != 1:
                raise Unsupported("insertvalue")
            v[I.x[0]] = V(I.ops[1])
            f.env[I.idx] = tuple(v)
        elif op == "extractelement":
            v, k = V(I.ops[0]), V(I.ops[1])
            if k.op != "c":
                raise Unsupported("extractelement")
            w = I.ty.bits
            f.env[I.idx] = t.ext(v, (k.a + 1) * w - 1, k.a * w)
        elif op == "insertelement":
            v, e, k = V(I.ops[0]), V(I.ops[1]), V(I.ops[2])
            if k.op != "c":
                raise Unsupported("insertelement")
            w = I.ty.el.bits
            parts = [t.ext(v, (i + 1) * w - 1, i * w) for i in range(I.ty.n)]
            parts[k.a] = e
            f.env[I.idx] = t.cat(*reversed(parts))
        elif op == "shufflevector":
            a, b = V(I.ops[0]), V(I.ops[1])
            w = I.ty.el.bits
            n = a.w // w
            parts = []
            for k in I.x:
                if k < 0:
                    parts.append(t.fresh(w, "undef"))
                else:
                    s, j = (a, k) if k < n else (b, k - n)
                    parts.append(t.ext(s, (j + 1) * w - 1, j * w))
            f.env[I.idx] = t.cat(*reversed(parts))
        elif op == "call":
            r = self.docall(st, f, I)
            return r if len(r) != 1 or r[0] is not st else None
        elif op == "br":
            if not I.ops:
                return self.goto(st, I.x[0])
            c = V(I.ops[0])
            # LLVM lists the false successor last: operands were (cond, T, F)
            if c.op == "c":
                if self.trap_kind(f.F, I.x[1 if c.a else 0]) is not None:
                    self.oblige(st, "ub", TRUE, "check inserted by the compiler")
                return self.goto(st, I.x[0] if c.a else I.x[1])
            for k in (0, 1):
                trap = self.trap_kind(f.F, I.x[k])
                if trap is not None and self.trap_kind(f.F, I.x[1 - k]) is None:
                    # a check the compiler inserted (-fsanitize=undefined): its failure is the obligation
                    ok = t.not_(c) if k == 0 else c
                    self.oblige(st, "ub", ok, trap)
                    st.assume(ok)
                    return self.goto(st, I.x[1 - k])
            out = []
            ft = self.feasible(st, c)
            ff = self.feasible(st, t.not_(c)) if ft else True
            if ft and ff:
                if self.merge:
                    r = self.joined(st, c, I.x)
                    if r is not None:
                        return r
                s2 = st.copy()
                s2.assume(t.not_(c))
                st.assume(c)
                for s, d in ((st, I.x[0]), (s2, I.x[1])):
                    r = self.goto(s, d)
                    out += [s] if r is None else r
                return out
            if ft:
                st.assume(c)
                return self.goto(st, I.x[0])
            st.assume(t.not_(c))
            return self.goto(st, I.x[1])
        elif op == "switch":
            v = V(I.ops[0])
            dflt, cases = I.x
            if v.op == "c":
                for k, d in cases:
                    if k == v.a:
                        return self.goto(st, d)
                return self.goto(st, dflt)
            out = []
            rest = st
            for k, d in cases:
                c = t.eq(v, const(v.w, k))
                if self.feasible(rest, c):
                    s2 = rest.copy()
                    s2.assume(c)
                    r = self.goto(s2, d)
                    out += [s2] if r is None else r
                rest.assume(t.not_(c))
            if self.feasible(rest, TRUE) and self.solver.check(rest.pc, None, 5000)[0] != "unsat":
                r = self.goto(rest, dflt)
                out += [rest] if r is None else r
            return out
        elif op == "ret":
            v = V(I.ops[0]) if I.ops else None
            st.frames.pop()
            for r in f.regs:
                st.mem.pop(r, None)
            if not st.frames:
                return [("ret", st, v)]
            up = st.frames[-1]
            if v is not None:
                up.env[f.call.idx] = v
            up.idx += 1
            if self.stops and len(st.frames) < self.stops[-1][0]:
                return [("exit", st, None)]
            return None
        elif op == "unreachable":
            self.lose(st, "ub", "unreachable code is not reached")
            return []
        elif op == "fence":
            pass
        else:
            raise Unsupported("instruction %s" % op)
        f.idx += 1
        return None

    def trap_kind(self, F, block):
        I = F.blocks[block][0]
        if I.op == "call" and I.x[0] == "f" and I.x[1].startswith("llvm.ubsantrap"):
            o = I.ops[0]
            return UBSAN.get(o[2] if o[0] == "c" else None, "no undefined behaviour")
        return None

    def cmp(self, st, I, a, b):
        p = I.x
        if a.w != b.w:
            raise Unsupported("icmp widths")
        if I.ops and a.w > 0 and False:
            pass
        if p == "eq":
            return self.eqp(st, a, b)
        if p == "ne":
            return t.not_(self.eqp(st, a, b))
        if p == "ult":
            return self.ult(st, a, b)
        if p == "ugt":
            return self.ult(st, b, a)
        if p == "ule":
            return t.not_(self.ult(st, b, a))
        if p == "uge":
            return t.not_(self.ult(st, a, b))
        if p == "slt":
            return t.slt(a, b)
        if p == "sgt":
            return t.slt(b, a)
        if p == "sle":
            return t.not_(t.slt(b, a))
        if p == "sge":
            return t.not_(t.slt(a, b))
        raise Unsupported("icmp %s" % p)

    def eqp(self, st, a, b):
        # a pointer into an object is never NULL; function addresses are distinct and not NULL
        for x, y in ((a, b), (b, a)):
            if y.op == "c" and y.a == 0:
                r, off = self.resolve(st, x)
                if r is not None and off.op == "c":
                    return FALSE
                if x.op == "v" and x.a[3] == "fn":
                    return FALSE
        if a.op == "v" and b.op == "v" and a.a[3] == "fn" and b.a[3] == "fn":
            return TRUE if a is b else FALSE
        return t.eq(a, b)

    # ------------------------------------------------------------ control
    stops = ()
    merge = False       # rejoin the two sides of a branch into one state where they meet again

    def joined(self, st, c, targets):
        """both sides of a branch up to the block J where they meet; -> the single state there
        (with if-then-else values), or None if this branch does not have that shape"""
        f = st.frames[-1]
        J, region = llvmir.meeting(f.F, f.block)
        if J is None or st.ghost is not None:
            return None
        depth = len(st.frames)
        if self.stops:
            d, h, body = self.stops[-1]
            if d == depth and (h in region or J not in body and J != h or not region <= body):
                return None
        src = f.block
        exits = []
        saved = self.stops
        self.stops = tuple(saved) + ((depth, None, region),)
        try:
            for cond, d in ((c, targets[0]), (t.not_(c), targets[1])):
                s = st.copy()
                s.assume(cond)
                r = self.goto(s, d)
                for e in ([("", s, None)] if r is None else r):
                    if isinstance(e, tuple) and e[0] == "exit":
                        exits.append(e[1])
                        continue
                    e = e[1] if isinstance(e, tuple) else e
                    for k, x, v in self.explore(e):
                        if k != "exit":
                            return None
                        exits.append(x)
        finally:
            self.stops = saved
        if any(len(x.frames) != depth or x.frames[-1].block != J for x in exits):
            return None
        m = self.merged(st, exits, src, J)
        if m is None:
            m = exits
        out = []
        for x in m:
            if x.frames[-1].idx:            # the values at the head of J are already chosen
                out.append(x)
                continue
            fr = x.frames[-1]
            fr.block = fr.prev
            r = self.goto(x, J)
            out += [x] if r is None else r
        return out

    def merged(self, st, exits, src, J):
        if len(exits) < 2:
            return None
        n = len(st.pc)
        conds = []
        for x in exits:
            if x.pc[:n] != st.pc or x.exact != st.exact or x.sizes != st.sizes or x.trace != exits[0].trace \
                    or [f.regs for f in x.frames] != [f.regs for f in st.frames] or x.ghost is not None:
                return None
            conds.append(t.and_(*x.pc[n:]))
        out = st.copy()
        out.trace = list(exits[0].trace)
        out.steps = max(x.steps for x in exits)

        def pick(vs):
            r = vs[-1]
            for cnd, v in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                r = v if v is r else t.ite(cnd, v, r)
            return r
        regs = []
        for x in exits:
            regs += [r for r in x.mem if r not in regs]
        for r in regs:
            at = {}
            for x in exits:
                for o, (k, v) in (x.mem.get(r) or {}).items():
                    if at.setdefault(o, k) != k:
                        return None
            end = None
            for o in sorted(at):
                if end is not None and o < end:
                    return None
                end = o + at[o]
            out.mem[r] = {o: (k, pick([self.read(x, r, const(self.W, o), k) for x in exits])) for o, k in at.items()}
        fr = out.frames[-1]
        blk = fr.F.blocks[J]
        new = {}
        i = 0
        while i < len(blk) and blk[i].op == "phi":
            vs = []
            for x in exits:
                fx = x.frames[-1]
                o = [o for o, b in blk[i].x if b == fx.prev]
                if not o:
                    return None
                vs.append(self.val(x, fx, o[0]))
            if any(isinstance(v, tuple) for v in vs):
                return None
            new[blk[i].idx] = pick(vs)
            i += 1
        out.assume(t.or_(*conds))
        if i:
            if self.stops and self.stops[-1][0] == len(out.frames) and (J == self.stops[-1][1] or J not in self.stops[-1][2]):
                return None
            if J in llvmir.loops(fr.F):
                return None
            fr.env.update(new)
        fr.prev, fr.block, fr.idx = src, J, i
        return [out]

    def goto(self, st, target):
        f = st.frames[-1]
        depth = len(st.frames)
        src = f.block
        f.prev, f.block, f.idx = src, target, 0
        if self.stops:
            d, h, body = self.stops[-1]
            if d == depth:
                if target == h:
                    return [("back", st, None)]
                if target not in body:
                    return [("exit", st, None)]
        L = llvmir.loops(f.F)
        if target in L:
            key = (depth, f.F.name, target)
            if src in L[target]:
                n = st.unroll.get(key, 0) + 1
                st.unroll[key] = n
                if n > self.max_unroll:
                    raise Unsupported("loop in %s exceeds %d iterations" % (f.F.name, self.max_unroll))
                if st.ghost is not None and st.ghost.phase == "pre" and st.ghost.K.op != "c":
                    m, npc = st.unroll.get(key + ("f",), (0, -1))
                    m += len(st.pc) > npc and npc >= 0
                    st.unroll[key + ("f",)] = (m, len(st.pc))
                    if m > self.max_forks:
                        raise Unsupported("no invariant found for the loop in %s" % f.F.name)
            else:
                st.unroll[key] = 0
                st.unroll.pop(key + ("f",), None)
                if st.ghost is not None and st.ghost.phase == "pre" and st.ghost.K.op != "c":
                    return self.loop(st, target, L[target])
        return None

    def explore(self, st):
        """runs to completion; returns list of events (kind, state, value)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            while True:
                r = self.step(s)
                if r is None:
                    continue
                nxt = []
                for x in r:
                    if isinstance(x, tuple):
                        out.append(x)
                    else:
                        nxt.append(x)
                if len(out) + len(work) > 5000:
                    raise Unsupported("too many paths")
                if not nxt:
                    break
                s = nxt[0]
                work.extend(nxt[1:])
        return out

    def call(self, name, args, st=None):
        """executes function `name` from its body; -> [(state, value)]"""
        F = self.m.funcs.get(name)
        if F is None or F.decl:
            raise Unsupported("no definition of %s" % name)
        st = st or State()
        if len(args) != len(F.args):
            raise Unsupported("%s takes %d parameters, contract has %d" % (name, len(F.args), len(args)))
        for a, ty in zip(args, F.args):
            if isinstance(a, T) and a.w != ty.bits:
                raise Unsupported("%s: parameter width" % name)
        self.push(st, F, list(args), None)
        saved = self.stops
        self.stops = ()
        try:
            evs = self.explore(st)
        finally:
            self.stops = saved
        return [(s, v) for k, s, v in evs]

    # ------------------------------------------------------------ loops
    def body(self, st, header, bodyset):
        """one pass from the header; -> events back/exit/ret"""
        s = st.copy()
        self.stops = tuple(self.stops) + ((len(s.frames), header, bodyset),)
        try:
            return self.explore(s)
        finally:
            self.stops = self.stops[:-1]

    def changed(self, a, b):
        """cells of b that differ from a: {(region, off): nbytes}"""
        out = {}
        live = set()
        for r, cells in b.mem.items():
            old = a.mem.get(r)
            if old is None:
                if r in a.mem:
                    old = {}
                elif any(r in f.regs for f in a.frames) or r.kind != "mut" or not r.name:
                    old = {}
                else:
                    # allocated but not yet written regions of live frames
                    old = {}
            if old is cells:
                continue
            for o, (n, v) in cells.items():
                c = old.get(o)
                if c is None or c[0] != n or c[1] is not v:
                    out[(r, o)] = n
        return out

    def fixed_trips(self, st, header, bodyset):
        """does the loop run a number of iterations fixed by the case, without a fork?"""
        self.quiet += 1
        try:
            s = st.copy()
            for i in range(300):
                evs = self.body(s, header, bodyset)
                if len(evs) != 1 or len(evs[0][1].pc) != len(st.pc):
                    return False
                if evs[0][0] != "back":
                    return True
                s = evs[0][1]
            return False
        finally:
            self.quiet -= 1

    def loop(self, st, header, bodyset):
        """invariant route. Returns successor states/events, or None to unroll."""
        try:
            if self.fixed_trips(st, header, bodyset):
                return None
        except Unsupported:
            pass
        try:
            r = self.try_loop(st, header, bodyset)
        except Unsupported as e:
            self.notes.append("loop in %s: %s" % (st.frames[-1].F.name, e))
            r = None
        return r

    def try_loop(self, st, header, bodyset):
        W = self.W
        g = st.ghost
        # -- modified cells
        live = set()
        for f in st.frames:
            live.update(f.regs)
        mods = {}
        self.quiet += 1
        try:
            for rnd in range(4):
                s = st.copy()
                s.ghost = None
                hv = {}
                for (r, o), n in mods.items():
                    v = self.havoc_value(st, r, o, n)
                    hv[(r, o)] = v
                    self.write(s, r, const(W, o), n, v[0])
                if rnd:
                    s.pc = [c for c in s.pc]
                evs = self.body(s, header, bodyset)
                backs = [e for e in evs if e[0] == "back"]
                if not backs:
                    return None
                grew = False
                for _, b, _ in backs:
                    for (r, o), n in self.changed(s, b).items():
                        if r.kind == "mut" and r not in live and r.name and not self.is_param_region(r):
                            continue
                        if mods.get((r, o)) != n:
                            # merge overlapping cells conservatively
                            for (r2, o2), n2 in list(mods.items()):
                                if r2 is r and not (o + n <= o2 or o2 + n2 <= o) and (o2, n2) != (o, n):
                                    raise Unsupported("overlapping loop-modified cells")
                            mods[(r, o)] = n
                            grew = True
                if not grew and rnd:
                    break
            else:
                return None
        finally:
            self.quiet -= 1
        # hv: values at head of the last run, backs: states at the back edge
        entry = {}
        for (r, o), n in mods.items():
            entry[(r, o)] = self.read(st, r, const(W, o), n)
        newv = []
        for _, b, _ in backs:
            newv.append({k: self.read(b, k[0], const(W, k[1]), n) for k, n in mods.items()})
        linear = {}
        for k in mods:
            h = hv[k][0]
            ds = set()
            for nv in newv:
                d = t.sub(nv[k], h)
                ds.add(d.a if d.op == "c" else None)
            if len(ds) == 1 and None not in ds:
                linear[k] = ds.pop()
        hvars = {}
        for k in mods:
            for v in hv[k][1]:
                hvars[v] = k
        # cells whose head value is irrelevant (overwritten before use)
        used = set()
        allv = []
        for nv in newv:
            allv += list(nv.values())
        for e in evs:
            allv += e[1].pc
            for r, cells in e[1].mem.items():
                for o, (n, v) in cells.items():
                    if (r, o) in mods and v is hv[(r, o)][0]:
                        continue
                    allv.append(v)
            if isinstance(e[2], T):
                allv.append(e[2])
        for v in t.vars_of([v for v in allv if isinstance(v, T)]):
            if v in hvars:
                used.add(hvars[v])
        # -- candidates
        deltas = sorted(set(abs(signed(d, W)) for k, d in linear.items()
                            if d and mods[k] == W // 8 and abs(signed(d, W)) % g.B == 0))
        ms = [d // g.B for d in deltas if 0 < d // g.B <= 16] or [1, 2, 4, 8]
        for k0 in (0, 1, 2, 3):
            comps = g.comps
            for j in range(k0):
                comps = g.step(comps, const(W, j))
            cand = {}
            covered = set()
            for k in mods:
                if k in linear:
                    continue
                js = [j for j, c in enumerate(comps) if c.w == 8 * mods[k] and c is entry[k]]
                cand[k] = js
                covered.update(js)
            amb = [k for k in cand if cand[k] and k in used]
            opts = [cand[k] for k in amb]
            tot = 1
            for x in opts:
                tot *= len(x)
            if tot > 64 or (not amb):
                continue
            for style, pick, m in itertools.product((1, 0), itertools.product(*opts), ms):
                r = self.check_loop(st, header, bodyset, mods, linear, entry, dict(zip(amb, pick)), newv, hv,
                                    hvars, used, k0, m, style, comps)
                if r is not None:
                    return r
        # The state words do not follow the specification, or cannot be matched with it. The counters and
        # pointers may still be invariant: go on with arbitrary state words, so that the obligations that
        # do not depend on them are decided all the same.
        for style, m in itertools.product((1, 0), ms):
            r = self.check_loop(st, header, bodyset, mods, linear, entry, {}, newv, hv, hvars, used, 0, m, style, g.comps)
            if r is not None:
                self.fail(st, "post", "loop invariant: the loop in %s carries the specified state words from one block to the next"
                          % st.frames[-1].F.name)
                return r
        return None

    def is_param_region(self, r):
        return r.kind == "mut" and r.glob is None and "#" not in r.base.a[0]

    def havoc_value(self, st, r, o, n):
        e = self.read(st, r, const(self.W, o), n)
        if e.w == self.W:
            rr, off = self.resolve(st, e)
            if rr is not None:
                d = t.fresh(self.W, "h")
                return t.add(e, d), [d]
        h = t.fresh(8 * n, "h")
        return h, [h]

    def check_loop(self, st, header, bodyset, mods, linear, entry, comp_of, newv, hv, hvars, used, k0, m, style, comps0):
        W = self.W
        g = st.ghost
        Q = g.Q
        kc, kq = t.lin_parts(g.K)
        if len(kq) != 1 or kq[0][1] is not Q or kq[0][0] != 1:
            return None
        # entry: K >= k0 + style*m
        need = k0 + style * m
        self.quiet += 1
        try:
            ok, _, _ = self.prove(st, t.ule(const(W, need), g.K)) if need else (True, 0, 0)
        finally:
            self.quiet -= 1
        if not ok:
            return None
        i = t.fresh(W, "i", t.ub(Q), 0, "n")
        e = t.fresh(W, "e", t.ub(Q), 0, "n")
        # Q := k0 + m*i + style*m + e - kc
        kc = signed(kc, W)
        qnew = t.lin(W, [(m, i), (1, e)], need - kc)
        svars = [t.fresh(c.w, "s%d" % j) for j, c in enumerate(comps0)]
        tmpl = {}
        derived = []
        for k, n in mods.items():
            if k in linear:
                w = 8 * n
                if w == W:
                    iw = i
                elif w < W:
                    iw = t.trunc(i, w)
                else:
                    iw = t.zext(i, w)
                tmpl[k] = t.lin(w, [(1, entry[k]), (linear[k], iw)])
            elif k in comp_of:
                tmpl[k] = svars[comp_of[k]]
        # derived candidates: value produced by the previous iteration from linear cells only
        im1 = t.addc(i, -1)
        for k, n in mods.items():
            if k in tmpl or k not in used:
                continue
            nv = newv[0][k]
            vs = [hvars[v] for v in t.vars_of([nv]) if v in hvars]
            if all(x in linear for x in vs) and len(newv) == 1:
                mp = {}
                for x in set(vs):
                    for hvv in hv[x][1]:
                        w = hvv.w
                        iw = im1 if w == W else t.trunc(im1, w) if w < W else None
                        if iw is None:
                            return None
                        full = t.lin(w, [(linear[x], iw)])
                        if hv[x][0] is hvv:
                            full = t.add(entry[x], full)
                        mp[hvv] = full
                cv = t.subst(nv, mp)
                if t.subst(cv, {i: const(W, 0)}) is entry[k]:
                    tmpl[k] = cv
                    derived.append(k)
        for k in used:
            if k not in tmpl:
                # unknown but live value: arbitrary
                pass
        s = st.copy()
        for k, n in mods.items():
            v = tmpl.get(k)
            if v is None:
                v = self.havoc_value(st, k[0], k[1], n)[0]
            self.write(s, k[0], const(W, k[1]), n, v)
        s.ghost = None
        mp = {Q: qnew}
        s.subst(mp)
        g2 = g.subst(mp)
        tm = {k: t.subst(v, mp) for k, v in tmpl.items()}
        s.assume(t.not_(t.ult(const(W, t.ub(Q)), qnew)))
        # blocks consumed so far, as an integer-valued term
        kk = t.lin(W, [(m, i)], k0)
        s.exact.append(t.lin(W, [(m, i), (1, e)], need))
        cur = svars
        after = []
        for j in range(m + 9):
            after.append(cur)
            if j < m:
                cur = g.step(cur, t.addc(kk, j))
        after = after[:m + 1]
        nxt = after[m]
        sbuf, self.buf = self.buf, []
        n_stop = self.stops
        try:
            i1 = {i: t.addc(i, 1)}

            def inductive(evs, log):
                nback = 0
                for kind, b, v in evs:
                    if kind != "back":
                        continue
                    nback += 1
                    ok, be, mdl = self.prove(b, t.ule(const(W, m), e))
                    if not ok:
                        return False
                    log("term", "loop variant (blocks left) decreases and stays non-negative", be, b)
                    # cheap ones first
                    for k in sorted(mods, key=lambda k: k in comp_of):
                        n = mods[k]
                        if k not in tm:
                            continue
                        got = self.read(b, k[0], const(W, k[1]), n)
                        if k in comp_of:
                            want = nxt[comp_of[k]]
                            d = "loop invariant: cell holds spec state word %d" % comp_of[k]
                        else:
                            want = t.subst(tm[k], i1)
                            # e shrinks by m when i grows by one; Q is unchanged
                            want = t.subst(want, {e: t.addc(e, -m)})
                            d = "loop invariant: counter/pointer advances linearly"
                        ok, be, mdl = self.prove(b, t.eq(got, want))
                        if not ok:
                            return False
                        log("post", d, be, b)
                return nback > 0

            # first without the body's own obligations: is the candidate inductive at all?
            self.quiet += 1
            try:
                evs = self.body(s, header, bodyset)
                if not inductive(evs, lambda *a: None):
                    return None
            finally:
                self.quiet -= 1
            if not self.quiet:
                evs = self.body(s, header, bodyset)
                if not inductive(evs, lambda kind, d, be, b:
                                 self.buf.append((kind, self.loc(s), d, True, be, None, b))):
                    return None
            # exits
            out = []
            for kind, b, v in evs:
                if kind == "back":
                    continue
                vals = self.small_values(b, e, m + 1)
                if vals is None:
                    return None
                for s2, ev_ in vals:
                    rem = ev_ + style * m
                    if rem > m:
                        # the spec needs further blocks the code has not run here
                        cs = after[m]
                        for j in range(m, rem):
                            cs = g.step(cs, t.addc(kk, j))
                    else:
                        cs = after[rem]
                    g3 = Ghost(g.Q, g2.K, g.B, cs, g.step, "done", None, g2.extra)
                    s2.ghost = g3
                    mp2 = {e: const(W, ev_)}
                    s2.subst(mp2)
                    if isinstance(v, T):
                        v = t.subst(v, mp2)
                    out.append((kind, s2, v))
            mybuf, self.buf = self.buf, None
        finally:
            if self.buf is not None:
                self.buf = None
            self.buf = sbuf
            self.stops = n_stop
        # commit
        for rec in mybuf:
            if self.quiet:
                continue
            if self.buf is not None:
                self.buf.append(rec)
            elif self.report:
                self.report(*rec)
        self.loops_proved += 1
        res = []
        for kind, s2, v in out:
            if kind == "ret":
                res.append(("ret", s2, v if not isinstance(v, T) else v))
            elif self.stops and len(s2.frames) < self.stops[-1][0]:
                res.append(("exit", s2, None))
            else:
                # an exit that is also an exit/back edge of an enclosing tracked loop
                if self.stops:
                    d, h, bd = self.stops[-1]
                    if d == len(s2.frames):
                        b = s2.frames[-1].block
                        if b == h:
                            res.append(("back", s2, None))
                            continue
                        if b not in bd:
                            res.append(("exit", s2, None))
                            continue
                res.append(s2)
        return res

    def small_values(self, st, e, limit):
        """feasible small constants of e on this path, or None when not bounded by limit"""
        W = e.w
        if t.eq(e, const(W, 0)) in st.pcs:
            return [(st, 0)]
        if not self.prove(st, t.ult(e, const(W, limit + 1)))[0]:
            return None
        out = []
        for v in range(limit + 1):
            c = t.eq(e, const(W, v))
            if self.solver.check(st.pc + [c], None, 10000)[0] != "unsat":
                s2 = st.copy()
                s2.assume(c)
                out.append((s2, v))
        return out


def aes(name, s, k):
    """one AES round; the round key enters by xor"""
    return t.xor(t.uf(name + "0", 128, s), k)
