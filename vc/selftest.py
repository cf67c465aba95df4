"""Checks of the machinery itself (not of /repo): the term normalizer, its evaluation, its translation
to the solver, and the IR executor, each against an independent computation. Deterministic.
  python3-vt vc/selftest.py [number of random expressions]"""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import term as t

W = (1, 3, 8, 16, 32, 64, 128)


def M(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Gen:
    """Random expressions, each built through the normalizing constructors together with a plain
    Python value for every environment."""

    def __init__(self, rng):
        self.r = rng
        self.K = 6
        self.vars = []
        self.pool = {w: [] for w in W}
        for w in W:
            for i in range(3):
                ubd = None
                al = 0
                if w >= 8 and i == 1:
                    ubd = rng.randrange(1, 1 << rng.randrange(1, w))
                if w >= 32 and i == 2:
                    al = rng.randrange(0, 6)
                v = t.var(w, "t%d_%d" % (w, i), ubd, al)
                vals = [self.value(w, ubd, al) for _ in range(self.K)]
                self.vars.append((v, vals))
                self.pool[w].append((v, vals))

    def value(self, w, ubd=None, al=0):
        hi = M(w) if ubd is None else ubd
        k = self.r.randrange(4)
        v = (0, hi, self.r.randrange(hi + 1), self.r.randrange(min(hi, 300) + 1))[k]
        return v >> al << al

    def konst(self, w):
        c = (0, 1, M(w), 1 << self.r.randrange(w), self.r.randrange(1 << w), self.r.randrange(min(M(w), 64) + 1),
             M(w) ^ M(self.r.randrange(w)))[self.r.randrange(7)]
        return t.const(w, c), [c] * self.K

    def pick(self, w):
        if self.r.random() < .2 or not self.pool.get(w):
            return self.konst(w)
        p = self.pool[w]
        return p[self.r.randrange(len(p))] if self.r.random() < .5 else p[-1 - self.r.randrange(min(6, len(p)))]

    def step(self):
        r = self.r
        w = r.choice(W[1:])
        (a, av), (b, bv), (c, cv) = self.pick(w), self.pick(w), self.pick(w)
        o = r.randrange(26)
        m = M(w)
        f = None
        if o == 0:
            x, f = t.add(a, b), lambda p, q, s: p + q
        elif o == 1:
            x, f = t.sub(a, b), lambda p, q, s: p - q
        elif o == 2:
            x, f = t.mul(a, b), lambda p, q, s: p * q
        elif o == 3:
            k1, k2, k3 = (r.randrange(1 << w) if r.random() < .5 else 1 << r.randrange(w) for _ in range(3))
            x, f = t.lin(w, [(k1, a), (k2, b)], k3), lambda p, q, s: k1 * p + k2 * q + k3
        elif o == 4:
            x, f = t.and_(a, b), lambda p, q, s: p & q
        elif o == 5:
            x, f = t.or_(a, b), lambda p, q, s: p | q
        elif o == 6:
            x, f = t.xor(a, b, c), lambda p, q, s: p ^ q ^ s
        elif o == 7:
            x, f = t.not_(a), lambda p, q, s: ~p
        elif o == 8:
            n = r.randrange(w)
            x, f = t.shl_c(a, n), lambda p, q, s: p << n
        elif o == 9:
            n = r.randrange(w)
            x, f = t.lshr_c(a, n), lambda p, q, s: p >> n
        elif o == 10:
            n = r.randrange(w)
            x, f = t.rotr(a, n), lambda p, q, s: p >> n | p << (w - n)
        elif o == 11:
            x, f = t.shl(a, b), lambda p, q, s: p << q if q < w else 0
        elif o == 12:
            x, f = t.lshr(a, b), lambda p, q, s: p >> q if q < w else 0
        elif o == 13:
            x, f = t.ashr(a, b), lambda p, q, s: sgn(p, w) >> min(q, w - 1)
        elif o == 14 and w in (64, 32):
            x, f = t.mulhi(a, b), lambda p, q, s: p * q >> w
        elif o == 15 and w % 16 == 0:
            x, f = t.bswap(a), lambda p, q, s: int.from_bytes(p.to_bytes(w // 8, "little"), "big")
        elif o == 16:
            n = t.eq(a, b), [int(p == q) for p, q in zip(av, bv)]
        elif o == 17:
            n = t.ult(a, b), [int(p < q) for p, q in zip(av, bv)]
        elif o == 18:
            n = t.slt(a, b), [int(sgn(p, w) < sgn(q, w)) for p, q in zip(av, bv)]
        elif o == 19:
            n = t.sle(a, b), [int(sgn(p, w) <= sgn(q, w)) for p, q in zip(av, bv)]
        elif o == 20:
            y, yv = self.pick(1)
            n = t.ite(y, a, b), [p if s else q for s, p, q in zip(yv, av, bv)]
        elif o in (21, 22, 23):
            v = r.choice(W[1:])
            if v > w:
                if o == 21:
                    n = t.zext(a, v), av
                else:
                    n = t.sext(a, v), [sgn(p, w) & M(v) for p in av]
            elif v < w:
                lo = r.choice((0, w - v, r.randrange(w - v + 1)))
                n = t.ext(a, lo + v - 1, lo), [p >> lo & M(v) for p in av]
            else:
                lo = r.randrange(w)
                h, l = t.ext(a, w - 1, lo), None
                n = (t.cat(h, t.ext(b, lo - 1, 0)) if lo else a), [(p >> lo << lo | q & M(lo)) if lo else p for p, q in zip(av, bv)]
                del h, l
        elif o == 24 and w >= 8:
            k = t.const(w, r.choice((1, 2, 3, 7, 8, 32, 1 << r.randrange(w - 1))))
            op = r.choice(("udiv", "urem"))
            x = t.divrem(op, a, k)
            if x is None:
                return None
            f = (lambda p, q, s: p // k.a) if op == "udiv" else (lambda p, q, s: p % k.a)
        else:
            y, yv = self.pick(1)
            z, zv = self.pick(1)
            k = r.randrange(3)
            n = ((t.and_(y, z), [p & q for p, q in zip(yv, zv)]), (t.or_(y, z), [p | q for p, q in zip(yv, zv)]),
                 (t.not_(y), [1 - p for p in yv]))[k]
        if f is not None:
            n = x, [f(p, q, s) & m for p, q, s in zip(av, bv, cv)]
        if n[0].w not in self.pool:
            return None
        self.pool[n[0].w].append(n)
        return n


def normalizer(n, seed):
    done = 0
    rng = random.Random(seed)
    z3n = 0
    while done < n:
        t.reset()
        g = Gen(rng)
        for _ in range(60):
            s = g.step()
            if s is None:
                continue
            x, want = s
            done += 1
            if len(t.postorder([x])) > 300:
                g.pool[x.w].pop()
                continue
            for k in range(g.K):
                env = {v: vals[k] for v, vals in g.vars}
                got = t.ev(x, env)
                if got != want[k]:
                    return "normalizer: %s = %#x, expected %#x" % (t.show(x, 8), got, want[k])
                if want[k] & ~x.nz:
                    return "non-zero mask of %s is %#x, value %#x" % (t.show(x, 8), x.nz, want[k])
                if want[k] > t.ub(x):
                    return "upper bound of %s is %#x, value %#x" % (t.show(x, 8), t.ub(x), want[k])
            if done % 40 == 0:
                # substitution of constants, and the translation given to the solvers
                env = {v: vals[0] for v, vals in g.vars}
                y = t.subst(x, {v: t.const(v.w, c) for v, c in env.items()})
                if y.op != "c" or y.a != want[0]:
                    return "substitution: %s gives %s, expected %#x" % (t.show(x, 8), t.show(y, 4), want[0])
                z = t.z3mod()
                e = t.to_z3([x])
                zx = e[x] if isinstance(e, dict) else e[0]
                vs = t.vars_of([x])
                ze = t.to_z3(list(vs)) if vs else []
                prs = [((ze[v] if isinstance(ze, dict) else ze[i]), z.BitVecVal(env[v], v.w) if v.w > 1 or not z.is_bool(ze[v] if isinstance(ze, dict) else ze[i]) else z.BoolVal(bool(env[v]))) for i, v in enumerate(vs)]
                r = z.simplify(z.substitute(zx, *prs)) if prs else z.simplify(zx)
                val = None
                if z.is_bv_value(r):
                    val = r.as_long()
                elif z.is_true(r) or z.is_false(r):
                    val = int(z.is_true(r))
                if val is not None:
                    z3n += 1
                    if val != want[0]:
                        return "solver translation of %s: %#x, expected %#x" % (t.show(x, 8), val, want[0])
    return done, z3n


def sums(n, seed):
    """comparisons of small non-negative sums with constants, at and around their extremes"""
    r = random.Random(seed)
    for it in range(n):
        xs = [t.var(r.choice((1, 2, 3)), "sum%d_%d" % (it, i)) for i in range(r.randint(1, 4))]
        w = r.choice((6, 8, 32))
        parts = [x for x in xs for _ in range(r.choice((1, 1, 2, 3)))]
        k0 = r.choice((0, 0, 1, 5))
        s = t.add(*([t.zext(x, w) for x in parts] + [t.const(w, k0)]))
        top = k0 + sum(M(x.w) for x in parts)
        c = r.choice((k0, top, top + 1, k0 - 1, r.randrange(1 << w))) & M(w)
        e = t.eq(s, t.const(w, c))
        for _ in range(6):
            env = {x: r.choice((0, M(x.w), r.getrandbits(x.w))) for x in xs}
            if t.ev(e, env) != int((k0 + sum(env[x] for x in parts)) & M(w) == c):
                return "%s == %d" % (t.show(s, 8), c)
    return n


def executor(seed, pairs):
    """selftest_c/sample.c run natively by gcc, and symbolically from its IR for several targets"""
    import subprocess
    import tempfile
    import shutil
    import config
    from exec import Exec, Solver
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "selftest_c", "sample.c")
    rng = random.Random(seed)
    some = [0, 1, 2, 3, 5, 7, 255, 256, (1 << 31), (1 << 32) - 1, 1 << 32, 1 << 63, (1 << 64) - 1]
    ins = [(a, b) for a in some for b in some] + [(rng.getrandbits(64), rng.getrandbits(64)) for _ in range(pairs)]
    d = tempfile.mkdtemp(prefix="vpst-")
    try:
        exe = os.path.join(d, "a.out")
        subprocess.check_call(["gcc", "-O1", "-fno-strict-aliasing", "-msse2", "-DMAIN", "-w", "-o", exe, src])
        out = subprocess.run([exe], input="".join("%x %x\n" % p for p in ins).encode(), stdout=subprocess.PIPE, check=True).stdout.decode()
    finally:
        shutil.rmtree(d)
    lines = [x.split() for x in out.splitlines()]
    per = len(lines) // len(ins)
    n = 0
    for cfgname in ("x86_64", "i386", "s390x", "mips"):
        mod = config.compile_ir(config.CONFIGS[cfgname], "sample", ["-w"], src)
        for k in range(per):
            name = lines[k][0]
            if name == "mem" and mod.big:
                continue
            t.reset()
            ex = Exec(mod, Solver(), {"align64": 4}, {}, None)
            a, b = t.var(64, "a"), t.var(64, "b")
            ends = ex.call("s_" + name, [a, b])
            for i, (x, y) in enumerate(ins):
                want = int(lines[i * per + k][1], 16)
                got = []
                for s, v in ends:
                    r = t.ev(list(s.pc) + [v], {a: x, b: y})
                    if all(r[:-1]):
                        got.append(r[-1])
                if got != [want]:
                    return "executor, %s: s_%s(%#x, %#x) = %s, natively %#x" % (cfgname, name, x, y, [hex(g) for g in got], want)
                n += 1
    return per, n


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 30000
    sys.setrecursionlimit(20000)
    r = normalizer(n, 20240117)
    if isinstance(r, str):
        print("SELFTEST FAILED", r)
        return 1
    print("normalizer: %d random expressions agree with direct evaluation, %d through the solver translation" % r)
    r = sums(3000, 11)
    if isinstance(r, str):
        print("SELFTEST FAILED", r)
        return 1
    print("normalizer: %d comparisons of sums agree with direct evaluation" % r)
    r = executor(7, 60)
    if isinstance(r, str):
        print("SELFTEST FAILED", r)
        return 1
    print("executor: %d functions executed symbolically for 4 targets agree with gcc on %d calls" % r)
    return 0


if __name__ == "__main__":
    sys.exit(main())
