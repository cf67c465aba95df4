"""Contracts of everything that is not a hash computation: CPU feature detection, the t1ha0
resolver and how t1ha0 is bound to it, and the self-checks.

Callees outside the function under contract are taken by contract: CPUID is an arbitrary
function of (leaf, subleaf); a hash handed to t1ha_selfcheck() is an arbitrary function of
(contents, length, seed); t1ha_selfcheck() itself is an arbitrary verdict per (hash, table)."""
import json
import os
import tempfile
import term as t
from term import T, const, TRUE, FALSE, trunc, zext, ext, cat
import config
import spec
from exec import Exec, State, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
GOLD = json.load(open(os.path.join(HERE, "golden.json")))
PATTERN = bytes.fromhex(GOLD["pattern"])
for _k in GOLD["tables"]:
    GOLD["tables"][_k] = [int(x, 16) for x in GOLD["tables"][_k]]
LONG = bytes(i & 255 for i in range(512))
M64 = (1 << 64) - 1
HASHES = ("t1ha2_atonce", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be",
          "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2")
SELF = ("t1ha_selfcheck", "t1ha_selfcheck_all", "t1ha0_selfcheck", "t1ha1_selfcheck", "t1ha2_selfcheck")


def vectors():
    """the 81 standard probes: (contents, seed)"""
    out = [(b"", 0), (b"", M64), (PATTERN, 0)]
    out += [(PATTERN[:i], 1 << (i - 1)) for i in range(1, 64)]
    s = M64
    for i in range(1, 8):
        s = (s << 1) & M64
        out.append((PATTERN[i:], s))
    out += [(LONG[i:i + 128 + 17 * i], s) for i in range(8)]
    return out


# behaviour -> (published table, specification)
def stream_value(m, s, wide):
    r64, (lo, hi) = spec.stream(m, s, s)
    return lo if wide else r64


TABLES = {
    "t1ha2_atonce": "2atonce", "t1ha2_atonce128": "2atonce128", "stream": "2stream", "stream128": "2stream128",
    "t1ha1_le": "64le", "t1ha1_be": "64be", "t1ha0_32le": "32le", "t1ha0_32be": "32be",
    "t1ha0_ia32aes_noavx": "ia32aes_a", "t1ha0_ia32aes_avx": "ia32aes_a", "t1ha0_ia32aes_avx2": "ia32aes_b"}


def gold(name):
    return GOLD["tables"][name]


def spec_value(beh, m, s):
    if beh == "stream":
        return stream_value(m, s, False)
    if beh == "stream128":
        return stream_value(m, s, True)
    return spec.evaluate(spec.SPECS[beh], m, s)[0]


def check_vectors(rec, behs):
    """the specification functions used by all contracts give the published values"""
    for b in behs:
        g = gold(TABLES[b])
        for i, (m, s) in enumerate(vectors()):
            rec("post", "spec:" + b, "the specification of %s agrees with published reference value %d" % (b, i),
                spec_value(b, m, s) == g[i])


# ------------------------------------------------------------------ expectations

def enabled(cfg):
    return [k for k in (0, 1, 2) if k not in cfg.disabled]


def base_target(cfg):
    """what t1ha0 is when no CPU-specific variant is chosen"""
    if cfg.W == 64 and len(set(cfg.disabled) & {1, 2}) < 2:
        if 1 in cfg.disabled:
            return "t1ha2_atonce"
        return "t1ha1_be" if cfg.big else "t1ha1_le"
    return "t1ha0_32be" if cfg.big else "t1ha0_32le"


def leafs():
    M = t.uf("cpuid.max", 32, const(32, 0))
    c1 = t.uf("cpuid.c", 32, const(32, 1), const(32, 0))
    b7 = t.uf("cpuid.b", 32, const(32, 7), const(32, 0))
    z = const(32, 0)
    ecx = t.ite(t.ult(M, const(32, 1)), z, c1)
    ebx = t.ite(t.ult(M, const(32, 7)), z, b7)
    return ecx, ebx


def caps(ecx, ebx):
    """AES-NI / AVX usable / AVX2 usable, from CPUID(1).ecx and CPUID(7).ebx"""
    bit = lambda x, n: t.eq(ext(x, n, n), const(1, 1))
    aes = bit(ecx, 25)
    avx = t.and_(aes, bit(ecx, 27), bit(ecx, 28))
    return aes, avx, t.and_(avx, bit(ebx, 5))


def caps64(f):
    return caps(ext(f, 31, 0), ext(f, 63, 32))


def dispatch(cfg):
    """[(condition, function)] in terms of CPUID"""
    b = base_target(cfg)
    if not (cfg.aesni and cfg.select):
        return {b: TRUE}
    aes, avx, avx2 = caps(*leafs())
    return {"t1ha0_ia32aes_avx2": avx2, "t1ha0_ia32aes_avx": t.and_(avx, t.not_(avx2)),
            "t1ha0_ia32aes_noavx": t.and_(aes, t.not_(avx)), b: t.not_(aes)}


# ------------------------------------------------------------------ models of what lies outside

def cpuid_leaf(leaf, sub):
    if leaf.op == "c" and leaf.a in (0, 1, 0x80000000):
        sub = const(32, 0)
    if sub is None:
        sub = t.fresh(32, "ecx")
    eax = t.uf("cpuid.max", 32, leaf) if leaf.op == "c" and leaf.a in (0, 0x80000000) else t.uf("cpuid.a", 32, leaf, sub)
    return (eax,) + tuple(t.uf("cpuid." + r, 32, leaf, sub) for r in "bcd")


def cpu_model(ex):
    def asm(ex, st, I, args):
        if "cpuid" not in I.x[1] or not 1 <= len(args) <= 2:
            return None
        return [(st, cpuid_leaf(args[0], args[1] if len(args) > 1 else None))]

    def get_max(ex, st, args, I):
        e, sig = args
        b = t.ne(sig, const(ex.W, 0))
        if not (b.op == "c" and not b.a):
            for s, r, off in ex.access(st, sig, 4, 4, True, "store"):
                ex.write(s, r, off, 4, t.uf("cpuid.b", 32, e, const(32, 0)))
        return [(st, t.uf("cpuid.max", 32, e))]
    ex.extern["asm"] = asm
    ex.extern["__get_cpuid_max"] = get_max


def split(ex, st, p):
    """[(state, pointer)] for the cases of an if-then-else pointer"""
    if p.op == "ite":
        out = []
        for c, q in ((p.a[0], p.a[1]), (t.not_(p.a[0]), p.a[2])):
            if ex.feasible(st, c):
                s2 = st.copy()
                s2.assume(c)
                out += split(ex, s2, q)
        return out
    return [(st, p)]


def leaves(ex, st, p):
    """[(state, function name or None)] of a function pointer"""
    return [(s, q.a[0][1:] if q.op == "v" and q.a[3] == "fn" else None) for s, q in split(ex, st, p)]


def resolve_alias(mod, n):
    for _ in range(4):
        n = mod.aliases.get(n, n)
    return n


# ------------------------------------------------------------------ CPU features and the resolver

def run_features(ex, cfg):
    cpu_model(ex)
    ecx, ebx = leafs()
    n = 0
    for s, v in ex.call("t1ha_ia32cpu_features", [], State()):
        n += 1
        ex.cover(s)
        ex.where = "t1ha_ia32cpu_features"
        ex.oblige(s, "post", t.eq(v, cat(ebx, ecx)),
                  "t1ha_ia32cpu_features returns CPUID(1).ecx | CPUID(7,0).ebx << 32, each 0 when the leaf does not exist")
    return n


def check_target(ex, cfg, s, p, what):
    want = dispatch(cfg)
    n = 0
    for s2, name in leaves(ex, s, p):
        n += 1
        ex.cover(s2)
        ex.where = what
        name = resolve_alias(ex.m, name) if name else name
        ex.oblige(s2, "wire", want.get(name, FALSE) if name else FALSE,
                  "%s chooses %s only when it is the best variant this CPU and build support" % (what, name))
    return n


def run_resolver(ex, cfg, name):
    cpu_model(ex)
    n = 0
    for s, v in ex.call(name, [], State()):
        n += check_target(ex, cfg, s, v, name)
    return n


CLIENT = """#include "t1ha.h"
#ifdef __cplusplus
extern "C"
#endif
uint64_t vphb_client(const void *d, size_t l, uint64_t s) { return t1ha0(d, l, s); }
"""
LANG = {"C": ("client.c", []), "C++98": ("client.cc", ["-std=gnu++98"]), "C++11": ("client.cc", ["-std=gnu++11"])}


def client_module(cfg, text=CLIENT, lang="C"):
    d = tempfile.mkdtemp(prefix="vc-")
    name, extra = LANG[lang]
    f = os.path.join(d, name)
    try:
        with open(f, "w") as h:
            h.write(text)
        return config.compile_ir(cfg, "client", extra, src=f)
    finally:
        os.remove(f)
        os.rmdir(d)


def user_text(names):
    """user code that takes the address of every function, through the header alone"""
    return "#include \"t1ha.h\"\ntypedef void (*vphb_fn)(void);\n" + "".join(
        "vphb_fn vphb_use_%s(void) { return (vphb_fn)%s; }\n" % (n, n) for n in names)


class Calls(object):
    """takes every call of a hash function by contract: its result is a function of the arguments"""

    def __init__(self, ex, D, L, S, names):
        self.log = []
        self.D, self.L, self.S = D, L, S
        for n in names:
            ex.extern[n] = lambda ex, st, a, I, n=n: self.named(ex, st, a, n)

    def named(self, ex, st, a, n):
        ok = len(a) == 3
        g = t.and_(*(t.eq(x, y) for x, y in zip(a, (self.D, self.L, self.S)))) if ok else FALSE
        ex.oblige(st, "wire", g, "t1ha0 passes its arguments unchanged to %s" % n)
        s = st.copy()
        v = t.uf("hash:" + n, 64, const(8, 0))
        s.trace = list(s.trace) + [n]
        return [(s, v)]


def run_bind(ex, cfg, libmod, mklib, allmods=()):
    """what a call of t1ha0() in user code ends up executing"""
    W = ex.W
    D, L, S = t.var(W, "D"), t.var(W, "L"), t.var(64, "S")
    here = ex.m.funcs.get("t1ha0")
    Calls(ex, D, L, S, HASHES + (("t1ha0",) if here is None or here.decl else ()))
    ptr = t.var(W, "t1ha0_funcptr")
    used = []

    def star(ex, st, p, args, I):
        if p is ptr:
            used.append("ptr")
            g = t.and_(*(t.eq(x, y) for x, y in zip(args, (D, L, S)))) if len(args) == 3 else FALSE
            ex.oblige(st, "wire", g, "t1ha0 passes its arguments unchanged through t1ha0_funcptr")
            s = st.copy()
            s.trace = list(s.trace) + ["*"]
            return [(s, t.uf("hash:*", 64, const(8, 0)))]
        return None
    ex.extern["*"] = star
    st = State()
    if "t1ha0_funcptr" in ex.m.globals:
        ex.read_globals_ok.add("t1ha0_funcptr")
        ex.write(st, ex.glob("t1ha0_funcptr"), const(W, 0), W // 8, ptr)
    n = 0
    want = dispatch(cfg)
    modes = set()
    for s, v in ex.call("vphb_client", [D, L, S], st):
        n += 1
        ex.cover(s)
        ex.where = "t1ha0"
        tr = tuple(s.trace)
        if not ex.oblige(s, "wire", const(1, int(len(tr) == 1)), "t1ha0 calls exactly one hash function"):
            continue
        ex.oblige(s, "wire", t.eq(v, t.uf("hash:" + tr[0], 64, const(8, 0))), "t1ha0 returns the value of the function it calls")
        if tr[0] in ("*", "t1ha0"):
            modes.add(tr[0])
        else:
            ex.oblige(s, "wire", want.get(tr[0], FALSE), "t1ha0 is %s only where that is the best variant this build supports" % tr[0])
    for m in sorted(modes):
        lx = mklib()
        cpu_model(lx)
        if m == "t1ha0":
            r = libmod.ifuncs.get("t1ha0")
            if r is not None:
                for s, v in lx.call(resolve_alias(libmod, r), [], State()):
                    n += check_target(lx, cfg, s, v, "the resolver of t1ha0 (%s)" % r)
            elif "t1ha0" in libmod.funcs and not libmod.funcs["t1ha0"].decl:
                c = Calls(lx, D, L, S, HASHES)
                st = library_start(lx, libmod)
                for s, v in lx.call("t1ha0", [D, L, S], st):
                    tr = tuple(s.trace)
                    n += 1
                    lx.where = "t1ha0"
                    ok = len(tr) == 1
                    lx.oblige(s, "wire", want.get(tr[0], FALSE) if ok else FALSE, "t1ha0 runs the best variant this CPU and build support")
                    if ok:
                        lx.oblige(s, "wire", t.eq(v, t.uf("hash:" + tr[0], 64, const(8, 0))), "t1ha0 returns the value of the function it calls")
            else:
                lx.where = "t1ha0"
                lx.oblige(State(), "wire", FALSE, "the library defines t1ha0")
        else:
            lx.where = "t1ha0_funcptr"
            if "t1ha0_funcptr" not in libmod.globals or libmod.globals["t1ha0_funcptr"].decl:
                lx.oblige(State(), "wire", FALSE, "the library defines t1ha0_funcptr")
                continue
            for s in started(lx, libmod):
                p = lx.read(s, lx.glob("t1ha0_funcptr"), const(lx.W, 0), lx.W // 8)
                n += pointer_target(lx, cfg, libmod, s, p, D, L, S)
        ex.covered = ex.covered and lx.covered
    return n


def ctors(mod):
    g = mod.globals.get("llvm.global_ctors")
    out = []
    if g is not None and g.data:
        ent = [op[1] for off, size, op in g.data if op[0] == "f"]
        out = ent
    return out


def library_start(lx, mod):
    for g in mod.globals.values():
        if not g.const and not g.name.startswith("llvm."):
            lx.write_globals_ok.add(g.name)
            lx.read_globals_ok.add(g.name)
    return State()


def started(lx, mod):
    """states in which the library can be once its constructors have run"""
    sts = [library_start(lx, mod)]
    for c in ctors(mod):
        nxt = []
        for s in sts:
            nxt += [x for x, v in lx.call(c, [], s)]
        sts = nxt
    return sts


def pointer_target(lx, cfg, libmod, s, p, D, L, S):
    """the pointer is the right variant, or a function that behaves as it (lazy selection)"""
    n = 0
    for s2, name in leaves(lx, s, p):
        name = resolve_alias(libmod, name) if name else None
        if name is not None and name not in HASHES and name in libmod.funcs and not libmod.funcs[name].decl:
            c = Calls(lx, D, L, S, HASHES)
            for s3, v in lx.call(name, [D, L, S], s2):
                n += 1
                lx.cover(s3)
                tr = tuple(s3.trace or ())
                lx.where = name
                ok = len(tr) == 1
                lx.oblige(s3, "wire", dispatch(cfg).get(tr[0], FALSE) if ok else FALSE,
                          "the first call through t1ha0_funcptr runs the best variant this CPU and build support")
                if ok:
                    lx.oblige(s3, "wire", t.eq(v, t.uf("hash:" + tr[0], 64, const(8, 0))), "t1ha0 returns the value of the function it calls")
                q = lx.read(s3, lx.glob("t1ha0_funcptr"), const(lx.W, 0), lx.W // 8)
                n += check_target(lx, cfg, s3, q, "t1ha0_funcptr after the first call")
        else:
            n += check_target(lx, cfg, s2, t.var(lx.W, "@" + name, None, 0, "fn") if name else p, "t1ha0_funcptr after start-up")
    return n


# ------------------------------------------------------------------ the self-check verdict

def content(ex, st, p, ln):
    """the bytes a hash called with (p, ln) may depend on, as constants"""
    if ln == 0:
        return b""
    r, off = ex.resolve(st, p)
    if r is None or off.op != "c":
        raise Unsupported("hash called on %s" % t.show(p, 3))
    size = r.size if isinstance(r.size, int) else None
    if size is None or off.a + ln > size:
        return None
    bs = [ex.read(st, r, const(ex.W, off.a + i), 1) for i in range(ln)]
    if any(b.op != "c" for b in bs):
        return None
    return bytes(b.a for b in bs)


def hval(m, s):
    return t.uf("H:%s:%x" % (m.hex(), s), 64, const(8, 0))


def run_selfcheck(ex, cfg):
    """t1ha_selfcheck(hash, refs) == 0 iff hash agrees with refs on all 81 standard probes"""
    ex.merge = True
    W = ex.W
    H = t.var(W, "hash", None, 0, "fn")
    refs = ex.region("refs", "mut", 81 * 8, None, 3 if W == 64 else 2)
    refs.frozen = True
    st = State()
    want = []
    for i in range(81):
        rv = t.var(64, "ref%d" % i)
        ex.write(st, refs, const(W, 8 * i), 8, rv)
    for i, (m, s) in enumerate(vectors()):
        want.append(t.eq(hval(m, s), t.var(64, "ref%d" % i)))
    good = t.and_(*want)

    def probe(ex, st, p, args, I):
        if p is not H:
            return None
        if len(args) != 3 or args[1].op != "c" or args[2].op != "c":
            raise Unsupported("hash called with %s" % ", ".join(t.show(a, 3) for a in args))
        m = content(ex, st, args[0], args[1].a)
        if m is None:
            ex.lose(st, "mem", "the hash is called on bytes that exist and are initialized")
            return []
        return [(st, hval(m, args[2].a))]
    ex.extern["*"] = probe

    def failed(ex, st, args, I):
        ex.oblige(st, "post", t.not_(good), "assert() in t1ha_selfcheck fails only for a hash that disagrees with its references")
        return []
    ex.extern["vphb_assert_fail"] = failed
    ex.extern["__assert_fail"] = failed
    n = 0
    for s, v in ex.call("t1ha_selfcheck", [H, refs.base], st):
        n += 1
        ex.cover(s)
        ex.where = "t1ha_selfcheck"
        z = t.eq(v, const(32, 0))
        for i in range(81):
            ex.oblige(s, "post", t.or_(t.not_(z), want[i]), "t1ha_selfcheck returns 0 only if reference value %d is met" % i)
        ex.oblige(s, "post", t.or_(t.not_(good), z), "t1ha_selfcheck returns 0 if all 81 reference values are met")
        ex.oblige(s, "post", t.or_(z, t.eq(v, const(32, 0xffffffff))), "t1ha_selfcheck returns -1 when it does not return 0")
    return n


# ------------------------------------------------------------------ what the self-checks cover

def verdict(key):
    """0 or -1"""
    b = t.var(1, "fail:" + key)
    return b, cat(*([b] * 32))


def thunk_behaviour(ex, name):
    """which hash a function (data, len, seed) computes, from its body"""
    lx = Exec(ex.m, ex.solver, dict(ex.cfg), {}, None)
    out = []
    lx.report = lambda *a: out.append(a) if not a[3] else None
    W = lx.W
    D, L, S = t.var(W, "D"), t.var(W, "L"), t.var(64, "S")
    for n in HASHES:
        def direct(ex, st, a, I, n=n):
            ok = len(a) == 3 and a[0] is D and a[1] is L and a[2] is S
            s = st.copy()
            s.trace = list(s.trace) + [n if ok else "?"]
            return [(s, t.uf("hash:" + (n if ok else "?"), 64, const(8, 0)))]
        lx.extern[n] = direct

    def store(ex, st, p):
        for s, r, off in ex.access(st, p, 8, 4, True, "store"):
            ex.write(s, r, off, 8, t.fresh(64, "hi"))
            return s
        return None

    def a128(ex, st, a, I):
        s = store(ex, st.copy(), a[0])
        ok = s is not None and a[1] is D and a[2] is L and a[3] is S
        n = "t1ha2_atonce128" if ok else "?"
        return [(s or st, t.uf("hash:" + n, 64, const(8, 0)))]
    lx.extern["t1ha2_atonce128"] = a128

    # the streaming interface over an abstract context: seeds and the message so far
    def ctx_of(ex, st, p):
        r, off = ex.resolve(st, p)
        if r is None or off.op != "c" or off.a != 0:
            return None
        return r

    def get(st, r):
        for x in reversed(st.trace):
            if isinstance(x, tuple) and x[0] is r:
                return x[1]
        return None

    def init(ex, st, a, I):
        s = st.copy()
        s.trace = list(s.trace) + [(ctx_of(ex, st, a[0]), (a[1], a[2], ()))]
        return [(s, None)]

    def update(ex, st, a, I):
        s = st.copy()
        r = ctx_of(ex, st, a[0])
        g = get(s, r)
        if g is not None:
            m = g[2]
            if m and t.add(m[-1][0], m[-1][1]) is a[1]:
                m = m[:-1] + ((m[-1][0], t.add(m[-1][1], a[2])),)
            elif not (a[2].op == "c" and a[2].a == 0):
                m = m + ((a[1], a[2]),)
            s.trace = list(s.trace) + [(r, (g[0], g[1], m))]
        return [(s, None)]

    def final(ex, st, a, I):
        s = st.copy()
        r = ctx_of(ex, st, a[0])
        g = get(s, r)
        z = a[1].op == "c" and a[1].a == 0
        if not z:
            s = store(ex, s, a[1]) or s
        n = "?"
        if g is not None and g[0] is S and g[1] is S and len(g[2]) == 1 and g[2][0][0] is D and g[2][0][1] is L:
            n = "stream" if z else "stream128"
        s.trace = list(s.trace) + [(r, None)]
        return [(s, t.uf("hash:" + n, 64, const(8, 0)))]
    lx.extern["t1ha2_init"], lx.extern["t1ha2_update"], lx.extern["t1ha2_final"] = init, update, final
    beh = set()
    try:
        for s, v in lx.call(name, [D, L, S], State()):
            beh.add(v.a[0][5:] if v.op == "uf" and v.a[0].startswith("hash:") else "?")
    except Unsupported:
        beh.add("?")
    if out or len(beh) != 1:
        return "?"
    return beh.pop()


def table_of(ex, st, p):
    """name(s) of the published table a pointer designates, by its contents"""
    r, off = ex.resolve(st, p)
    if r is None or off.op != "c" or off.a != 0 or r.kind != "glob" or not r.glob.const or r.size < 81 * 8:
        return ()
    vs = [ex.read(st, r, const(ex.W, 8 * i), 8) for i in range(81)]
    if any(v.op != "c" for v in vs):
        return ()
    vs = [v.a for v in vs]
    return tuple(k for k, g in GOLD["tables"].items() if vs == g)


def table_diff(ex, st, p, want):
    r, off = ex.resolve(st, p)
    if r is None or off.op != "c" or r.kind != "glob":
        return "not a table"
    d = []
    for i in range(81):
        if off.a + 8 * i + 8 > r.size:
            return "%s has fewer than 81 entries" % r.name
        v = ex.read(st, r, const(ex.W, off.a + 8 * i), 8)
        if v.op != "c" or v.a != gold(want)[i]:
            d.append(i)
    return "%s differs from the published values at %s" % (r.name, d[:10])


def requirements(cfg):
    """self-check function -> [(condition on CPU features, verdict key)]"""
    F = t.var(64, "features")
    aes, avx, avx2 = caps64(F)
    R = {}
    if 2 not in cfg.disabled:
        R["t1ha_selfcheck__t1ha2_atonce"] = [(TRUE, "t1ha2_atonce")]
        R["t1ha_selfcheck__t1ha2_atonce128"] = [(TRUE, "t1ha2_atonce128")]
        R["t1ha_selfcheck__t1ha2_stream"] = [(TRUE, "stream"), (TRUE, "stream128")]
        R["t1ha_selfcheck__t1ha2"] = R["t1ha_selfcheck__t1ha2_atonce"] + R["t1ha_selfcheck__t1ha2_atonce128"] + R["t1ha_selfcheck__t1ha2_stream"]
    if 1 not in cfg.disabled:
        R["t1ha_selfcheck__t1ha1_le"] = [(TRUE, "t1ha1_le")]
        R["t1ha_selfcheck__t1ha1_be"] = [(TRUE, "t1ha1_be")]
        R["t1ha_selfcheck__t1ha1"] = [(TRUE, "t1ha1_le"), (TRUE, "t1ha1_be")]
    if 0 not in cfg.disabled:
        R["t1ha_selfcheck__t1ha0_32le"] = [(TRUE, "t1ha0_32le")]
        R["t1ha_selfcheck__t1ha0_32be"] = [(TRUE, "t1ha0_32be")]
        every = [(TRUE, "t1ha0_32le"), (TRUE, "t1ha0_32be")]
        if cfg.W == 64 and len(set(cfg.disabled) & {1, 2}) < 2:
            every += [(TRUE, "@t1ha_selfcheck__t1ha2" if 1 in cfg.disabled else "@t1ha_selfcheck__t1ha1")]
        if cfg.aesni:
            R["t1ha_selfcheck__t1ha0_ia32aes_noavx"] = [(TRUE, "t1ha0_ia32aes_noavx")]
            R["t1ha_selfcheck__t1ha0_ia32aes_avx"] = [(TRUE, "t1ha0_ia32aes_avx")]
            R["t1ha_selfcheck__t1ha0_ia32aes_avx2"] = [(TRUE, "t1ha0_ia32aes_avx2")]
            every += [(aes, "t1ha0_ia32aes_noavx"), (avx, "t1ha0_ia32aes_avx"), (avx2, "t1ha0_ia32aes_avx2")]
        R["t1ha_selfcheck__t1ha0"] = every
    R["t1ha_selfcheck__all_enabled"] = [(TRUE, "@t1ha_selfcheck__t1ha%d" % k) for k in (2, 1, 0) if k not in cfg.disabled]
    return R


WRAPPERS = {"t1ha2_selfcheck": ["t1ha_selfcheck__t1ha2_atonce", "t1ha_selfcheck__t1ha2_atonce128", "t1ha_selfcheck__t1ha2_stream", "t1ha_selfcheck__t1ha2"],
            "t1ha1_selfcheck": ["t1ha_selfcheck__t1ha1_le", "t1ha_selfcheck__t1ha1_be", "t1ha_selfcheck__t1ha1"],
            "t1ha0_selfcheck": ["t1ha_selfcheck__t1ha0_32le", "t1ha_selfcheck__t1ha0_32be", "t1ha_selfcheck__t1ha0_ia32aes_noavx",
                                "t1ha_selfcheck__t1ha0_ia32aes_avx", "t1ha_selfcheck__t1ha0_ia32aes_avx2", "t1ha_selfcheck__t1ha0"],
            "t1ha_selfcheck_all": ["t1ha_selfcheck__all_enabled"]}


def run_wrapper(ex, cfg, name):
    ex.merge = True
    R = requirements(cfg)
    need = R[name]
    F = t.var(64, "features")
    cond = {}
    aes, avx, avx2 = caps64(F)
    runs = {"t1ha0_ia32aes_noavx": aes, "t1ha0_ia32aes_avx": avx, "t1ha0_ia32aes_avx2": avx2}
    direct = name.startswith("t1ha_selfcheck__t1ha0_ia32aes")
    behs = {}

    def sc(ex, st, args, I):
        out = []
        for s, fn, refs in [(s2, fn, q) for s, fn in leaves(ex, st, args[0]) for s2, q in split(ex, s, args[1])]:
            fn = resolve_alias(ex.m, fn) if fn else None
            if fn in HASHES:
                b = fn
            elif fn in ex.m.funcs and not ex.m.funcs[fn].decl:
                if fn not in behs:
                    behs[fn] = thunk_behaviour(ex, fn)
                b = behs[fn]
            else:
                b = "?"
            if not ex.oblige(s, "wire", const(1, int(b in TABLES)), "%s checks one of the library's hash functions (%s)" % (name, fn)):
                continue
            tb = table_of(ex, s, refs)
            ok = TABLES[b] in tb
            ex.oblige(s, "wire", const(1, int(ok)),
                      "%s compares %s with its published reference values%s" % (name, b, "" if ok else ": " + table_diff(ex, s, refs, TABLES[b])))
            if b in runs and not direct:
                ex.oblige(s, "wire", runs[b], "%s runs %s only on a CPU that has its instructions" % (name, b))
            out.append((s, verdict(b)[1]))
        return out

    def other(ex, st, args, I, n):
        return [(st, verdict("@" + n)[1])]
    ex.extern["t1ha_selfcheck"] = sc
    for u, l in WRAPPERS.items():
        for n in l:
            fn = ex.m.funcs.get(n)
            if fn is None or fn.decl:
                ex.extern[n] = lambda ex, st, a, I, n=n: other(ex, st, a, I, n)
    ex.extern["t1ha_ia32cpu_features"] = lambda ex, st, a, I: [(st, F)]
    n = 0
    for s, v in ex.call(name, [], State()):
        n += 1
        ex.cover(s)
        ex.where = name
        z = t.eq(v, const(32, 0))
        passed = []
        for c, k in need:
            b, _ = verdict(k)
            p = t.or_(t.not_(c), t.eq(b, const(1, 0)))
            passed.append(p)
            ex.oblige(s, "post", t.or_(t.not_(z), p), "%s returns 0 only if the check of %s passes (where it applies)" % (name, k.lstrip("@")))
        ex.oblige(s, "post", t.or_(z, t.not_(t.and_(TRUE, *passed))), "%s returns 0 if every check it stands for passes" % name)
    return n
