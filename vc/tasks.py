"""Proof tasks: the unit of work of a check. Runs in worker processes."""
import os
import re
import subprocess
import time
import traceback
import collections
import term as t
from term import T, const
import llvmir
import config
import funcs
import stream
import contracts
import wiring
from exec import Solver, Unsupported

CONTRACTS = {c.name: c for c in contracts.table()}
_mods = {}
_lay = {}
IRDIR = None            # set by the driver before forking
PROVED = {}             # (cfg, unit) -> names of helper contracts proved there
MAXBAD = 6              # failing obligations after which a case is abandoned


class Enough(Exception):
    pass


def module(cfgname, unit):
    m = _mods.get((cfgname, unit))
    if m is None:
        if len(_mods) > 6:
            _mods.clear()
        with open(os.path.join(IRDIR, "%s.%s.ll" % (cfgname, unit)), "rb") as f:
            m = llvmir.parse(f.read())
        _mods[(cfgname, unit)] = m
    return m


def layout(cfg):
    if cfg.name not in _lay:
        _lay[cfg.name] = stream.Layout(cfg)
    return _lay[cfg.name]


class Result(object):
    def __init__(self, task):
        self.task = task
        self.counts = collections.Counter()     # (kind, backend) -> discharged
        self.bad = []
        self.cases = 0
        self.paths = 0
        self.loops = 0
        self.solver_n = {}
        self.solver_t = {}
        self.contracts = set()
        self.inlined = set()
        self.notes = set()
        self.proved = None
        self.wall = 0.0
        self.functions = set()


# ------------------------------------------------------------------ stage 1

def stage1(arg):
    """compile one unit and prove its helper contracts"""
    cfgname, unit = arg
    cfg = config.CONFIGS[cfgname]
    r = Result(("helpers", cfgname, unit))
    t0 = time.time()
    try:
        txt = config.compile_text(cfg, unit)
        with open(os.path.join(IRDIR, "%s.%s.ll" % (cfgname, unit)), "wb") as f:
            f.write(txt)
        mod = module(cfgname, unit)
        counts = collections.defaultdict(list)

        def rec(kind, where, desc, ok, be):
            counts[where].append((kind, be, ok, desc))
        proved, sol = funcs.prove_helpers(mod, cfg, rec)
        for name, l in counts.items():
            if name in proved:
                for kind, be, ok, desc in l:
                    r.counts[(kind, be)] += 1
                r.functions.add(name)
            else:
                why = [d for k, be, ok, d in l if not ok][:1]
                r.notes.add("%s [%s]: helper contract not provable (%s); its body is verified in place instead" % (name, cfgname, "; ".join(why)))
        r.proved = sorted(proved)
        r.solver_n, r.solver_t = sol.n, sol.time
    except config.CompileError as e:
        r.bad.append(dict(kind="build", where=unit, cfg=cfgname, desc="the configuration builds", case="", output=str(e), backend="clang", hint=None))
    except Exception as e:
        r.proved = []
        r.notes.add("%s/%s: %s" % (cfgname, unit, traceback.format_exc(limit=3)))
        r.bad.append(dict(kind="reach", where=unit, cfg=cfgname, desc="the unit is within the verifier's reach", case="", output=traceback.format_exc(limit=4), backend="-", hint=None))
    r.wall = time.time() - t0
    return r


# ------------------------------------------------------------------ counterexample hints

def hint_of(pc, goal, st, names):
    """inputs consistent with the failing path (and, when the solver finds one, refuting the goal)"""
    z3 = t.z3mod()
    for with_goal in ((True, False) if goal is not None and goal.op != "c" else (False,)):
        fs = [f for f in pc if f.op != "c"]
        if with_goal:
            fs = fs + [t.not_(goal)]
        fs = fs + t.var_facts(fs)
        try:
            s = z3.Solver()
            s.set("timeout", 6000)
            for z in t.to_z3(fs):
                s.add(z == 1)
            if s.check() != z3.sat:
                continue
            m = s.model()
            out = {}
            vs = t.vars_of(fs)
            for v in vs:
                x = m.eval(t.to_z3(v), model_completion=True).as_long()
                n = v.a[0]
                if v.a[3] == "base":
                    out.setdefault("addr", {})[n[1:]] = x % 4096
                else:
                    out[n] = x
            for r, sz in st.sizes.items():
                out["len:" + r.name] = m.eval(t.to_z3(sz), model_completion=True).as_long()
            by = {}
            for x in t.postorder(fs):
                if x.op == "uf" and x.a[0].startswith("rd:") and len(x.a) == 2:
                    o = m.eval(t.to_z3(x.a[1]), model_completion=True).as_long()
                    v = m.eval(t.to_z3(x), model_completion=True).as_long()
                    by.setdefault(x.a[0][3:], {})[o] = v
            out["bytes"] = by
            out["refutes"] = with_goal
            return out
        except Exception:
            continue
    return None


# ------------------------------------------------------------------ stage 2

def setup(r, cfg, mod, unit, policy=None):
    sol = Solver()

    def mk(case, label, fn=None):
        nbad = [0]

        def rep(kind, where, desc, ok, be, model, st, goal=None):
            if ok:
                r.counts[(kind, be)] += 1
                return
            nbad[0] += 1
            h = None
            if isinstance(model, dict) and "hint" in model:
                h = model["hint"]
            elif len(r.bad) < 40:
                try:
                    h = hint_of(st.pc, goal, st, None)
                except Exception:
                    h = None
            r.bad.append(dict(kind=kind, where=where, fn=fn, cfg=cfg.name, desc=desc, case=label, backend=be, hint=h,
                              output="goal: %s" % (t.show(goal, 5)[:1500] if goal is not None else "?")))
            if nbad[0] >= MAXBAD:
                raise Enough()
        helpers = {n: CONTRACTS[n] for n in PROVED.get((cfg.name, unit), [])}
        ex = funcs.newexec(mod, cfg, helpers, rep, sol, policy)
        return ex
    return sol, mk


def finish(r, ex):
    r.loops += ex.loops_proved
    r.contracts |= ex.used_contracts
    r.inlined |= ex.inlined
    r.notes |= set(ex.notes)


def stage2(task):
    r = Result(task)
    t0 = time.time()
    try:
        RUN[task[0]](r, task)
    except Exception:
        r.bad.append(dict(kind="reach", where=str(task[2]), cfg=task[1], desc="the function is within the verifier's reach",
                          case="", output=traceback.format_exc(limit=6), backend="-", hint=None))
    r.wall = time.time() - t0
    return r


def cases_loop(r, cfg, mod, unit, name, cases, label, run, policy=None):
    sol, mk = setup(r, cfg, mod, unit, policy)
    for c in cases:
        lab = label(c)
        ex = mk(c, lab, name)
        ex.label = lab
        try:
            n = run(ex, c)
            r.paths += n
            if n and not ex.covered:
                r.bad.append(dict(kind="reach", where=name, fn=name, cfg=cfg.name, desc="the assumptions of the contract can hold on a returning path",
                                  case=lab, output="", backend="-", hint=None))
            if not n:
                r.bad.append(dict(kind="reach", where=name, fn=name, cfg=cfg.name, desc="some path of %s returns" % name, case=lab,
                                  output="", backend="-", hint=None))
        except Enough:
            pass
        except Unsupported as e:
            r.bad.append(dict(kind="reach", where=name, fn=name, cfg=cfg.name, desc="%s is within the verifier's reach" % name, case=lab,
                              output=str(e), backend="-", hint=None))
        except Exception:
            r.bad.append(dict(kind="reach", where=name, fn=name, cfg=cfg.name, desc="%s is within the verifier's reach" % name, case=lab,
                              output=traceback.format_exc(limit=6), backend="-", hint=None))
        r.cases += 1
        finish(r, ex)
        if len(r.bad) >= 12:
            break
    r.functions.add(name)
    r.solver_n, r.solver_t = sol.n, sol.time


def run_hash(r, task):
    _, cfgname, name, cases = task[:4]
    cfg = config.CONFIGS[cfgname]
    unit = funcs.UNIT[name]
    mod = module(cfgname, unit)
    cases_loop(r, cfg, mod, unit, name, cases, funcs.case_label, lambda ex, c: funcs.run_hash(ex, name, c, "full" in task[4:]))


def run_stream(r, task):
    _, cfgname, which, cases = task[:4]
    cfg = config.CONFIGS[cfgname]
    mod = module(cfgname, "t1ha2")
    lay = layout(cfg)
    name = "t1ha2_" + which
    f = {"init": lambda ex, c: stream.run_init(ex, lay),
         "update": lambda ex, c: stream.run_update(ex, lay, c, "full" in task[4:]),
         "final": lambda ex, c: stream.run_final(ex, lay, c)}[which]
    lab = {"init": lambda c: "any seeds", "update": stream.case_label,
           "final": lambda c: "buffered=%d,%s" % (c[0], "128-bit" if c[1] else "64-bit")}[which]
    cases_loop(r, cfg, mod, "t1ha2", name, cases, lab, f)


def run_features(r, task):
    cfg = config.CONFIGS[task[1]]
    cases_loop(r, cfg, module(cfg.name, "t1ha0"), "t1ha0", "t1ha_ia32cpu_features", [0], lambda c: "any CPU",
               lambda ex, c: wiring.run_features(ex, cfg))


def run_resolve(r, task):
    cfg = config.CONFIGS[task[1]]
    cases_loop(r, cfg, module(cfg.name, "t1ha0"), "t1ha0", "t1ha0_resolve", [0], lambda c: "any CPU",
               lambda ex, c: wiring.run_resolver(ex, cfg, "t1ha0_resolve"))


def run_bind(r, task):
    cfg = config.CONFIGS[task[1]]
    lib = module(cfg.name, "t1ha0")
    for lang in wiring.LANG:
        try:
            cl = wiring.client_module(cfg, lang=lang)
        except config.CompileError as e:
            r.bad.append(dict(kind="build", where="t1ha0", cfg=cfg.name, desc="%s code that calls t1ha0() builds" % lang, case="", output=str(e), backend="clang", hint=None))
            continue
        sol, mk = setup(r, cfg, lib, "t1ha0")
        lab = "called from %s, any CPU, any arguments" % lang
        cases_loop(r, cfg, cl, "client", "t1ha0", [0], lambda c: lab,
                   lambda ex, c: wiring.run_bind(ex, cfg, lib, lambda: mk(0, lab, "t1ha0")))


SSE = set("x87 cx8 cx16 sahf cmov fxsr xsave mmx sse sse2 sse3 ssse3 sse4.1 sse4.2 popcnt crc32 pclmul aes".split())
ISA = {"t1ha0_ia32aes_noavx": SSE, "t1ha0_ia32aes_avx": SSE | {"avx"}, "t1ha0_ia32aes_avx2": SSE | {"avx", "avx2"}}


def run_isa(r, task):
    """the code of each AES implementation uses only instructions that its dispatch condition vouches for"""
    cfg = config.CONFIGS[task[1]]
    for u, may in sorted(ISA.items()):
        for n, f in sorted(module(cfg.name, u).funcs.items()):
            if f.decl:
                continue
            extra = f.features - may
            if extra:
                r.bad.append(dict(kind="wire", where=n, fn=None, cfg=cfg.name, desc="%s in %s is compiled for processors with AES-NI%s only" %
                                  (n, u, {"avx": " and AVX", "avx2": " and AVX2"}.get(u[14:], "")), case="", backend="target attributes", hint=None,
                                  output="compiled for " + " ".join(sorted(extra))))
            else:
                r.counts[("wire", "target attributes")] += 1


def run_verdict(r, task):
    cfg = config.CONFIGS[task[1]]
    cases_loop(r, cfg, module(cfg.name, "t1ha_selfcheck"), "t1ha_selfcheck", "t1ha_selfcheck", [0], lambda c: "any hash, any references",
               lambda ex, c: wiring.run_selfcheck(ex, cfg))


def run_wrapper(r, task):
    cfg, name = config.CONFIGS[task[1]], task[2]
    unit = [u for u, l in wiring.WRAPPERS.items() if name in l][0]
    cases_loop(r, cfg, module(cfg.name, unit), unit, name, [0], lambda c: "any CPU, any verdicts",
               lambda ex, c: wiring.run_wrapper(ex, cfg, name))


def run_vectors(r, task):
    def rec(kind, where, desc, ok):
        if ok:
            r.counts[(kind, "evaluation")] += 1
        else:
            r.bad.append(dict(kind=kind, where=where, fn=None, cfg="-", desc=desc, case="", backend="evaluation", hint=None, output=""))
    wiring.check_vectors(rec, task[2])


LIBC = {"memcpy", "memmove", "memset", "memcmp", "abort", "__assert_fail", "vphb_assert_fail", "_GLOBAL_OFFSET_TABLE_"}


def run_link(r, task):
    """whatever one unit of this build uses, another one defines"""
    cfg = config.CONFIGS[task[1]]
    mods = [(u, module(cfg.name, u)) for u in lib_units(cfg)]
    defined, kinds = set(), {}
    for u, m in mods:
        defined |= {n for n, f in m.funcs.items() if not f.decl} | {n for n, g in m.globals.items() if not g.decl}
        defined |= set(m.ifuncs) | set(m.aliases)
    for u, m in mods:
        used = {n for n, f in m.funcs.items() if f.decl} | {n for n, g in m.globals.items() if g.decl}
        for n in sorted(used):
            if n.startswith("llvm."):
                continue
            if n in defined or n in LIBC:
                r.counts[("wire", "symbol table")] += 1
            else:
                r.bad.append(dict(kind="wire", where=u, fn=None, cfg=cfg.name, desc="the library defines %s, which %s uses" % (n, u), case="",
                                  backend="symbol table", hint=None, output="undefined reference to %s" % n))
    want = [f for f in funcs.UNIT if cfg.has(f)] + (["t1ha2_init", "t1ha2_update", "t1ha2_final"] if cfg.has("t1ha2") else [])
    want += list(wiring.requirements(cfg))
    for lang in wiring.LANG:
        try:
            cl = wiring.client_module(cfg, wiring.user_text(want), lang)
        except config.CompileError as e:
            r.bad.append(dict(kind="build", where="t1ha.h", fn=None, cfg=cfg.name, desc="t1ha.h declares every function of this build (%s)" % lang,
                              case="", backend="clang", hint=None, output=str(e)))
            continue
        for n in sorted(n for n, f in cl.funcs.items() if f.decl and not n.startswith("llvm.")):
            if n in defined:
                r.counts[("wire", "symbol table")] += 1
            else:
                r.bad.append(dict(kind="wire", where="t1ha.h", fn=None, cfg=cfg.name, desc="the library defines %s, which t1ha.h declares (%s)" % (n, lang),
                                  case="", backend="symbol table", hint=None, output="undefined reference to %s" % n))
    for n in want:
        if n in defined:
            r.counts[("wire", "symbol table")] += 1
        else:
            r.bad.append(dict(kind="wire", where=n, fn=None, cfg=cfg.name, desc="the build provides %s" % n, case="", backend="symbol table", hint=None, output=""))


def lib_units(cfg):
    return ["t1ha0", "t1ha1", "t1ha2"] + (list(config.AES) if cfg.aesni else []) + list(wiring.SELF)


def run_lemma(r, task):
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", task[2] + ".lean")
    p = subprocess.run(["lean", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode(errors="replace")
    ax = re.findall(r"depends on axioms: \[([^\]]*)\]", out)
    ok = p.returncode == 0 and "sorry" not in out and ax and all(a.strip() in ("propext", "Quot.sound", "Classical.choice") for x in ax for a in x.split(","))
    if ok:
        r.counts[("post", "lean")] += 1
        r.functions.add("lemma " + task[3])
    else:
        r.bad.append(dict(kind="reach", where=task[2], fn=None, cfg="-", desc="lemma %s is accepted by Lean" % task[3], case="", backend="lean", hint=None, output=out[:1500]))


RUN = {"hash": run_hash, "isa": run_isa, "stream": run_stream, "features": run_features, "resolve": run_resolve, "bind": run_bind,
       "verdict": run_verdict, "wrapper": run_wrapper, "vectors": run_vectors, "link": run_link, "lemma": run_lemma}


def wrapper_tasks(cfgs):
    out = []
    for c in cfgs:
        for n in wiring.requirements(config.CONFIGS[c]):
            out.append(("wrapper", c, n))
    return out


def verdict_tasks(cfgs):
    return [("verdict", c, "t1ha_selfcheck") for c in cfgs]


def link_tasks(cfgs):
    return [("link", c, "library") for c in cfgs]


def dispatch_tasks(cfgs):
    out = []
    for c in cfgs:
        cfg = config.CONFIGS[c]
        if 0 in cfg.disabled:
            continue
        if cfg.aesni:
            out.append(("features", c, "t1ha_ia32cpu_features"))
            out.append(("isa", c, "instruction sets"))
        if cfg.select:
            out.append(("resolve", c, "t1ha0_resolve"))
        out.append(("bind", c, "t1ha0"))
    return out


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def hash_tasks(cfgs, names, big_only=False):
    out = []
    for c in cfgs:
        cfg = config.CONFIGS[c]
        for n in names:
            if funcs.UNIT[n] not in cfg.units() or not cfg.has(n):
                continue
            cs = funcs.hash_cases(n, cfg.W)
            if big_only:
                cs = [x for x in cs if x[0] == "big"]
            for ch in chunks(cs, 6 if n == "t1ha0_ia32aes_avx2" else 12 if "aes" in n else 64):
                out.append(("hash", c, n, ch) + (("full",) if big_only else ()))
    return out


def stream_tasks(cfgs, which=("init", "update", "final"), full=False):
    out = []
    for c in cfgs:
        if not config.CONFIGS[c].has("t1ha2"):
            continue
        if "init" in which:
            out.append(("stream", c, "init", [0]))
        if "final" in which:
            out.append(("stream", c, "final", stream.final_cases()))
        if "update" in which:
            for ch in chunks(stream.update_cases(), 64):
                out.append(("stream", c, "update", ch) + (("full",) if full else ()))
    return out


def units_of(task):
    if task[0] == "hash":
        return [(task[1], funcs.UNIT[task[2]])]
    if task[0] == "stream":
        return [(task[1], "t1ha2")]
    if task[0] in ("features", "resolve", "bind"):
        return [(task[1], "t1ha0")]
    if task[0] == "isa":
        return [(task[1], u) for u in config.AES]
    if task[0] == "verdict":
        return [(task[1], "t1ha_selfcheck")]
    if task[0] == "wrapper":
        return [(task[1], u) for u, l in wiring.WRAPPERS.items() if task[2] in l]
    if task[0] == "link":
        return [(task[1], u) for u in lib_units(config.CONFIGS[task[1]])]
    return []
