"""Looks for an input that makes the real code break the property an obligation failed
for: on natively compiled code where this machine can run the configuration, otherwise
by executing the compiled IR of the unit with concrete values."""
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import config
import funcs
import spec
import term as t
from term import const

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "replay")
MS = (2500, 12000)
FILES = ["t1ha0", "t1ha1", "t1ha2", "t1ha_selfcheck", "t1ha_selfcheck_all", "t1ha0_selfcheck", "t1ha1_selfcheck",
         "t1ha2_selfcheck", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"]


class Build(object):
    """/repo's sources compiled for this machine and linked with the replay program"""

    def __init__(self, d, flags, san="", main="replay.c", extra=(), debug=False):
        self.dir = d
        self.ok = False
        self.san = san
        cc = ["gcc"] if not san else ["clang"]
        f = ["-O1" if san else "-O2", "-g1", "-w", "-std=gnu11", "-I", config.REPO, "-I", os.path.join(config.REPO, "src")]
        f += list(flags) + (["-DNDEBUG"] if not debug else []) + list(extra)
        if "-m32" in flags:
            f += ["-msse2"]
        sf = san.split() if san else []
        ps = []
        for n in FILES:
            src = os.path.join(config.REPO, "src", n + ".c")
            if os.path.exists(src):
                ps.append((n, subprocess.Popen(cc + f + sf + config.AES.get(n, []) + ["-c", src, "-o", os.path.join(d, n + ".o")],
                                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        self.log = ""
        objs = []
        for n, p in ps:
            o = p.communicate()[0].decode(errors="replace")
            if p.returncode:
                self.log += o
            else:
                objs.append(os.path.join(d, n + ".o"))
        if self.log:
            return
        uut = os.path.join(d, "uut.o")
        em = "elf_i386" if "-m32" in flags else "elf_x86_64"
        cmds = [["ld", "-m", em, "-r", "-o", uut] + objs]
        if not san:
            cmds.append(["objcopy", "--rename-section", ".data=uutdata,alloc,load,data,contents",
                         "--rename-section", ".bss=uutbss,alloc", uut])
        self.exe = os.path.join(d, "replay")
        cmds.append(cc + f + sf + ["-o", self.exe, os.path.join(SRC, main), os.path.join(SRC, "ref.c"), uut])
        for c in cmds:
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                self.log = r.stdout.decode(errors="replace")
                return
        self.ok = True

    def run(self, args, timeout, static_data=False):
        """-> description of the failing input, or None"""
        state = os.path.join(self.dir, "state")
        env = dict(os.environ)
        if static_data and not self.san:
            env["REPLAY_STATIC_DATA"] = "1"
        env["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        args = [a if a != "STATE" else state for a in args]
        try:
            r = subprocess.run([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            case = self.state(state)
            # a hang only counts when the case does not finish alone either
            return None if not case else {"hang": case}
        out = r.stdout.decode(errors="replace")
        m = re.search(r"FOUND (.*)", out, re.S)
        if m:
            return {"result": m.group(1)[:4000]}
        if r.returncode < 0 or r.returncode not in (0, 2):
            return {"result": "crash (%s) while running %s\n%s" % (r.returncode, self.state(state)[:3000], r.stderr.decode(errors="replace")[:1500])}
        return None

    def state(self, f):
        try:
            with open(f, "rb") as h:
                return h.read().split(b"\0")[0].decode(errors="replace")
        except OSError:
            return ""


def wiring_search(mode, cfg, work, end):
    """dispatch and self-checks on natively compiled code, with CPUID replaced"""
    import wiring
    d = tempfile.mkdtemp(prefix="w-", dir=work)
    with open(os.path.join(d, "golden.h"), "w") as h:
        h.write("#include <stdint.h>\n__attribute__((unused)) static const uint8_t gold_pattern[] = {%s};\n" % ",".join(str(b) for b in wiring.PATTERN))
        for k, l in wiring.GOLD["tables"].items():
            h.write("__attribute__((unused)) static const uint64_t gold_%s[] = {%s};\n" % (k, ",".join("0x%xull" % x for x in l)))
    with open(os.path.join(d, "client.c"), "w") as h:
        h.write(wiring.CLIENT)
    levels = [(0, 0, 0), (7, 0, 0), (7, 1 << 25, 0), (7, 0x1a << 24, 0), (7, 0x1a << 24, 32), (1, 0x1a << 24, 32), (7, 0x12 << 24, 32)] if mode == "DISPATCH" else [(0, 0, 0)]
    for lv in levels:
        if time.time() > end:
            break
        f = ["gcc", "-O2", "-w", "-std=gnu11", "-DNDEBUG", "-I", os.path.join(SRC, "fakecpu"), "-I", d, "-I", SRC, "-I", config.REPO, "-I", os.path.join(config.REPO, "src"),
             "-D" + mode, "-DEXPECT_BASE=" + wiring.base_target(cfg), "-DEXPECT_AES=%d" % bool(cfg.aesni), "-DEXPECT_SELECT=%d" % bool(cfg.select)]
        f += ["-DEXPECT_D%d=%d" % (k, k in cfg.disabled) for k in range(3)] + ["-DCPU%d=0x%xu" % kv for kv in enumerate(lv)]
        f += list(cfg.replay) + (["-msse2"] if "-m32" in cfg.replay else [])
        objs, ps = [], []
        for n in FILES + ["wiring", "ref", "client"]:
            src = os.path.join(SRC if n in ("wiring", "ref") else d if n == "client" else os.path.join(config.REPO, "src"), n + ".c")
            if not os.path.exists(src) or (n == "client" and mode != "DISPATCH"):
                continue
            o = os.path.join(d, n + ".o")
            objs.append(o)
            if n == "wiring" or not os.path.exists(o):
                ps.append((n, o, subprocess.Popen(f + config.AES.get(n, []) + ["-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for n, o, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                print("replay build failed: %s" % out.decode(errors="replace")[:600])
                return None
            if n == "t1ha_selfcheck" and mode == "WRAPPERS":
                subprocess.run(["objcopy", "--redefine-sym", "t1ha_selfcheck=original_t1ha_selfcheck", o])
        exe = os.path.join(d, "w")
        r = subprocess.run(f + ["-o", exe] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("replay build failed: %s" % r.stdout.decode(errors="replace")[:600])
            return None
        try:
            r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return {"result": "%s: no termination within 60 s" % mode.lower()}
        m = re.search(r"FOUND (.*)", r.stdout.decode(errors="replace"))
        if m:
            return {"result": m.group(1), "how": "wiring.c %s on %s" % (mode, cfg.name)}
        if r.returncode < 0:
            return {"result": "crash (%d) in %s, %s" % (r.returncode, mode.lower(), cfg.name)}
    return None


WIRING = {"t1ha_ia32cpu_features": "DISPATCH", "t1ha0_resolve": "DISPATCH", "t1ha0": "DISPATCH", "t1ha_selfcheck": "VERDICT"}


def concrete_dispatch(cfg):
    """runs the compiled IR of the resolver and of t1ha0 with concrete CPUID values"""
    import tasks
    import wiring
    try:
        lib = tasks.module(cfg.name, "t1ha0")
        cl = wiring.client_module(cfg)
    except Exception:
        return None
    from exec import Exec, Solver
    for M in (0, 1, 6, 7, 13):
        for ecx in (0, 1 << 25, 0x0a << 24, 0x12 << 24, 0x1a << 24, 0x18 << 24, 0xffffffff):
            for ebx in (0, 32, 0xffffffdf, 0xffffffff):
                fill = 0x5a5a5a5a
                vals = {"max": M, "c1": ecx, "b7": ebx}
                old = wiring.cpuid_leaf, wiring.leafs, t.uf

                def uf(name, w, *a):
                    if name.startswith("cpuid."):
                        k = name[6:]
                        lf = a[0].a if a and a[0].op == "c" else None
                        if k == "max":
                            return const(w, M)
                        if k == "c" and lf == 1:
                            return const(w, ecx)
                        if k == "b" and lf == 7 and a[1].op == "c" and a[1].a == 0:
                            return const(w, ebx)
                        return const(w, fill)
                    return old[2](name, w, *a)
                t.uf = uf
                bad = []
                try:
                    mk = lambda m: Exec(m, Solver(), {"align64": cfg.align64}, {}, lambda *a: bad.append(a[2]) if not a[3] else None)
                    if cfg.select:
                        wiring.run_resolver(mk(lib), cfg, "t1ha0_resolve")
                    wiring.run_bind(mk(cl), cfg, lib, lambda: mk(lib))
                except Exception:
                    pass
                finally:
                    t.uf = old[2]
                if bad:
                    return {"result": "CPUID max leaf=%d leaf1.ecx=0x%x leaf7.ebx=0x%x: %s" % (M, ecx, ebx, bad[0]),
                            "how": "execution of the %s code" % cfg.name}
                if not cfg.aesni:
                    return None
    return None


def hints(bs):
    """command line hints for the hash functions"""
    out = []
    for b in bs:
        case = b.get("case") or ""
        h = b.get("hint") or {}
        m = re.match(r"len=(\d+)$", case)
        ln = None
        if m:
            ln = int(m.group(1))
        elif "len:key" in h:
            ln = h["len:key"]
        if ln is None:
            continue
        by = (h.get("bytes") or {}).get("key") or {}
        ad = (h.get("addr") or {}).get("key")
        s = "%d:%s:%s:%s" % (ln, h.get("seed", "-"), ad if ad is not None else "-",
                             ",".join("%d=%d" % kv for kv in sorted(by.items())[:200]))
        if s not in out:
            out.append(s)
    return out


def shints(bs):
    out = []
    for b in bs:
        case = b.get("case") or ""
        h = b.get("hint") or {}
        m = re.match(r"buffered=(\d+)(?:,len=(\d+)$)?", case)
        if not m:
            continue
        p = int(m.group(1))
        ln = int(m.group(2)) if m.group(2) else h.get("len:data", 0)
        tot = (h.get("blocks", 0) << 5) + p
        s = "%d:%d:%d:%d" % (p, ln, tot, int("128-bit" in case))
        if s not in out:
            out.append(s)
    return out


def search(pid, bad, work, seed, budget):
    end = time.time() + budget
    groups = []
    for b in bad:
        fn = b.get("fn")
        if fn in funcs.UNIT:
            k = ("hash", fn)
        elif fn in ("t1ha2_init", "t1ha2_update", "t1ha2_final"):
            k = ("stream", None)
        elif b.get("search"):
            r = b["search"](b) if callable(b["search"]) else None
            if r:
                return r
            continue
        elif fn in WIRING or (fn or "").startswith("t1ha_selfcheck__"):
            k = ("wiring", WIRING.get(fn, "WRAPPERS"))
        else:
            continue
        k = k + (b["cfg"],)
        if k not in groups:
            groups.append(k)
    kinds = set(b["kind"] for b in bad)
    if kinds == {"reach"}:
        import props
        kinds |= props.PROPS[pid].kinds
    builds = {}

    def build(flags, san, debug):
        key = (tuple(flags), san, debug)
        if key not in builds:
            d = tempfile.mkdtemp(prefix="b-", dir=work)
            builds[key] = Build(d, flags, san, debug=debug)
            if not builds[key].ok:
                print("replay build failed: %s" % builds[key].log[:400])
        return builds[key]

    for ms in MS:
        for what, fn, cfgname in groups:
            if time.time() > end:
                return None
            cfg = config.CONFIGS[cfgname]
            if what == "wiring":
                if ms == MS[0] and cfg.replay is not None and not cfg.trim or ms == MS[1] and cfg.replay is not None and cfg.trim:
                    r = wiring_search(fn, cfg, work, end)
                    if r:
                        return r
                if fn == "DISPATCH":
                    r = concrete_dispatch(cfg)
                    if r:
                        return r
                continue
            bs = [b for b in bad if b["cfg"] == cfgname and (b.get("fn") == fn or what == "stream")]
            tries = []
            if cfg.replay is not None:
                tries.append((cfg.replay, "", cfg.debug))
                if kinds & {"mem"} and not cfg.oneshot:
                    tries.append((cfg.replay, "-fsanitize=address", cfg.debug))
                if kinds & {"ub", "align", "mem"}:
                    tries.append((cfg.replay, "-fsanitize=undefined -fno-sanitize-recover=all" +
                                  (" -fno-sanitize=alignment" if cfg.unaligned else ""), cfg.debug))
            elif cfgname in ("win64",):
                tries.append(([], "", cfg.debug))
            for flags, san, debug in tries:
                b = build(flags, san, debug)
                if not b.ok:
                    continue
                hs = (hints(bs) if what == "hash" else shints(bs))[:40]
                big = ["big"] if pid == "C12" or any("Q" in (x.get("case") or "") for x in bs) and ms > 5000 else []
                a = (["hash", fn] if what == "hash" else ["stream"]) + [str(seed), str(ms), "STATE"] + hs + big
                r = b.run(a, max(5, min(end - time.time(), ms / 1000 + (90 if big or len(hs) else 20))), "frame" in kinds)
                if r and "hang" in r:
                    r = {"result": "no termination within %d s: %s" % (ms / 1000 + 20, r["hang"][:2000])} if "term" in kinds or "lost" in kinds else None
                if r:
                    r["how"] = "replay %s on %s, %s %s" % (" ".join(a), cfgname, " ".join(flags), san)
                    return r
            if cfg.replay is None:
                r = interpret(what, fn, cfg, bs, seed, min(end, time.time() + (8 if ms < 5000 else 25)))
                if r:
                    return r
    return None


# ------------------------------------------------------------------ concrete execution of the IR

def interpret(what, fn, cfg, bs, seed, end):
    from exec import Exec, State, Unsupported, Solver
    import tasks
    import stream
    import llvmir
    rng = random.Random(seed)
    unit = funcs.UNIT[fn] if what == "hash" else "t1ha2"
    try:
        mod = tasks.module(cfg.name, unit)
    except OSError:
        return None
    W = mod.W

    def region(ex, st, name, data, off):
        r = ex.region(name, "ro", off + len(data) + 4096, None, 12)
        junk = bytes(rng.randrange(256) for _ in range(off))
        r.data = list(junk + data) + [rng.randrange(256) for _ in range(4096)]
        st.exact.append(t.addc(r.base, r.size))
        return t.addc(r.base, off)

    def mk():
        ex = Exec(mod, Solver(), {"align64": cfg.align64}, {}, None)
        ex.concrete = True
        return ex

    def hash_once(n, sd, off, data):
        sp = funcs.SPECS[fn]
        ex = mk()
        st = State()
        P = region(ex, st, "key", data, off)
        args = [P, const(W, n), const(64, sd)]
        o = None
        if sp.outs == 2:
            o = ex.region("extra", "mut", 8, None, 3)
            args = [o.base] + args
        ends = ex.call(fn, args, st)
        want = spec.evaluate(sp, data, sd)
        got = []
        for s, v in ends:
            got = [v.a if v.op == "c" else None]
            if o is not None:
                x = ex.read(s, o, const(W, 0), 8)
                got.append(x.a if x.op == "c" else None)
        if len(ends) != 1 or got != want[:len(got)]:
            if len(ends) == 1 and None in got:
                return None
            return {"result": "%s(address%%4096=%d, length=%d, seed=0x%x) data=%s -> %s, specified %s" %
                    (fn, off, n, sd, data.hex()[:1400], [hex(x) for x in got if x is not None], [hex(x) for x in want]),
                    "how": "execution of the %s code (%s)" % (cfg.name, cfg.target)}
        return None

    def contents(n, c):
        return bytes(rng.randrange(256) for _ in range(n)) if c % 3 == 0 else bytes([0 if c % 3 == 1 else 255]) * n

    def seeds(c):
        return [rng.getrandbits(64), 0, (1 << 64) - 1, 1 << rng.randrange(64)][c % 4]

    def stream_once(hist, sd, wide):
        lay = stream.Layout(cfg) if not hasattr(cfg, "_lay") else cfg._lay
        cfg._lay = lay
        ex = mk()
        st = State()
        ctx = ex.region("ctx", "mut", lay.size, None, 6)
        for o in range(lay.size):
            ex.write(st, ctx, const(W, o), 1, const(8, rng.randrange(256)))
        cur = ex.call("t1ha2_init", [ctx.base, const(64, sd[0]), const(64, sd[1])], st)
        msg = b""
        for i, (off, data) in enumerate(hist):
            if len(cur) != 1:
                return None
            st = cur[0][0]
            msg += data
            cur = ex.call("t1ha2_update", [ctx.base, region(ex, st, "d%d" % i, data, off), const(W, len(data))], st)
        if len(cur) != 1:
            return None
        o = ex.region("extra", "mut", 8, None, 3)
        cur = ex.call("t1ha2_final", [ctx.base, o.base if wide else const(W, 0)], cur[0][0])
        if len(cur) != 1:
            return None
        s, v = cur[0]
        r64, (lo, hi) = spec.stream(msg, sd[0], sd[1])
        got = [v.a if v.op == "c" else None]
        want = [lo, hi] if wide else [r64]
        if wide:
            x = ex.read(s, o, const(W, 0), 8)
            got.append(x.a if x.op == "c" else None)
        if None not in got and got != want:
            return {"result": "init(0x%x,0x%x) %s final(%s) -> %s, specified %s" %
                    (sd[0], sd[1], " ".join("update(%d bytes at %d: %s)" % (len(d), o_, d.hex()[:400]) for o_, d in hist),
                     "128" if wide else "64", [hex(x) for x in got], [hex(x) for x in want]),
                    "how": "execution of the %s code (%s)" % (cfg.name, cfg.target)}
        return None

    try:
        if what == "hash":
            for h in hints(bs):
                ln, sd, ad, by = h.split(":")
                if int(ln) > 3000:
                    continue
                for c in range(6):
                    d = bytearray(contents(int(ln), c))
                    for kv in by.split(","):
                        if kv:
                            o, v = kv.split("=")
                            if int(o) < len(d):
                                d[int(o)] = int(v)
                    r = hash_once(int(ln), int(sd) if sd != "-" and c < 4 else seeds(c), int(ad) if ad != "-" and c < 5 else c, bytes(d))
                    if r:
                        return r
            c = 0
            while time.time() < end:
                n = c % 140 if c % 3 else rng.randrange(600)
                r = hash_once(n, seeds(rng.randrange(4)), rng.randrange(17), contents(n, rng.randrange(3)))
                if r:
                    return r
                c += 1
        else:
            c = 0
            hs = [tuple(map(int, h.split(":"))) for h in shints(bs)]
            while time.time() < end:
                if c < 4 * len(hs):
                    p, l, tot, wide = hs[c // 4]
                    if l > 3000:
                        c += 1
                        continue
                    ls = [p, l, rng.randrange(40)]
                else:
                    ls = [rng.randrange(70) for _ in range(rng.randrange(5))]
                r = stream_once([(rng.randrange(9), contents(n, rng.randrange(3))) for n in ls],
                                (seeds(rng.randrange(4)), seeds(rng.randrange(4))), rng.randrange(2))
                if r:
                    return r
                c += 1
    except Exception as e:
        print("replay on %s: %s" % (cfg.name, e))
    return None


def again(path):
    import json
    with open(path) as f:
        r = json.load(f)
    print(json.dumps(r.get("failing_input") or r.get("obligation"), indent=1))
    return 1
