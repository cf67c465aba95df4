#!/usr/bin/env python3
"""check <property> [--thorough]   |   check --replay <file>"""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import config
import props
import tasks
import replay

ROOT = os.path.dirname(HERE)
NPROC = max(1, min(8, len(os.sched_getaffinity(0))))


def quiet_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run(pid, tier, seed):
    t0 = time.time()
    prop = props.PROPS[pid]
    # wall-clock limits: proof, then the search for a failing input
    limit = 620 if tier == "quick" else 6 * 3600
    work = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    tasks.IRDIR = work
    results = []
    unfinished = []
    try:
        todo = (prop.thorough if tier == "thorough" else prop.quick)()
        if any(x[0] in ("hash", "stream") for x in todo):
            todo = list(todo) + props.SCHOOLBOOK
        units = []
        for x in todo:
            for u in tasks.units_of(x):
                if u not in units:
                    units.append(u)
        bad = []

        def take(r):
            results.append(r)
            bad.extend(b for b in r.bad if b["kind"] in prop.kinds or b["kind"] == "reach")

        if units:
            with mp.Pool(NPROC, quiet_worker) as pool:
                for r in pool.imap_unordered(tasks.stage1, units):
                    take(r)
                    if r.proved is not None:
                        tasks.PROVED[r.task[1:3]] = r.proved
        broken = set(r.task[1:3] for r in results if r.proved is None)
        todo = [x for x in todo if not any(u in broken for u in tasks.units_of(x))]
        # the same code compiled from the same text twice is verified once
        seen, kept, same = {}, [], 0
        for x in todo:
            k = dedupe_key(x, work)
            if k is not None and k in seen:
                same += 1
                continue
            seen[k] = x
            kept.append(x)
        todo = kept
        pool = mp.Pool(NPROC, quiet_worker, maxtasksperchild=20)
        try:
            pend = [(x, pool.apply_async(tasks.stage2, (x,))) for x in todo]
            first_bad = None
            while pend:
                rest = []
                for x, a in pend:
                    if a.ready():
                        take(a.get())
                    else:
                        rest.append((x, a))
                moved = len(rest) != len(pend)
                pend = rest
                now = time.time()
                if bad and first_bad is None:
                    first_bad = now
                if pend and (now - t0 > limit or (first_bad and now - first_bad > (15 if tier == "quick" else 300))):
                    unfinished = [x for x, a in pend]
                    break
                if not moved:
                    time.sleep(0.02)
        finally:
            pool.terminate()
            pool.join()
        undecided = bool(unfinished and not bad)
        if undecided:
            for x in unfinished:
                bad.append(dict(kind="reach", where=str(x[2]), fn="t1ha2_" + x[2] if x[0] == "stream" else x[2], cfg=x[1], desc="obligations discharged within the time limit",
                                case=str(x[3:])[:200], output="time limit of %d s reached" % limit, backend="-", hint=None))
        nob = sum(sum(n for (k, be), n in r.counts.items() if k in prop.kinds) for r in results)
        if not bad and nob == 0:
            bad.append(dict(kind="reach", where=pid, cfg="-", desc="at least one obligation is generated", case="", output="", backend="-", hint=None))
        viol = 0
        if bad:
            viol = report(pid, tier, seed, bad, work, undecided)
        evidence(pid, tier, seed, prop, results, unfinished, bad, time.time() - t0, same)
        return viol
    finally:
        shutil.rmtree(work, ignore_errors=True)


_sha = {}


def dedupe_key(task, work):
    if task[0] not in ("hash", "stream", "verdict"):
        return None
    cfg = config.CONFIGS[task[1]]
    (c, u), = tasks.units_of(task)
    if (c, u) not in _sha:
        with open(os.path.join(work, "%s.%s.ll" % (c, u)), "rb") as f:
            _sha[(c, u)] = hashlib.sha256(f.read()).hexdigest()
    return (_sha[(c, u)], cfg.align64, cfg.strict_align, cfg.oneshot, task[0], str(task[2:]))


def report(pid, tier, seed, bad, work, undecided):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    for b in bad[:8]:
        print("failed obligation [%s] %s (%s, %s): %s" % (b["kind"], b["where"], b["cfg"], b["case"], b["desc"]))
    try:
        found = replay.search(pid, bad, work, seed, 150 if tier == "quick" else 900)
    except Exception as e:
        found = None
        print("replay: %s" % e)
    if not found and all(b["kind"] == "build" for b in bad[:1]):
        found = {"input": "the build itself", "result": bad[0]["output"]}
    rec = {"property": pid, "seed": seed, "obligation": {k: bad[0][k] for k in ("kind", "where", "cfg", "case", "desc", "backend")},
           "verifier_output": bad[0]["output"], "counterexample": bad[0]["hint"],
           "failed_obligations": [{k: b[k] for k in ("kind", "where", "cfg", "case", "desc", "backend", "output")} for b in bad[:40]],
           "failing_input": found}
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    if found:
        print("failing input: %s" % str(found.get("result"))[:700])
    if undecided and not found:
        print("%s: the time limit was reached before every obligation was discharged" % pid)
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"))
    sys.stdout.flush()
    return 1


def evidence(pid, tier, seed, prop, results, unfinished, bad, wall, same):
    by, fn, sn, stt = {}, set(), {}, {}
    helpers, inl, notes, con = set(), set(), set(), set()
    cfgs = set()
    total = disc = cases = paths = loops = 0
    for r in results:
        for (k, be), n in r.counts.items():
            by.setdefault(k, {}).setdefault(be, 0)
            by[k][be] += n
            if k in prop.kinds or r.task[0] == "helpers":
                disc += n
        for k, v in r.solver_n.items():
            sn[k] = sn.get(k, 0) + v
        for k, v in r.solver_t.items():
            stt[k] = round(stt.get(k, 0) + v, 2)
        cases += r.cases
        paths += r.paths
        loops += r.loops
        con |= r.contracts
        inl |= r.inlined
        cfgs.add(r.task[1])
        if r.task[0] == "helpers":
            helpers |= r.functions
            notes |= r.notes
        else:
            fn |= r.functions
    fn |= helpers
    total = disc + len(bad)
    level = getattr(prop, "level", "proof")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "obligations": total, "discharged": disc,
              "checker_cmd": "./check %s%s" % (pid, " --thorough" if tier == "thorough" else ""),
              "trusted_base": props.TRUSTED,
              "obligations_by_kind_and_back_end": by,
              "functions_under_contract": sorted(fn),
              "helper_contracts_proved": sorted(helpers),
              "callees_verified_in_place": sorted(inl)[:80],
              "configurations": sorted(cfgs),
              "cases": cases, "returning_paths": paths, "loop_invariants_proved": loops,
              "solver_queries": sn, "solver_seconds": stt,
              "decides_with": sorted(prop.kinds),
              "tasks_with_identical_code_skipped": same,
              "notes": sorted(notes)[:40],
              "unfinished_tasks": len(unfinished)},
          "assumptions": props.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(bad)}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d failed, %d configurations, %.1f s" % (pid, total, disc, len(bad), len(cfgs), wall))


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in sys.argv:
        return replay.again(a[0])
    return run(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
