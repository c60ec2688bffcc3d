"""Runs the check of one property: `run.py ID [--tier quick|thorough]`.

Exit status: 0 if the property held on everything that was explored, 1 after a
`VIOLATION` line, 2 if the check could not decide anything.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.setrecursionlimit(3000)

WARNED = []


def _quick_warnings():
    """Replace the slow stack-walking warning helper by a recorder."""
    import wbml.warning

    def warn_upmodule(message, category=UserWarning, *a, **k):
        WARNED.append(category.__name__ if isinstance(category, type) else str(category))

    wbml.warning.warn_upmodule = warn_upmodule


def load(ident, symbolic, fast_warnings=True):
    if fast_warnings:
        _quick_warnings()
    import lab as B  # noqa
    import matrix

    if not os.path.realpath(matrix.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print(f"matrix was imported from {matrix.__file__}, not from {REPO}")
        sys.exit(2)
    if symbolic:
        from engine import stubs, symint

        stubs.install()
        symint.install()
    return importlib.import_module(f"harness.{ident.lower()}")


# Which functions of the repository were executed symbolically.
SEEN = set()


def _trace_functions():
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    try:
        mon.use_tool_id(3, "verif")
    except ValueError:
        return
    root = os.path.realpath(REPO) + os.sep

    def start(code, offset):
        fn = code.co_filename
        if fn.startswith(root):
            SEEN.add(f"{fn[len(root):]}:{code.co_qualname}:{code.co_firstlineno}")
        return mon.DISABLE

    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


CASES = None


def _work(args):
    i, seed = args
    from engine.case import run_symbolic

    case = CASES[i]
    try:
        out = run_symbolic(case, seed)
    except BaseException as e:  # Engine failure: never a verdict.
        import traceback

        out = {
            "id": case.id,
            "status": "inconclusive",
            "paths": 0,
            "feasible_paths": 0,
            "obligations": 0,
            "candidates": [],
            "notes": [f"engine: {type(e).__name__}: {e} " + traceback.format_exc()[-300:]],
            "wall_s": 0.0,
        }
        if isinstance(e, KeyboardInterrupt):
            raise
    out["index"] = i
    out["seen"] = sorted(SEEN)
    SEEN.clear()
    return out


def replay_batch(ident, items, fast_warnings, timeout=300):
    """Run concrete replays in a fresh, unpatched process."""
    if not items:
        return []
    cmd = [sys.executable, os.path.abspath(__file__), ident, "--replay-batch"]
    if fast_warnings:
        cmd.append("--fast-warnings")
    p = subprocess.run(
        cmd, input=json.dumps(items), capture_output=True, text=True, timeout=timeout, cwd=VERIF
    )
    out = []
    for line in p.stdout.splitlines():
        if line.startswith("R "):
            out.append(json.loads(line[2:]))
    if len(out) != len(items):
        out += [{"verdict": "error", "detail": p.stderr[-400:]}] * (len(items) - len(out))
    return out


def run_replays(ident, items, fast_warnings):
    from engine.case import run_concrete

    mod = load(ident, symbolic=False, fast_warnings=fast_warnings)
    cases = {}
    for tier in ("quick", "thorough"):
        for c in mod.CASES(tier):
            cases.setdefault(c.id, c)
        if all(it["case"] in cases for it in items):
            break
    for it in items:
        verdict, detail = run_concrete(cases[it["case"]], it["values"], it["choices"])
        print("R " + json.dumps({"verdict": verdict, "detail": detail}), flush=True)


def known_findings(ident):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == ident and not d.get("fixed"):
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ident")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay-batch", action="store_true")
    ap.add_argument("--fast-warnings", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--fail-fast", action="store_true", help="stop after a few counterexamples")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    ident = a.ident

    if a.replay_batch:
        run_replays(ident, json.load(sys.stdin), a.fast_warnings)
        return 0
    if a.replay:
        it = json.load(open(a.replay))
        out = replay_batch(ident, [it], fast_warnings=False)[0]
        print(json.dumps(out, indent=1))
        return 1 if out["verdict"] == "violation" else 0

    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(ident, symbolic=True)
    _trace_functions()
    global CASES
    CASES = mod.CASES(a.tier)
    assert len({c.id for c in CASES}) == len(CASES), "case ids must be unique"
    if a.only:
        import fnmatch

        CASES = [c for c in CASES if fnmatch.fnmatch(c.id, a.only)]
    jobs = a.jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    budget = getattr(mod, "BUDGET", {}).get(a.tier, 400 if a.tier == "quick" else 780)
    order = sorted(range(len(CASES)), key=lambda i: -CASES[i].cost)

    results = [None] * len(CASES)
    if jobs == 1 and a.only:
        for i in order:
            results[i] = _work((i, seed))
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(jobs, maxtasksperchild=200)
        it = pool.imap_unordered(_work, [(i, seed) for i in order], chunksize=1)
        failing = 0
        try:
            for _ in order:
                left = budget - (time.time() - t0)
                r = it.next(timeout=max(left, 0.1))
                results[r["index"]] = r
                if a.fail_fast and r["candidates"]:
                    import fnmatch

                    failing += not any(fnmatch.fnmatchcase(r["id"], k["case"]) for k in known_findings(ident))
                    if failing >= 8:
                        break
        except mp.TimeoutError:
            pass
        pool.terminate()
        pool.join()
    return finish(ident, mod, a, results, t0, seed)


def finish(ident, mod, a, results, t0, seed):
    known = known_findings(ident)
    import fnmatch

    def is_known(case_id, label):
        for k in known:
            if fnmatch.fnmatchcase(case_id, k["case"]) and fnmatch.fnmatchcase(
                label, k.get("label", "*")
            ):
                return k
        return None

    seen = set()
    counts = {}
    items, meta = [], []
    for i, r in enumerate(results):
        if r is None:
            counts["not explored"] = counts.get("not explored", 0) + 1
            continue
        seen.update(r["seen"])
        counts[r["status"]] = counts.get(r["status"], 0) + 1
        for c in r["candidates"]:
            for m in c["models"]:
                items.append({"property": ident, "case": r["id"], "values": m, "choices": c["choices"], "label": c["label"]})
                meta.append(r["id"])
    # Replay the candidates on the real code.  Spread over cases, bounded in number.
    per_case = {}
    pick = []
    for it in items:
        n = per_case.get(it["case"], 0)
        if n < 6:
            per_case[it["case"]] = n + 1
            pick.append(it)
    # First candidates of every case come first.
    pick = pick[:1500]
    confirmed, unconfirmed = [], {}
    B = 60
    found_new = 0
    for s in range(0, len(pick), B):
        chunk = pick[s : s + B]
        for it, out in zip(chunk, replay_batch(ident, chunk, fast_warnings=True)):
            if out["verdict"] == "violation":
                it["detail"] = out["detail"]
                confirmed.append(it)
            else:
                unconfirmed.setdefault(it["case"], []).append((it["label"], out))
        new = [it for it in confirmed if not is_known(it["case"], it["detail"])]
        if len(new) >= 3:
            break
    # Witness replays: one concrete run of every decided case, on the unpatched code.
    wit_items, wit = [], 0
    bad_wit = []
    for i, r in enumerate(results):
        if r and r.get("witness"):
            wit_items.append({"property": ident, "case": r["id"], "values": r["witness"]["values"], "choices": r["witness"]["choices"], "label": "witness"})
    if not [it for it in confirmed if not is_known(it["case"], it["detail"])]:
        n = max(1, min(8, len(os.sched_getaffinity(0))))
        from concurrent.futures import ThreadPoolExecutor

        parts = [wit_items[k::n] for k in range(n)]
        with ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda p: replay_batch(ident, p, True), parts))
        for p, o in zip(parts, outs):
            for it, out in zip(p, o):
                if out["verdict"] == "ok":
                    wit += 1
                elif out["verdict"] == "violation":
                    it["detail"] = out["detail"]
                    bad_wit.append(it)
    confirmed += bad_wit

    violations = 0
    outdir = os.path.join(VERIF, "out", ident)
    os.makedirs(outdir, exist_ok=True)
    shown_known = set()
    printed = 0
    for it in confirmed:
        k = is_known(it["case"], it["detail"])
        if k is not None:
            if k["id"] not in shown_known:
                shown_known.add(k["id"])
                print(f"KNOWN-FINDING: property={ident} {k['what']}")
            continue
        violations += 1
        if printed < 3:
            path = os.path.join(outdir, f"violation-{printed}.json")
            # Confirm once more with nothing patched at all.
            final = replay_batch(ident, [it], fast_warnings=False)[0]
            if final["verdict"] != "violation":
                violations -= 1
                continue
            json.dump(it, open(path, "w"), indent=1)
            print(f"  case {it['case']}: {' '.join(it['detail'].split())[:300]}")
            print(f"VIOLATION property={ident} replay={path}")
            printed += 1
    for k in known:
        if k["id"] not in shown_known:
            print(f"note: known finding {k['id']} was not observed on this tree")

    S = lambda key: sum((r.get(key) or 0) for r in results if r)
    inconclusive = [r for r in results if r and r["status"] in ("inconclusive", "vacuous")]
    # A candidate that did not reproduce leaves its case undecided.
    undecided = [
        r["id"]
        for r in results
        if r and r["status"] == "candidate" and not any(it["case"] == r["id"] for it in confirmed)
    ]
    proved = counts.get("proved", 0)
    ev = {
        "property": ident,
        "tier": a.tier,
        "seed": seed,
        "level": mod.META.get("level", "other"),
        "coverage": {
            "explanation": mod.META["explanation"],
            "bounds": mod.META["bounds"],
            "cases": len(results),
            "cases_proved_for_all_values": proved,
            "cases_by_status": counts,
            "undecided": ([r["id"] + ": " + "; ".join(r["notes"])[:200] for r in inconclusive] + undecided)[:40],
            "paths_explored": S("paths"),
            "feasible_paths": S("feasible_paths"),
            "obligations": S("obligations"),
            "solver_queries": S("s_queries"),
            "solver_unknowns": S("s_unknown"),
            "solver_seconds": round(S("s_solver_s"), 2),
            "path_forks": S("s_forks"),
            "witnesses_replayed_on_real_code": wit,
            "candidates_replayed": len(pick),
            "functions_encoded": sorted({s.rsplit(":", 1)[0] for s in seen}),
            "samples": [CASES[i].id for i in range(0, len(CASES), max(1, len(CASES) // 8))][:10] if CASES else [],
        },
        "assumptions": mod.META.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ident}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{ident}: {len(results)} cases, {counts}, paths {S('feasible_paths')}, obligations "
        f"{S('obligations')}, queries {S('s_queries')}, solver {S('s_solver_s'):.1f} s, "
        f"witnesses {wit}, wall {time.time()-t0:.1f} s"
    )
    if inconclusive or undecided:
        print(f"undecided: {len(inconclusive) + len(undecided)}")
    if a.v:
        for r in inconclusive:
            print("  INC", r["id"], r["notes"][:2])
        for r in results:
            if r and r["id"] in undecided:
                print("  UNCONF", r["id"], r["candidates"][0]["label"], unconfirmed.get(r["id"], [])[:1])
        slow = sorted((r for r in results if r), key=lambda r: -r["wall_s"])[:12]
        from collections import Counter as _C

        grp = _C()
        for r in results:
            if r:
                grp[r["id"].split(":")[0]] += r["wall_s"]
        print("  time by group", {k: round(v, 1) for k, v in grp.most_common(12)})
        for r in slow:
            print(f"  slow {r['id']} {r['wall_s']:.1f}s paths {r['paths']}")
        from collections import Counter

        cnt = Counter()
        for it in confirmed:
            if not is_known(it["case"], it["detail"]):
                cnt[it["case"]] += 1
        for c, n in list(cnt.items())[:60]:
            d = next(it["detail"] for it in confirmed if it["case"] == c)
            print("  BAD", c, " ".join(d.split())[:200])
    if violations:
        return 1
    if proved == 0 and not shown_known:
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
