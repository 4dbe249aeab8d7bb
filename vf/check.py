"""Check of one property:  python3-vt -m vf.check C01 [quick|thorough]
                           python3-vt -m vf.check --replay FILE

Exit 0: every obligation generated from /repo's current source was discharged (or,
where the code is out of the engine's reach, the bounded stand-in found nothing).
Exit 1: VIOLATION line; the replay file holds a failing input for the real code and
the failed obligations, or only those where no failing input was found.
"""
import ast
import json
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor, as_completed
from multiprocessing import get_context

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = [
    "CPython semantics as modelled by vf/engine.py (expressions, statements, calls, closures, exceptions of the subset the code uses)",
    "re: Pattern.sub calls the callback once per match, left to right, and keeps the text between; sre matching as the backtracking semantics of vf/rx.py",
    "str/dict/list/enumerate/zip/itertools.count/join/format models of vf/engine.py",
    "Mapping/Sequence parameter objects obey their ABC: item listing, lookup and length agree and do not change during a call",
    "z3 4.x (SMT back end; models are re-checked by cvc5 where VF_SECOND is set)",
    "the meta-lemmas of vf/theory.py (sum and first/last-index lemmas, proved on paper in DESIGN.md)",
]


def hints():
    """Constants of the code under test, as ingredients for the directed search."""
    ss, ns = set(), set()
    d = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "sqlparams")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f.startswith("_meta"):
            continue
        try:
            tree = ast.parse(open(os.path.join(d, f)).read())
        except SyntaxError:
            continue
        doc = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 12:
                    ss.add(v)
                elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 20000:
                    ns |= {v, v + 1, max(0, v - 1)}
    return sorted(ss), sorted(ns)


def _run(pid, task, limit, scale=1):
    from . import smt, tasks
    smt.TIMEOUT = 8000 * scale
    return tasks.run_task(pid, task, limit)


def is_open(o):
    return o[1] not in ("proved", "finding")


def prove(pid, tier, seconds):
    """Run all tasks of the property in parallel; returns the list of results."""
    from . import tasks
    ts = tasks.tasks(pid, tier)
    end = time.time() + seconds
    limit = 400 if tier == "quick" else 600
    ctx = get_context("fork")

    def run(ts, procs, scale, children):
        out = []
        with ctx.Pool(procs, maxtasksperchild=children) as pool:
            rs = [(t, pool.apply_async(_run, (pid, t, limit, scale))) for t in ts]
            for t, r in rs:
                try:
                    out.append(r.get(timeout=max(0.1, end - time.time())))
                except Exception as e:
                    out.append(dict(label=t.label, obs=[], functions=[], paths=0, err=("timeout" if not str(e) else "error", repr(e)[:300]),
                                    seconds=0, states=0, smt={}))
            pool.terminate()
        return out
    out = run(ts, 8, 1, 30)
    # an obligation may be open only because the solver was short of time: ask again, with more
    again = [n for n, r in enumerate(out) if any(is_open(o) for o in r["obs"]) or r["err"] and r["err"][0] == "timeout"]
    left = end - time.time()
    if again and len(again) <= 24 and left > 30:
        for n, r in zip(again, run([ts[n] for n in again], 4, 4, 1)):
            if not r["err"] or out[n]["err"]:
                out[n] = r
    return out


def main(argv):
    if argv and argv[0] == "--replay":
        from . import search
        return search.replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(pid, tier, seed)


def check(pid, tier, seed):
    from . import search
    t0 = time.time()
    full = tier == "thorough"
    results = prove(pid, tier, 3000 if full else 560)
    obs = [(n, s, d) for r in results for n, s, d in r["obs"]]
    done = [o for o in obs if o[1] in ("proved", "finding")]
    open_ = [o for o in obs if is_open(o)]
    undecided = [r for r in results if r["err"]]
    t1 = time.time()
    print("%s %s: %d tasks, %d obligations, %d discharged, %d open, %d tasks undecided (%.0f s)" % (
        pid, tier, len(results), len(obs), len(done), len(open_), len(undecided), t1 - t0))
    for o in open_[:6]:
        print("  open: %s %s" % (o[0][:200], str(o[2])[:200]))
    for r in undecided[:6]:
        print("  undecided: %s: %s" % (r["label"], r["err"]))
    clean = not open_ and not undecided and obs
    secs = (120 if full else 12) if clean else (400 if full else 75)
    try:
        s = search.search(pid, secs, seed, hints=hints())
    except Exception as e:
        if "PicklingError" in repr(e):
            raise
        s = dict(n=0, judged=0, distinct=0, known={}, found=None, samples=[], error=repr(e))
        print("  search failed: %r" % e)
    rc, violations = 0, 0
    path = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
    failed = [dict(obligation=o[0], status=o[1], detail=o[2]) for o in open_[:20]]
    if s["found"]:
        case, msg = s["found"]
        search.write_replay(path, pid, case, msg, dict(obligations=failed, undecided=[[r["label"], r["err"]] for r in undecided[:10]]))
        print("  %s" % msg[:300])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc, violations = 1, 1
    elif open_:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=pid, obligations=failed, open=len(open_), note="the verifier does not accept the obligation; no failing input was found",
                           searched=s["judged"]), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc, violations = 1, 1
    from . import known
    for k in known.FINDINGS:
        if k.startswith(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, known.TEXT[k]))
    evidence(pid, tier, seed, results, obs, done, open_, undecided, s, time.time() - t0, violations, t1 - t0)
    return rc


def evidence(pid, tier, seed, results, obs, done, open_, undecided, s, wall, violations, prove_s):
    from . import known, theory
    smt = {}
    for r in results:
        for k, v in r["smt"].items():
            smt[k] = smt.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["functions"]})
    cov = dict(
        obligations=len(obs), discharged=len(done), open=[o[0] for o in open_[:50]],
        undecided=[[r["label"], list(r["err"])] for r in undecided[:50]],
        undecided_note="tasks whose code is outside the engine's reach; covered only by the bounded stand-in below" if undecided else "none",
        checker_cmd="cd /verif && python3-vt -m vf.check %s %s" % (pid, tier),
        functions_under_contract=funcs, configurations=len(results), symbolic_paths=sum(r["paths"] for r in results),
        back_ends=dict(z3_queries=smt.get("queries", 0), z3_valid=smt.get("valid", 0), z3_sat=smt.get("sat", 0), z3_unknown=smt.get("unknown", 0),
                       z3_seconds=round(smt.get("seconds", 0), 1), cached=smt.get("cached", 0), cvc5_rechecked=smt.get("cvc5", 0),
                       regex_equivalence_states=sum(r["states"] for r in results)),
        prover_seconds=round(prove_s, 1), task_seconds=round(sum(r["seconds"] for r in results), 1),
        trusted_base=TRUSTED + ["%s: %s" % kv for kv in sorted(theory.AXIOMS.items())],
        sample_obligations=[o[0] for o in obs[:: max(1, len(obs) // 6)]][:6],
        bounded_cross_check=dict(label="bounded: random and directed executions of the real code judged by vf/oracles.py; not counted as proved",
                                 evaluations=s["n"], judged=s["judged"], distinct_nontrivial=s["distinct"],
                                 known_findings_hit=s["known"], samples=s["samples"]),
        evaluations=s["n"], distinct_nontrivial=s["distinct"],
        rule="cases are drawn by vf/search.py for this property; non-trivial: in the property's domain, distinct by configuration, query and parameters",
        samples=s["samples"],
    )
    from . import tasks
    d = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov,
             assumptions=TRUSTED + tasks.ASSUMPTIONS.get(pid, []), wall_s=round(wall, 1), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % pid), "w") as f:
        json.dump(d, f, indent=1, default=str)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1:]))
