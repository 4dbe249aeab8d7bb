"""Verification tasks of each property: which summaries, which obligations.

A task runs in its own process: it symbolically executes the current source in
one configuration and discharges the property's obligations over the result.
"""
import signal
import time
import traceback

from . import contracts as C
from . import contracts2 as C2
from . import engine, rx, smt, spec, view
from .contracts import Sink
from .engine import Unsupported
from .spec import Cfg, STYLES
from .view import NoForm, summarize


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def cost(i, o, many):
    """Rough relative cost, to schedule the long tasks first."""
    ki, ko = spec.KIND[i], spec.KIND[o]
    c = 1
    if ko == "numeric":
        c = 6 if ki != "ordinal" else 3
        if i == "named_oracle":
            c *= 4
    return c * (4 if many and ko == "numeric" else 2 if many else 1)


def pairs():
    return [(i, o) for i in STYLES for o in STYLES]


def cfgs(expand=(True, False), escape=(None,), quotes=(None,), keep=None):
    out = []
    for i, o in pairs():
        for e in expand:
            for x in escape:
                for q in quotes:
                    c = Cfg(i, o, escape=x, expand=e, quotes=q if o == "named_oracle" else None)
                    if q is not None and o != "named_oracle":
                        continue
                    if keep is None or keep(c):
                        out.append(c)
    return out


def strip_on(c):
    return Cfg(c.ins, c.outs, escape=c.escape, expand=c.expand, strip=True, quotes=c.quotes)


class Task:
    def __init__(self, fn, args, label, cost=1):
        self.fn, self.args, self.label, self.cost = fn, args, label, cost


def _ob(pid, names, many=False):
    """Task: obligations `names` (functions of contracts.py) over one summary."""
    def make(c):
        return Task("run_ob", (pid, names, many, c), "%s%s" % (c, ".formatmany" if many else ".format"), cost(c.ins, c.outs, many))
    return make


def _pair(pid, both, many):
    return lambda c: Task("run_pair", (pid, both, many, c), "%s.format/formatmany" % c, 5 * cost(c.ins, c.outs, True))


def _many(pid, per_view, per_run, many=True):
    return lambda c: Task("run_all", (pid, per_view, per_run, many, c), "%s.%s" % (c, "formatmany" if many else "format"), cost(c.ins, c.outs, many))


def _run1(pid, name):
    return lambda c: Task("run_all", (pid, [], [name], False, c), "%s.format" % c, cost(c.ins, c.outs, False))


def run_ob(sink, pid, names, many, cfg):
    r = summarize(cfg, many)
    note_run(sink, r)
    vs = C.views(r)
    if not vs:
        sink.add("some call succeeds", "unproved", "no successful path in the summary")
    for v in vs:
        reach(sink, v)
        for n in names:
            getattr(C, n)(sink, v)


def run_pair(sink, pid, both, many, cfg):
    """Obligations that relate the summaries of format and formatmany."""
    a, b = summarize(cfg, False), summarize(cfg, True)
    note_run(sink, a)
    note_run(sink, b)
    for n in both:
        getattr(C, n)(sink, a, b)
    for r in (a, b):
        for v in C.views(r):
            reach(sink, v)
            for n in many:
                getattr(C, n)(sink, v)


def run_all(sink, pid, per_view, per_run, many, cfg):
    r = summarize(cfg, many)
    note_run(sink, r)
    for n in per_run:
        getattr(C, n)(sink, r)
    if per_view:
        vs = C.views(r)
        if not vs:
            sink.add("some call succeeds", "unproved", "no successful path in the summary")
        for v in vs:
            reach(sink, v)
            for n in per_view:
                getattr(C, n)(sink, v)


def run_fn(sink, pid, name, *args):
    getattr(C, name)(sink, *args)


def reach(sink, v):
    """Vacuity guard: the path condition is not contradictory."""
    sink.add("%s path is reachable" % C.pathname(v), "proved" if smt.check(v.facts) != "unsat" else "vacuous")


def note_run(sink, r):
    sink.functions |= {n for n in r.m.functions}
    sink.paths += len(r.outs)
    sink.effects += list(r.m.effects)


def run_cfg(sink, pid, name, cfg, many):
    getattr(C2, name)(sink, cfg, many)


def run_fn2(sink, pid, name, *args):
    getattr(C2, name)(sink, *args)


def _cfg(pid, name, many):
    return lambda c: Task("run_cfg", (pid, name, c, many), "%s %s.%s" % (name, c, "formatmany" if many else "format"), cost(c.ins, c.outs, many))


FN = dict(run_ob=run_ob, run_pair=run_pair, run_fn=run_fn, run_all=run_all, run_cfg=run_cfg, run_fn2=run_fn2)


# ------------------------------------------------------------------ task lists
def tasks(pid, tier):
    full = tier == "thorough"
    T = []
    E2 = (None, True)

    def add(maker, cs):
        T.extend(maker(c) for c in cs)
    if pid == "C01":
        add(_ob(pid, ["ob_total", "ob_binding"]), cfgs(escape=E2))
        if full:
            add(_ob(pid, ["ob_total", "ob_binding"]), cfgs(escape=("\\", "%"), quotes=(None, True, False)))
    elif pid == "C02":
        add(_ob(pid, ["ob_text"]), cfgs(keep=lambda c: not c.pct))
        add(_ob(pid, ["ob_text"], True), cfgs(keep=lambda c: not c.pct))
    elif pid == "C03":
        add(_ob(pid, ["ob_total", "ob_vocab"]), cfgs(escape=E2))
        if full:
            add(_ob(pid, ["ob_total", "ob_vocab"], True), cfgs(escape=E2))
    elif pid == "C04":
        add(_ob(pid, ["ob_shape", "ob_expansion"]), cfgs(escape=E2))
    elif pid == "C07":
        add(_ob(pid, ["ob_numbering"]), cfgs(escape=E2, keep=lambda c: c.ko == "numeric"))
    elif pid == "C08":
        add(_ob(pid, ["ob_exact"]), cfgs(escape=E2))
        add(_ob(pid, ["ob_exact"], True), cfgs())
        if full:
            add(_ob(pid, ["ob_exact"], True), cfgs(escape=(True,)))
    elif pid == "C10":
        add(_ob(pid, ["ob_percent"]), cfgs(escape=(None, True)))
    elif pid == "C05":
        add(_pair(pid, ["ob_many_like_one"], ["ob_binding", "ob_exact", "ob_rows"]), cfgs())
        if full:
            add(_pair(pid, ["ob_many_like_one"], ["ob_binding", "ob_exact", "ob_rows"]), cfgs(escape=(True,)))
    elif pid == "C06":
        add(_many(pid, ["ob_accept"], ["ob_raise"]), cfgs(expand=(True,), escape=E2))
    elif pid == "C09":
        add(_ob(pid, ["ob_total", "ob_grammar", "ob_escape"]), cfgs(expand=(None,), escape=(None, True, "\\", "%", "a")))
        T.extend(Task("run_fn2", (pid, "ob_uniform", i), "constructor, in-style %s" % i, 8) for i in STYLES)
        T.extend(Task("run_fn", (pid, "ob_escape_chars", i, o, full), "escape characters %s->%s" % (i, o), 2) for i, o in pairs())
    elif pid == "C11":
        for many in (False, True):
            add(_cfg(pid, "ob_bytes", many), cfgs(expand=(True, False) if full else (None,)))
            add(_cfg(pid, "ob_bytes", many), [c for c in map(strip_on, cfgs(expand=(None,), escape=(True,))) if full or c.ko == "named"])
            add(_cfg(pid, "ob_other_types", many), cfgs(expand=(None,)))
    elif pid == "C12":
        for many in (False, True):
            add(_cfg(pid, "ob_strip_all", many), cfgs(expand=(True, False) if full else (None,), escape=E2 if full else (None,)))
            add(_cfg(pid, "ob_strip", many), [c for c in map(strip_on, cfgs(expand=(None,), escape=(True,))) if full or c.outs == "qmark"])
        for i, o in pairs() if full else [(i, "qmark") for i in STYLES]:
            T.append(Task("run_fn2", (pid, "ob_comment_styles", i, o, full), "comment styles %s->%s" % (i, o), 8))
    elif pid == "C13":
        for many in (False, True):
            add(_cfg(pid, "ob_frame", many), cfgs(escape=E2 if full else (None,)))
            add(_cfg(pid, "ob_frame", many), map(strip_on, cfgs(expand=(None,), escape=(True,))))
        T.extend(Task("run_fn2", (pid, "ob_construct_frame", i), "constructor, in-style %s" % (i or "unknown"), 8) for i in STYLES + [None])
    elif pid == "C14":
        add(_many(pid, ["ob_accept"], ["ob_raise"], many=False), cfgs())
        add(_many(pid, ["ob_accept"], ["ob_raise"]), cfgs(expand=(True, False) if full else (None,)))
        if full:
            add(_many(pid, ["ob_accept"], ["ob_raise"], many=False), cfgs(escape=(True,)))
    elif pid == "C15":
        T.append(Task("run_fn", (pid, "ob_unquote"), "normal form of Oracle keys", 50))
        add(_ob(pid, ["ob_total", "ob_quotes"]), cfgs(quotes=(None, True, False)))
        add(_ob(pid, ["ob_total", "ob_quotes"]), cfgs(expand=(None,), keep=lambda c: c.outs != "named_oracle"))
        add(_ob(pid, ["ob_grammar", "ob_binding"]), cfgs(quotes=(None, True, False), keep=lambda c: c.ins == "named_oracle"))
        add(_ob(pid, ["ob_binding", "ob_exact"]), cfgs(quotes=(None, True, False), keep=lambda c: c.outs == "named_oracle"))
        add(_ob(pid, ["ob_binding"], True), cfgs(expand=(None,), keep=lambda c: c.ins == "named_oracle"))
    elif pid == "C16":
        k = lambda c: c.ki != "named"  # noqa: E731
        add(_run1(pid, "ob_same_kinds"), cfgs(escape=E2, keep=k))
        add(_ob(pid, ["ob_total", "ob_binding", "ob_exact"]), cfgs(escape=E2, keep=k))
        add(_ob(pid, ["ob_binding", "ob_accept"], True), cfgs(keep=k))
    elif pid == "C17":
        add(_ob(pid, ["ob_total", "ob_grammar"]), cfgs(expand=(None,)))
    elif pid == "C18":
        T.extend(Task("run_fn2", (pid, "ob_uniform", s), "constructor state, in-style %s" % s, 2) for s in STYLES)
        T.extend(Task("run_fn2", (pid, "ob_construct", s), "constructor, in-style %s" % (s or "unknown"), 2) for s in STYLES + [None])
    T.sort(key=lambda t: -t.cost)
    return T


def run_task(pid, task, limit):
    """Runs in a worker process; returns a plain dict."""
    t0 = time.time()
    sink = Sink(pid, task.label)
    sink.functions, sink.paths, sink.effects, sink.states = set(), 0, [], 0
    err = None
    s0 = dict(smt.STATS)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        FN[task.fn](sink, *task.args)
    except NoForm as e:
        err = ("form", str(e)[:400])
    except engine.FrameViolation as e:
        if pid == "C13":
            sink.add("every write goes to an object created in the call", "unproved", str(e)[:400])
        else:
            err = ("unsupported", str(e)[:400])
    except (Unsupported, rx.Unsupported) as e:
        err = ("unsupported", str(e)[:400])
    except Timeout:
        err = ("timeout", "%d s" % limit)
    except RecursionError as e:
        err = ("recursion", str(e)[:200])
    except Exception as e:  # an error of the engine: undecided, reported
        err = ("error", "%s: %s" % (type(e).__name__, str(e)[:300]) + " " + traceback.format_exc(limit=-2)[-300:])
    finally:
        signal.alarm(0)
    return dict(label=task.label, obs=sink.obs, functions=sorted(map(str, sink.functions)), paths=sink.paths, err=err, seconds=time.time() - t0,
                states=sink.states, smt={k: smt.STATS[k] - s0.get(k, 0) for k in smt.STATS})


ASSUMPTIONS = {}
