"""Property oracles: judge one concrete case of the real code.

oracle(pid)(S, case) -> None (out of scope), "" (holds) or a message (violated).
`case` is a dict with cfg plus the inputs the property quantifies over.  Every
oracle only judges what its own property states; what other properties settle
(for example the exact text when only the binding is at stake) is tolerated.
"""
import copy
import re

from . import spec
from .spec import Missing, Ambiguous


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) and same(a[x], b[y]) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def run(fn, *a):
    try:
        return ("ok", fn(*a))
    except RecursionError:
        raise
    except Exception as e:     # noqa
        return ("exc", e)


def mk(S, case, cfg):
    """An instance, after the case's earlier calls (if any) on it."""
    inst = cfg.make(S)
    for st in case.get("warm", ()):
        call(inst, st)
    return inst


FRESH = None     # set by loader: returns SQLParams of a freshly executed package


def text(sql):
    return sql.decode("latin1") if isinstance(sql, bytes) else sql


def exc_in_domain(cfg, sql, params):
    """Keys of a named_oracle parameter set must be well-formed names."""
    if cfg.ins == "named_oracle":
        return all(spec.well_formed_oracle(k) for k in params)
    return True


def situation(case):
    """Common analysis of a format() case with valid parameters, or None."""
    cfg, sql, params = case["cfg"], case["sql"], case["params"]
    s = spec.strip(cfg, text(sql))
    if not spec.usable_container(cfg, params) or not exc_in_domain(cfg, s, params):
        return None
    segs = spec.scan(cfg, s)
    try:
        den = spec.denote(cfg, s, params)
    except (Missing, Ambiguous):
        return None
    return cfg, s, params, segs, den


def clean(cfg, segs):
    """Kept text free of anything that could look like an out-placeholder."""
    bad = set(":$@%?") | {'"'}
    return all(s[0] == "par" or (s[0] == "t" and not (bad & set(s[1]))) for s in segs)


def out_replacements(cfg, segs, out):
    """Replacement texts of the placeholders left to right, or None if not determinable."""
    if not spec.unambiguous(cfg, segs):
        return None
    r = spec.align(cfg, segs, out, pct="loose", esc="loose")
    if r is not None:
        return r
    if clean(cfg, segs):
        # read the converted query by the out-style's rule
        return [m.group(0) for m in re.finditer(spec.gen_re(cfg, group=False), out)]
    return None


def resolve_out(cfg, replacements, out_params):
    """Values the out-placeholders denote, left to right."""
    vals, pos = [], 0
    for r in replacements:
        for ref in spec.refs(cfg, r):
            if cfg.ko == "ordinal":
                vals.append(out_params[pos])
                pos += 1
            elif cfg.ko == "numeric":
                n = int(ref)
                if n < 1:
                    raise IndexError(n)
                vals.append(out_params[n - 1])
            else:
                vals.append(out_params[ref])
    return vals


def reserved(cfg, segs, params):
    if cfg.ki != "named":
        return False
    return any(s[0] == "par" and spec.RESERVED.fullmatch(s[1]) for s in segs)


def fmt_str(r):
    return repr(r)[:300]


# ----------------------------------------------------------------------- C01
def c01(S, case):
    st = situation(case)
    if st is None:
        return None
    cfg, s, params, segs, den = st
    if reserved(cfg, segs, params):
        return None
    k, r = run(mk(S, case, cfg).format, case["sql"], params)
    if k == "exc":
        return "format() raised %r for a valid parameter set" % (r,)
    out, op = text(r[0]), r[1]
    reps = out_replacements(cfg, segs, out)
    if reps is None:
        return None
    want = [v for d in den for v in d[3]]
    try:
        got = resolve_out(cfg, reps, op)
    except (LookupError, TypeError) as e:
        return "a placeholder of %s is not bound by %s (%r)" % (fmt_str(out), fmt_str(op), e)
    if not same(got, want):
        return "placeholders of %s denote %s, the original ones denote %s" % (fmt_str(r), fmt_str(got), fmt_str(want))
    return ""


# ----------------------------------------------------------------------- C02
def c02(S, case):
    cfg = case["cfg"]
    if cfg.esc or cfg.comments or cfg.pct:
        return None
    sql = case["sql"]
    segs = spec.scan(cfg, text(sql))
    inst = mk(S, case, cfg)
    if "rows" in case:
        k, r = run(inst.formatmany, sql, list(case["rows"]))
    else:
        k, r = run(inst.format, sql, case["params"])
    if k == "exc":
        return None
    if spec.align(cfg, segs, text(r[0])) is None:
        return "converted query %s does not keep the text of %s" % (fmt_str(r[0]), fmt_str(sql))
    return ""


# ----------------------------------------------------------------------- C03
def c03(S, case):
    cfg = case["cfg"]
    a, b = case["params"], case["params2"]
    i1 = mk(S, case, cfg)
    i2 = i1 if case.get("same") else mk(S, case, cfg)
    k1, r1 = run(i1.format, case["sql"], a)
    k2, r2 = run(i2.format, case["sql"], b)
    if k1 == "exc" and k2 == "exc":
        return None
    if k1 == "exc" or k2 == "exc":
        e = r1 if k1 == "exc" else r2
        return "only one of two equally shaped parameter sets is converted (%r)" % (e,)
    if r1[0] != r2[0]:
        return "equally shaped parameter sets give different queries %s / %s" % (fmt_str(r1[0]), fmt_str(r2[0]))
    return ""


# ----------------------------------------------------------------------- C04
def c04(S, case):
    st = situation(case)
    if st is None:
        return None
    cfg, s, params, segs, den = st
    if reserved(cfg, segs, params):
        return None
    k, r = run(mk(S, case, cfg).format, case["sql"], params)
    if k == "exc":
        return None
    out = text(r[0])
    if not spec.unambiguous(cfg, segs):
        return None
    reps = spec.align(cfg, segs, out, pct="loose", esc="loose")
    if reps is None:
        if not clean(cfg, segs) or not den:
            return None
        # the text is kept but a placeholder has an unexpected form?
        pat = "".join("(.*?)" if x[0] == "par" else re.escape(x[1]) for x in segs)
        if re.fullmatch(pat, out, re.S):
            return "a placeholder was not replaced by the documented form: %s" % fmt_str(out)
        return None
    pos = 0
    for rep, (ident, v, ex, slots) in zip(reps, den):
        sh = spec.shape(rep)
        want = "one" if not ex else "tuple" if slots else "null"
        if sh != want:
            return "value %s became %s" % (fmt_str(v), rep)
        rs = spec.refs(cfg, rep)
        if len(rs) != len(slots):
            return "%d elements became %s" % (len(slots), rep)
        try:
            got = []
            for ref in rs:
                if cfg.ko == "ordinal":
                    got.append(r[1][pos])
                    pos += 1
                elif cfg.ko == "numeric":
                    got.append(r[1][int(ref) - 1])
                else:
                    got.append(r[1][ref])
        except LookupError as e:
            return "element of %s not bound (%r) in %s" % (fmt_str(v), e, fmt_str(r))
        if not same(got, slots):
            return "elements %s are bound to %s in %s" % (fmt_str(slots), fmt_str(got), fmt_str(r))
    if cfg.ko == "ordinal" and len(r[1]) != pos:
        return "%d placeholders but %d values" % (pos, len(r[1]))
    return ""


# ----------------------------------------------------------------------- C05
def shape_key(cfg, sql, params):
    den = spec.denote(cfg, sql, params)
    return [(d[0], len(d[3]) if d[2] else None) for d in den]


def c05(S, case):
    cfg, sql, rows = case["cfg"], case["sql"], case["rows"]
    s = spec.strip(cfg, text(sql))
    if not rows:
        return None
    try:
        keys = []
        for p in rows:
            if not spec.usable_container(cfg, p) or not exc_in_domain(cfg, s, p):
                return None
            keys.append(shape_key(cfg, s, p))
        if any(k != keys[0] for k in keys):
            return None
        if cfg.ki == "named" and any(set(p) != set(rows[0]) for p in rows):
            return None
    except (Missing, Ambiguous):
        return None
    inst = mk(S, case, cfg)
    each = [run(inst.format, sql, p) for p in rows]
    if any(k == "exc" for k, _ in each):
        return None
    src = iter(list(rows)) if case.get("iter") else list(rows)
    k, r = run(mk(S, case, cfg).formatmany, sql, src)
    if k == "exc":
        return "formatmany() raised %r where format() accepts every row" % (r,)
    if r[0] != each[0][1][0] or type(r[0]) is not type(each[0][1][0]):
        return "formatmany() query %s, format() query %s" % (fmt_str(r[0]), fmt_str(each[0][1][0]))
    want = [e[1][1] for e in each]
    if not isinstance(r[1], list) or not same(list(r[1]), want):
        return "formatmany() rows %s, format() rows %s" % (fmt_str(r[1]), fmt_str(want))
    return ""


# ----------------------------------------------------------------------- C06
def c06(S, case):
    cfg, sql, rows = case["cfg"], case["sql"], case["rows"]
    s = spec.strip(cfg, text(sql))
    try:
        for p in rows:
            if not spec.usable_container(cfg, p) or not exc_in_domain(cfg, s, p):
                return None
        dens = [spec.denote(cfg, s, p) for p in rows]
    except (Missing, Ambiguous):
        return None
    if any(len(d) != len(dens[0]) for d in dens):
        return None
    kinds = set()
    for d in dens[1:]:
        for first, later in zip(dens[0], d):
            if first[2]:
                if not isinstance(later[1], tuple):
                    kinds.add(TypeError)
                elif len(later[1]) != len(first[1]):
                    kinds.add(ValueError)
    if not kinds:
        return None
    k, r = run(mk(S, case, cfg).formatmany, sql, list(rows))
    if k == "ok":
        return "row that does not fit was accepted: %s" % fmt_str(r)
    if not isinstance(r, tuple(kinds)):
        return "%r instead of %s" % (r, "/".join(sorted(x.__name__ for x in kinds)))
    return ""


# ----------------------------------------------------------------------- C07
def c07(S, case):
    st = situation(case)
    if st is None:
        return None
    cfg, s, params, segs, den = st
    if cfg.ko != "numeric":
        return None
    if "rows" in case:
        k, r = run(mk(S, case, cfg).formatmany, case["sql"], list(case["rows"]))
    else:
        k, r = run(mk(S, case, cfg).format, case["sql"], params)
    if k == "exc":
        return None
    out = text(r[0])
    reps = out_replacements(cfg, segs, out)
    if reps is None or len(reps) != len(den):
        return None
    nums = [[int(x) for x in spec.refs(cfg, rep)] for rep in reps]
    seen = list(dict.fromkeys(n for l in nums for n in l))
    if seen != list(range(1, len(seen) + 1)):
        return "numbers by first appearance are %s in %s" % (seen, fmt_str(out))
    if cfg.ki == "ordinal":
        if sum(map(len, nums)) != len(seen):
            return "a number is used twice for an ordinal in-style: %s" % fmt_str(out)
        return ""
    by = {}
    for l, d in zip(nums, den):
        if by.setdefault(d[0], l) != l:
            return "parameter %r has numbers %s and %s" % (d[0], by[d[0]], l)
        if l != list(range(l[0], l[0] + len(l))) if l else False:
            return "expanded tuple is not one run of numbers: %s" % l
    owners = {}
    for ident, l in by.items():
        for n in l:
            if owners.setdefault(n, ident) != ident:
                return "parameters %r and %r share number %d" % (owners[n], ident, n)
    return ""


# ----------------------------------------------------------------------- C08
def c08(S, case):
    st = situation(case)
    if st is None:
        return None
    cfg, s, params, segs, den = st
    if reserved(cfg, segs, params):
        return None
    if "rows" in case:
        k, r = run(mk(S, case, cfg).formatmany, case["sql"], list(case["rows"]))
        if k == "exc":
            return None
        entries = r[1]
    else:
        k, r = run(mk(S, case, cfg).format, case["sql"], params)
        if k == "exc":
            if not den:
                return "query without placeholders: %r" % (r,)
            return None
        entries = [r[1]]
    out = text(r[0])
    reps = out_replacements(cfg, segs, out)
    if reps is None:
        return None
    flat = [x for rep in reps for x in spec.refs(cfg, rep)]
    for e in entries:
        if cfg.ko == "named":
            if type(e) is not dict or set(e) != set(flat):
                return "query %s refers to %s but parameters are %s" % (fmt_str(out), sorted(set(flat)), fmt_str(e))
        else:
            n = len(flat) if cfg.ko == "ordinal" else len(set(flat))
            if type(e) is not list or len(e) != n:
                return "query %s needs %d values but parameters are %s" % (fmt_str(out), n, fmt_str(e))
    return ""


# ----------------------------------------------------------------------- C09
def c09(S, case):
    cfg, sql = case["cfg"], case["sql"]
    if cfg.esc and len(cfg.esc) != 1:
        return None
    s = spec.strip(cfg, text(sql))
    segs = spec.scan(cfg, s)
    if cfg.pct and any(x[0] == "pct" for x in segs):
        return None
    if not cfg.esc and spec.MARK[cfg.ins] * 2 not in s:
        return None
    if cfg.esc and not any(x[0] == "esc" for x in segs) and spec.MARK[cfg.ins] * 2 not in s:
        return None
    k, r = run(mk(S, case, cfg).format, sql, case["params"])
    if k == "exc":
        try:
            spec.denote(cfg, s, case["params"])
        except Exception:
            return None
        if not spec.usable_container(cfg, case["params"]) or not exc_in_domain(cfg, s, case["params"]):
            return None
        return "%r: an escaped marker was taken for a parameter" % (r,)
    if spec.align(cfg, segs, text(r[0])) is None:
        return "escapes of %s not handled: %s" % (fmt_str(sql), fmt_str(r[0]))
    return ""


# ----------------------------------------------------------------------- C10
def c10(S, case):
    cfg, sql = case["cfg"], case["sql"]
    if cfg.esc == "%" and cfg.pct or cfg.comments:
        return None
    if not cfg.pct and cfg.esc:
        return None
    s = text(sql)
    if "%" not in s:
        return None
    segs = spec.scan(cfg, s)
    k, r = run(mk(S, case, cfg).format, sql, case["params"])
    if k == "exc":
        return None
    out = text(r[0])
    if spec.align(cfg, segs, out, pct="loose", esc="loose") is None:
        return None
    if spec.align(cfg, segs, out, pct="strict", esc="loose") is None:
        return "percent signs of %s became %s" % (fmt_str(sql), fmt_str(out))
    return ""


# ----------------------------------------------------------------------- C11
def c11(S, case):
    cfg, sql = case["cfg"], case["sql"]
    many = "rows" in case
    inst = mk(S, case, cfg)
    fn = inst.formatmany if many else inst.format
    arg = (lambda: list(case["rows"])) if many else (lambda: case["params"])
    if not isinstance(sql, (str, bytes)):
        k, r = run(fn, sql, arg())
        if k == "exc" and isinstance(r, TypeError):
            return ""
        return "query of type %s gives %s" % (type(sql).__name__, fmt_str(r))
    if isinstance(sql, str):
        k, r = run(fn, sql, arg())
        if k == "ok" and type(r[0]) is not str:
            return "text query gives %s" % type(r[0]).__name__
        return "" if k == "ok" else None
    k1, r1 = run(fn, sql, arg())
    k2, r2 = run(fn, sql.decode("latin1"), arg())
    if k2 == "exc":
        if k1 == "ok" or type(r1) is not type(r2):
            return "bytes query: %s, text query: %s" % (fmt_str(r1), fmt_str(r2))
        return ""
    if k1 == "exc":
        return "bytes query raises %r, text query gives %s" % (r1, fmt_str(r2))
    if type(r1[0]) is not bytes:
        return "bytes query gives %s" % type(r1[0]).__name__
    if r1[0] != r2[0].encode("latin1") or not same(r1[1], r2[1]):
        return "bytes query gives %s, text query gives %s" % (fmt_str(r1), fmt_str(r2))
    return ""


# ----------------------------------------------------------------------- C12
def c12(S, case):
    cfg, sql = case["cfg"], case["sql"]
    s = text(sql)
    st = spec.strip(cfg, s)
    plain = spec.Cfg(cfg.ins, cfg.outs, cfg.escape, cfg.expand, None, cfg.quotes)
    many = "rows" in case
    if not cfg.comments:
        # stripping off: nothing is removed
        return c02(S, case)
    a, b = mk(S, case, cfg), mk(S, case, plain)
    asked = s
    if case.get("bytes") and max(s, default="") <= "\xff":
        asked = s.encode("latin-1")
    if many:
        k1, r1 = run(a.formatmany, asked, list(case["rows"]))
        k2, r2 = run(b.formatmany, st, list(case["rows"]))
    else:
        k1, r1 = run(a.format, asked, case["params"])
        k2, r2 = run(b.format, st, case["params"])
    if asked is not s:
        if k1 == "exc" and isinstance(r1, UnicodeError):
            return None
        if k1 == "ok" and isinstance(r1[0], bytes):
            r1 = (r1[0].decode("latin-1"), r1[1])
    if k1 == "exc" and k2 == "exc":
        return "" if type(r1) is type(r2) else None
    if k1 == "exc":
        return "%r although the stripped query converts to %s" % (r1, fmt_str(r2))
    if k2 == "exc":
        return "removed or kept text decides a placeholder: %s" % fmt_str(r1)
    if not same(r1, r2):
        return "gives %s, expected that of the stripped query %s: %s" % (fmt_str(r1), fmt_str(st), fmt_str(r2))
    return ""


# ----------------------------------------------------------------------- C13
def snapshot(x, depth=0):
    """Structural snapshot keeping identities of leaves."""
    if depth > 6:
        return id(x)
    if isinstance(x, dict) or spec.is_map(x):
        return ("m", type(x), [(k, snapshot(x[k], depth + 1)) for k in x])
    if isinstance(x, (list, tuple)) or spec.is_seq(x):
        return ("s", type(x), [snapshot(v, depth + 1) for v in x])
    if isinstance(x, (str, bytes, int, float)):
        return x
    return id(x)


def _containers(x, acc):
    """Ids of the containers a result consists of (not of the values in it)."""
    if isinstance(x, (list, dict)):
        acc.append(x)
    return acc


def call(inst, step):
    if "rows" in step:
        rows = step["rows"]
        return run(inst.formatmany, step["sql"], iter(rows) if step.get("iter") else rows)
    return run(inst.format, step["sql"], step["params"])


def norm_result(r):
    k, v = r
    if k == "exc":
        return (k, type(v), str(v))
    return (k, v)


def c13(S, case):
    """case: steps = list of {cfg, sql, params|rows}; the last step is compared
    with the same call in isolation, after the earlier steps ran."""
    steps = case["steps"]
    instances, results = {}, []
    for st in steps:
        cfg = st["cfg"]
        inst = instances.get(cfg.key())
        if inst is None:
            inst = instances[cfg.key()] = cfg.make(S)
        arg = st["rows"] if "rows" in st else st["params"]
        before = snapshot(arg)
        r = call(inst, st)
        if snapshot(arg) != before:
            return "arguments were modified by %s on %s" % (fmt_str(st["sql"]), cfg)
        if r[0] == "ok":
            op = r[1][1]
            ins = [arg] + (list(arg) if "rows" in st and isinstance(arg, list) else [])
            outs = [op] + (list(op) if "rows" in st else [])
            for o in outs:
                if not isinstance(o, (list, dict)):
                    return "returned parameters are a %s" % type(o).__name__
                if any(o is i for i in ins):
                    return "a returned container is one of the arguments"
                for prev in results:
                    if any(o is p for p in prev):
                        return "a returned container was already returned before"
            if len(set(map(id, outs))) != len(outs):
                return "one container was returned for several rows"
            results.append(outs)
            frozen = copy.copy(outs), [snapshot(o) for o in outs]
            st["_frozen"] = frozen
        for st2 in steps:
            fz = st2.get("_frozen")
            if fz and [snapshot(o) for o in fz[0]] != fz[1]:
                return "a result returned earlier was modified later"
        if st is not steps[-1] or not case.get("ref", True):
            continue
        # reference: the same call alone
        ref = call(cfg.make(FRESH()), st)
        if norm_result(ref)[:2] != norm_result(r)[:2] and not (
                r[0] == ref[0] == "ok" and same(r[1], ref[1])) and not (
                r[0] == ref[0] == "exc" and type(r[1]) is type(ref[1])):
            return "after earlier calls: %s, in isolation: %s" % (fmt_str(r[1]), fmt_str(ref[1]))
    return ""


# ----------------------------------------------------------------------- C14
def c14(S, case):
    cfg, sql = case["cfg"], case["sql"]
    s = spec.strip(cfg, text(sql))
    inst = mk(S, case, cfg)
    if "rows" in case:
        rows = case["rows"]
        if not rows:
            return None
        if not all(spec.usable_container(cfg, p) for p in rows):
            if not all(spec.usable_container(cfg, p) and exc_in_domain(cfg, s, p) for p in rows[:1]):
                if spec.usable_container(cfg, rows[0]):
                    return None
            else:
                try:
                    sh = None
                    for p in rows:
                        if not spec.usable_container(cfg, p):
                            break
                        k0 = shape_key(cfg, s, p)
                        if sh is not None and k0 != sh:
                            return None
                        sh = k0
                except (Missing, Ambiguous):
                    return None
            k, r = run(inst.formatmany, sql, list(rows))
            if k == "ok" or not isinstance(r, TypeError):
                return "row that is no valid container: %s" % fmt_str(r)
            return ""
        try:
            if not all(exc_in_domain(cfg, s, p) for p in rows):
                return None
            shapes, missing = [], False
            for p in rows:
                try:
                    shapes.append(shape_key(cfg, s, p))
                except Missing:
                    missing = True
                    break
        except Ambiguous:
            return None
        if any(x != shapes[0] for x in shapes):
            return None
        if not missing:
            return None
        if cfg.ins == "named_oracle" and any(set(p) != set(rows[0]) for p in rows):
            pass
        k, r = run(inst.formatmany, sql, list(rows))
        if k == "ok" or not isinstance(r, LookupError):
            return "a row lacks a referenced parameter: %s" % fmt_str(r)
        return ""
    params = case["params"]
    if not spec.usable_container(cfg, params):
        k, r = run(inst.format, sql, params)
        if k == "ok" or not isinstance(r, TypeError):
            return "%s as parameters: %s" % (type(params).__name__, fmt_str(r))
        return ""
    if not exc_in_domain(cfg, s, params):
        return None
    try:
        spec.denote(cfg, s, params)
        missing = False
    except Missing:
        missing = True
    except Ambiguous:
        return None
    k, r = run(inst.format, sql, params)
    if missing:
        if k == "ok" or not isinstance(r, LookupError):
            return "a referenced parameter is missing: %s" % fmt_str(r)
    elif k == "exc":
        return "valid parameters raise %r" % (r,)
    return ""


# ----------------------------------------------------------------------- C15
def c15(S, case):
    cfg, sql, params = case["cfg"], case["sql"], case["params"]
    if "named_oracle" not in (cfg.ins, cfg.outs) and not cfg.quotes:
        return None
    s = spec.strip(cfg, text(sql))
    if not spec.usable_container(cfg, params):
        return None
    segs = spec.scan(cfg, s)
    pars = [x for x in segs if x[0] == "par"]
    inst = mk(S, case, cfg)
    k, r = run(inst.format, sql, params)
    if cfg.ins == "named_oracle" and not all(spec.well_formed_oracle(x) for x in params):
        if not all(isinstance(x, str) for x in params):
            return None
        if not pars:
            return None
        # keys are met in order until the wanted one is found
        for p in pars:
            want = p[1] if p[2] else p[1].upper()
            found = False
            for key in params:
                if not spec.well_formed_oracle(key):
                    if k == "ok" or not isinstance(r, KeyError):
                        return "unbalanced key %r: %s" % (key, fmt_str(r))
                    return ""
                if spec.oracle_key(key) == want:
                    found = True
                    break
            if not found:
                return ""
        return None
    # candidates per placeholder (every acceptable key)
    cands = []
    for n, p in enumerate(pars):
        if cfg.ins == "named_oracle":
            want = p[1] if p[2] else p[1].upper()
            hits = [params[x] for x in params if spec.oracle_key(x) == want]
            if not hits:
                if k == "ok" or not isinstance(r, KeyError):
                    return "no key for %r: %s" % (p[3], fmt_str(r))
                return ""
        else:
            try:
                hits = [spec.resolve(cfg, params, p[1], p[2], n)[1]]
            except (Missing, Ambiguous):
                return None
        cands.append(hits)
    if k == "exc":
        if cfg.ins == "named_oracle":
            return "matching keys exist but %r" % (r,)
        return None
    if reserved(cfg, segs, params) or not spec.unambiguous(cfg, segs):
        return None
    out = text(r[0])
    reps = spec.align(cfg, segs, out, pct="loose", esc="loose")
    if reps is None:
        return None
    pos = 0
    for rep, hits in zip(reps, cands):
        rs = spec.refs(cfg, rep)
        if cfg.ko == "named":
            for ref in rs:
                if (ref.startswith('"')) != cfg.oq:
                    return "quoting of %s with allow_out_quotes=%r" % (rep, cfg.quotes)
                if ref not in r[1]:
                    return "%s not among returned keys %s" % (ref, sorted(r[1]))
            for key in r[1]:
                if key.startswith('"') != cfg.oq or key.endswith('"') != cfg.oq:
                    return "quoting of returned key %r" % key
        if cfg.ins == "named_oracle":
            if cfg.ko == "ordinal":
                got = r[1][pos:pos + len(rs)]
                pos += len(rs)
            elif cfg.ko == "numeric":
                got = [r[1][int(x) - 1] for x in rs]
            else:
                got = [r[1].get(x) for x in rs]
            val = tuple(got) if spec.shape(rep) != "one" else got[0]
            if not any(same(val, h) if not (spec.shape(rep) != "one") else
                       isinstance(h, tuple) and same(got, list(h)) for h in hits):
                return "%s is bound to %s" % (rep, fmt_str(val))
    return ""


# ----------------------------------------------------------------------- C16
def c16(S, case):
    cfg, sql = case["cfg"], case["sql"]
    if cfg.ki == "named":
        return None
    inst = mk(S, case, cfg)
    if "rows" in case:
        k1, r1 = run(inst.formatmany, sql, list(case["rows"]))
        k2, r2 = run(inst.formatmany, sql, list(case["rows2"]))
    else:
        k1, r1 = run(inst.format, sql, case["params"])
        k2, r2 = run(inst.format, sql, case["params2"])
    if k1 == "exc" and k2 == "exc":
        return None
    if k1 == "exc" or k2 == "exc":
        return "sequence gives %s, equivalent mapping gives %s" % (fmt_str(r1), fmt_str(r2))
    if not same(r1, r2):
        return "sequence gives %s, equivalent mapping gives %s" % (fmt_str(r1), fmt_str(r2))
    return ""


# ----------------------------------------------------------------------- C17
def c17(S, case):
    cfg, sql, params = case["cfg"], case["sql"], case["params"]
    if cfg.esc or cfg.comments:
        return None
    s = text(sql)
    segs = spec.scan(cfg, s)
    try:
        den = spec.denote(cfg, s, params)
    except (Missing, Ambiguous):
        den = None
    if den is None or not spec.usable_container(cfg, params) or not exc_in_domain(cfg, s, params):
        return None
    k, r = run(mk(S, case, cfg).format, sql, params)
    if k == "exc":
        if any(x[0] == "par" for x in segs) and isinstance(r, (KeyError, IndexError)) or not den:
            return "%r: something else was taken for a placeholder" % (r,)
        return None
    out = text(r[0])
    if out_replacements(cfg, segs, out) is None:
        if not spec.unambiguous(cfg, segs):
            return None
        return "placeholders of %s were not recognised exactly: %s" % (fmt_str(sql), fmt_str(out))
    reps = spec.align(cfg, segs, out, pct="loose")
    if reps is None:
        return "placeholders of %s were not recognised exactly: %s" % (fmt_str(sql), fmt_str(out))
    # which name/number each placeholder has, seen through the values
    if reserved(cfg, segs, params):
        return None
    try:
        got = resolve_out(cfg, reps, r[1])
    except (LookupError, TypeError):
        return None
    want = [v for d in den for v in d[3]]
    if len(got) == len(want) and not same(got, want) and all(len(x[3]) == 1 for x in den) and \
            len(set(map(repr, [x[1] for x in den]))) == len(set(x[0] for x in den)):
        return "placeholders of %s were read as other names or numbers: %s" % (fmt_str(sql), fmt_str(r))
    return ""


# ----------------------------------------------------------------------- C18
def c18(S, case):
    a = case["args"]              # in_style, out_style, escape_char, expand_tuples, strip_comments, allow_out_quotes
    k, r = run(lambda: S(*a))
    ins, outs, esc, exp, strip, _q = a
    want = set()
    for x in (ins, outs):
        if not isinstance(x, str):
            want.add(TypeError)
        elif x not in spec.STYLES:
            want.add(KeyError)
    if esc is not True and esc and not isinstance(esc, str):
        want.add(TypeError)
    if strip is not None and strip is not True and strip is not False:
        for c in strip:
            if isinstance(c, str):
                continue
            if not spec.is_seq(c):
                want.add(TypeError)
            elif len(c) != 2:
                return None
            elif not all(isinstance(x, str) for x in c):
                return None
    if want:
        if k == "ok" or not isinstance(r, tuple(want)):
            return "%s instead of %s" % (fmt_str(r), " or ".join(sorted(x.__name__ for x in want)))
        return ""
    if k == "exc":
        return "valid configuration raises %r" % (r,)
    w_esc = spec.MARK[ins] if esc is True else (esc or None)
    w_exp = bool(exp) if exp is not None else spec.KIND[outs] != "named"
    got = (r.in_style, r.out_style, r.escape_char, r.expand_tuples)
    if not same(got, (ins, outs, w_esc, w_exp)):
        return "reports %s, expected %s" % (got, (ins, outs, w_esc, w_exp))
    sc = r.strip_comments
    if strip is None or strip is False:
        if sc is not None:
            return "strip_comments is %r" % (sc,)
    elif strip is True:
        if sc is None or [tuple(x) if not isinstance(x, str) else x for x in sc] != list(spec.DEFAULT_COMMENTS):
            return "strip_comments is %r" % (sc,)
    elif not same(list(sc) if sc is not None else None, list(strip)):
        return "strip_comments is %r" % (sc,)
    # the resolved options are the ones in effect
    m = spec.MARK[ins]
    cfg = spec.Cfg(ins, outs, esc if esc else None, exp, None, _q)
    if cfg.ki == "named" and not (w_esc and len(w_esc) != 1):
        val = {"a": (1, 2)}
        probe = {"pyformat": "%(a)s"}.get(ins, m + "a")
        k2, r2 = run(r.format, "x = " + probe, val)
        if k2 == "ok":
            segs = spec.scan(cfg, "x = " + probe)
            reps = spec.align(cfg, segs, r2[0], pct="loose", esc="loose")
            if reps and (spec.shape(reps[0]) == "tuple") != w_exp:
                return "expand_tuples=%r but %r" % (w_exp, r2[0])
    return ""


ORACLES = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 19)}
