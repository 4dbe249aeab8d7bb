"""Contracts of the converters and of SQLParams.format / formatmany, per property.

Each obligation is stated over the summaries the deductive engine computes from
the current source (view.py) for an arbitrary query, arbitrary parameters, an
arbitrary token J (or row r), and is discharged by the SMT back end or by the
regex-equivalence decision procedure.  Nothing in here is bounded in the query
or the parameters.
"""
import re

from . import engine, rx, smt, spec, theory
from . import terms as tm
from .engine import Unsupported
from .terms import *
from .terms import T, mk, fv, subst, subterms, sparts, replace
from .view import module, NoForm, View, Form, hide, oracle_functions, summarize, lits, regex_equiv, spec_pattern, parse_ref, sub_, ZERO, ONE


class Sink:
    """Collects the obligations of one task."""

    def __init__(self, pid, label):
        self.pid, self.label = pid, label
        self.obs = []

    def add(self, name, status, detail=None):
        self.obs.append((self.label + " :: " + name, status, detail))

    def prove(self, name, facts, goal, detail=None):
        if goal is FALSE:
            r = smt.check(facts) == "unsat" or None
        else:
            r = prove_tiers(facts, [goal]) is not None or None
        self.add(name, "proved" if r is True else "unproved", None if r is True else (detail or str(goal)[:400]))
        return r is True

    def require(self, name, cond, detail=None):
        self.add(name, "proved" if cond else "unproved", None if cond else detail)
        return bool(cond)


def _local(f):
    """The fact talks about a generic token, row or item (not only about the whole call)."""
    return any("@" in v.args[0] for v in fv(f))


def cheap(facts):
    """Without the large facts about the whole call (a weakening)."""
    return [f for f in facts if len(subterms(f)) <= 60 or _local(f)]


def prove_tiers(facts, goals, tiers=3):
    """The index of the first goal that is proved, trying cheap subsets of the facts
    first (saturation is expensive for large ones); None if none is."""
    sets = []
    for fs in ([f for f in facts if len(subterms(f)) <= 40], cheap(facts), facts)[:tiers]:
        if all(len(fs) != len(x) for x in sets):
            sets.append(fs)
    for fs in sets:
        for n, g in enumerate(goals):
            if smt.prove(fs, g) is True:
                return n
        if fs is not facts and len(fs) < len(facts) and fs is sets[-2]:
            for n, g in enumerate(goals):
                if smt.prove(opaque(facts, g), g) is True:
                    return n
    return None


def opaque(facts, goal, rounds=3):
    """A weakening of large facts: every atom 'some index below n satisfies c' becomes
    an opaque proposition, with explicit instances 'c at t implies it' at the index
    terms of the problem (and of those instances)."""
    memo, atoms = {}, {}

    def go(t):
        y = memo.get(t)
        if y is not None:
            return y
        if t.op == "le" and t.args[0] is ZERO and t.args[1].op in ("first", "last") and ground(t.args[1]):
            key, params = tm.abstract(t.args[1], ())
            y = app("some:" + key, tuple(params), "bool")
            atoms[t.args[1]] = y
        elif t.op in ("and", "or", "not", "ite", "eq") and any(isinstance(a, T) for a in t.args):
            args = tuple(go(a) if isinstance(a, T) and a.sort == "bool" else a for a in t.args)
            y = t if args == t.args else tm.rebuild(t.op, args, t.sort)
        else:
            y = t
        memo[t] = y
        return y
    out = [go(f) for f in facts]
    done = set()
    for _ in range(rounds):
        terms = set()
        for f in out + [goal]:
            smt.ground_terms(f, terms)
        idx = [t for t in smt.index_terms(terms) if ground(t)]
        new = []
        for x, b in list(atoms.items()):
            n, v, c = x.args
            for t in idx:
                if (x, t) not in done and smt.compatible(t, n) and smt.domain(t) is not None:
                    done.add((x, t))
                    new.append(or_(b, not_(and_(le(ZERO, t), lt(t, n), go(subst(c, {v: t}))))))
        if not new:
            break
        out += new
    return out


# ------------------------------------------------------------ psum congruence
def psum_lemmas(facts, ts, ntok_of):
    """Equalities between sums whose summands are provably equal at every index
    (lemma by induction on the upper bound)."""
    groups = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "psum" and not _bound_inside(x):
                groups.setdefault(theory.psum_key(x), []).append(x)
    keys = sorted(groups, key=str)
    out = []
    for i, a in enumerate(keys):
        for b in keys[i + 1:]:
            pa, pb = groups[a][0], groups[b][0]
            X = ntok_of("X")
            fx = facts + [le(ZERO, X[0]), lt(X[0], X[1])]
            if smt.prove(fx, eq(theory.delta(pa, X[0]), theory.delta(pb, X[0]))) is True:
                ubs = {p.args[0] for p in groups[a] + groups[b]}
                for u in ubs:
                    qa = psum(u, pa.args[1], pa.args[2:])
                    qb = psum(u, pb.args[1], pb.args[2:])
                    if smt.prove(facts, and_(le(ZERO, u), le(u, X[1]))) is True:
                        out.append(eq(qa, qb))
    return out


def _bound_inside(x):
    return any(v.args[0].startswith("β") for v in fv(x))


# ------------------------------------------------------------- params, writes
class W:
    """One (generic) entry of the returned parameters: for the bound variables
    under the conditions, key (name or index) holds the value."""

    def __init__(self, vars_, conds, key, val):
        self.vars, self.conds, self.key, self.val = vars_, conds, key, val

    def at(self, m):
        return W([], [subst(c, m) for c in self.conds], subst(self.key, m), subst(self.val, m))


def writes_of(log):
    out = []

    def go(w, vars_, conds):
        if w.op == "w":
            out.append(W(vars_, conds, w.args[0], w.args[1]))
        elif w.op == "wmap":
            n, v, k, val = w.args
            out.append(W(vars_ + [(v, n)], conds + [le(ZERO, v), lt(v, n)], k, val))
        elif w.op == "wflat":
            n, v = w.args[:2]
            for c in w.args[2:]:
                for x in c.args[1].args:
                    go(x, vars_ + [(v, n)], conds + [le(ZERO, v), lt(v, n)] + lits(c.args[0]))
        else:
            raise NoForm("entry %s" % w.op)
    for w in log.args:
        go(w, [], [])
    return out


def rename_w(view, w, tag):
    """Fresh generic variables for the entry."""
    m = {}
    for i, (v, n) in enumerate(w.vars):
        n2 = subst(n, m)
        m[v] = view.var("%s%d" % (tag, i), n2)
    return W([(m[v], subst(n, m)) for v, n in w.vars], [subst(c, m) for c in w.conds], subst(w.key, m), subst(w.val, m))


def seq_cases(s, J, ntok):
    """Segments one token contributes to a list: [(conds, segs)], or NoForm."""
    if not s.args:
        return [(TRUE, seq())]
    if len(s.args) == 1 and s.args[0].op == "flat":
        g = s.args[0]
        if g.args[0] is not ntok:
            raise NoForm("list is not built token by token")
        v = g.args[1]
        cs = [(subst(c.args[0], {v: J}), subst(c.args[1], {v: J})) for c in g.args[2:]]
    elif len(s.args) == 1 and s.args[0].op == "map":
        n, v, b = s.args[0].args
        if n is not ntok:
            raise NoForm("list is not built token by token")
        return [(TRUE, seq(elem(subst(b, {v: J}))))]
    else:
        raise NoForm("list form")
    rest = not_(or_(*[c for c, _ in cs]))
    return cs + [(rest, seq())]


def digits(t):
    return t.op == "istr" or theory.digits_only(t)


def str_conseq(a, b, reserved):
    """Conditions implied by equality of two generated names; (conds, impossible)."""
    A, B = sparts(a), sparts(b)
    conds = []

    def lit(p):
        return p.op == "py"
    while True:
        if A and B and A[0] is B[0]:
            A, B = A[1:], B[1:]
            continue
        if A and B and A[-1] is B[-1]:
            A, B = A[:-1], B[:-1]
            continue
        if A and B and lit(A[0]) and lit(B[0]):
            x, y = cval(A[0]), cval(B[0])
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return conds, True
            A = ([const(x[k:])] if x[k:] else []) + A[1:]
            B = ([const(y[k:])] if y[k:] else []) + B[1:]
            continue
        if A and B and lit(A[-1]) and lit(B[-1]):
            x, y = cval(A[-1]), cval(B[-1])
            k = min(len(x), len(y))
            if x[len(x) - k:] != y[len(y) - k:]:
                return conds, True
            A = A[:-1] + ([const(x[:len(x) - k])] if x[:len(x) - k] else [])
            B = B[:-1] + ([const(y[:len(y) - k])] if y[:len(y) - k] else [])
            continue
        # runs of digits delimited on both sides
        if A and B and digits(A[0]) and digits(B[0]):
            ea = len(A) == 1 or lit(A[1]) and not cval(A[1])[0].isdecimal()
            eb = len(B) == 1 or lit(B[1]) and not cval(B[1])[0].isdecimal()
            if ea and eb:
                conds += _digeq(A[0], B[0])
                A, B = A[1:], B[1:]
                continue
        if A and B and digits(A[-1]) and digits(B[-1]):
            ea = len(A) > 1 and lit(A[-2]) and not cval(A[-2])[-1].isdecimal()
            eb = len(B) > 1 and lit(B[-2]) and not cval(B[-2])[-1].isdecimal()
            if ea and eb:
                conds += _digeq(A[-1], B[-1])
                A, B = A[:-1], B[:-1]
                continue
        break
    if not A and not B:
        return conds, False
    if not A or not B:
        r = A or B
        if any(lit(p) or digits(p) for p in r):
            return conds, True
        return conds, False
    for X, Y in ((A, B), (B, A)):
        if len(X) == 1 and digits(X[0]) and any(lit(p) and not cval(p).isdecimal() for p in Y):
            return conds, True
        if reserved and len(X) == 1 and X[0] in reserved and len(Y) > 2 and lit(Y[-1]) and cval(Y[-1]) == "_sqlp" \
                and Y[-2].op == "istr" and lit(Y[-3]) and cval(Y[-3]).endswith("__"):
            return conds, True
    if len(A) == 1 and len(B) == 1:
        conds.append(eq(A[0], B[0]))
    return conds, False


def _digeq(x, y):
    if x.op == "istr" and y.op == "istr":
        return [eq(x.args[0], y.args[0])]
    if x.op != "istr" and y.op != "istr":
        return [eq(x, y)]
    return []


# ----------------------------------------------------------- per-view helpers
class Tok:
    """A generic par-token of a view with a satisfiable replacement case."""

    def __init__(self, view, J, j, facts, cond, text, form):
        self.view, self.J, self.j, self.facts, self.cond, self.text, self.form = view, J, j, facts, cond, text, form
        self.quoted = view.roles[j].quoted


def tokens(view, roles=("par",), name="J", extra=()):
    view.charset()
    out = []
    for j, r in enumerate(view.roles):
        if r.role not in roles:
            continue
        J, rng = view.token(name)
        base = view.facts + list(extra) + rng + lits(view.is_kind(j, J))
        for c, t in view.text_cases(cheap(base), J):
            tok = Tok(view, J, j, base + lits(c), c, t, view.form(t) if r.role == "par" else None)
            if r.role != "par" or tok.form is not None or smt.check(tok.facts) != "unsat":
                out.append(tok)
    return out


def value_of(tok, row=None, rfacts=()):
    return tok.view.value(row if row is not None else tok.view.row, tok.J, tok.j, rfacts)


def isa_tuple(x):
    return app("isa:tuple", (x,), "bool")


def length(x):
    return app("len", (x,), "int")


def expands(cfg, V):
    return isa_tuple(V) if cfg.exp else FALSE


def views(run):
    return [View(run, o) for o in run.ok]


def pathname(view):
    run = view.run
    n = run.ok.index(view.out)
    return "ok%d" % n


# ================================================================ obligations
def shape_goal(cfg, form, V):
    ex = expands(cfg, V)
    if form.kind == "null":
        return and_(ex, eq(length(V), ZERO))
    if form.kind == "one":
        return not_(ex)
    return and_(ex, lt(ZERO, length(V)), eq(form.n, length(V)))


def expected(form, V, i):
    return app("item", (V, i), "obj") if form.kind == "tuple" else V


def ob_binding(sink, view, tuples_only=False):
    """C01 / C04: what each generated placeholder is bound to."""
    cfg = view.cfg
    for tok in tokens(view):
        nm = "%s kind%d %s" % (pathname(view), tok.j, tok.form.kind if tok.form else "?")
        if tok.form is None:
            sink.require(nm + " replacement has the out-style's form", False, str(tok.text)[:300])
            continue
        if tuples_only and tok.form.kind != "tuple":
            continue
        for n_, (idx, row, params, rfacts) in enumerate(view.rows):
            facts = tok.facts + rfacts
            V = value_of(tok, row, view.raw_rfacts(n_))
            if V is None:
                sink.require(nm + " value found by the in-style's rule", False)
                continue
            rn = nm + ("" if idx is None else " row%s" % ("0" if idx is ZERO else "r"))
            if not view.run.many and not sink.prove(rn + " one slot per value", facts, shape_goal(cfg, tok.form, V)):
                continue
            if tok.form.kind == "null":
                if cfg.ko == "ordinal":
                    _slots(sink, rn, view, tok, params, V, facts)
                continue
            if cfg.ko == "ordinal":
                _slots(sink, rn, view, tok, params, V, facts)
            else:
                _lookup(sink, rn, view, tok, params, V, facts, row)


def _slots(sink, nm, view, tok, params, V, facts):
    if params.op != "listval":
        sink.require(nm + " parameters are a list", False, params.op)
        return
    for c, segs in seq_cases(params.args[0], tok.J, view.ntok):
        f = facts + lits(c)
        if smt.check(f) == "unsat":
            continue
        form = tok.form
        if form.kind == "null":
            sink.prove(nm + " binds nothing", f, eq(engine.seqlen(segs), ZERO))
        elif form.kind == "one":
            ok = len(segs.args) == 1 and segs.args[0].op == "elem"
            if sink.require(nm + " one parameter", ok, str(segs)[:200]):
                sink.prove(nm + " bound to the value", f, eq(segs.args[0].args[0], V))
        else:
            ok = len(segs.args) == 1 and segs.args[0].op == "map"
            if not ok:
                sink.require(nm + " one parameter per element", False, str(segs)[:200])
                continue
            n, v, b = segs.args[0].args
            i = view.var("i", form.n)
            sink.prove(nm + " one parameter per element", f, eq(n, form.n))
            sink.prove(nm + " bound to the elements in order", f + [le(ZERO, i), lt(i, form.n)],
                       eq(subst(b, {v: i}), expected(form, V, i)))


def entries(view, params):
    if params.op == "arrval":
        return writes_of(params.args[1])
    if params.op == "dictval":
        return writes_of(params.args[0])
    if params.op == "listval" and view.cfg.ko == "numeric":
        return list_writes(view, params.args[0])
    raise NoForm("parameters have the form %s" % params.op)


def list_writes(view, s):
    """A list as indexed entries: position = sum of the lengths before."""
    out = []
    if not s.args:
        return out
    if len(s.args) != 1 or s.args[0].op != "flat":
        raise NoForm("list form")
    g = s.args[0]
    n, v = g.args[:2]
    lens = []
    for c in g.args[2:]:
        lens.append(case(c.args[0], engine.seqlen(c.args[1])))
    v2 = named_var(v.args[0] + "%", "int")
    off = lambda J: psum(J, v2, [case(subst(c.args[0], {v: v2}), subst(c.args[1], {v: v2})) for c in lens])  # noqa: E731
    for c in g.args[2:]:
        k = ZERO
        for s2 in c.args[1].args:
            conds = [le(ZERO, v), lt(v, n)] + lits(c.args[0])
            if s2.op == "elem":
                out.append(W([(v, n)], conds, add(off(v), k), s2.args[0]))
                k = add(k, ONE)
            elif s2.op == "map":
                m, iv, b = s2.args
                out.append(W([(v, n), (iv, m)], conds + [le(ZERO, iv), lt(iv, m)], add(off(v), k, iv), b))
                k = add(k, m)
            else:
                raise NoForm("list segment")
    return out


def _lookup(sink, nm, view, tok, params, V, facts, row):
    """Numeric / named out-style: the reference resolves to the value."""
    cfg = view.cfg
    form = tok.form
    i = view.var("i", form.n) if form.kind == "tuple" else ZERO
    f = facts + ([le(ZERO, i), lt(i, form.n)] if form.kind == "tuple" else [])
    ref = form.at(i)
    want = expected(form, V, i)
    es = entries(view, params)
    lem = psum_lemmas(f, [ref, tok.cond] + [e.key for e in es], lambda nme: (view.var(nme, view.ntok), view.ntok))
    f = f + lem
    if cfg.ko == "numeric":
        target = sub_(ref, ONE)
        if params.op == "arrval":
            n = engine.seqlen(params.args[0])
            lem2 = psum_lemmas(f, [ref, n], lambda nme: (view.var(nme, view.ntok), view.ntok))
            sink.prove(nm + " number within the parameters", f + lem2, and_(le(ZERO, target), lt(target, n)))
        eqs = lambda e: (eq(e.key, target), False)  # noqa: E731
    else:
        target = ref
        res = {view.keytext(tok.J)} | {view.want(tok.J, q) for q in (True, False)} if cfg.ki == "named" else set()

        def eqs(e):
            rs = set(res)
            if cfg.ki == "named":
                for v, n in e.vars:
                    if n is view.ntok:
                        rs |= {view.keytext(v), view.want(v, False)}
            conds, bad = str_conseq(e.key, target, rs)
            return and_(*conds), bad
    # existence: an entry at the same token, or at the first token with the same identity
    cands = [tok.J] + [x for x in sorted(subterms(and_(tok.cond, eq(ref, ref) if ref.sort == "bool" else eq(app("id", (ref,), "obj"), const(0)))), key=lambda x: x.uid)
                       if x.op == "first" and x.args[0] is view.ntok and not _loose(x)]
    exist = []
    for e in es:
        for K in dict.fromkeys(cands):
            m = {}
            for n_, (v, n) in enumerate(e.vars):
                m[v] = K if n is view.ntok else i
            w = e.at(m)
            exist.append(and_(*w.conds, eq(w.key, target)))
    sink.prove(nm + " reference has an entry", f, or_(*exist))
    for n_, e in enumerate(es):
        e2 = rename_w(view, e, "K")
        c, bad = eqs(e2)
        if bad:
            sink.add(nm + " entry %d has another name" % n_, "proved")
            continue
        f2 = f + e2.conds + lits(c)
        lem3 = psum_lemmas(f2, [ref, e2.key], lambda nme: (view.var(nme, view.ntok), view.ntok))
        sink.prove(nm + " entry %d holds the value" % n_, f2 + lem3, eq(e2.val, want))


def _loose(x):
    return any(v.args[0].startswith("v@") or v.args[0].startswith("β") for v in fv(x))


# ------------------------------------------------------------------ C02 / C04
def ob_shape(sink, view):
    """C04: the replacement of a placeholder has exactly the form its value asks for."""
    cfg = view.cfg
    ob_total(sink, view)
    for tok in tokens(view):
        nm = "%s kind%d" % (pathname(view), tok.j)
        if not sink.require(nm + " replacement has the out-style's form", tok.form is not None, str(tok.text)[:300]):
            continue
        V = value_of(tok)
        if not sink.require(nm + " value found by the in-style's rule", V is not None):
            continue
        sink.prove(nm + " %s exactly when the value asks for it" % tok.form.kind, tok.facts, shape_goal(cfg, tok.form, V))


def ob_total(sink, view):
    view.charset()
    for j, r in enumerate(view.roles):
        J, rng = view.token()
        base = view.facts + rng + lits(view.is_kind(j, J))
        sink.prove("%s kind%d callback returns a text" % (pathname(view), j), base,
                   or_(*[subst(c, {view.v: J}) for c, _ in view.cases]))


def ob_text(sink, view):
    """C02: only placeholders are replaced, each by generated placeholders."""
    ob_total(sink, view)
    nm = pathname(view)
    ok = all(r.role == "par" for r in view.roles)
    sink.require(nm + " only placeholders are matched", ok, [r.sample for r in view.roles if r.role != "par"])
    ob_grammar(sink, view)
    for tok in tokens(view):
        sink.require("%s kind%d replaced in place by generated placeholders" % (nm, tok.j), tok.form is not None, str(tok.text)[:300])


# ------------------------------------------------------------------------ C03
VALUE_APPS = {"mget", "item", "ival"}
SHAPE_APPS = {"mhas", "isa:Mapping", "isa:Sequence", "isa:str", "isa:bytes", "isa:tuple", "isa:int", "len", "ikey", "kx", "nrows", "row",
              "ntok", "kind", "isdecimal", "isdigit", "toint", "intable", "traw", "upper", "lower", "orawf", "oranorm", "charat", "slice",
              "replace", "truthy", "isdecimal"}


def ob_vocab(sink, view):
    """C03: the converted query mentions values only as 'is it a tuple' and 'how long'."""
    nm = pathname(view)
    J, rng = view.token()
    bad = []

    def is_value(t):
        return t.op == "app" and t.args[0] in VALUE_APPS and t.sort == "obj"

    def go(t, ctx):
        if t.op == "app":
            n = t.args[0]
            kids = [a for a in t.args[1:] if isinstance(a, T)]
            if is_value(t):
                bad.append("value %s" % str(t)[:160])
                return
            if n.startswith("isa:") and is_value(kids[0]):
                if n != "isa:tuple" or not view.cfg.exp:
                    bad.append("type of a value: %s" % str(t)[:160])
                for a in kids[0].args[2:]:
                    go(a, ctx)
                return
            if n in ("len", "truthy") and is_value(kids[0]):
                if not view.cfg.exp or not (isa_tuple(kids[0]) in ctx or smt.prove(list(ctx), isa_tuple(kids[0])) is True):
                    bad.append("length of a non-tuple: %s" % str(t)[:160])
                for a in kids[0].args[2:]:
                    go(a, ctx)
                return
            if not (n in SHAPE_APPS or n.startswith("tg:") or n.startswith("ix:")):
                bad.append("term %s" % n)
            for a in kids:
                go(a, ctx)
        elif t.op == "and":
            for a in t.args:
                go(a, ctx | {b for b in t.args if b is not a})
        elif t.op == "or":
            for a in t.args:
                go(a, ctx | {not_(b) for b in t.args if b is not a})
        elif t.op == "case":
            go(t.args[0], ctx)
            go(t.args[1], ctx | set(lits(t.args[0])))
        elif t.op == "ite":
            go(t.args[0], ctx)
            go(t.args[1], ctx | set(lits(t.args[0])))
            go(t.args[2], ctx | set(lits(not_(t.args[0]))))
        else:
            for a in t.args:
                if isinstance(a, T):
                    go(a, ctx)
    base = frozenset(view.facts + rng)
    n = 0
    for c, t in view.cases:
        go(case(subst(c, {view.v: J}), subst(t, {view.v: J})), base)
        n += 1
    sink.require(nm + " query text mentions only tuple shapes of values (%d cases)" % n, not bad, bad[:3])
    free = {v for v in fv(view.sql)} - {view.S, view.P}
    sink.require(nm + " query text depends on nothing else", not free, [str(x) for x in free])


# ------------------------------------------------------------- C07, numbering
class Numbering:
    """The running total of numbers used before a token (numeric out-styles)."""

    def __init__(self, view, params):
        self.view = view
        n = engine.seqlen(params.args[0])
        self.length = n

    def total(self, x):
        nt = self.view.ntok

        def go(t):
            if t is nt:
                return x
            if t.op == "psum" and t.args[0] is nt:
                return psum(x, t.args[1], t.args[2:])
            if t.op == "add":
                return add(*[go(a) for a in t.args])
            if t.op == "mul":
                return tm.mul(t.args[0], go(t.args[1]))
            if t.op == "py":
                return t
            raise NoForm("length of the parameters: %s" % t.op)
        return go(self.length)

    def delta(self, x):
        nt = self.view.ntok

        def go(t):
            if t is nt:
                return ONE
            if t.op == "psum" and t.args[0] is nt:
                return theory.delta(t, x)
            if t.op == "add":
                return add(*[go(a) for a in t.args])
            if t.op == "mul":
                return tm.mul(t.args[0], go(t.args[1]))
            if t.op == "py":
                return ZERO
            raise NoForm("length of the parameters: %s" % t.op)
        return go(self.length)


def ident_eq(view, A, qa, B, qb):
    if view.cfg.ki == "named":
        return eq(view.want(A, qa), view.want(B, qb))
    return eq(view.num(A), view.num(B))


def ob_numbering(sink, view, params=None, rowname="", rfacts=(), identity=True):
    """C07 (and the numeric part of C08): every new token takes the next numbers,
    a repeated parameter those of its first use, nothing else takes any."""
    cfg = view.cfg
    params = params if params is not None else view.rows[0][2]
    if params.op not in ("arrval", "listval"):
        sink.require(pathname(view) + " parameters are a list", False, params.op)
        return
    N = Numbering(view, params)
    nm0 = pathname(view) + rowname
    sink.prove(nm0 + " numbering starts at 1", view.facts + list(rfacts), eq(N.total(ZERO), ZERO))
    ob_total(sink, view)
    for tok in tokens(view, extra=rfacts):
        nm = "%s kind%d %s" % (nm0, tok.j, tok.form.kind if tok.form else "?")
        if not sink.require(nm + " replacement has the out-style's form", tok.form is not None, str(tok.text)[:300]):
            continue
        J, f, form = tok.J, tok.facts, tok.form
        if form.kind == "null":
            sink.prove(nm + " takes no number", f, eq(N.delta(J), ZERO))
            continue
        i = view.var("i", form.n) if form.kind == "tuple" else ZERO
        fi = f + ([le(ZERO, i), lt(i, form.n)] if form.kind == "tuple" else [])
        e = form.at(i)
        firsts = [x for x in sorted(subterms(eq(app("id", (e,), "obj"), const(0))) | subterms(tok.cond), key=lambda x: x.uid)
                  if x.op == "first" and x.args[0] is view.ntok and not _loose(x)] if cfg.ki != "ordinal" else []
        lem = psum_lemmas(fi, [e, N.total(J)] + [N.total(F) for F in firsts], lambda nme: (view.var(nme, view.ntok), view.ntok))
        goals = [and_(eq(N.delta(J), form.n), eq(e, add(N.total(J), i, ONE)))]
        for F in firsts:
            goal = and_(le(ZERO, F), lt(F, J), view.is_par(F), eq(N.delta(J), ZERO), eq(N.delta(F), form.n),
                        eq(e, add(N.total(F), i, ONE)))
            if identity:
                g2 = or_(*[and_(view.is_kind(j2, F), ident_eq(view, F, r2.quoted, J, tok.quoted))
                           for j2, r2 in enumerate(view.roles) if r2.role == "par"])
                goal = and_(goal, g2)
            goals.append(goal)
        which = prove_tiers(fi + lem, goals)
        if which == 0:
            sink.add(nm + " takes the next numbers in order", "proved")
            if cfg.ki != "ordinal" and identity:
                for j2, r2 in enumerate(view.roles):
                    if r2.role != "par":
                        continue
                    K, rk = view.token("K")
                    sink.prove(nm + " is the first use of its parameter (kind%d)" % j2,
                               f + rk + lits(view.is_kind(j2, K)) + [lt(K, J), ident_eq(view, K, r2.quoted, J, tok.quoted)], FALSE)
            continue
        sink.require(nm + " takes the numbers of the first use of its parameter", which is not None, "%s" % str(e)[:300])
    for tok in tokens(view, roles=("esc", "pct"), extra=rfacts):
        sink.prove("%s kind%d (no placeholder) takes no number" % (nm0, tok.j), tok.facts, eq(N.delta(tok.J), ZERO))


# ------------------------------------------------------------------------ C08
def ob_exact(sink, view):
    """C08: the returned parameters are exactly what the query refers to."""
    cfg = view.cfg
    for n_, (idx, row, params, rfacts) in enumerate(view.rows):
        rn = "" if idx is None else " row%s" % ("0" if idx is ZERO else "r%d" % n_)
        nm0 = pathname(view) + rn
        want = "dict" if cfg.ko == "named" else "list"
        if not sink.require(nm0 + " parameters are a %s" % want,
                            params.op in (("dictval",) if want == "dict" else ("listval", "arrval")), params.op):
            continue
        if cfg.ko == "numeric":
            ob_numbering(sink, view, params, rn, rfacts, identity=False)
            continue
        if cfg.ko == "ordinal":
            if params.op == "arrval":
                raise NoForm("ordinal parameters written by index")
            for tok in tokens(view, extra=rfacts):
                if not sink.require("%s kind%d replacement has the out-style's form" % (nm0, tok.j), tok.form is not None, str(tok.text)[:200]):
                    continue
                for c, segs in seq_cases(params.args[0], tok.J, view.ntok):
                    sink.prove("%s kind%d %s one element per generated placeholder" % (nm0, tok.j, tok.form.kind),
                               tok.facts + lits(c), eq(engine.seqlen(segs), tok.form.n))
            for tok in tokens(view, roles=("esc", "pct"), extra=rfacts):
                for c, segs in seq_cases(params.args[0], tok.J, view.ntok):
                    sink.prove("%s kind%d no element" % (nm0, tok.j), tok.facts + lits(c), eq(engine.seqlen(segs), ZERO))
            continue
        es = entries(view, params)
        # every name has an entry
        for tok in tokens(view, extra=rfacts):
            if not sink.require("%s kind%d replacement has the out-style's form" % (nm0, tok.j), tok.form is not None, str(tok.text)[:200]):
                continue
            if tok.form.kind == "null":
                continue
            i = view.var("i", tok.form.n) if tok.form.kind == "tuple" else ZERO
            f = tok.facts + ([le(ZERO, i), lt(i, tok.form.n)] if tok.form.kind == "tuple" else [])
            goals = []
            for e in es:
                w = e.at({v: (tok.J if n is view.ntok else i) for v, n in e.vars})
                goals.append(and_(*w.conds, eq(w.key, tok.form.at(i))))
            sink.prove("%s kind%d %s name has an entry" % (nm0, tok.j, tok.form.kind), f, or_(*goals))
        # every entry has a name
        for m_, e in enumerate(es):
            e2 = rename_w(view, e, "K")
            Ks = [v for v, n in e2.vars if n is view.ntok]
            ks = [v for v, n in e2.vars if n is not view.ntok] or [ZERO]
            if len(Ks) != 1 or len(ks) != 1:
                raise NoForm("entry variables")
            K, k = Ks[0], ks[0]
            goals = []
            for j, r in enumerate(view.roles):
                if r.role != "par":
                    continue
                for c, t in view.cases:
                    form = view.form(subst(t, {view.v: K}))
                    if form is None or form.kind == "null":
                        continue
                    goals.append(and_(view.is_kind(j, K), subst(c, {view.v: K}), lt(k, form.n), eq(form.at(k), e2.key)))
            sink.prove("%s entry %d is one of the query's names" % (nm0, m_), view.facts + list(rfacts) + e2.conds, or_(*goals))


# -------------------------------------------------------------- C09, C10, C17
def ob_grammar(sink, view):
    """C17: the token regex is the grammar of the style (decided for all strings)."""
    cfg = view.cfg
    sp = spec_pattern(cfg)
    gm = {}
    if view.keyg:
        gm[view.keyg] = "key"
    r = regex_equiv(view.pat, sp, gm)
    sink.add("%s token regex %r recognises exactly the grammar" % (pathname(view), view.pat.pattern),
             "proved" if r.equal else "unproved",
             None if r.equal else dict(witness=r.witness, detail=str(r.detail)))
    sink.states = getattr(sink, "states", 0) + r.states


def ob_literals(sink, view, role):
    cfg = view.cfg
    ob_total(sink, view)
    n = 0
    for tok in tokens(view, roles=(role,)):
        n += 1
        lit = spec.MARK[cfg.ins] if role == "esc" else "%%"
        sink.require("%s kind%d is replaced by %r" % (pathname(view), tok.j, lit), tok.text is const(lit), str(tok.text)[:200])
    want = bool(cfg.esc) if role == "esc" else cfg.pct
    sink.require("%s %s tokens %s" % (pathname(view), role, "exist" if want else "do not exist"), bool(n) == want)


def ob_expansion(sink, view):
    """C04: the placeholders of an expanded tuple are bound to its elements in order."""
    ob_binding(sink, view, tuples_only=True)


def ob_percent(sink, view):
    """C10: percent signs."""
    cfg = view.cfg
    if cfg.pct:
        ob_grammar(sink, view)
        ob_literals(sink, view, "pct")
    elif not cfg.esc:
        ob_grammar(sink, view)
        ob_total(sink, view)
        sink.require(pathname(view) + " only placeholders are matched", all(r.role == "par" for r in view.roles))


# -------------------------------------------------- C06, C14: raise and accept
def usable(cfg, row):
    """The container kinds of C14, as the isinstance tests of the statement."""
    m = app("isa:Mapping", (row,), "bool")
    if cfg.ki == "named":
        return m
    isa = lambda c: app("isa:" + c, (row,), "bool")  # noqa: E731
    return or_(m, and_(isa("Sequence"), not_(isa("str")), not_(isa("bytes"))))


def kind_cond(view, j, J):
    return and_(le(ZERO, J), lt(J, view.ntok), view.is_kind(j, J))


def present_goal(view, facts, row, J, j, rfacts=(), raw=()):
    """Conditions under which the placeholder's parameter is in the row."""
    cfg = view.cfg
    if cfg.ki == "named" and cfg.ins != "named_oracle":
        return app("mhas", (row, view.keytext(J)), "bool")
    t = view.rowtype(facts, row)
    if cfg.ki != "named" and t == "seq":
        i = sub_(view.num(J), view.base())
        return and_(le(ZERO, i), lt(i, length(row)))
    if t == "map":
        # an item of the row proved to be the one meant (spec_hit includes the range)
        return TRUE if view.value(row, J, j, raw) is not None else None
    return None


def ob_accept(sink, view):
    """Success implies: usable containers, every parameter present, tuples that fit."""
    cfg = view.cfg
    nm0 = pathname(view)
    view.charset()
    for n_, (idx, row, params, rfacts) in enumerate(view.rows):
        rn = nm0 + ("" if idx is None else " row%s" % ("0" if idx is ZERO else "r%d" % n_))
        sink.prove(rn + " success only for a usable container", view.facts + list(rfacts), usable(cfg, row))
        raw = view.raw_rfacts(n_)
        for j, r in enumerate(view.roles):
            if r.role != "par":
                continue
            J, rng = view.token()
            f = view.facts + list(rfacts) + rng + lits(view.is_kind(j, J))
            if smt.check(f) == "unsat":
                continue
            g = present_goal(view, f, row, J, j, rfacts, raw)
            if not sink.require(rn + " kind%d success only if its parameter is found by the in-style's rule" % j, g is not None):
                continue
            if g is not TRUE:
                sink.prove(rn + " kind%d success only if its parameter is present" % j, f, g)
            if view.run.many and cfg.exp:
                V0 = view.value(view.row, J, j, ())
                V = view.value(row, J, j, raw)
                if not sink.require(rn + " kind%d values found" % j, V0 is not None and V is not None):
                    continue
                f2 = f + [isa_tuple(V0)]
                sink.prove(rn + " kind%d success only if the value is a tuple as in the first row" % j, f2, isa_tuple(V))
                sink.prove(rn + " kind%d success only if its length is that of the first row" % j, f2, eq(length(V), length(V0)))
    ob_rows(sink, view)


def ob_rows(sink, view):
    """formatmany returns exactly one entry per row."""
    if view.run.many:
        nm0 = pathname(view)
        sink.prove(nm0 + " one entry per row", view.facts, eq(view.nrows_out, app("nrows", (view.P,), "int")))
        for n_, (f, g) in enumerate(view.row_checks):
            sink.prove(nm0 + " every row has its entry (%d)" % n_, view.facts + f, g)


def witness_closure(facts, rounds=8):
    """Instances of 'first index with ...' that the path says exist, as ground facts
    (with unit propagation through disjunctions)."""
    out, seen = list(facts), set(facts)

    def put(g, new):
        if g.op == "or":
            rest = [a for a in g.args if not_(a) not in seen and not any(not_(b) in seen for b in lits(a))]
            g = or_(*rest) if rest else g
        for h in lits(g):
            if h not in seen:
                seen.add(h)
                new.append(h)
    for _ in range(rounds):
        new = []
        for f in list(out):
            x = _top_le(f)
            if x is not None:
                for g in (lt(x, x.args[0]), subst(x.args[2], {x.args[1]: x})):
                    put(g, new)
            elif f.op == "or":
                put(f, new)
        if not new:
            break
        out += new
    return out


def _top_le(f):
    """x if the fact is 0 <= x for a first/last term."""
    if f.op == "le" and f.args[0] is ZERO and f.args[1].op in ("first", "last"):
        return f.args[1]
    return None


def ground(t):
    return not any(v.args[0].startswith("v@") or v.args[0].startswith("β") for v in fv(t))


def candidates(facts, view):
    """Ground rows, tokens and items the path talks about."""
    rows, toks, items = {}, {}, {}
    for f in facts:
        for x in sorted(subterms(f), key=lambda y: y.uid):
            if x.op == "app" and x.args[0] == "row" and ground(x):
                rows[x] = 1
            elif x.op in ("first", "last") and ground(x):
                if x.args[0] is view.ntok:
                    toks[x] = 1
                elif tm.is_app(x.args[0], "len"):
                    items.setdefault(x.args[0].args[1], {})[x] = 1
    return list(rows), list(toks), {k: list(v) for k, v in items.items()}


class Ctx:
    """A raising path, with the vocabulary of a View but no result."""

    def __init__(self, run, out, model):
        self.run, self.out, self.cfg = run, out, run.cfg
        self.S, self.P = run.S, run.P
        for a in ("o", "pat", "kinds", "roles", "keyg", "ntok"):
            setattr(self, a, getattr(model, a))
        self.facts = self.raw_facts = list(run.m.hyps) + list(out.pc)
        self.raw_cases, self.raw_rows = [(f, TRUE) for f in self.facts], []
        self._ord, self._values = None, {}
        self.v = model.v
        self.row = model.row

    for _n in ("var", "token", "is_kind", "is_par", "keytext", "charset", "num", "_ordinal", "want", "spec_hit", "present", "base", "par_kinds",
               "rowtype"):
        locals()[_n] = getattr(View, _n)


def defect_free(view, facts, which):
    """Instances, at the path's ground terms, of 'no row has the defect'."""
    cfg = view.cfg
    view.charset()
    rows, toks, items = candidates(facts, view)
    if not view.run.many:
        rows = [view.P]
    elif view.row not in rows:
        rows.append(view.row)
    out = []
    P = lambda r: [x for x in items.get(r, ())]  # noqa: E731
    inrow = {}
    for r in rows:
        if view.run.many:
            i = r.args[2]
            inrow[r] = and_(le(ZERO, i), lt(i, app("nrows", (view.P,), "int")))
        else:
            inrow[r] = TRUE
    imp = lambda a, b: or_(not_(a), b)  # noqa: E731
    if cfg.ins == "named_oracle":
        for r in rows:
            for x in P(r):
                out.append(imp(and_(le(ZERO, x), lt(x, length(r))), app("orawf", (tm.ikey(r, x),), "bool")))
    if "usable" in which:
        out += [imp(inrow[r], usable(cfg, r)) for r in rows]
    ismap = lambda r: app("isa:Mapping", (r,), "bool")  # noqa: E731
    if "present" in which:
        for r in rows:
            for J in toks:
                for j in view.par_kinds():
                    q = view.roles[j].quoted
                    k = and_(inrow[r], kind_cond(view, j, J))
                    if cfg.ki == "named" and cfg.ins != "named_oracle":
                        out.append(imp(and_(k, ismap(r)), view.present(r, J, q)))
                    else:
                        out.append(imp(and_(k, ismap(r)), view.present(r, J, q, mapping=True)))
                        if cfg.ki != "named":
                            out.append(imp(and_(k, not_(ismap(r)), usable(cfg, r)), view.present(r, J, q)))
    if "keys" in which and view.run.many and cfg.ins == "named_oracle":
        # rows have the same keys
        for r in rows:
            if r is not view.row:
                for x in P(view.row):
                    out.append(imp(and_(inrow[r], ismap(r), le(ZERO, x), lt(x, length(view.row))), app("mhas", (r, tm.ikey(view.row, x)), "bool")))
    if ("tuple" in which or "length" in which) and view.run.many and cfg.exp:
        r0 = view.row
        for r in rows:
            if r is r0:
                continue
            for J in toks:
                for j in view.par_kinds():
                    q = view.roles[j].quoted
                    k = and_(inrow[r], kind_cond(view, j, J))
                    for c0, V0 in _denoted(view, r0, J, q, items, r0):
                        for c1, V1 in _denoted(view, r, J, q, items, r0):
                            h = and_(k, c0, c1, isa_tuple(V0))
                            if "tuple" in which:
                                out.append(imp(h, isa_tuple(V1)))
                            if "length" in which:
                                out.append(imp(and_(h, isa_tuple(V1)), eq(length(V1), length(V0))))
    return [f for f in out if f is not TRUE]


def _denoted(view, r, J, q, items, r0):
    cfg = view.cfg
    ismap = app("isa:Mapping", (r,), "bool")
    if cfg.ki == "named" and cfg.ins != "named_oracle":
        return [(ismap, app("mget", (r, view.keytext(J)), "obj"))]
    out = []
    for x in items.get(r, ()):
        out.append((and_(ismap, view.spec_hit(r, x, J, q)), app("ival", (r, x), "obj")))
    if cfg.ins == "named_oracle":
        if r is not r0:
            for x in items.get(r0, ()):
                out.append((and_(ismap, view.spec_hit(r0, x, J, q)), app("mget", (r, tm.ikey(r0, x)), "obj")))
        return out
    i = sub_(view.num(J), view.base())
    out.append((and_(not_(ismap), usable(cfg, r)), app("item", (r, i), "obj")))
    return out


def ob_raise(sink, run, only=None):
    """Every raising path is due to the defect its exception class stands for."""
    oks = [o for o in run.ok]
    if not oks:
        sink.add("some call succeeds", "unproved", "no successful path")
        return
    model = View(run, oks[0])
    for n, o in enumerate(run.raises):
        cls = o.val.cls if hasattr(o.val, "cls") else o.val[0]
        if only is not None and not issubclass(cls, only):
            continue
        ctx = Ctx(run, o, model)
        facts = witness_closure(ctx.facts)
        nm = "raise%d %s" % (n, cls.__name__)
        if run.many:
            P = run.P
            bad = or_(not_(app("isa:Iterable", (P,), "bool")), app("isa:str", (P,), "bool"), app("isa:bytes", (P,), "bool"))
            if issubclass(cls, TypeError) and smt.prove(ctx.facts, bad) is True:
                sink.add(nm + " for a collection of rows that is not iterable", "proved")
                continue
        if issubclass(cls, TypeError):
            which = ("usable", "tuple")
        elif issubclass(cls, LookupError):
            which = ("present", "keys")
        elif issubclass(cls, ValueError) and run.many:
            which = ("length",)
        else:
            which = ("usable", "present", "tuple", "length", "keys")
        if issubclass(cls, (TypeError, LookupError, ValueError)):
            what = dict(usable="no unusable row", present="no missing parameter", tuple="no tuple that fails to fit",
                        length="no tuple of another length", keys="")
            title = " cannot happen with %s" % what[which[0]]
        else:
            title = " cannot happen for valid parameters"
        hy = defect_free(ctx, facts, [w for w in which])
        sink.prove(nm + title, facts + hy, FALSE, detail=[str(f)[:200] for f in ctx.facts[-2:]])


# ------------------------------------------------------------ C05, C16: sameness
def same_form(sink, nm, view, cfg, fa, fb, facts):
    """Two replacement texts are equal."""
    if fa is None or fb is None:
        sink.require(nm + " replacements have the out-style's form", False)
        return
    if fa.kind != fb.kind:
        sink.prove(nm + " same form (%s, %s)" % (fa.kind, fb.kind), facts, FALSE)
        return
    if fa.kind == "null":
        sink.add(nm + " same replacement", "proved")
        return
    if fa.kind == "tuple" and fa.n is not fb.n:
        if not sink.prove(nm + " same number of placeholders", facts, eq(fa.n, fb.n)):
            return
    i = view.var("i", fa.n) if fa.kind == "tuple" else ZERO
    f = facts + ([le(ZERO, i), lt(i, fa.n)] if fa.kind == "tuple" else [])
    a, b = fa.at(i), fb.at(i)
    if a is b:
        sink.add(nm + " same replacement", "proved")
        return
    lem = psum_lemmas(f, [a, b], lambda nme: (view.var(nme, view.ntok), view.ntok))
    sink.prove(nm + " same replacement", f + lem, eq(a, b))


def same_query(sink, nm, view, casesA, casesB, facts):
    """The two substitutions over the same query give the same text: per token."""
    view.charset()
    for j, r in enumerate(view.roles):
        J, rng = view.token()
        base = facts + rng + lits(view.is_kind(j, J))
        if smt.check(cheap(base)) == "unsat":
            continue
        ca = [(subst(c, {view.v: J}), subst(t, {view.v: J})) for c, t in casesA]
        cb = [(subst(c, {view.v: J}), subst(t, {view.v: J})) for c, t in casesB]
        ca = [(c, t) for c, t in ca if smt.check(cheap(base) + lits(c)) != "unsat"]
        cb = [(c, t) for c, t in cb if smt.check(cheap(base) + lits(c)) != "unsat"]
        for c, t in ca:
            for c2, t2 in cb:
                f = base + lits(c) + lits(c2)
                if smt.check(cheap(f)) == "unsat":
                    continue
                n2 = "%s kind%d" % (nm, j)
                if t is t2:
                    sink.add(n2 + " same replacement", "proved")
                elif r.role != "par" or view.form(t) is None or view.form(t2) is None:
                    sink.require(n2 + " same replacement", smt.check(f) == "unsat", "%s / %s" % (t, t2))
                else:
                    same_form(sink, n2, view, view.cfg, view.form(t), view.form(t2), f)


class Align:
    """Gives equivalent binder terms (least index such that .., sums, substitutions) of two
    summaries the same name: first(n, c) and first(n, d) are equal when c and d are
    equivalent for every index, which the solver decides (innermost binders first)."""

    def __init__(self):
        self.reps, self.memo = {}, {}

    def norm(self, t, d=0):
        key = (t, d)
        r = self.memo.get(key)
        if r is not None:
            return r
        if not any(x.op in tm.BINDERS for x in subterms(t)):
            r = t
        elif t.op in tm.BINDERS:
            b = t.args[tm.BINDERS[t.op]]
            u = tm.rename(t, b, named_var("\u03ba%d" % d, b.sort))
            u = mk(u.op, tuple(self.norm(a, d + 1) if isinstance(a, T) else a for a in u.args), u.sort)
            cls = self.reps.setdefault((t.op, d, len(t.args)), [])
            r = u if u in cls else next((x for x in cls if self.same(x, u)), None)
            if r is None:
                cls.append(u)
                r = u
        else:
            r = tm.rebuild(t.op, tuple(self.norm(a, d) if isinstance(a, T) else a for a in t.args), t.sort)
        self.memo[key] = r
        return r

    @staticmethod
    def iff(a, b):
        if a is b:
            return True
        A, B = Align.atoms(a), Align.atoms(b)
        if 2 * len(A & B) <= len(A | B):
            return False
        # as propositions over the atoms first (a weakening)
        m = {x: named_var("atom!%d" % x.uid, "bool") for x in A | B}
        x, y = tm.replace(a, m), tm.replace(b, m)
        return all(smt.prove([p], q) is True for p, q in ((x, y), (y, x))) or all(smt.prove([p], q) is True for p, q in ((a, b), (b, a)))

    _atoms = {}

    @staticmethod
    def atoms(t):
        """The atomic conditions of a condition (both summaries come from the same code)."""
        r = Align._atoms.get(t)
        if r is None:
            if t.op in ("and", "or", "not"):
                r = frozenset().union(*(Align.atoms(a) for a in t.args))
            else:
                r = frozenset([t])
            Align._atoms[t] = r
        return r

    def same(self, x, y):
        if x.op in ("first", "last"):
            return x.args[0] is y.args[0] and self.iff(x.args[2], y.args[2])
        if x.op == "psum":
            k = x.args[1]
            return x.args[0] is y.args[0] and smt.prove([], eq(theory.delta(x, k), theory.delta(y, k))) is True
        if x.op == "forall":
            return x.args[:-1] == y.args[:-1] and self.iff(x.args[-1], y.args[-1])
        if x.op == "sub":
            if x.args[:3] != y.args[:3]:
                return False
            left = list(y.args[3:])
            for c in x.args[3:]:
                m = next((e for e in left if e.args[1:] == c.args[1:] and self.iff(c.args[0], e.args[0])), None)
                if m is None:
                    return False
                left.remove(m)
            return True
        return False

    def all(self, fs):
        return [self.norm(f) for f in fs]


def ob_many_like_one(sink, one, many):
    """C05: formatmany converts the query as format does with the first row."""
    n = 0
    for A in views(many):
        for B in views(one):
            m = {one.P: A.row}
            if B.o is not A.o and (B.pat.pattern, B.pat.flags) == (A.pat.pattern, A.pat.flags):
                m[B.o] = A.o
            if not sink.require("same token regex", B.o is A.o or B.o in m):
                continue
            m[one.S] = A.S
            m[B.v] = A.v
            fb = [subst(f, m) for f in B.raw_facts]
            facts = [hide(f) for f in A.raw_facts + fb]
            if smt.check(facts) == "unsat":
                continue
            n += 1
            cb = [(hide(subst(c, m)), hide(subst(t, m))) for c, t in B.raw_cases]
            same_query(sink, "%s/%s" % (pathname(A), pathname(B)), A, A.cases, cb, facts)
        # the first row that makes formatmany succeed makes format succeed
        ctx_facts = A.raw_facts
        for k, o in enumerate(one.raises):
            f = ctx_facts + [subst(x, {one.P: A.row, one.S: A.S}) for x in o.pc]
            sink.prove("%s format() accepts the first row (raise%d)" % (pathname(A), k), f, FALSE)
    sink.require("some pair of successful paths", n > 0)



def _to_sequence(A, B, m, terms):
    """Replace, in terms of the mapping outcome B (already renamed by m), the values
    it binds by the elements of A's sequence with the same number.  Each replaced
    term is first proved to be the item the placeholder denotes."""
    pats = []
    for j, r in enumerate(B.roles):
        if r.role != "par":
            continue
        J, _ = B.token("Jm")
        x = B._value(B.row, J, j, [])
        if x is None:
            raise NoForm("no item of the mapping is proved to be the placeholder's")
        pats.append((j, J, subst(x, m)))
    out = []
    ok = {}

    def tokens_in(y):
        return [v for v in fv(y) if v not in (A.S, A.P)] + [z for z in subterms(y) if z.op in ("first", "last") and z.args[0] is A.ntok]

    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        y = t
        if tm.is_app(t, "ival"):
            for j, J, x in pats:
                for u in tokens_in(t):
                    if subst(x, {J: u}) is t:
                        y = app("item", (A.row, sub_(A.num(u), A.base())), "obj")
                        memo[t] = y
                        return y
            raise NoForm("an item of the mapping that is not a placeholder's value")
        if any(isinstance(a, T) for a in t.args):
            args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            if args != t.args:
                y = tm.rebuild(t.op, args, t.sort)
        memo[t] = y
        return y
    return [go(t) for t in terms]


def ob_same_kinds(sink, run):
    """C16: a mapping and a sequence with the same values give the same query."""
    vs = views(run)
    seqs, maps = [], []
    for v in vs:
        t = v.rowtype(v.raw_facts, v.row)
        if t is None:
            raise NoForm("row is neither mapping nor sequence")
        (seqs if t == "seq" else maps).append(v)
    sink.require("sequences are accepted", bool(seqs))
    sink.require("mappings are accepted", bool(maps))
    n = 0
    P2 = named_var("P2", "obj")
    for A in seqs:
        for B in maps:
            m = {B.P: P2, B.v: A.v}
            if B.o is not A.o:
                m[B.o] = A.o
            if not sink.require("same token regex", (B.pat.pattern, B.pat.flags) == (A.pat.pattern, A.pat.flags)):
                continue
            ts = [subst(f, m) for f in B.raw_facts] + [subst(x, m) for c in B.raw_cases for x in c]
            ts = _to_sequence(A, B, m, ts)
            k = len(B.raw_facts)
            facts = [hide(f) for f in A.raw_facts + ts[:k]]
            if smt.check(facts) == "unsat":
                continue
            n += 1
            cb = [(hide(ts[k + 2 * i]), hide(ts[k + 2 * i + 1])) for i in range(len(B.raw_cases))]
            same_query(sink, "%s/%s" % (pathname(A), pathname(B)), A, A.cases, cb, facts)
    sink.require("some pair of successful paths", n > 0)


# ------------------------------------------------------------------------ C15
def outcomes_of(fn, argname="k", sort="str", contracts=None):
    m = engine.Machine(hyps=[], contracts=contracts or {}, deadline=None)
    k = named_var(argname, sort)

    def body():
        return m.freeze(m.call(engine.lift(fn), [k], {}), {}, m.store)
    outs = m.run("u", body)
    return m, k, [o for o in outs if getattr(o, "feasible", True)]


def same_function(f, g):
    """Obligations of 'f and g agree on every string' (value or exception class)."""
    engine.REPO_MODULES.add("vf")
    try:
        m1, k, a = outcomes_of(f)
        m2, _, b = outcomes_of(g)
    finally:
        engine.REPO_MODULES.discard("vf")
    res = []
    for x in a:
        for y in b:
            facts = list(x.pc) + list(y.pc)
            if smt.check(facts) == "unsat":
                continue
            if x.kind == "raise" or y.kind == "raise":
                ok = x.kind == y.kind and issubclass(_cls(x), _cls(y))
                res.append(("%s where the specification %s" % (_out(x), _out(y)), facts, TRUE if ok else FALSE))
            else:
                res.append(("returns the specified text", facts, eq(x.val, y.val)))
    return m1, res


def _cls(o):
    return o.val.cls if hasattr(o.val, "cls") else o.val[0]


def _out(o):
    return "raises %s" % _cls(o).__name__ if o.kind == "raise" else "returns"


def ob_unquote(sink):
    """The contract assumed for the normal form of an Oracle key at its call sites."""
    fs = oracle_functions()
    if not fs:
        raise NoForm("no function computes the normal form of an Oracle key")
    for f in fs:
        m, res = same_function(f, spec.oracle_key)
        sink.functions |= set(m.functions)
        sink.require("%s has outcomes" % f.__qualname__, len(res) >= 3)
        for nm, facts, goal in res:
            sink.prove("%s %s" % (f.__qualname__, nm), facts, goal)


def ob_quotes(sink, view):
    """C15: generated Oracle names carry quotes exactly when allowed; other styles never."""
    cfg = view.cfg
    want = cfg.outs == "named_oracle" and bool(cfg.quotes)
    for tok in tokens(view):
        nm = "%s kind%d %s" % (pathname(view), tok.j, tok.form.kind if tok.form else "?")
        if not sink.require(nm + " replacement has the out-style's form", tok.form is not None, str(tok.text)[:300]):
            continue
        if tok.form.kind != "null":
            sink.require(nm + (" name in double quotes" if want else " name without quotes"), quoted(tok.form.ref) == want, str(tok.form.ref)[:300])
    if cfg.ko == "named":
        for e in entries(view, view.rows[0][2]):
            sink.require(pathname(view) + (" key in double quotes" if want else " key without quotes"), quoted(e.key) == want, str(e.key)[:300])


def quoted(ref):
    """True: the name is '"' + text without quotes + '"'; False: no quote in it; None otherwise."""
    ps = sparts(ref) if ref.sort == "str" else []
    if not ps:
        return False
    has = [('"' in cval(p)) if p.op == "py" else not (p.op == "istr" or engine.lacks_char(p, '"')) for p in ps]
    if not any(has):
        return False
    if ps[0].op == "py" and ps[-1].op == "py" and cval(ps[0]).startswith('"') and cval(ps[-1]).endswith('"'):
        inner = "".join(cval(p) if p.op == "py" else "x" for p in ps)[1:-1]
        if '"' not in inner and not any(h for h, p in zip(has, ps) if p.op != "py"):
            return True
    return None


# ------------------------------------------------------------------------ C09
def ob_escape(sink, view):
    """C09: escape tokens become the marker; without an escape character there are none."""
    ob_literals(sink, view, "esc")


def escape_atoms(i, o):
    """One character of each class the two regexes can tell apart.

    Exchanging two characters of the same class maps the matches of the regex for
    the one onto those of the regex for the other, on both sides."""
    cfg = spec.Cfg(i, o, escape="\x01")
    sets = {}
    for p in list(find_patterns(cfg.make(module().SQLParams)).values()) + [spec_pattern(cfg)]:
        rx.Prog(p, 0, sets)
    return [c for _, c in rx.Alphabet(sets).reps]


def escape_samples(full):
    if not full:
        return []
    cs = [chr(c) for c in (range(1, 128) if full else range(32, 127))] + list("\u00a0\u00b5\u00df\u00e9\u00ff\u0130\u0660\u2028\u4e2d\U0001f600")
    return cs


def ob_escape_chars(sink, i, o, full):
    """For each escape character, the token regex the constructor builds is the grammar.

    All the conversion code sees of the escape character is this regex, so together
    with the summaries (for a few escape characters) this covers each of them."""
    base = None
    for ch in dict.fromkeys(escape_atoms(i, o) + escape_samples(full)):
        cfg = spec.Cfg(i, o, escape=ch)
        q = cfg.make(module().SQLParams)
        pats = find_patterns(q)
        sp = spec_pattern(cfg)
        ok, why = False, None
        names = {n: p for n, p in pats.items()}
        if not names:
            raise NoForm("no compiled pattern in the instance")
        for n, p in names.items():
            g = next((g for g in p.groupindex if g not in ("escape", "out_percent") and cfg.ki != "ordinal"
                      and regex_equiv(p, sp, {g: "key"}).equal), None)
            r = regex_equiv(p, sp, {g: "key"} if g else {})
            if r.equal and (g or cfg.ki == "ordinal"):
                ok = True
            else:
                why = dict(witness=r.witness, detail=str(r.detail))
            sink.states = getattr(sink, "states", 0) + r.states
        sink.add("escape character %r: the token regex recognises exactly the grammar" % ch, "proved" if ok else "unproved", None if ok else why)
        sink.require("escape character %r is reported" % ch, q.escape_char == ch)
        shape = instance_shape(q)
        if base is None:
            base = ch, shape
        diff = [k for k in set(shape) | set(base[1]) if shape.get(k) != base[1].get(k)
                and not (shape.get(k) == repr(ch) and base[1].get(k) == repr(base[0]))]
        sink.require("escape character %r: the instance differs in nothing but the character and its regex" % ch, not diff, diff[:4])


def find_patterns(x, path="", out=None, depth=0):
    out = {} if out is None else out
    if isinstance(x, re.Pattern):
        if not any(x is y for y in out.values()):
            out[path] = x
    elif hasattr(x, "__dict__") and depth < 3 and not isinstance(x, type):
        for k, v in vars(x).items():
            find_patterns(v, path + "." + k, out, depth + 1)
    return out


def instance_shape(x, path="", out=None, depth=0):
    out = {} if out is None else out
    if isinstance(x, re.Pattern):
        out[path] = "regex"
    elif isinstance(x, (str, int, bool, type(None), tuple, list, dict, type)):
        out[path] = repr(x)
    elif hasattr(x, "__dict__") and depth < 3:
        out[path] = type(x).__qualname__
        for k, v in vars(x).items():
            instance_shape(v, path + "." + k, out, depth + 1)
    else:
        out[path] = type(x).__qualname__
    return out
