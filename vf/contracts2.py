"""Contracts C11 (byte queries), C12 (comments), C13 (frame) and C18 (constructor)."""
import re

from . import engine, rx, smt, spec, view
from . import terms as tm
from .contracts import (Align, Sink, cheap, find_patterns, ground, pathname, prove_tiers, same_query, views, _cls)
from .engine import Unsupported, is_box, lift
from .terms import *
from .terms import T, fv, subst, subterms
from .view import NoForm, View, ZERO, ONE, hide, lits, module, summarize

NONE = const(None)
LATIN1 = "iso8859-1"


# ------------------------------------------------------------------------ C11
def ob_other_types(sink, cfg, many):
    """A query that is neither str nor bytes always raises TypeError."""
    r = summarize(cfg, many, query="obj")
    for n, o in enumerate(r.outs):
        ok = o.kind == "raise" and issubclass(_cls(o), TypeError)
        if not ok:
            sink.prove("query of another type: outcome %d is not possible" % n, list(r.m.hyps) + list(o.pc), FALSE)
        else:
            sink.add("query of another type raises TypeError (%d)" % n, "proved")
    sink.require("query of another type has an outcome", bool(r.outs))


def encodable(t, leaves):
    """Collect the leaves of a text on which its Latin-1 encodability depends."""
    op = t.op
    if op == "py":
        if not cval(t).isascii() and max(map(ord, cval(t))) > 255:
            leaves.append(t)
    elif op == "istr":
        pass
    elif op == "cat":
        for a in t.args:
            encodable(a, leaves)
    elif op == "ite":
        encodable(t.args[1], leaves)
        encodable(t.args[2], leaves)
    elif op == "sub":
        encodable(t.args[1], leaves)
        for c in t.args[3:]:
            encodable(c.args[1], leaves)
    elif op == "join":
        for a in t.args:
            if isinstance(a, T):
                _enc_seq(a, leaves)
    elif op == "app" and t.args[0] == "rxsub":
        encodable(t.args[2], leaves)
        encodable(t.args[3], leaves)
    elif op == "app" and t.args[0].startswith("tg:"):
        encodable(t.args[2], leaves)
    elif op == "app" and t.args[0] in ("slice", "charat"):
        encodable(t.args[1], leaves)
    elif op == "app" and t.args[0] == "replace":
        encodable(t.args[1], leaves)
        encodable(t.args[3], leaves)
    elif op == "app" and t.args[0] == "decode:" + LATIN1:
        pass
    else:
        leaves.append(t)


def _enc_seq(s, leaves):
    if s.sort == "str":
        return encodable(s, leaves)
    for g in s.args:
        if not isinstance(g, T):
            continue
        if g.op == "elem":
            encodable(g.args[0], leaves)
        elif g.op == "map":
            encodable(g.args[2], leaves)
        elif g.op == "flat":
            for c in g.args[2:]:
                _enc_seq(c.args[1], leaves)
        else:
            leaves.append(g)


def ob_bytes(sink, cfg, many):
    """The outcome for bytes B is the encoded outcome for the text decode(B)."""
    a, b = summarize(cfg, many), summarize(cfg, many, query="bytes")
    sink.paths += len(a.outs) + len(b.outs)
    sink.functions |= set(b.m.functions)
    D = app("decode:" + LATIN1, (b.S,), "str")
    for o in a.ok:
        sink.require("text query gives a pair of a text and parameters (%s)" % str(o.val)[:60].split("(")[0],
                     o.val.op == "tuple" and len(o.val.args) == 2 and o.val.args[0].sort == "str")
    hyps = list(a.m.hyps)
    al = Align()
    A = []
    for o in a.outs:
        A.append((o, [subst(f, {a.S: D}) for f in o.pc], None if o.kind == "raise" else subst(o.val, {a.S: D})))
    n_ok = 0
    for nb, y in enumerate(b.outs):
        partner = False
        for na, (x, pc, val) in enumerate(A):
            pcb = list(y.pc)
            enc = None
            if y.kind == "raise" and issubclass(_cls(y), UnicodeEncodeError) or y.kind != "raise":
                pcb = [f for f in pcb if not _is_encodable(f)]
                e = [f for f in y.pc if _is_encodable(f)]
                enc = e[0] if len(e) == 1 else None
            same_pc = pcb == pc
            facts = hyps + pc + pcb
            if not same_pc and smt.check(cheap(facts)) == "unsat":
                continue
            partner = True
            nm = "bytes outcome %d / text outcome %d" % (nb, na)
            if x.kind == "raise" or (y.kind == "raise" and not issubclass(_cls(y), UnicodeEncodeError)):
                ok = x.kind == y.kind == "raise" and _cls(x) is _cls(y)
                if ok:
                    sink.add(nm + " raise the same exception", "proved")
                else:
                    f = hyps + al.all(pc) + al.all(pcb)
                    if any(not_(x) in f for x in f) or smt.prove(facts, FALSE) is True:
                        sink.add(nm + " raise alike", "proved")
                    else:
                        sink.prove(nm + " raise alike", f, FALSE)
                continue
            if enc is None:
                sink.require(nm + " encodes its result once", False)
                continue
            text = enc.args[0].args[1] if enc.op == "not" else enc.args[1]
            if y.kind == "raise":
                # the encoding step never fails
                leaves = []
                encodable(text, leaves)
                leaves = list(dict.fromkeys(leaves))
                bad = [l for l in leaves if not (tm.is_app(l, "upper") and tm.is_app(l.args[1]) and l.args[1].args[0].startswith("tg:")
                                                 and cfg.ins == "named_oracle")]
                if bad:
                    sink.add(nm + " encoding the result cannot fail", "unproved", [str(l)[:200] for l in bad[:3]])
                elif leaves:
                    sink.add(nm + " encoding the result cannot fail", "finding", "upper-case form of an Oracle name outside Latin-1")
                else:
                    sink.add(nm + " encoding the result cannot fail", "proved")
                continue
            n_ok += 1
            bs, bp = y.val.args if y.val.op == "tuple" and len(y.val.args) == 2 else (None, None)
            as_, ap = val.args if val.op == "tuple" and len(val.args) == 2 else (None, None)
            if not sink.require(nm + " results are pairs", bs is not None and as_ is not None):
                continue
            if not sink.require(nm + " bytes query gives Latin-1 bytes", bs.sort == "bytes" and tm.is_app(bs, "encode:" + LATIN1), str(bs)[:200]):
                continue
            if bs.args[1] is as_:
                sink.add(nm + " same text", "proved")
            else:
                _same_text(sink, nm, b, y, bs.args[1], a, x, as_, facts)
            if bp is ap or al.norm(bp) is al.norm(ap):
                sink.add(nm + " same parameters", "proved")
            else:
                sink.require(nm + " same parameters", False, "%s / %s" % (str(ap)[:150], str(bp)[:150]))
        if not partner:
            sink.prove("bytes outcome %d is impossible" % nb, hyps + list(y.pc), FALSE)
    sink.require("some bytes query succeeds", n_ok > 0)


def _is_encodable(f):
    g = f.args[0] if f.op == "not" else f
    return tm.is_app(g) and g.args[0].startswith("encodable:")


def _same_text(sink, nm, b, y, tb, a, x, ta, facts):
    """Two substitutions over the same text, compared token by token."""
    if tb.op != "sub" or ta.op != "sub" or tb.args[1] is not ta.args[1] or \
            (cval(tb.args[0]).pattern, cval(tb.args[0]).flags) != (cval(ta.args[0]).pattern, cval(ta.args[0]).flags):
        sink.require(nm + " same text", False, "%s / %s" % (str(ta)[:150], str(tb)[:150]))
        return
    D = ta.args[1]
    A = View(a, x)
    m = {A.S: D}
    B = _Moved(A, m)
    mb = {tb.args[2]: A.v}
    if tb.args[0] is not ta.args[0]:
        mb[tb.args[0]] = ta.args[0]
    cb = [(hide(subst(c.args[0], mb)), hide(subst(c.args[1], mb))) for c in tb.args[3:]]
    ca = [(hide(subst(c, m)), hide(subst(t, m))) for c, t in A.raw_cases]
    same_query(sink, nm, B, ca, cb, [hide(f) for f in facts])


class _Moved:
    """A view whose query is another term."""

    def __init__(self, view, m):
        self.__dict__.update(view.__dict__)
        self.S = m[view.S]
        self.ntok = subst(view.ntok, m)
        self.row = view.row

    for _n in ("var", "token", "is_kind", "is_par", "keytext", "charset", "form", "par_kinds"):
        locals()[_n] = getattr(View, _n)


# ------------------------------------------------------------------------ C13
def ob_frame(sink, cfg, many):
    """Nothing but new objects is written; the result depends on the arguments only."""
    r = summarize(cfg, many)
    sink.paths += len(r.outs)
    sink.functions |= set(r.m.functions)
    sink.add("every write goes to an object created in the call", "proved")  # the engine refuses any other write
    sink.require("no container occurs twice in the result", not r.m.aliased, len(r.m.aliased))
    for n, o in enumerate(r.outs):
        free = set()
        for f in list(o.pc) + ([o.val] if o.kind != "raise" else []):
            free |= fv(f)
        free -= {r.S, r.P}
        sink.require("outcome %d depends on the configuration and the arguments only" % n, not free, [str(x) for x in free][:4])
        if o.kind == "raise":
            continue
        ok = o.val.op == "tuple" and len(o.val.args) == 2
        if not sink.require("outcome %d is a pair" % n, ok, o.val.op):
            continue
        p = o.val.args[1]
        fresh = ("listval", "arrval", "dictval")
        if not many:
            sink.require("outcome %d the parameters are a new container" % n, p.op in fresh, p.op)
            continue
        if not sink.require("outcome %d the list of rows is new" % n, p.op == "listval", p.op):
            continue
        bad = []

        def rows(s):
            for g in s.args:
                if g.op == "elem":
                    x = [g.args[0]]
                elif g.op == "map":
                    x = [g.args[2]]
                elif g.op == "flat":
                    x = []
                    for c in g.args[2:]:
                        rows(c.args[1])
                else:
                    x = [g]
                bad.extend(y.op for y in x if y.op not in fresh)
        rows(p.args[0])
        sink.require("outcome %d every row gets a new container" % n, not bad, bad)


# ------------------------------------------------------------------------ C12
def comment_spec(style):
    """The specification's regex of a comment style (C12)."""
    if isinstance(style, str):
        return re.compile("^[ \\t]*%s.*\\n?" % re.escape(style), re.M)
    s, e = style
    return re.compile("^[ \\t]*%s[\\s\\S]*?%s(?:\\r?\\n)?" % (re.escape(s), re.escape(e)), re.M)


MARKERS = ["--", "#", "//", ("/*", "*/"), ("(*", "*)"), ("{", "}"), ("<!--", "-->"), ";", "%", ":", "REM", "''", ("--[", "]--"), ("$$", "$$")]


def strip_instances(full):
    cs = [True, list(MARKERS[:6]), MARKERS[6:10], MARKERS[10:]]
    cs += [[m] for m in MARKERS]
    if full:
        cs += [[chr(c)] for c in range(33, 127)] + [[(chr(c), "*/")] for c in range(33, 127)] + [[("/*", chr(c))] for c in range(33, 127)]
    return cs


def strip_regexes(S, plain):
    """Regexes of nested removals around the query, in the order they are applied."""
    out = []
    t = S
    while tm.is_app(t, "rxsub"):
        if t.args[2] is not const(""):
            raise NoForm("comments are not removed but replaced")
        out.append(cval(t.args[1]))
        t = t.args[3]
    if t is not plain:
        raise NoForm("stripped query")
    return out[::-1]


def query_of(run):
    """The text the converter sees, from the summary's outcomes."""
    qs = set()
    for o in run.ok:
        sql = o.val.args[0]
        if sql.op != "sub":
            raise NoForm("converted query is not a substitution")
        qs.add(sql.args[1])
    if len(qs) != 1:
        raise NoForm("different stripped queries")
    return qs.pop()


def ob_strip(sink, cfg, many):
    """With stripping on, the outcome is the plain outcome for the stripped query."""
    plain = spec.Cfg(cfg.ins, cfg.outs, cfg.escape, cfg.expand, None, cfg.quotes)
    a, b = summarize(plain, many), summarize(cfg, many)
    sink.paths += len(a.outs) + len(b.outs)
    sink.functions |= set(b.m.functions)
    q0, q = query_of(a), query_of(b)
    sink.require("without stripping the query itself is converted", q0 is a.S, str(q0)[:200])
    res = strip_regexes(q, b.S)
    ob_regexes(sink, res, cfg.comments)
    m = {a.S: q}
    pats = {}
    for o in a.ok:
        pats[o.val.args[0].args[0]] = None
    # the two instances hold different (equal) pattern objects
    pa = {x for o in a.outs for f in list(o.pc) + ([o.val] if o.kind != "raise" else []) for x in subterms(f) if is_box(x) and isinstance(cval(x), re.Pattern)}
    pb = {x for o in b.outs for f in list(o.pc) + ([o.val] if o.kind != "raise" else []) for x in subterms(f) if is_box(x) and isinstance(cval(x), re.Pattern)}
    for x in pa:
        for y in pb:
            if x is not y and (cval(x).pattern, cval(x).flags) == (cval(y).pattern, cval(y).flags):
                m[x] = y
    A = [(o.kind, [subst(f, m) for f in o.pc], subst(o.val, m) if o.kind != "raise" else _cls(o)) for o in a.outs]
    B = [(o.kind, list(o.pc), o.val if o.kind != "raise" else _cls(o)) for o in b.outs]
    sink.require("the same outcomes as for the stripped query", len(A) == len(B), (len(A), len(B)))
    for n, (x, y) in enumerate(zip(A, B)):
        same = x[0] == y[0] and x[1] == y[1] and x[2] is y[2]
        if same:
            sink.add("outcome %d is that of the stripped query" % n, "proved")
        else:
            sink.require("outcome %d is that of the stripped query" % n, False, "%s / %s" % (str(x[2])[:150], str(y[2])[:150]))


def ob_regexes(sink, pats, styles):
    sink.require("one removal per comment style, in order", len(pats) == len(styles), (len(pats), len(styles)))
    for n, (p, s) in enumerate(zip(pats, styles)):
        r = rx.equiv(p, comment_spec(s))
        sink.states = getattr(sink, "states", 0) + r.states
        sink.add("removal %d (%r) removes exactly the comments %r" % (n, p.pattern, s), "proved" if r.equal else "unproved",
                 None if r.equal else dict(witness=r.witness, detail=str(r.detail)))


def ob_comment_styles(sink, i, o, full):
    """The removals of instances with other comment styles."""
    for strip in strip_instances(full):
        cfg = spec.Cfg(i, o, strip=strip)
        b = summarize(cfg, False)
        ob_regexes(sink, strip_regexes(query_of(b), b.S), cfg.comments)
    for strip in (None, False, []):
        cfg = spec.Cfg(i, o, strip=strip)
        b = summarize(cfg, False)
        sink.require("strip_comments=%r removes nothing" % (strip,), query_of(b) is b.S)


# ------------------------------------------------------------------------ C18
OPTIONS = ("in_style", "out_style", "escape_char", "expand_tuples", "strip_comments")
ARGS = [named_var(n, "obj") for n in ("In", "Out", "E", "X", "C", "Q")]
_ctor = {}


def isa(c, x):
    return app("isa:" + c, (x,), "bool")


def truthy(x):
    return app("truthy", (x,), "bool")


def is_seq(x):
    return and_(isa("Sequence", x), not_(isa("str", x)), not_(isa("bytes", x)))


def object_facts(x, names=()):
    """Facts about the constants None, True and False and the text class."""
    out = []
    for c, cls in ((NONE, type(None)), (TRUE, bool), (FALSE, bool)):
        e = eq(x, c)
        out += [implies(e, isa(n, x) if issubclass(cls, k) else not_(isa(n, x)))
                for n, k in (("str", str), ("bytes", bytes), ("bool", bool), ("Mapping", engine.cabc.Mapping), ("Sequence", engine.cabc.Sequence))]
        out.append(implies(e, truthy(x) if c is TRUE else not_(truthy(x))))
    out.append(implies(isa("bool", x), or_(eq(x, TRUE), eq(x, FALSE))))
    out += [implies(eq(x, const(n)), isa("str", x)) for n in names]
    out.append(implies(isa("str", x), eq(truthy(x), not_(eq(x, const(""))))))
    return out


def attributes(m, ref, path, depth=0):
    """Everything stored in an object made by the constructor."""
    out = []
    for k, t in list(m.store.items()):
        if k[0] == "a" and k[1] == ref.args[0]:
            if t.op == "ref" and m.get(t).op == "O" and depth < 4:
                out.append((path + "." + k[2], const("instance of " + m.get(t).args[0].v.__qualname__)))
                out += attributes(m, t, path + "." + k[2], depth + 1)
            else:
                out.append((path + "." + k[2], t))
    return out


def construct(style, budget=300):
    """Symbolic execution of the constructor for arbitrary arguments.  The in-style
    is the one named `style`, or (None) anything that is none of the nine names."""
    r = _ctor.get(style)
    if r is not None:
        return r
    import time
    mod = module()
    In, Out, E, X, C, Q = ARGS
    hy = []
    for x in ARGS:
        hy += object_facts(x, spec.STYLES if x in (In, Out) else ())
    hy += [eq(In, const(style))] if style else [not_(eq(In, const(s))) for s in spec.STYLES]
    # the comment styles are None, a boolean or a sequence
    hy += [or_(eq(C, NONE), eq(C, TRUE), eq(C, FALSE), is_seq(C)), not_(isa("Mapping", C))]
    m = engine.Machine(hyps=hy, deadline=time.time() + budget)
    m.MAXPATHS = 2000

    def body():
        v = m.call(lift(mod.SQLParams), list(ARGS), {})
        state = tup([tup([const(p), t]) for p, t in attributes(m, v, "")])
        return m.freeze(tup([tup([m.getattr(v, n) for n in OPTIONS]), state]), {}, m.store)
    outs = [o for o in m.run("c", body) if getattr(o, "feasible", True)]
    r = _ctor[style] = engine.types.SimpleNamespace(m=m, outs=outs, hyps=hy)
    return r


def firsts(facts):
    """Indexes into the comment styles the path condition speaks about."""
    return [t for t in set().union(*[subterms(f) for f in facts] or [set()]) if t.op in ("first", "last") and ground(t)]


def ob_construct(sink, style):
    r = construct(style)
    sink.functions |= set(r.m.functions)
    sink.paths += len(r.outs)
    In, Out, E, X, C, Q = ARGS
    nC = app("len", (C,), "int")
    k = named_var("k@cs", "int")
    smt.DOMAIN[k] = nC

    def item(i):
        return app("item", (C, i), "obj")

    def known(x):
        return or_(*[eq(x, const(s)) for s in spec.STYLES])

    def malformed(i):
        x = item(i)
        return and_(is_seq(C), le(ZERO, i), lt(i, nC), not_(isa("str", x)), not_(is_seq(x)))

    def excluded(i):
        """A sequence that is not a pair of texts: outside the statement."""
        x = item(i)
        a, b = app("item", (x, ZERO), "obj"), app("item", (x, ONE), "obj")
        return and_(is_seq(C), le(ZERO, i), lt(i, nC), is_seq(x),
                    not_(and_(eq(app("len", (x,), "int"), const(2)), isa("str", a), isa("str", b))))
    bad_esc = and_(truthy(E), not_(eq(E, TRUE)), not_(isa("str", E)))
    ok = 0
    for n, o in enumerate(r.outs):
        facts = r.hyps + list(o.pc)
        nm = "outcome %d" % n
        if o.kind == "raise":
            c = _cls(o)
            xs = firsts(o.pc)
            goal = [excluded(i) for i in xs]
            if issubclass(c, KeyError):
                goal += [and_(isa("str", x), not_(known(x))) for x in (In, Out)]
            if issubclass(c, TypeError):
                goal += [not_(isa("str", In)), not_(isa("str", Out)), bad_esc] + [malformed(i) for i in xs]
            sink.prove("%s (%s) is justified by a malformed option" % (nm, c.__name__), facts, or_(*goal) if goal else FALSE)
            continue
        ok += 1
        for what, x in (("in_style", In), ("out_style", Out)):
            sink.prove("%s: only known style names (%s)" % (nm, what), facts, and_(isa("str", x), known(x)))
        sink.prove(nm + ": the escape character is a text or a boolean", facts, not_(bad_esc))
        sink.prove(nm + ": every comment style is a text or a sequence", facts + [malformed(k)], FALSE)
        ins, outs, esc, exp, strip = o.val.args[0].args
        sink.prove(nm + ": in_style is the given one", facts, eq(ins, In))
        sink.prove(nm + ": out_style is the given one", facts, eq(outs, Out))
        for s in spec.STYLES:
            f = facts + [eq(In, const(s)), eq(E, TRUE)]
            if style == s:
                sink.prove(nm + ": escape_char=True gives the marker", f, eq(esc, const(spec.MARK[s])))
        sink.prove(nm + ": a false escape_char gives None", facts + [not_(truthy(E))], eq(esc, NONE))
        sink.prove(nm + ": a given escape_char is kept", facts + [truthy(E), not_(eq(E, TRUE))], eq(esc, E))
        sink.require(nm + ": expand_tuples is a boolean", exp.sort == "bool", str(exp)[:200])
        if exp.sort == "bool":
            for s in spec.STYLES:
                sink.prove(nm + ": expand_tuples=None for %s" % s, facts + [eq(Out, const(s)), eq(X, NONE)],
                           exp if spec.KIND[s] != "named" else not_(exp))
            sink.prove(nm + ": a given expand_tuples is kept", facts + [not_(eq(X, NONE))], or_(and_(exp, truthy(X)), and_(not_(exp), not_(truthy(X)))))
        if smt.check(facts + [eq(C, TRUE)]) != "unsat":
            d = engine.host(strip) if engine.is_hostable(strip) else None
            good = isinstance(d, (list, tuple)) and [x if isinstance(x, str) else tuple(x) for x in d] == list(spec.DEFAULT_COMMENTS)
            sink.require(nm + ": strip_comments=True gives the default styles", good, str(strip)[:200])
            continue
        sink.prove(nm + ": strip_comments=False gives None", facts + [eq(C, FALSE)], eq(strip, NONE))
        sink.prove(nm + ": given comment styles are kept", facts + [not_(eq(C, FALSE))], eq(strip, C))
    if style:
        sink.require("some instance is made", ok > 0)
        for e in (TRUE, NONE):
            for s in spec.STYLES:
                some = [o for o in r.outs if o.kind != "raise" and smt.check(r.hyps + list(o.pc) + [eq(Out, const(s)), eq(E, e), eq(C, TRUE)]) != "unsat"]
                sink.require("%s -> %s with escape_char=%s can be made" % (style, s, e), bool(some))


# ----------------------------------------------- C12 for arbitrary comment styles
def summarize_comments(cfg, many, budget=240):
    """As view.summarize, but with an arbitrary sequence of comment styles."""
    import time
    mod = module()
    tm.KEYSORT[0] = "str" if cfg.ins == "named_oracle" else "obj"
    S, P, C = named_var("S", "str"), named_var("M" if many else "P", "obj"), ARGS[4]
    hy = [is_seq(C), not_(isa("Mapping", C)), not_(eq(C, NONE)), not_(eq(C, TRUE)), not_(eq(C, FALSE)), not_(isa("bool", C)), not_(isa("int", C))]
    if many:
        engine.MANY.add(P)
        hy.append(lt(ZERO, app("nrows", (P,), "int")))
    m = engine.Machine(hyps=hy, contracts=view.contracts_for(), deadline=time.time() + budget)
    gone = const("the constructor refuses the comment styles")

    def body():
        try:
            q = m.call(lift(mod.SQLParams), [const(cfg.ins), const(cfg.outs), const(cfg.escape), const(cfg.expand), C, const(cfg.quotes)], {})
        except engine.Raised:
            return gone
        v = m.call(m.getattr(q, "formatmany" if many else "format"), [S, P], {})
        return m.freeze(v, {}, m.store)
    outs = [o for o in m.run("r", body) if getattr(o, "feasible", True)]
    return engine.types.SimpleNamespace(m=m, outs=[o for o in outs if o.val is not gone], hyps=hy, S=S, P=P, C=C,
                                        ok=[o for o in outs if o.kind != "raise" and o.val is not gone])


def text_parts(t):
    """Literal parts and escaped texts of a regular expression's text."""
    out, cur = [], ""
    for p in tm.sparts(t):
        if p.op == "py":
            cur += cval(p)
        elif tm.is_app(p, "re.escape"):
            out += [cur, p.args[1]]
            cur = ""
        else:
            raise NoForm("text of a comment regex: %s" % str(p)[:100])
    return out + [cur]


def same_regex_part(a, fa, b, fb):
    """The two parts are the same program (character classes compared as sets)."""
    sets = {}
    return rx.Prog(a, fa, sets).code == rx.Prog(b, fb, sets).code


def composed_of(parts, flags):
    """The regex is the concatenation of its parts, whatever the texts between are."""
    sets = {}
    ps = parts[0::2]
    lits = ["\x01", "\x02", "\x03"][:len(ps) - 1] + [""]
    a = rx.Prog("".join(p + l for p, l in zip(ps, lits)), flags, sets)
    b = rx.Prog("".join("(?:%s)%s" % (p, l) for p, l in zip(ps, lits)), flags, sets)
    return a.code == b.code and all(rx.Prog(p, flags).flags == flags | re.U for p in ps)


def ob_strip_all(sink, cfg, many):
    """For every list of comment styles, the outcome is the plain one for the stripped query."""
    a, b = summarize(cfg, many), summarize_comments(cfg, many)
    sink.paths += len(a.outs) + len(b.outs)
    sink.functions |= set(b.m.functions)
    q0, q = query_of(a), query_of(b)
    sink.require("without stripping the query itself is converted", q0 is a.S, str(q0)[:200])
    C = b.C
    if not (tm.is_app(q) and q.args[0] in engine.ITERS):
        raise NoForm("stripped query: %s" % str(q)[:200])
    step, params = engine.ITERS[q.args[0]]
    sink.require("the removals start from the query", q.args[2] is b.S, str(q.args[2])[:100])
    sink.require("one removal per comment style", q.args[1] is app("len", (C,), "int"), str(q.args[1])[:100])
    sink.require("the removals depend on the comment styles only", tuple(q.args[3:]) == params and set(params) <= {C, engine.N_ITER}, str(params)[:100])
    v = step.args[1]
    item = app("item", (C, v), "obj")
    s, e = app("item", (item, ZERO), "obj"), app("item", (item, ONE), "obj")
    single, multi = isa("str", item), and_(is_seq(item), eq(app("len", (item,), "int"), const(2)), isa("str", s), isa("str", e))
    SPEC = {True: (["^[ \\t]*", item, ".*\\n?"], re.M), False: (["^[ \\t]*", s, "[\\s\\S]*?", e, "(?:\\r?\\n)?"], re.M)}
    base = list(b.hyps) + [le(ZERO, v), lt(v, app("len", (C,), "int")), or_(single, multi)]
    conds = []
    for n, c in enumerate(step.args[2:]):
        cond, pay = c.args
        if smt.check(base + [cond]) == "unsat":
            continue
        conds.append(cond)
        nm = "removal %d" % n
        is_single = smt.prove(base + [cond], single) is True
        if not is_single:
            sink.prove(nm + " is for a single-line or for a multi-line style", base + [cond], not_(single))
        t = pay.args[0].args[0] if len(pay.args) == 1 and pay.args[0].op == "elem" else None
        if not sink.require(nm + " removes the matches of one regex from the text so far",
                            t is not None and tm.is_app(t, "rxsub") and t.args[2] is const("") and t.args[3] is engine.ACC and tm.is_app(t.args[1], "re.compile"), str(t)[:200]):
            continue
        parts, flags = text_parts(t.args[1].args[1]), cval(t.args[1].args[2])
        want, wflags = SPEC[is_single]
        if not sink.require(nm + " is built from the style's texts", len(parts) == len(want) and all(x is y for x, y in zip(parts[1::2], want[1::2])), str(parts)[:200]):
            continue
        F = re.I | re.A | re.L
        sink.require(nm + " matches the style's texts literally", not flags & F, flags)
        sink.require(nm + " is the concatenation of its parts", composed_of(parts, flags))
        for k in range(0, len(parts) - 2, 2):
            sink.require("%s part %d %r is %r" % (nm, k, parts[k], want[k]), same_regex_part(parts[k], flags, want[k], wflags))
        r = rx.equiv(parts[-1], want[-1], flags, wflags)
        sink.states = getattr(sink, "states", 0) + r.states
        sink.add("%s tail %r matches what %r matches" % (nm, parts[-1], want[-1]), "proved" if r.equal else "unproved", r.witness)
    sink.prove("every style has its removal", base, or_(*conds) if conds else FALSE)
    # the outcomes
    m = {a.S: q}
    pa = {x for o in a.outs for f in list(o.pc) + ([o.val] if o.kind != "raise" else []) for x in subterms(f) if is_box(x) and isinstance(cval(x), re.Pattern)}
    pb = {x for o in b.outs for f in list(o.pc) + ([o.val] if o.kind != "raise" else []) for x in subterms(f) if is_box(x) and isinstance(cval(x), re.Pattern)}
    for x in pa:
        for y in pb:
            if x is not y and (cval(x).pattern, cval(x).flags) == (cval(y).pattern, cval(y).flags):
                m[x] = y

    def key(o, mm):
        pc = [subst(f, mm) for f in o.pc if f not in b.hyps and not fv(f) <= {C}]
        return o.kind, tuple(sorted(canon(f) for f in pc)), canon(subst(o.val, mm)) if o.kind != "raise" else _cls(o)
    A, B = [key(o, m) for o in a.outs], [key(o, {}) for o in b.outs]
    sink.require("the same outcomes as for the stripped query", len(A) == len(B), (len(A), len(B)))
    al = Align()

    def found(n, x, outs, mm, keys, others, mo):
        """An equal outcome on the other side: the same text of the summary, or equivalent."""
        if x in keys:
            return True
        pc = and_(*al.all(subst(f, mm) for f in outs[n].pc if f not in b.hyps and not fv(f) <= {C}))
        val = al.norm(subst(outs[n].val, mm)) if outs[n].kind != "raise" else _cls(outs[n])
        for o in others:
            v = al.norm(subst(o.val, mo)) if o.kind != "raise" else _cls(o)
            if o.kind == outs[n].kind and (v is val or isinstance(v, T) and isinstance(val, T) and canon(v) == canon(val)) and \
                    Align.iff(pc, and_(*al.all(subst(f, mo) for f in o.pc if f not in b.hyps and not fv(f) <= {C}))):
                return True
        return False
    for n, x in enumerate(A):
        sink.require("outcome %d of the stripped query is an outcome" % n, found(n, x, a.outs, m, B, b.outs, {}), str(x)[:300])
    for n, x in enumerate(B):
        sink.require("outcome %d is that of the stripped query" % n, found(n, x, b.outs, {}, A, a.outs, m), str(x)[:300])


# ---------------------------------------- the instance as a function of the options
def ob_uniform(sink, style):
    """What an instance of this in-style consists of, for arbitrary options.

    The escape character enters it through its own text, its length and one place of
    the token regex only; expand_tuples and allow_out_quotes through whether they are
    None and whether they are true only.  So the finitely many configurations whose
    summaries are verified stand for all."""
    r = construct(style)
    sink.functions |= set(r.m.functions)
    sink.paths += len(r.outs)
    In, Out, E, X, C, Q = ARGS
    once = {truthy(E), isa("str", E), eq(E, TRUE), eq(E, NONE), eq(E, FALSE), eq(E, const(""))}
    flags = {truthy(X), eq(X, NONE), eq(X, TRUE), eq(X, FALSE), truthy(Q), eq(Q, NONE), eq(Q, TRUE), eq(Q, FALSE)}

    def bad(t, allowed):
        """Occurrences of the options other than the allowed ones."""
        if t in allowed or not fv(t) & {E, X, Q}:
            return []
        if t.op == "var":
            return [t]
        if tm.is_app(t, "re.compile") and fv(t) & {E}:
            out = []
            for p in tm.sparts(t.args[1]):
                if p is not app("re.escape", (E,), "str"):
                    out += bad(p, allowed)
            return out
        return [x for a in t.args if isinstance(a, T) for x in bad(a, allowed)]
    for n, o in enumerate(r.outs):
        w = [x for f in o.pc for x in bad(f, once | flags)]
        if w:
            raise NoForm("the constructor looks at %s in another way" % w[0])
        sink.add("outcome %d depends on the options through their truth value and type" % n, "proved")
        if o.kind == "raise":
            continue
        for a in o.val.args[1].args:
            path, t = cval(a.args[0]), a.args[1]
            if t in (In, Out, E, C):
                sink.add("outcome %d%s is an option" % (n, path), "proved")
                continue
            w = bad(t, once | flags | {app("len", (E,), "int")})
            if w:
                raise NoForm("attribute %s depends on %s" % (path, w[0]))
            sink.add("outcome %d%s depends on the options uniformly" % (n, path), "proved")


def ob_construct_frame(sink, style):
    """The constructor writes to objects it creates only (checked at every write)."""
    r = construct(style)
    sink.functions |= set(r.m.functions)
    sink.paths += len(r.outs)
    for n, o in enumerate(r.outs):
        if o.kind != "raise":
            own = [a for a in o.val.args[1].args if any(engine.is_box(x) and isinstance(cval(x), (list, dict, set)) for x in subterms(a.args[1]))]
            sink.add("constructor outcome %d: every write goes to a new object" % n, "proved")
            sink.require("constructor outcome %d shares no mutable object with other instances" % n, not own, [cval(a.args[0]) for a in own])
