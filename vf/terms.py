"""Term language of the verifier: hash-consed terms, substitution, canonical forms.

Every symbolic value the symbolic evaluator produces is a term ``T``.  Scalars
(sorts int, bool, str, obj) are translated to SMT (see smt.py); sequences, dict
logs, tuples and substituted strings are kept in normal forms that the evaluator
and the lemmas work on structurally.
"""
import itertools

_tab = {}


class T:
    __slots__ = ("op", "args", "sort", "uid", "_fv", "_canon")

    def __repr__(self):
        return pretty(self)

    def __bool__(self):
        raise TypeError("truth value of a term")


class Box:
    """Identity-hashed wrapper for arbitrary Python constants inside terms."""
    __slots__ = ("v",)
    _boxes = {}

    def __new__(cls, v):
        b = cls._boxes.get(id(v))
        if b is None:
            b = object.__new__(cls)
            b.v = v
            cls._boxes[id(v)] = b
        return b

    def __repr__(self):
        return "<%s>" % (getattr(self.v, "__qualname__", None) or repr(self.v)[:60])


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = object.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.uid = len(_tab)
        t._fv = None
        t._canon = None
        _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
class PyC:
    """Typed constant key so that 1, True and 1.0 stay distinct."""
    __slots__ = ("tn", "v")

    def __init__(self, v):
        self.tn, self.v = type(v).__name__, v

    def __hash__(self):
        return hash((self.tn, self.v))

    def __eq__(self, o):
        return isinstance(o, PyC) and self.tn == o.tn and self.v == o.v

    def __repr__(self):
        return repr(self.v)


def const(v):
    if isinstance(v, bool):
        return mk("py", (PyC(v),), "bool")
    if isinstance(v, int):
        return mk("py", (PyC(v),), "int")
    if isinstance(v, str):
        return mk("py", (PyC(v),), "str")
    if v is None:
        return mk("py", (PyC(v),), "none")
    if isinstance(v, (bytes, float)):
        return mk("py", (PyC(v),), "py")
    return mk("py", (Box(v),), "py")


def is_const(t):
    return t.op == "py"


def cval(t):
    return t.args[0].v


TRUE, FALSE = const(True), const(False)
_fresh = itertools.count()
VAR_LEVEL = {}


def var(prefix, sort, level=0):
    t = mk("var", ("%s!%d" % (prefix, next(_fresh)),), sort)
    VAR_LEVEL[t] = level
    return t


def named_var(name, sort, level=0):
    t = mk("var", (name,), sort)
    VAR_LEVEL.setdefault(t, level)
    return t


def app(name, args, sort):
    return mk("app", (name,) + tuple(args), sort)


KEYSORT = ["obj"]        # sort of mapping keys ("str" where the property fixes it)


def ikey(P, i):
    return app("ikey", (P, i), KEYSORT[0])


def is_app(t, name=None):
    return t.op == "app" and (name is None or t.args[0] == name)


# ---------------------------------------------------------------- integers
def lift_int(x):
    return x if isinstance(x, T) else const(x)


def _linear(t, coef, acc):
    if t.op == "py":
        acc[None] = acc.get(None, 0) + coef * int(cval(t))
    elif t.op == "add":
        for a in t.args:
            _linear(a, coef, acc)
    elif t.op == "mul" and t.args[0].op == "py":
        _linear(t.args[1], coef * cval(t.args[0]), acc)
    else:
        acc[t] = acc.get(t, 0) + coef


def _from_linear(acc):
    parts = []
    for t, c in sorted(((t, c) for t, c in acc.items() if t is not None and c != 0), key=lambda p: p[0].uid):
        parts.append(t if c == 1 else mk("mul", (const(c), t), "int"))
    k = acc.get(None, 0)
    if k or not parts:
        parts.append(const(k))
    if len(parts) == 1:
        return parts[0]
    return mk("add", tuple(parts), "int")


def add(*ts):
    acc = {}
    for t in ts:
        _linear(lift_int(t), 1, acc)
    return _from_linear(acc)


def sub(a, b):
    acc = {}
    _linear(lift_int(a), 1, acc)
    _linear(lift_int(b), -1, acc)
    return _from_linear(acc)


def mul(a, b):
    a, b = lift_int(a), lift_int(b)
    if a.op == "py":
        acc = {}
        _linear(b, cval(a), acc)
        return _from_linear(acc)
    if b.op == "py":
        return mul(b, a)
    x, y = sorted((a, b), key=lambda t: t.uid)
    return mk("nlmul", (x, y), "int")


def _cmp_norm(a, b):
    """Return linear form of a - b as (acc) dict."""
    acc = {}
    _linear(lift_int(a), 1, acc)
    _linear(lift_int(b), -1, acc)
    return {t: c for t, c in acc.items() if c != 0}


def lt(a, b):
    d = _cmp_norm(a, b)
    if not d or list(d) == [None]:
        return const(d.get(None, 0) < 0)
    return mk("lt", (lift_int(a), lift_int(b)), "bool")


def le(a, b):
    d = _cmp_norm(a, b)
    if not d or list(d) == [None]:
        return const(d.get(None, 0) <= 0)
    return mk("le", (lift_int(a), lift_int(b)), "bool")


# ---------------------------------------------------------------- booleans
def not_(t):
    if t.op == "py":
        return const(not cval(t))
    if t.op == "not":
        return t.args[0]
    return mk("not", (t,), "bool")


def and_(*ts):
    out = []
    for t in ts:
        if t.op == "and":
            out.extend(t.args)
        elif t is FALSE:
            return FALSE
        elif t is not TRUE:
            out.append(t)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if not_(x) in out:
            return FALSE
    return mk("and", tuple(sorted(out, key=lambda t: t.uid)), "bool")


def or_(*ts):
    out = []
    for t in ts:
        if t.op == "or":
            out.extend(t.args)
        elif t is TRUE:
            return TRUE
        elif t is not FALSE:
            out.append(t)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for x in out:
        if not_(x) in out:
            return TRUE
    return mk("or", tuple(sorted(out, key=lambda t: t.uid)), "bool")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "bool" and b.sort == "bool":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        if b is TRUE:
            return or_(not_(c), a)
    return mk("ite", (c, a, b), a.sort if a.sort == b.sort else "obj")


def forall(v, body):
    if body is TRUE:
        return TRUE
    return mk("forall", (v, body), "bool")


def eq(a, b):
    """Equality of scalar terms (structural shortcuts for tuples/strings)."""
    if a is b:
        return TRUE
    if a.op == "py" and b.op == "py":
        return const(a.args[0] == b.args[0])
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.sort == "int" and b.sort == "int":
        d = _cmp_norm(a, b)
        if not d or list(d) == [None]:
            return const(d.get(None, 0) == 0)
        if d.get(None, 0) == 0 and len(d) - (None in d) == 2:
            (x, p), (y, q) = [(k, c) for k, c in d.items() if k is not None]
            if p == -q and abs(p) == 1:
                x, y = sorted((x, y), key=lambda t: t.uid)
                return mk("eq", (x, y), "bool")
    concrete = {"int", "str", "none", "tuple", "list", "dict", "py", "bool"}
    if a.sort != b.sort and a.sort in concrete and b.sort in concrete:
        if {a.sort, b.sort} == {"int", "bool"}:
            pass
        elif not (a.sort == "py" or b.sort == "py"):
            return FALSE
    if a.sort == "str" and b.sort == "str":
        r = _str_eq(a, b)
        if r is not None:
            return r
    x, y = sorted((a, b), key=lambda t: t.uid)
    return mk("eq", (x, y), "bool")


# ---------------------------------------------------------------- strings
def sparts(t):
    return list(t.args) if t.op == "cat" else ([] if t.op == "py" and cval(t) == "" else [t])


def cat(*ts):
    parts = []
    for t in ts:
        if isinstance(t, str):
            t = const(t)
        for p in sparts(t):
            if p.op == "py" and parts and parts[-1].op == "py":
                parts[-1] = const(cval(parts[-1]) + cval(p))
            else:
                parts.append(p)
    if not parts:
        return const("")
    if len(parts) == 1:
        return parts[0]
    return mk("cat", tuple(parts), "str")


def istr(n):
    n = lift_int(n)
    if n.op == "py":
        return const(str(cval(n)))
    return mk("istr", (n,), "str")


def join(sep, seq):
    """sep.join(seq) for a str constant sep and a sequence term of strings."""
    segs = seq.args
    if all(s.op == "elem" for s in segs):
        out = []
        for i, s in enumerate(segs):
            if i and sep:
                out.append(const(sep))
            out.append(s.args[0])
        return cat(*out)
    if sep == "":
        out = []
        cur = []
        for s in segs:
            if s.op == "elem":
                if cur:
                    out.append(mk("join", (sep, mk("seq", tuple(cur), "seq")), "str"))
                    cur = []
                out.append(s.args[0])
            else:
                cur.append(s)
        if cur:
            out.append(mk("join", (sep, mk("seq", tuple(cur), "seq")), "str"))
        return cat(*out)
    return mk("join", (sep, seq), "str")


def _str_eq(a, b):
    """Decide or decompose simple string equalities; None if not simple."""
    pa, pb = sparts(a), sparts(b)
    # strip equal prefixes / suffixes (cancellation is sound for concatenation)
    while pa and pb and pa[0] is pb[0]:
        pa.pop(0), pb.pop(0)
    while pa and pb and pa[-1] is pb[-1]:
        pa.pop(), pb.pop()
    if not pa and not pb:
        return TRUE
    if pa and pb and pa[0].op == "py" and pb[0].op == "py":
        x, y = cval(pa[0]), cval(pb[0])
        m = min(len(x), len(y))
        if x[:m] != y[:m]:
            return FALSE
        if m:
            pa = sparts(cat(const(x[m:]), *pa[1:]))
            pb = sparts(cat(const(y[m:]), *pb[1:]))
            return eq(cat(*pa), cat(*pb))
    if pa and pb and pa[-1].op == "py" and pb[-1].op == "py":
        x, y = cval(pa[-1]), cval(pb[-1])
        m = min(len(x), len(y))
        if x[len(x) - m:] != y[len(y) - m:]:
            return FALSE
        if m:
            pa = sparts(cat(*(pa[:-1] + [const(x[:len(x) - m])])))
            pb = sparts(cat(*(pb[:-1] + [const(y[:len(y) - m])])))
            return eq(cat(*pa), cat(*pb))
    if len(pa) == 1 and len(pb) == 1 and pa[0].op == "istr" and pb[0].op == "istr":
        return eq(pa[0].args[0], pb[0].args[0])
    na, nb = cat(*pa), cat(*pb)
    if (not pa and any(p.op in ("py", "istr") for p in pb)) or (not pb and any(p.op in ("py", "istr") for p in pa)):
        return FALSE
    if na is not a or nb is not b:
        x, y = sorted((na, nb), key=lambda t: t.uid)
        return mk("eq", (x, y), "bool")
    return None


# ---------------------------------------------------------------- values
def tup(elems):
    return mk("tuple", tuple(elems), "tuple")


def seq(*segs):
    out = []
    for s in segs:
        if s.op == "seq":
            out.extend(s.args)
        else:
            out.append(s)
    return mk("seq", tuple(out), "seq")


def elem(v):
    return mk("elem", (v,), "seg")


def smap(n, v, body):
    n = lift_int(n)
    if n.op == "py":
        return seq(*[elem(subst(body, {v: const(i)})) for i in range(max(0, cval(n)))])
    return mk("map", (n, v, body), "seg")


def case(cond, payload):
    return mk("case", (cond, payload), "case")


def flat(n, v, cases):
    return mk("flat", (lift_int(n), v) + tuple(cases), "seg")


EMPTY = seq()


def dlog(*ws):
    out = []
    for w in ws:
        if w.op == "dlog":
            out.extend(w.args)
        else:
            out.append(w)
    return mk("dlog", tuple(out), "dlog")


EMPTYD = dlog()


def w1(k, v):
    return mk("w", (k, v), "dw")


def wmap(n, v, k, val):
    return mk("wmap", (lift_int(n), v, k, val), "dw")


def wflat(n, v, cases):
    return mk("wflat", (lift_int(n), v) + tuple(cases), "dw")


# ---------------------------------------------------------------- traversal
BINDERS = {"map": 1, "flat": 1, "wmap": 1, "wflat": 1, "forall": 0, "sub": 2, "first": 1, "last": 1, "psum": 1}


def first(n, v, cond):
    """Least v in [0, n) with cond, else -1."""
    n = lift_int(n)
    if cond is FALSE or n is const(0):
        return const(-1)
    return mk("first", (n, v, cond), "int")


def last(n, v, cond):
    """Greatest v in [0, n) with cond, else -1."""
    n = lift_int(n)
    if cond is FALSE or n is const(0):
        return const(-1)
    if cond is TRUE:
        return sub(n, const(1)) if n.op == "py" else mk("last", (n, v, cond), "int")
    return mk("last", (n, v, cond), "int")


def psum(n, v, cases):
    """Sum over v in [0, n) of the payloads of the (exclusive) cases that hold."""
    n = lift_int(n)
    cases = tuple(c for c in cases if c.args[1] is not const(0) and c.args[0] is not FALSE)
    if not cases or n is const(0):
        return const(0)
    if len(cases) == 1 and cases[0].args[0] is TRUE and cases[0].args[1].op == "py":
        return mul(cases[0].args[1], n)
    return mk("psum", (n, v) + cases, "int")


def rebuild(op, args, sort):
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "nlmul":
        return mul(*args)
    if op == "lt":
        return lt(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op == "ite":
        return ite(*args)
    if op == "forall":
        return forall(*args)
    if op == "cat":
        return cat(*args)
    if op == "istr":
        return istr(*args)
    if op == "join":
        return join(*args)
    if op == "map":
        return smap(*args)
    if op == "psum":
        return psum(args[0], args[1], args[2:])
    if op in ("first", "last"):
        return (first if op == "first" else last)(*args)
    if op == "flat":
        cs = tuple(c for c in args[2:] if c.args[0] is not FALSE)
        if not cs:
            return EMPTY
        return mk("flat", args[:2] + cs, "seg")
    if op == "wflat":
        cs = tuple(c for c in args[2:] if c.args[0] is not FALSE)
        if not cs:
            return EMPTYD
        return mk("wflat", args[:2] + cs, "dw")
    if op == "wmap" and args[0].op == "py":
        return dlog(*[w1(subst(args[2], {args[1]: const(i)}), subst(args[3], {args[1]: const(i)})) for i in range(max(0, cval(args[0])))])
    if op == "seq":
        return seq(*args)
    if op == "dlog":
        return dlog(*args)
    return mk(op, args, sort)


def fv(t):
    """Free variables (frozenset of var terms)."""
    if t._fv is not None:
        return t._fv
    if t.op == "var":
        r = frozenset((t,))
    else:
        s = set()
        for a in t.args:
            if isinstance(a, T):
                s |= fv(a)
        if t.op in BINDERS:
            b = t.args[BINDERS[t.op]]
            s.discard(b)
        r = frozenset(s)
    t._fv = r
    return r


def subst(t, m):
    """Substitute variables (m: var -> T). Bound variables are globally unique."""
    if not m:
        return t
    memo = {}
    keys = set(m)

    def go(t):
        if not (fv(t) & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "var":
            r = m.get(t, t)
        else:
            if t.op in BINDERS:
                b = t.args[BINDERS[t.op]]
                if b in rng or b in keys:
                    name = b.args[0] + "'"
                    nb = named_var(name, b.sort, VAR_LEVEL.get(b, 0))
                    while nb in rng or nb in keys or nb in fv(t):
                        name += "'"
                        nb = named_var(name, b.sort, VAR_LEVEL.get(b, 0))
                    t = rename(t, b, nb)
            args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = rebuild(t.op, args, t.sort)
        memo[t] = r
        return r
    rng = set()
    for x in m.values():
        rng |= fv(x)
    return go(t)


def rename(t, b, nb):
    """Rename the variable bound by the binder t."""
    return mk(t.op, tuple(nb if a is b else subst(a, {b: nb}) if isinstance(a, T) else a for a in t.args), t.sort)


def replace(t, m):
    """Replace arbitrary subterms (m: T -> T), outermost first."""
    if not m:
        return t
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in t.args):
            return t
        args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
        r = t if args == t.args else rebuild(t.op, args, t.sort)
        memo[t] = r
        return r
    return go(t)


def map_apps(t, fn):
    """Rewrite bottom-up every app term by fn(app) (None = keep)."""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if any(isinstance(a, T) for a in t.args):
            args = tuple(go(a) if isinstance(a, T) else a for a in t.args)
            r = t if args == t.args else rebuild(t.op, args, t.sort)
        else:
            r = t
        if r.op == "app":
            x = fn(r)
            if x is not None:
                r = x
        memo[t] = r
        return r
    return go(t)


def subterms(t, acc=None):
    acc = set() if acc is None else acc
    stack = [t]
    while stack:
        x = stack.pop()
        if x in acc:
            continue
        acc.add(x)
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
    return acc


_h = {}
_hn = {}
BETA = set()


def hnorm(t):
    """Alpha-canonical form: bound variables are named by the binder height."""
    return _hnorm(t)[0]


def _hnorm(t):
    r = _hn.get(t)
    if r is not None:
        return r
    h = 0
    args = []
    for a in t.args:
        if isinstance(a, T):
            x, hx = _hnorm(a)
            h = max(h, hx)
            args.append(x)
        else:
            args.append(a)
    if t.op in BINDERS:
        h += 1
        b = t.args[BINDERS[t.op]]
        nb = mk("var", ("\u03b2%d" % h,), b.sort)
        BETA.add(nb)
        args = [nb if a is b else subst(a, {b: nb}) if isinstance(a, T) else a for a in args]
    if t.op in ("and", "or", "eq"):
        args.sort(key=lambda x: x.uid)
    x = mk(t.op, tuple(args), t.sort) if args else t
    if t.op == "var" or not args:
        x = t
    r = _hn[t] = (x, h)
    return r


_abs = {}
COMMUTE = ("and", "or", "eq", "add")


def abstract(t, bound):
    """Anti-unify: replace maximal proper subterms that do not mention `bound` (other
    than constants) by parameters.  Returns (canonical key string, [args])."""
    bset = frozenset([bound]) if isinstance(bound, T) else frozenset(bound)
    r = _abs.get((t, bset))
    if r is not None:
        return r
    top = hnorm(t)
    args = []
    memo = {}
    fixed = bset | BETA

    def param(t):
        args.append(t)
        return mk("var", ("$%d" % (len(args) - 1),), t.sort)

    skm = {}

    def sk(t):
        """Shape of a term with the future parameters blanked out."""
        x = skm.get(t)
        if x is not None:
            return x
        if t.op == "py":
            x = t
        elif not (fv(t) & fixed) and t.sort in ("int", "bool", "str", "obj") or t.op == "var" and t not in fixed:
            x = mk("var", ("$",), t.sort)
        elif t.op == "var":
            x = t
        else:
            a = [sk(a) if isinstance(a, T) else a for a in t.args]
            if t.op in COMMUTE:
                a.sort(key=lambda y: y.uid)
            x = mk(t.op, tuple(a), t.sort)
        skm[t] = x
        return x

    def go(t):
        x = memo.get(t)
        if x is not None:
            return x
        if t.op == "py":
            x = t
        elif t is not top and not (fv(t) & fixed) and t.sort in ("int", "bool", "str", "obj"):
            x = param(t)
        elif t.op == "var":
            x = t if t in fixed else param(t)
        else:
            ta = t.args
            if t.op in COMMUTE:
                ta = sorted(ta, key=lambda y: (sk(y).uid, y.uid))
            x = mk(t.op, tuple(go(a) if isinstance(a, T) else a for a in ta), t.sort)
        memo[t] = x
        return x
    r = _abs[(t, bset)] = ("k%d" % go(top).uid, args)
    return r


def canon(t):
    """Alpha-canonical name of a term."""
    return "t%d" % hnorm(t).uid


def pretty(t, d=0):
    return _pretty(t, [400])


def _pretty(t, budget):
    budget[0] -= 1
    if budget[0] < 0:
        return "..."
    if t.op == "py":
        return repr(t.args[0])
    if t.op == "var":
        return t.args[0]
    if t.op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(_pretty(a, budget) if isinstance(a, T) else repr(a) for a in t.args[1:]))
    return "(%s %s)" % (t.op, " ".join(_pretty(a, budget) if isinstance(a, T) else repr(a) for a in t.args))
