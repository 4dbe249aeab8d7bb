"""Views: the verified summary of one function of /repo in one configuration.

`summarize` runs the deductive engine over the *source* of the real methods
(SQLParams.format / formatmany and everything they call) with arbitrary query
and parameters; every outcome is a path condition and a result term.  A View
gives the obligations of contracts.py access to the parts of a successful
outcome: the tokens of the query by role, the replacement of a generic token,
the returned parameters, and the value a placeholder denotes by the property's
reading.
"""
import re
import sys
import time

from . import engine, loader, rx, smt, theory
from . import spec
from . import terms as tm
from .engine import Machine, Unsupported, lift
from .terms import *
from .terms import T, mk, fv, subst, subterms, sparts

ZERO, ONE = const(0), const(1)


class NoForm(Exception):
    """The summary has a form the obligation cannot be stated over."""


# ------------------------------------------------------------------- loading
_mod = [None]


def module():
    if _mod[0] is None:
        _mod[0] = loader.load("sqlparams_p")
        engine.REPO_MODULES.add("sqlparams_p")
    return _mod[0]


def repo_function(name, where="_converting"):
    module()
    m = sys.modules.get("sqlparams_p." + where)
    return getattr(m, name, None)


def spec_pattern(cfg):
    """Token grammar of a configuration, from the statements of C09, C10, C17."""
    m = re.escape(spec.MARK[cfg.ins])
    ident = r"[A-Za-z_]\w*"
    alts = []
    if cfg.esc:
        alts.append("(?P<esc>%s)" % re.escape(cfg.esc + spec.MARK[cfg.ins]))
    if cfg.pct:
        alts.append("(?P<pct>%)")
    if cfg.ins == "format":
        p = "s"
    elif cfg.ins == "qmark":
        p = r"(?!\?)"
    elif cfg.ki == "numeric":
        p = r"(?P<key>\d+)"
    elif cfg.ins == "pyformat":
        p = r"\((?P<key>%s)\)s" % ident
    elif cfg.ins == "named_oracle":
        p = r'(?P<quote>"?)(?P<key>%s)(?P=quote)' % ident
    else:
        p = "(?P<key>%s)" % ident
    alts.append("(?P<par>(?<!%s)%s%s)" % (m, m, p))
    return "|".join(alts)


# ---------------------------------------------------------------- token roles
class Role:
    def __init__(self, role, quoted=False, sample=""):
        self.role, self.quoted, self.sample = role, quoted, sample


def _pick(cs):
    for c in "a1_s?:(\"":
        if cs[ord(c)]:
            return c
    return chr(int(cs.nonzero()[0][0]))


def sample_of(kind):
    out = []
    for p in kind.raw:
        if isinstance(p, str):
            out.append(p)
        elif p[0] == "grp":
            out.append(_pick(kind.groups[p[1]][1]))
        else:
            raise NoForm("token text outside the groups")
    return "".join(out)


def _could_be(kind, text):
    """Whether the token kind may match the constant text."""
    parts = kind.raw

    def go(i, s):
        if i == len(parts):
            return s == ""
        p = parts[i]
        if isinstance(p, str):
            return s.startswith(p) and go(i + 1, s[len(p):])
        cs = kind.groups[p[1]][1] if p[0] == "grp" else None
        return any(go(i + 1, s[k:]) for k in range(0, len(s) + 1)
                   if all(cs is None or cs[ord(c)] for c in s[:k]))
    return go(0, text)


def roles(cfg, kinds):
    sp = re.compile(spec_pattern(cfg))
    consts = {}
    if cfg.esc:
        consts["esc"] = cfg.esc + spec.MARK[cfg.ins]
    if cfg.pct:
        consts["pct"] = "%"
    out = []
    for k in kinds:
        s = sample_of(k)
        if all(isinstance(p, str) for p in k.raw):
            r = next((n for n, t in consts.items() if t == s), None)
            if r:
                out.append(Role(r, sample=s))
                continue
        m = sp.fullmatch(s) or sp.match("a" + s, 1)
        if not m or m.lastgroup is None or m.group("par") != s:
            raise NoForm("token %r is not one of the style" % s)
        for t in consts.values():
            if not all(isinstance(p, str) for p in k.raw) and _could_be(k, t):
                raise NoForm("token kind with two roles")
        out.append(Role("par", bool(m.groupdict().get("quote")), s))
    return out


_eqv = {}


def regex_equiv(code, specpat, groups):
    key = (code.pattern, code.flags, specpat, tuple(sorted(groups.items())))
    r = _eqv.get(key)
    if r is None:
        try:
            r = rx.equiv(code.pattern, specpat, code.flags & ~re.UNICODE, 0, groups=groups)
        except rx.Unsupported as e:
            r = rx.Result(None, None, 0, str(e))
        except (KeyError, NotImplementedError) as e:
            r = rx.Result(None, None, 0, repr(e))
        _eqv[key] = r
    return r


def key_group(cfg, pat, kinds, rls):
    """The group of the code's pattern that captures the placeholder's name or number."""
    if cfg.ki == "ordinal":
        return None
    par = [k for k, r in zip(kinds, rls) if r.role == "par"]
    for g in pat.groupindex:
        if all(isinstance(k.groups.get(g), tuple) for k in par) and par:
            if regex_equiv(pat, spec_pattern(cfg), {g: "key"}).equal:
                return g
    return None


# ------------------------------------------------------------------ summaries
_oracle = [None]


def oracle_functions():
    """Functions of /repo that compute the normal form of an Oracle key: the one the
    call sites use by contract.  Found by proving (for every string) that they agree
    with the specification; a function of that name that does not agree is reported
    by the obligations of C15 and then not used as a contract."""
    if _oracle[0] is None:
        f = repo_function("_unquote_oracle_param")
        _oracle[0] = [f] if f is not None else []
        if f is None:
            import types
            from . import contracts
            module()
            mods = [m for n, m in sys.modules.items() if n.startswith("sqlparams_p.")]
            for mod in mods:
                for g in vars(mod).values():
                    if isinstance(g, types.FunctionType) and g.__module__ == mod.__name__ and g.__code__.co_argcount == 1:
                        try:
                            _, res = contracts.same_function(g, spec.oracle_key)
                        except (Unsupported, rx.Unsupported):
                            continue
                        if res and all(smt.prove(fs, goal) is True for _, fs, goal in res):
                            _oracle[0].append(g)
    return _oracle[0]


def contracts_for(skip=()):
    """Function contracts assumed at call sites (each is proved separately)."""
    out = {}
    for f in oracle_functions():
        def unquote(m, args, kw):
            k = args[0] if args else next(iter(kw.values()))
            k = m.force(k)
            if k.sort != "str":
                raise Unsupported("oracle key of unknown type")
            if m.branch(app("orawf", (k,), "bool")):
                return app("oranorm", (k,), "str")
            raise engine.Raised(KeyError, (k,))
        out[f] = unquote
    return out


class Run:
    def __init__(self, cfg, many, outs, m, S, P, seconds):
        self.cfg, self.many, self.outs, self.m, self.S, self.P, self.seconds = cfg, many, outs, m, S, P, seconds

    @property
    def ok(self):
        return [o for o in self.outs if o.kind != "raise"]

    @property
    def raises(self):
        return [o for o in self.outs if o.kind == "raise"]


_runs = {}


def summarize(cfg, many=False, budget=240, query="str"):
    """Symbolic execution of format / formatmany of the instance the constructor makes
    for `cfg`, for an arbitrary query (a str, a bytes, or any other object) and
    arbitrary parameters."""
    key = (cfg.key(), many, query)
    r = _runs.get(key)
    if r is not None:
        if isinstance(r, Exception):
            raise r
        tm.KEYSORT[0] = "str" if cfg.ins == "named_oracle" else "obj"
        return r
    mod = module()
    tm.KEYSORT[0] = "str" if cfg.ins == "named_oracle" else "obj"
    t0 = time.time()
    try:
        q = cfg.make(mod.SQLParams)
        S = named_var("S", query)
        P = named_var("M" if many else "P", "obj")
        if many:
            engine.MANY.add(P)
        hy = [lt(ZERO, app("nrows", (P,), "int"))] if many else []
        if query == "obj":
            hy += [not_(app("isa:str", (S,), "bool")), not_(app("isa:bytes", (S,), "bool"))]
        m = Machine(hyps=hy, contracts=contracts_for(), deadline=time.time() + budget)
        name = "formatmany" if many else "format"

        def body():
            v = m.call(lift(getattr(q, name)), [S, P], {})
            m.aliased += m.aliases(v)
            return m.freeze(v, {}, m.store)
        m.aliased = []
        outs = m.run("r", body)
        outs = [o for o in outs if getattr(o, "feasible", True)]
        r = Run(cfg, many, outs, m, S, P, time.time() - t0)
    except Unsupported as e:
        _runs[key] = e
        raise
    _runs[key] = r
    return r


# ---------------------------------------------------------------------- views
class Form:
    """Replacement of one placeholder: null, tuple of n references, or one."""
    def __init__(self, kind, n=ONE, iv=None, ref=None):
        self.kind, self.n, self.iv, self.ref = kind, n, iv, ref

    def at(self, i):
        return subst(self.ref, {self.iv: i}) if self.iv is not None and self.ref is not None else self.ref


_hidden = {}


def hide(t):
    """Replace positions of mapping items (first/last over the items of a mapping)
    by opaque functions of what they depend on.  A weakening: what is proved of
    the opaque positions holds of the real ones."""
    r = _hidden.get(t)
    if r is None:
        memo = {}

        def go(x):
            y = memo.get(x)
            if y is not None:
                return y
            if any(isinstance(a, T) for a in x.args):
                args = tuple(go(a) if isinstance(a, T) else a for a in x.args)
                y = x if args == x.args else tm.rebuild(x.op, args, x.sort)
            else:
                y = x
            if y.op in ("first", "last") and tm.is_app(y.args[0], "len"):
                key, params = tm.abstract(y, ())
                y = app("ix:" + key, tuple(params), "int")
            memo[x] = y
            return y
        r = _hidden[t] = go(t)
    return r


class View:
    def __init__(self, run, out):
        self.run, self.out, self.cfg = run, out, run.cfg
        self.S, self.P = run.S, run.P
        self.raw = self.hidden = None
        self._values = {}
        self._ord = None
        v = out.val
        if v.op != "tuple" or len(v.args) != 2:
            raise NoForm("result is not a pair")
        self.sql, self.params = v.args
        if self.sql.op != "sub" or self.sql.args[1] is not self.S:
            raise NoForm("converted query is not a substitution over the query")
        self.o = self.sql.args[0]
        self.pat = cval(self.o)
        self.v = self.sql.args[2]
        self.cases = [(c.args[0], c.args[1]) for c in self.sql.args[3:]]
        try:
            self.kinds = rx.kinds(self.pat)
        except rx.Unsupported as e:
            raise NoForm("regex: %s" % e)
        self.roles = roles(self.cfg, self.kinds)
        self.keyg = key_group(self.cfg, self.pat, self.kinds, self.roles)
        if self.keyg is None and self.cfg.ki != "ordinal":
            raise NoForm("no group holds the placeholder's name")
        self.ntok = app("ntok", (self.o, self.S), "int")
        self.facts = list(run.m.hyps) + list(out.pc)
        self.row = app("row", (self.P, ZERO), "obj") if run.many else self.P
        engine.KINDS[self.o] = len(self.kinds)
        self.rows = []          # (index, row, its parameters, conditions)
        self.row_checks = []    # (facts, condition under which the row has an entry)
        if run.many:
            self._rows()
        else:
            self.rows = [(None, self.P, self.params, [])]
        self._hide()

    def _hide(self):
        self.raw_facts, self.raw_cases, self.raw_rows = self.facts, self.cases, self.rows
        self.facts = [hide(f) for f in self.facts]
        self.cases = [(hide(c), hide(t)) for c, t in self.cases]
        self.rows = [(i, row, hide(p), [hide(f) for f in fs]) for i, row, p, fs in self.rows]
        self.row_checks = [([hide(f) for f in fs], hide(g)) for fs, g in self.row_checks]
        self.params = hide(self.params)

    def raw_rfacts(self, n):
        return self.raw_rows[n][3]

    def _rows(self):
        p = self.params
        if p.op != "listval":
            raise NoForm("formatmany does not return a list")
        off = ZERO
        for g in p.args[0].args:
            if g.op == "elem":
                self.rows.append((off, app("row", (self.P, off), "obj"), g.args[0], []))
                off = add(off, ONE)
            elif g.op == "map":
                n, v, body = g.args
                r = self.var("r", n)
                idx = add(off, r)
                self.rows.append((idx, app("row", (self.P, idx), "obj"), subst(body, {v: r}), [le(ZERO, r), lt(r, n)]))
                off = add(off, n)
            elif g.op == "flat" and all(len(c.args[1].args) == 1 and c.args[1].args[0].op == "elem" for c in g.args[2:]):
                n, v = g.args[:2]
                r = self.var("r", n)
                idx = add(off, r)
                rng = [le(ZERO, r), lt(r, n)]
                for c in g.args[2:]:
                    self.rows.append((idx, app("row", (self.P, idx), "obj"), subst(c.args[1].args[0].args[0], {v: r}),
                                      rng + lits(subst(c.args[0], {v: r}))))
                self.row_checks.append((rng, or_(*[subst(c.args[0], {v: r}) for c in g.args[2:]])))
                off = add(off, n)
            else:
                raise NoForm("list of rows has an unexpected form")
        self.nrows_out = off

    # ------------------------------------------------------------- variables
    def var(self, name, n):
        x = named_var("%s@%d" % (name, n.uid), "int")
        smt.DOMAIN[x] = n
        return x

    def token(self, name="J"):
        J = self.var(name, self.ntok)
        return J, [le(ZERO, J), lt(J, self.ntok)]

    # ----------------------------------------------------------------- token
    def is_kind(self, j, J):
        if len(self.kinds) == 1:
            return TRUE
        kt = app("kind", (self.o, self.S, J), "int")
        return eq(kt, const(j))

    def is_par(self, J):
        return or_(*[self.is_kind(j, J) for j, r in enumerate(self.roles) if r.role == "par"])

    def par_kinds(self):
        return [j for j, r in enumerate(self.roles) if r.role == "par"]

    def keytext(self, J):
        return app("tg:%s" % self.keyg, (self.o, self.S, J), "str")

    def charset(self):
        for k, r in zip(self.kinds, self.roles):
            if r.role == "par" and self.keyg:
                engine.CHARSETS["tg:%s" % self.keyg, self.o] = k.groups[self.keyg][1]

    def num(self, J):
        """Number of the placeholder (numeric) or its ordinal (ordinal styles)."""
        if self.cfg.ki == "numeric":
            return app("toint", (self.keytext(J),), "int")
        if len(self.par_kinds()) == len(self.kinds):
            return J
        if self._ord is None:
            self._ord = self._ordinal()
        return psum(J, *self._ord)

    def _ordinal(self):
        """The count of placeholders before a token: a sum of the summary with
        provably the same summand at every token (induction), else a fresh one."""
        v = named_var("v@ord", "int")
        nots = [not_(self.is_kind(j, v)) for j, r in enumerate(self.roles) if r.role != "par"]
        mine = psum(self.ntok, v, [case(and_(*nots), ONE)])
        X, rng = self.token("Xo")
        d = theory.delta(mine, X)
        seen = set()
        ts = [x for c in self.raw_cases for x in c] + [p for _, _, p, _ in self.raw_rows]
        for t in ts:
            for x in sorted(subterms(t), key=lambda y: y.uid):
                if x.op == "psum" and not any(y.args[0].startswith("β") for a in x.args[2:] for y in fv(a)):
                    k = theory.psum_key(x)
                    if k in seen:
                        continue
                    seen.add(k)
                    if smt.prove(self.raw_facts + rng, eq(theory.delta(x, X), d)) is True:
                        return x.args[1], x.args[2:]
        return v, mine.args[2:]

    def want(self, J, quoted):
        k = self.keytext(J)
        if self.cfg.ins == "named_oracle" and not quoted:
            return app("upper", (k,), "str")
        return k

    def spec_hit(self, row, x, J, quoted):
        """The x-th item of the mapping `row` is the one the placeholder denotes."""
        k = tm.ikey(row, x)
        rng = [le(ZERO, x), lt(x, app("len", (row,), "int"))]
        if self.cfg.ki == "named":
            return and_(*rng, app("orawf", (k,), "bool"), eq(app("oranorm", (k,), "str"), self.want(J, quoted)))
        n = self.num(J)
        isa = lambda c: app("isa:" + c, (k,), "bool")  # noqa: E731
        good = or_(isa("int"), and_(not_(isa("int")), isa("str"), app("isdecimal", (k,), "bool")),
                   and_(not_(isa("int")), not_(isa("str")), isa("bytes"), app("isdigit", (k,), "bool")))
        return and_(*rng, good, eq(app("toint", (k,), "int"), n))

    def base(self):
        return ONE if self.cfg.ki == "numeric" else ZERO

    def present(self, row, J, quoted, mapping=None):
        if self.cfg.ki == "named" and self.cfg.ins != "named_oracle":
            return app("mhas", (row, self.keytext(J)), "bool")
        if self.cfg.ki != "named" and not mapping:
            i = sub_(self.num(J), self.base())
            return and_(le(ZERO, i), lt(i, app("len", (row,), "int")))
        w = named_var("v@w", "int")
        return le(ZERO, first(app("len", (row,), "int"), w, self.spec_hit(row, w, J, quoted)))

    def rowtype(self, facts, row):
        m = app("isa:Mapping", (row,), "bool")
        s = app("isa:Sequence", (row,), "bool")
        if m in facts:
            return "map"
        if s in facts:
            return "seq"
        if smt.prove(facts, m) is True:
            return "map"
        if smt.prove(facts, s) is True:
            return "seq"
        return None

    def value(self, row, J, j, rfacts=()):
        """The value the placeholder denotes in `row` (by the property's reading).

        For mappings looked up by number or Oracle name this is the value of an
        item of the row proved to be the one meant; None if no such item is used."""
        key = (row, J, j, tuple(rfacts))
        if key not in self._values:
            v = self._value(row, J, j, list(rfacts))
            self._values[key] = None if v is None else hide(v)
        return self._values[key]

    def _value(self, row, J, j, rfacts):
        if self.cfg.ki == "named" and self.cfg.ins != "named_oracle":
            return app("mget", (row, self.keytext(J)), "obj")
        facts = self.raw_facts + rfacts + [le(ZERO, J), lt(J, self.ntok)] + lits(self.is_kind(j, J))
        t = self.rowtype(facts, row)
        if self.cfg.ki != "named" and t == "seq":
            return app("item", (row, sub_(self.num(J), self.base())), "obj")
        if t != "map":
            raise NoForm("row is neither mapping nor sequence")
        if self.cfg.ins == "named_oracle" and row is not self.row:
            # rows have the same keys: this row's item under the first row's key
            v0 = self._value(self.row, J, j, [])
            return None if v0 is None else app("mget", (row, tm.ikey(self.row, v0.args[2])), "obj")
        where = [subst(x, {self.v: J}) for c, tx in self.raw_cases for x in (c, tx)]
        for _, r2, p, _ in self.raw_rows:
            for x in subterms(p):
                if x.op in ("flat", "wflat", "map", "wmap") and x.args[0] is self.ntok:
                    where += [subst(a, {x.args[1]: J}) for a in x.args[2:]]
        seen = set()
        for tt in where:
            for x in sorted(subterms(tt), key=lambda y: y.uid):
                if x in seen or not tm.is_app(x):
                    continue
                if x.args[0] == "ival" and x.args[1] is row:
                    where_, i = row, x.args[2]
                else:
                    continue
                seen.add(x)
                if not any(y.args[0].startswith("v@") or y.args[0].startswith("β") for y in fv(x)):
                    if smt.prove(facts, self.spec_hit(where_, i, J, self.roles[j].quoted)) is True:
                        return x
        return None

    # ----------------------------------------------------------- replacement
    def text_cases(self, facts, J):
        out = []
        for c, t in self.cases:
            c = subst(c, {self.v: J})
            if smt.check(facts + lits(c)) != "unsat":
                out.append((c, subst(t, {self.v: J})))
        return out

    def text_total(self, facts, J):
        """Some case applies (the callback always returns)."""
        return smt.prove(facts, or_(*[subst(c, {self.v: J}) for c, _ in self.cases]))

    def form(self, text):
        return parse_form(self.cfg, text)

    def where(self, J):
        return [subst(x, {self.v: J}) for c, t in self.cases for x in (c, t)]


def sub_(a, b):
    return tm.sub(a, b)


def lits(c):
    return list(c.args) if c.op == "and" else [] if c is TRUE else [c]


def _strip_lit(parts, pre, post):
    parts = list(parts)
    if not parts:
        return None
    a = parts[0]
    if a.op != "py" or not cval(a).startswith(pre):
        if pre:
            return None
    elif pre:
        parts[0] = const(cval(a)[len(pre):])
    if post:
        b = parts[-1]
        if b.op != "py" or not cval(b).endswith(post):
            return None
        parts[-1] = const(cval(b)[:len(cval(b)) - len(post)])
    return cat(*parts)


def parse_ref(cfg, text):
    """Reference of one generated placeholder: TRUE (ordinal), int term, name term."""
    if cfg.ko == "ordinal":
        return TRUE if text is const("%s" if cfg.outs == "format" else "?") else None
    m = spec.MARK[cfg.outs]
    if cfg.ko == "numeric":
        r = _strip_lit(sparts(text), m, "")
        if r is None:
            return None
        if r.op == "istr":
            return r.args[0]
        if r.op == "py" and re.fullmatch("[1-9][0-9]*|0", cval(r)):
            return const(int(cval(r)))
        return None
    if cfg.outs == "pyformat":
        r = _strip_lit(sparts(text), "%(", ")s")
    else:
        r = _strip_lit(sparts(text), m, "")
    if r is None:
        return None
    if cfg.outs == "named_oracle":
        q = _strip_lit(sparts(r), '"', '"')
        if q is not None:
            return r if all(engine.lacks_char(p, '"') if p.op != "py" else '"' not in cval(p) for p in sparts(q)) and sparts(q) else None
    return r if wordy(r) else None


_wordset = None


def wordy(t):
    """The string term is a non-empty run of word characters."""
    global _wordset
    ps = sparts(t)
    if not ps:
        return False
    for p in ps:
        if p.op == "py":
            if not re.fullmatch(r"\w+", cval(p)):
                return False
        elif p.op == "istr":
            if not nonneg_hint(p.args[0]):
                return False
        elif tm.is_app(p) and p.args[0].startswith("tg:") or tm.is_app(p, "upper") and tm.is_app(p.args[1]) and p.args[1].args[0].startswith("tg:"):
            q = p.args[1] if p.args[0] == "upper" else p
            cs = engine.CHARSETS.get((q.args[0], q.args[1]))
            if cs is None:
                return False
            if _wordset is None:
                import numpy as np
                _wordset = np.fromiter((bool(re.match(r"\w", chr(c))) for c in range(0x110000)), dtype=bool, count=0x110000)
            if not (cs <= _wordset).all():
                return False
        elif p.op == "ite":
            if not (wordy(p.args[1]) and wordy(p.args[2])):
                return False
        else:
            return False
    return True


def nonneg_hint(t):
    """Syntactic: an index variable, an ordinal count, a digit string's number."""
    from .theory import nonneg
    if nonneg(t) or t.op == "var":
        return True
    if t.op == "add":
        return all(nonneg_hint(a) or a.op == "py" and cval(a) >= 0 for a in t.args)
    return t.op in ("first", "last") or tm.is_app(t, "toint")


def parse_form(cfg, text):
    if text is const("(NULL)"):
        return Form("null", ZERO)
    r = parse_ref(cfg, text)
    if r is not None:
        return Form("one", ONE, None, r)
    body = _strip_lit(sparts(text), "(", ")")
    if body is None:
        return None
    ps = sparts(body)
    if len(ps) == 1 and ps[0].op == "join" and ps[0].args[0] == ",":
        segs = ps[0].args[1].args
        if len(segs) == 1 and segs[0].op == "map":
            n, v, b = segs[0].args
            r = parse_ref(cfg, b)
            if r is not None:
                return Form("tuple", n, v, r)
        return None
    # a constant number of references
    r = parse_ref(cfg, body)
    if r is not None:
        return Form("tuple", ONE, None, r)
    return None
