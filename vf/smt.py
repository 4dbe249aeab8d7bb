"""Proving ground obligations over terms with z3 (cvc5 as second opinion).

prove(facts, goal) decides facts |= goal.  Quantified facts are instantiated at
the index terms of the problem, axioms of the theory symbols (registered by the
engine) are instantiated at their occurrences; the remaining problem is a
quantifier-free UF + linear integer arithmetic query.
"""
import itertools
import os
import subprocess
import tempfile
import time

import z3

from .terms import (T, Box, and_, app, canon, const, cval, eq, fv, implies, is_app, is_const, le, lt, mk, not_, or_,
                    subst, subterms, FALSE, TRUE, named_var, abstract, BINDERS)

STATS = dict(queries=0, valid=0, sat=0, unknown=0, seconds=0.0, prep=0.0, cached=0, cvc5=0, cvc5_seconds=0.0)
V = z3.DeclareSort("V")
SORTS = {"int": z3.IntSort(), "bool": z3.BoolSort()}
PROVIDERS = []          # functions (new_terms, all_terms) -> list of axioms
_cache = {}
TIMEOUT = 8000
SECOND = False          # also run cvc5 on every accepted obligation (thorough tier)


def zsort(s):
    return SORTS.get(s, V)


class Tr:
    """Terms to z3 expressions; one global instance, with the defining axioms of
    each term recorded so that a query gets exactly those of its terms."""
    def __init__(self):
        self.memo = {}
        self.consts = {}
        self.own = {}
        self.cur = []

    @property
    def axioms(self):
        return self.cur

    def toV(self, e):
        s = e.sort()
        if s == V:
            return e
        if s == z3.IntSort():
            b = z3.Function("box_int", z3.IntSort(), V)(e)
            self.cur.append(z3.Function("unbox_int", V, z3.IntSort())(b) == e)
            self.cur.append(z3.Function("tag", V, z3.IntSort())(b) == 4)
            return b
        b = z3.Function("box_bool", z3.BoolSort(), V)(e)
        self.cur.append(z3.Function("unbox_bool", V, z3.BoolSort())(b) == e)
        self.cur.append(z3.Function("tag", V, z3.IntSort())(b) == 4)
        return b

    def fn(self, name, args, sort):
        if not args:
            return z3.Const(name, zsort(sort))
        f = z3.Function(name, *([a.sort() for a in args] + [zsort(sort)]))
        return f(*args)

    def tag(self, e, n):
        self.axioms.append(z3.Function("tag", V, z3.IntSort())(e) == n)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            saved, self.cur = self.cur, []
            r = self.memo[t] = self.go(t)
            self.own[t], self.cur = self.cur, saved
        return r

    def go(self, t):
        op = t.op
        if op == "py":
            v = cval(t)
            if t.sort == "int":
                return z3.IntVal(v)
            if t.sort == "bool":
                return z3.BoolVal(v)
            if isinstance(t.args[0], Box):
                nm = "obj!%d" % id(v)
                tag = 6
            else:
                nm = "c!%s!%r" % (type(v).__name__, v)
                tag = {"str": 1, "NoneType": 2}.get(type(v).__name__, 7)
            c = z3.Const(nm, V)
            self.consts[t] = c
            self.tag(c, tag)
            return c
        if op == "var":
            c = z3.Const(t.args[0], zsort(t.sort))
            if t.sort == "str":
                self.tag(c, 1)
            return c
        if op == "add":
            return z3.Sum([self(a) for a in t.args])
        if op == "mul":
            return self(t.args[0]) * self(t.args[1])
        if op == "lt":
            return self(t.args[0]) < self(t.args[1])
        if op == "le":
            return self(t.args[0]) <= self(t.args[1])
        if op == "and":
            return z3.And([self(a) for a in t.args])
        if op == "or":
            return z3.Or([self(a) for a in t.args])
        if op == "not":
            return z3.Not(self(t.args[0]))
        if op == "ite":
            a, b = self(t.args[1]), self(t.args[2])
            if a.sort() != b.sort():
                a, b = self.toV(a), self.toV(b)
            return z3.If(self(t.args[0]), a, b)
        if op == "eq":
            a, b = self(t.args[0]), self(t.args[1])
            if a.sort() != b.sort():
                a, b = self.toV(a), self.toV(b)
            return a == b
        if op == "forall":
            return z3.Bool("forall!%s" % canon(t))
        if op == "app":
            args, name = [], t.args[0]
            for a in t.args[1:]:
                if isinstance(a, T):
                    if a.op == "py" and isinstance(a.args[0], Box):
                        name += "|%d" % id(cval(a))
                    else:
                        args.append(self(a))
                else:
                    name += "|%r" % (a,)
            # argument sorts may vary between occurrences (obj / int): normalise to V
            # for every argument whose sort is not fixed to int by convention
            sig = "".join("i" if a.sort() == z3.IntSort() else "b" if a.sort() == z3.BoolSort() else "v" for a in args)
            e = self.fn("%s/%s" % (name, sig), args, t.sort)
            if t.sort == "str":
                self.tag(e, 1)
            return e
        if op == "tuple":
            args = [self.toV(self(a)) for a in t.args]
            e = self.fn("tup%d" % len(args), args, "tuple")
            for i, a in enumerate(args):
                self.axioms.append(z3.Function("proj%d_%d" % (len(args), i), V, V)(e) == a)
            self.axioms.append(z3.Function("tag", V, z3.IntSort())(e) == 30 + len(args))
            return e
        if op == "istr":
            n = self(t.args[0])
            e = self.fn("istr", [n], "str")
            self.axioms.append(z3.Function("istr_inv", V, z3.IntSort())(e) == n)
            self.tag(e, 1)
            return e
        if op == "cat":
            args = [self(a) for a in t.args]
            e = self.fn("cat%d" % len(args), args, "str")
            self.tag(e, 1)
            return e
        # anything structured: a function of its abstracted parameters
        key, params = abstract(t, ())
        e = self.fn("%s:%s" % (op, key), [self(a) for a in params], t.sort)
        if t.sort == "str":
            self.tag(e, 1)
        return e


INDEX_APPS = {"kx"}


DOMAIN = {}             # loop variable -> bound of its range


def index_terms(terms):
    return [t for t in terms if t.sort == "int" and (
        t.op in ("var", "first", "last") or
        t.op == "app" and t.args[0] in INDEX_APPS and not is_app(t.args[2], "ikey"))]


def domain(t):
    """The bound of the range an index term comes from (None: unknown)."""
    if t.op in ("first", "last"):
        return shape(t.args[0])
    if t.op == "app" and t.args[0] == "kx":
        return shape(app("len", (t.args[1],), "int"))
    d = DOMAIN.get(t)
    return None if d is None else shape(d)


def shape(n):
    """A range bound up to a constant offset, by its head symbol and object."""
    if n.op == "add":
        parts = [a for a in n.args if a.op != "py"]
        if len(parts) == 1:
            return shape(parts[0])
        return None
    if n.op == "app" and n.args[0] in ("ntok", "nrows"):
        return n
    if n.op == "app" and n.args[0] == "len":
        return n
    return None


def compatible(i, n):
    """Whether instantiating a quantifier over [0, n) at i can be useful."""
    a, b = domain(i), shape(n)
    return a is None or b is None or a is b


def ground_terms(t, acc):
    """Subterms not under a binder that mention no bound variable."""
    stack = [t]
    while stack:
        x = stack.pop()
        if x in acc:
            continue
        acc.add(x)
        if x.op in BINDERS:
            b = x.args[BINDERS[x.op]]
            for a in x.args:
                if isinstance(a, T):
                    for y in subterms(a):
                        if b not in fv(y) and not _has_bound(x, y) and y.op != "forall":
                            stack.append(y) if y not in acc else None
            continue
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
    return acc


_bound_cache = {}


def _has_bound(binder, y):
    """y mentions a variable bound somewhere inside binder."""
    bs = _bound_cache.get(binder)
    if bs is None:
        bs = set()
        for z in subterms(binder):
            if z.op in BINDERS:
                bs.add(z.args[BINDERS[z.op]])
        _bound_cache[binder] = bs
    return bool(fv(y) & bs)


class Ctx:
    """Saturation of a list of facts: the facts plus the instances of axioms and
    quantified facts at their terms, and their z3 form.  Extends incrementally."""
    ROUNDS = 4
    LIMIT = 6000

    def __init__(self, parent=None):
        if parent is None:
            self.seen, self.terms, self.inst, self.sk, self.foralls, self.idx = set(), set(), set(), set(), [], []
            self.z, self.zseen, self.consts = [], set(), {}
            self.n = 0
        else:
            self.seen, self.terms, self.inst, self.sk = set(parent.seen), set(parent.terms), set(parent.inst), set(parent.sk)
            self.foralls, self.idx = list(parent.foralls), list(parent.idx)
            self.z, self.zseen, self.consts = list(parent.z), set(parent.zseen), dict(parent.consts)
            self.n = parent.n

    def assert_(self, f):
        """Queue f with the defining axioms of its subterms for z3."""
        self.n += 1
        self.z.append(TR(f))
        stack = [f]
        zseen = self.zseen
        while stack:
            t = stack.pop()
            if t in zseen:
                continue
            zseen.add(t)
            own = TR.own.get(t)
            if own:
                self.z.extend(own)
            c = TR.consts.get(t)
            if c is not None:
                self.consts[t] = c
            if t.op in PARAMETRIC:
                stack.extend(abstract(t, ())[1])
            elif t.op != "forall":
                for a in t.args:
                    if isinstance(a, T):
                        stack.append(a)

    def extend(self, facts):
        new = []
        for f in facts:
            if f is not TRUE and f not in self.seen:
                self.seen.add(f)
                new.append(f)
        for rnd in range(self.ROUNDS):
            if not new:
                break
            fresh = set()
            for f in new:
                self.assert_(f)
                ground_terms(f, fresh)
            fresh -= self.terms
            if not fresh or self.n > self.LIMIT:
                break
            self.terms |= fresh
            added = []
            for p in PROVIDERS:
                added.extend(p(fresh, self.terms))
            newidx = index_terms(fresh)
            newq = [t for t in fresh if t.op == "forall"]
            for q in newq:
                v, body = q.args
                sk = named_var("sk!%s" % canon(q), "int")
                added.append(or_(q, not_(subst(body, {v: sk}))))
                newidx.append(sk)
            for q in self.foralls + newq:
                v, body = q.args
                for t in newidx if q in self.sk else self.idx + newidx:
                    added.append(implies(q, subst(body, {v: t})))
            self.sk.update(newq)
            self.foralls += newq
            self.idx += [t for t in newidx if t not in self.idx]
            new = []
            for a in added:
                if a is not TRUE and a not in self.seen:
                    self.seen.add(a)
                    new.append(a)
        else:
            for f in new:
                self.assert_(f)
        return self

    def solver(self):
        s = z3.Solver()
        cref, sref = s.ctx.ref(), s.solver
        for e in self.z:
            z3.Z3_solver_assert(cref, sref, e.as_ast())
        if len(self.consts) > 1:
            s.add(z3.Distinct(*self.consts.values()))
        return s


_ctxs = {}
MAXCTX = 400


def ctx_for(facts):
    """Saturated context of a fact list, extending the longest known prefix."""
    facts = tuple(f for f in facts if f is not TRUE)
    c = _ctxs.get(facts)
    if c is not None:
        return c
    best, n = None, 0
    for i in range(len(facts) - 1, 0, -1):
        best = _ctxs.get(facts[:i])
        if best is not None:
            n = i
            break
    c = best
    # one extension step per fact keeps every prefix available
    for i in range(n, len(facts)):
        c = Ctx(c).extend([facts[i]])
        if len(_ctxs) > MAXCTX:
            for k in list(itertools.islice(_ctxs, MAXCTX // 2)):
                del _ctxs[k]
        _ctxs[facts[:i + 1]] = c
    return c or Ctx()


TR = Tr()


PARAMETRIC = {"first", "last", "psum", "sub", "join", "map", "flat", "seq", "dlog", "w", "wmap", "wflat", "listval", "dictval", "arrval"}


def _solve(s, extra, timeout):
    t0 = time.time()
    s.set("timeout", timeout or TIMEOUT)
    res = str(s.check(*extra))
    STATS["queries"] += 1
    STATS[{"unsat": "valid"}.get(res, res)] += 1
    STATS["seconds"] += time.time() - t0
    return res


def check(facts, timeout=None):
    """sat / unsat / unknown of the conjunction (after saturation)."""
    if any(f is FALSE for f in facts):
        return "unsat"
    key = frozenset(facts)
    r = _cache.get(key)
    if r is not None:
        STATS["cached"] += 1
        return r[0]
    t0 = time.time()
    facts = list(facts)
    s = Ctx(ctx_for(facts[:-1])).extend(facts[-1:]).solver()
    STATS["prep"] += time.time() - t0
    res = _solve(s, (), timeout)
    if SECOND and res == "unsat":
        res2 = cvc5(s)
        if res2 == "sat":
            res = "unknown"
    _cache[key] = (res, s if res == "sat" else None)
    return res


def decide(facts, c, timeout=None):
    """True if facts imply c, False if they imply not c, None otherwise.
    Both directions share one saturation."""
    nc = not_(c)
    k1, k2 = frozenset(facts + [nc]), frozenset(facts + [c])
    r1, r2 = _cache.get(k1), _cache.get(k2)
    if r1 and r1[0] == "unsat":
        STATS["cached"] += 1
        return True
    if r2 and r2[0] == "unsat":
        STATS["cached"] += 1
        return False
    if r1 and r2:
        STATS["cached"] += 1
        return None
    t0 = time.time()
    lit = named_var("decide!lit", "bool")
    s = Ctx(ctx_for(facts)).extend([eq(lit, c)]).solver()
    z = TR(lit)
    STATS["prep"] += time.time() - t0
    if not r1:
        r = _solve(s, (z3.Not(z),), timeout)
        _cache[k1] = (r, None)
        if r == "unsat":
            return True
    if not r2:
        r = _solve(s, (z,), timeout)
        _cache[k2] = (r, None)
        if r == "unsat":
            return False
    return None


def cvc5(solver):
    t0 = time.time()
    STATS["cvc5"] += 1
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + solver.to_smt2())
        path = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=20000", path], capture_output=True, text=True, timeout=40)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(path)
        STATS["cvc5_seconds"] += time.time() - t0


def prove(facts, goal, timeout=None):
    """True (proved), False (refuted: a model exists) or None (unknown)."""
    if goal is TRUE:
        return True
    if goal in facts:
        return True
    if goal.op == "and":
        rs = [prove(facts, g, timeout) for g in goal.args]
        return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    r = check(list(facts) + [not_(goal)], timeout)
    return {"unsat": True, "sat": False}.get(r)


def model_of(facts):
    """Values of the integer and string constants in a model of the facts."""
    r = _cache.get(frozenset(facts))
    if not r or r[1] is None:
        return None
    try:
        m = r[1].model()
        return {str(d): str(m[d]) for d in m.decls() if d.arity() == 0}
    except z3.Z3Exception:
        return None
