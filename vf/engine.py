"""Symbolic evaluator for the Python functions of /repo (the VC generator).

The functions are read from /repo's source on every run: a function object of
the loaded package is mapped to its syntax tree through its code object and the
tree is evaluated over terms.  Loops (and Pattern.sub with a callback) are not
unrolled: fold() finds a closed form of the loop state at iteration k, checks
that it is inductive by executing one generic iteration, and uses it for the
state after the loop.  Anything outside the supported subset raises Unsupported;
it is never approximated silently.
"""
import ast
import collections.abc as cabc
import functools
import inspect
import itertools
import os
import re
import string
import time
import types

from . import rx, smt
from .terms import *
from .terms import T, Box, mk, BINDERS, VAR_LEVEL, fv, subst, replace, subterms
from . import terms as tm


TRACE = False


class Unsupported(Exception):
    pass


class FrameViolation(Unsupported):
    """The code writes state that outlives the call or belongs to the caller."""


MUTATORS = {"append", "add", "update", "setdefault", "pop", "popitem", "extend", "clear", "insert", "remove", "discard", "sort",
            "reverse", "__setitem__", "__delitem__", "move_to_end", "appendleft", "popleft"}


class Fork(Exception):
    def __init__(self, level, cond):
        self.level, self.cond = level, cond


class Raised(Exception):
    def __init__(self, cls, args=(), tag=None):
        self.cls, self.args_, self.tag = cls, tuple(args), tag

    def key(self):
        return ("raise", self.cls)


class NeedMemo(Exception):
    """A dict written in the loop over k is also consulted for earlier writes."""
    def __init__(self, k, w):
        self.k, self.w = k, w


class NeedLocal(Exception):
    """A local assigned in a loop is read after its iteration: track its value."""
    def __init__(self, name):
        self.name = name


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Outcome:
    """One path of an exploration: pc literals, kind, value, store."""
    def __init__(self, pc, kind, val, store):
        self.pc, self.kind, self.val, self.store = pc, kind, val, store

    def __repr__(self):
        return "<%s %r | %s>" % (self.kind, self.val if self.kind != "raise" else self.val.cls.__name__, list(self.pc))


class Level:
    """facts are active; pending are the decisions of this path that are not yet
    reached (a decision becomes a fact where it is taken)."""
    def __init__(self, name, facts, pending=()):
        self.name, self.facts, self.n = name, facts, 0
        self.set = set(facts)
        self.pending = set(pending)

    def activate(self, c):
        self.pending.discard(c)
        if c not in self.set:
            self.set.add(c)
            self.facts.append(c)

    def next(self):
        self.n += 1
        return self.n


NONE = const(None)
ZERO, ONE = const(0), const(1)


# ---------------------------------------------------------- callable wrappers
class Clo:
    """Closure over a syntax tree (nested def, lambda)."""
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name


class BM:
    """Method of a symbolic value."""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Part:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class BoundFn:
    """Function of a class bound to a symbolic object."""
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class GenX:
    """Generator expression, evaluated when consumed."""
    def __init__(self, node, frame, src):
        self.node, self.frame, self.src, self.used = node, frame, src, False


class GenF:
    """A call of a generator function, evaluated when consumed: body runs the code."""
    def __init__(self, body, frame):
        self.body, self.frame, self.used = body, frame, False


class Lazy:
    """enumerate / zip / map over sources, evaluated when consumed."""
    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class SuperX:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


NAMED = set()    # named tuple classes of the code under test


class Frame:
    def __init__(self, fid, glob, mangle, parent=None, cells=None, locals_=(), cls=None):
        self.fid, self.glob, self.mangle, self.parent, self.cells, self.locals, self.cls = fid, glob, mangle, parent, cells or {}, set(locals_), cls
        self.nonlocals = set()


_src = {}


def tree_of(filename):
    t = _src.get(filename)
    if t is None:
        with open(filename) as f:
            t = ast.parse(f.read())
        index = {}

        def walk(node, cls):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, ast.ClassDef):
                    walk(c, c.name)
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    line = min([c.lineno] + [d.lineno for d in c.decorator_list])
                    index[(line, c.name)] = (c, cls)
                    walk(c, cls)
                else:
                    walk(c, cls)
        walk(t, None)
        _src[filename] = t = (t, index)
    return t


def fn_ast(fn):
    code = fn.__code__
    _, index = tree_of(code.co_filename)
    r = index.get((code.co_firstlineno, code.co_name))
    if r is None:
        raise Unsupported("no source for %s" % fn.__qualname__)
    return r


def is_generator(node):
    """Whether the function's own body yields."""
    r = getattr(node, "_is_generator", None)
    if r is None:
        def own(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.Yield, ast.YieldFrom)):
                    return True
                if isinstance(c, ast.Await):
                    raise Unsupported("await")
                if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)) and own(c):
                    return True
            return False
        r = node._is_generator = not isinstance(node, ast.Lambda) and own(node)
    return r


def bound_names(node):
    out = set()

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def comp(self, n):
            self.visit(n.generators[0].iter)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp
    w = W()
    for s in node.body if isinstance(node.body, list) else [node.body]:
        w.visit(s)
    return out


def lift(v):
    if isinstance(v, T):
        return v
    if v is None or isinstance(v, (bool, int, str, bytes, float)) and type(v) in (bool, int, str, bytes, float):
        return const(v)
    if type(v) is tuple:
        return tup([lift(x) for x in v])
    return const(v)


def is_box(t):
    return t.op == "py" and isinstance(t.args[0], Box)


def host(t):
    """Host value of a constant term (tuples included) or raise."""
    if t.op == "py":
        return cval(t)
    if t.op == "tuple":
        return tuple(host(a) for a in t.args)
    raise Unsupported("not a constant: %r" % (t,))


def is_hostable(t):
    return t.op == "py" or (t.op == "tuple" and all(is_hostable(a) for a in t.args))


def seqlen_of(t):
    """The number of fields of a tuple term, if it is known."""
    if t.op == "tuple":
        return len(t.args)
    if t.op == "ite":
        a, b = seqlen_of(t.args[1]), seqlen_of(t.args[2])
        return a if a == b else None
    return None


def seqlen(s):
    out = []
    for g in s.args:
        if g.op == "elem":
            out.append(ONE)
        elif g.op == "map":
            out.append(g.args[0])
        elif g.op == "flat":
            out.append(psum(g.args[0], g.args[1], tuple(case(c.args[0], seqlen(c.args[1])) for c in g.args[2:])))
        else:
            out.append(app("seglen", (g,), "int"))
    return add(*out) if out else ZERO


def has_op(t, *ops):
    return any(x.op in ops for x in subterms(t))


PYSORT = {"int": int, "bool": bool, "str": str, "bytes": bytes, "none": type(None), "tuple": tuple}


class Machine:
    MAXPATHS = 160

    def __init__(self, hyps=(), contracts=None, deadline=None):
        self.store = {}
        self.refs = 0
        self.fids = 0
        self.levels = []
        self.hyps = list(hyps)
        self.contracts = contracts or {}
        self.deadline = deadline
        self.memo_rules = {}
        self.memo_shapes = {}
        self.loopvars = set()
        self.patterns = {}
        self.kindcache = {}
        self.consumed = {}
        self.notes = set()
        self.depth = 0
        self.functions = set()
        self.effects = []
        self.needed = set()
        self.fold_cache = {}

    # ------------------------------------------------------------ exploring
    def facts(self):
        out = list(self.hyps)
        for l in self.levels:
            out.extend(l.facts)
        return out

    def known(self, c):
        for l in self.levels:
            if c in l.set:
                return True
        return c in self.hyps

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget")

    def explore(self, name, body, facts=()):
        lvl = len(self.levels)
        base, refs, fids = self.store, self.refs, self.fids
        consumed = dict(self.consumed)
        work, outs, n = [()], [], 0
        while work:
            self.tick()
            pc = work.pop()
            n += 1
            if n > self.MAXPATHS:
                raise Unsupported("too many paths")
            self.store = dict(base)
            self.refs, self.fids = refs, fids
            self.consumed = dict(consumed)
            self.levels.append(Level(name, list(facts), pc))
            depth = self.depth
            try:
                try:
                    v = body()
                    oc = ("ok", v)
                except Ret as e:
                    oc = ("ret", e.v)
                except Break:
                    oc = ("break", None)
                except Continue:
                    oc = ("ok", None)
                except Raised as e:
                    oc = ("raise", e)
                except Fork as f:
                    if f.level != lvl:
                        raise
                    work.append(pc + (not_(f.cond),))
                    work.append(pc + (f.cond,))
                    continue
            finally:
                self.levels.pop()
                self.depth = depth
            outs.append(Outcome(pc, oc[0], oc[1], self.store))
        self.store = base
        return outs

    def run(self, name, body, facts=()):
        """explore, tracking exactly those loop locals that turn out to be read."""
        saved = dict(self.store), self.refs, self.fids, dict(self.consumed)
        for _ in range(40):
            self.store, self.refs, self.fids = dict(saved[0]), saved[1], saved[2]
            self.consumed = dict(saved[3])
            try:
                return self.explore(name, body, facts)
            except NeedLocal as e:
                self.needed.add(e.name)
                self.fold_cache.clear()
        raise Unsupported("loop locals")

    def level_of(self, c):
        return max([VAR_LEVEL.get(v, 0) for v in fv(c)] + [0])

    def decide(self, c):
        """True / False if the facts decide c, else None."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.known(c):
            return True
        nc = not_(c)
        if self.known(nc):
            return False
        return smt.decide(self.facts(), c)

    def branch_atomic(self, c):
        return self.branch(c, True)

    def branch(self, c, atomic=False):
        if c.op == "py":
            return bool(cval(c))
        if c.op == "not":
            return not self.branch(c.args[0])
        if c.op == "and" and not atomic:
            return all(self.branch(a) for a in c.args)
        if c.op == "or" and not atomic:
            return any(self.branch(a) for a in c.args)
        if c.op == "ite":
            return self.branch(c.args[1] if self.branch(c.args[0]) else c.args[2])
        if self.known(c):
            return True
        nc = not_(c)
        if self.known(nc):
            return False
        for l in self.levels:
            if c in l.pending:
                l.activate(c)
                return True
            if nc in l.pending:
                l.activate(nc)
                return False
        r = self.decide(c)
        if r is not None:
            return r
        raise Fork(self.level_of(c), c)

    # ----------------------------------------------------------------- heap
    def new(self, obj):
        self.refs += 1
        r = mk("ref", (self.refs,), "ref")
        self.store[("h", self.refs)] = obj
        return r

    def get(self, ref):
        return self.store[("h", ref.args[0])]

    def put(self, ref, obj):
        self.store[("h", ref.args[0])] = obj

    def new_list(self, s):
        return self.new(mk("L", (s,), "heap"))

    def new_dict(self, d=EMPTYD):
        return self.new(mk("D", (d,), "heap"))

    def freeze(self, t, old, store, depth=0):
        """Replace references created since `old` by the values they refer to."""
        refs = [x for x in subterms(t) if x.op == "ref" and ("h", x.args[0]) not in old]
        if not refs:
            return t
        if depth > 6:
            raise Unsupported("cyclic structure")
        m = {}
        for r in refs:
            h = store[("h", r.args[0])]
            m[r] = self.freeze(self.value_of(h), old, store, depth + 1)
        return replace(t, m)

    def aliases(self, t):
        """Containers of the result that occur in several places of it (or in every
        iteration of a loop), or that are not new."""
        seen, bad = {}, []

        def walk(x, many):
            if x.op == "ref":
                if many or x in seen:
                    bad.append(x)
                    return
                seen[x] = 1
                h = self.get(x)
                if h.op in ("L", "A", "D", "O"):
                    walk(h, False)
                return
            if x.op in ("listval", "arrval", "dictval", "tupval"):
                return
            if not any(y.op == "ref" for y in subterms(x)):
                return
            inner = many or x.op in ("map", "flat", "wmap", "wflat")
            for a in x.args:
                if isinstance(a, T):
                    walk(a, inner)
        walk(t, False)
        return bad

    def value_of(self, h):
        if h.op == "L":
            return mk("listval", (h.args[0],), "list")
        if h.op == "A":
            return mk("arrval", (h.args[0], h.args[1]), "list")
        if h.op == "D":
            return mk("dictval", (h.args[0],), "dict")
        return mk("opaque", ("frozen",), "obj")

    # ------------------------------------------------------------- values
    def force(self, v):
        while v.op == "ite":
            v = v.args[1] if self.branch(v.args[0]) else v.args[2]
        if v.op == "opaque":
            raise Unsupported("value of unknown form: %s" % (v.args[0],))
        return v

    def truth(self, v):
        if v.sort == "bool":
            return v
        v = self.force(v)
        if v.op == "py":
            x = cval(v)
            if isinstance(v.args[0], Box):
                if isinstance(x, (list, dict, set)):
                    return const(bool(x))
                if callable(x) or isinstance(x, (re.Pattern, type)):
                    return TRUE
                raise Unsupported("truth of host object")
            return const(bool(x))
        if v.sort == "int":
            return not_(eq(v, ZERO))
        if v.sort == "str":
            return not_(eq(v, const("")))
        if v.op == "tuple":
            return const(bool(v.args))
        if v.op in ("listval", "tupval"):
            return lt(ZERO, seqlen(v.args[0]))
        if v.op == "ref":
            h = self.get(v)
            if h.op in ("L", "A"):
                return lt(ZERO, seqlen(h.args[0]))
            if h.op == "D" and not h.args[0].args:
                return FALSE
            if h.op == "D" and any(w.op == "w" for w in h.args[0].args):
                return TRUE
            if h.op == "O":
                return TRUE
            raise Unsupported("truth of heap object")
        if v.sort == "obj":
            if self.isinst(v, tuple) is not TRUE and self.decide(self.isinst(v, tuple)) is True:
                return lt(ZERO, app("len", (v,), "int"))
            return app("truthy", (v,), "bool")
        raise Unsupported("truth of %s" % v.op)

    def cond(self, v):
        return self.branch(self.truth(v))

    def isinst(self, v, cls):
        """isinstance(v, cls) as a term."""
        if isinstance(cls, tuple):
            return or_(*[self.isinst(v, c) for c in cls])
        if not isinstance(cls, type):
            raise Unsupported("isinstance with %r" % (cls,))
        if v.op == "ite":
            return ite(v.args[0], self.isinst(v.args[1], cls), self.isinst(v.args[2], cls))
        if v.op == "py":
            return const(isinstance(cval(v), cls))
        if v.op == "listval" or v.op == "arrval":
            return const(issubclass(list, cls))
        if v.op == "dictval":
            return const(issubclass(dict, cls))
        if v.sort in PYSORT:
            return const(issubclass(PYSORT[v.sort], cls))
        if v.op == "ref":
            h = self.get(v)
            k = {"L": list, "A": list, "D": dict, "C": itertools.count}.get(h.op)
            if h.op == "O":
                k = h.args[0].v
            if k is None:
                raise Unsupported("isinstance of %s" % h.op)
            return const(issubclass(k, cls))
        if v.sort == "obj":
            if cls is object:
                return TRUE
            smt_register(cls)
            return app("isa:" + cls.__name__, (v,), "bool")
        raise Unsupported("isinstance of %s" % v.op)

    def to_seq(self, v):
        """The elements of an iterable, in order, as a sequence term."""
        v = self.force(v)
        if v.op == "seq":
            return v
        if v.op == "tuple":
            return seq(*[elem(a) for a in v.args])
        if v.op in ("listval", "tupval"):
            return v.args[0]
        if is_box(v):
            x = cval(v)
            if isinstance(x, (GenX, GenF, Lazy)):
                r = self.collect(v)
                return self.get(r).args[0]
            if isinstance(x, (list, tuple)):
                return seq(*[elem(lift(y)) for y in x])
            if isinstance(x, dict):
                return seq(*[elem(lift(y)) for y in x])
            raise Unsupported("iteration over host object")
        if v.op == "py" and isinstance(cval(v), str):
            return seq(*[elem(const(c)) for c in cval(v)])
        if v.op == "ref":
            h = self.get(v)
            if h.op == "L":
                return h.args[0]
            if h.op == "It":
                if h.args[0].op == "opaque":
                    raise Unsupported("an iterator used while or after it is consumed elsewhere")
                self.put(v, mk("It", (mk("opaque", ("iterator",), "obj"),), "heap"))
                return h.args[0]
            if h.op == "D":
                return self.dict_keys(h.args[0])
            raise Unsupported("iteration over %s" % h.op)
        if v.op == "dictval":
            return self.dict_keys(v.args[0])
        if v.sort == "obj":
            i = named_var("v@it", "int")
            if v.op == "var" and v in MANY:
                if self.consumed.get(v):
                    raise Unsupported("the parameter sets are iterated twice")
                self.consumed[v] = True
                return seq(smap(app("nrows", (v,), "int"), i, app("row", (v, i), "obj")))
            if self.branch(self.isinst(v, cabc.Mapping)):
                return seq(smap(app("len", (v,), "int"), i, tm.ikey(v, i)))
            if self.branch(self.isinst(v, cabc.Sequence)):
                if self.branch(self.isinst(v, (str, bytes))):
                    raise Unsupported("iteration over a string")
                return seq(smap(app("len", (v,), "int"), i, app("item", (v, i), "obj")))
            raise Unsupported("iteration over an unknown object")
        raise Unsupported("iteration over %s" % v.op)

    def dict_keys(self, d, what="k"):
        if all(w.op == "w" for w in d.args):
            keys, vals = [], {}
            for w in d.args:
                for k in keys:
                    c = eq(k, w.args[0])
                    if c is TRUE:
                        break
                    if c is not FALSE:
                        raise Unsupported("iteration over a dict with unknown keys")
                else:
                    keys.append(w.args[0])
                vals[w.args[0]] = w.args[1]
            return seq(*[elem(k if what == "k" else vals[k] if what == "v" else tup([k, vals[k]])) for k in keys])
        raise Unsupported("iteration over a symbolic dict")

    def length(self, v):
        v = self.force(v)
        if v.op == "py":
            try:
                return const(len(cval(v)))
            except TypeError:
                raise Raised(TypeError)
        if v.op == "tuple":
            return const(len(v.args))
        if v.op in ("listval", "arrval", "tupval"):
            return seqlen(v.args[0])
        if v.op == "ref":
            h = self.get(v)
            if h.op in ("L", "A"):
                return seqlen(h.args[0])
            if h.op == "D" and all(w.op == "w" for w in h.args[0].args):
                return seqlen(self.dict_keys(h.args[0]))
            raise Unsupported("len of %s" % h.op)
        if v.sort in ("obj", "str"):
            return app("len", (v,), "int")
        raise Unsupported("len of %s" % v.op)

    # -------------------------------------------------------------- items
    def seq_get(self, s, i):
        n = seqlen(s)
        if i.sort != "int":
            raise Unsupported("index %r" % (i,))
        if i.op == "py" and cval(i) < 0 or i.op != "py" and not self.branch(le(ZERO, i)):
            i = add(i, n)
            if not self.branch(le(ZERO, i)):
                raise Raised(IndexError)
        if not self.branch(lt(i, n)):
            raise Raised(IndexError)
        off = ZERO
        for g in s.args:
            if g.op == "elem":
                if self.branch(eq(i, off)):
                    return g.args[0]
                off = add(off, ONE)
            elif g.op == "map":
                if self.branch(lt(sub(i, off), g.args[0])):
                    return subst(g.args[2], {g.args[1]: sub(i, off)})
                off = add(off, g.args[0])
            else:
                raise Unsupported("index into a flattened sequence")
        raise Unsupported("index")

    def dlookup(self, dref, d, key):
        """(found?, value) of key in a dict log; branches."""
        for w in reversed(d.args):
            if w.op == "w":
                if self.branch(self.keyeq(w.args[0], key)):
                    return True, w.args[1]
            elif w.op in ("wmap", "wflat"):
                r = self.log_match(w, key)
                if r is not None:
                    return True, r
            elif w.op == "opqd":
                memoid, idx = w.args
                h = app("has:%s" % (memoid,), (idx, key), "bool")
                if self.branch(h):
                    return True, self.skeleton(memoid, idx, key)
            elif w.op == "memo":
                r = self.memo_lookup(w, key)
                if r is not None:
                    return True, r
            else:
                raise Unsupported("dict log")
        return False, None

    def skeleton(self, memoid, idx, key):
        """Value of the shape the loop writes under such keys, otherwise unknown."""
        shapes = {}
        for wkey, inner, val in self.memo_shapes[memoid]:
            if unify(wkey, key, inner[1] if inner else None, {}, []):
                def skel(t, path):
                    if t.op == "tuple":
                        return tup([skel(a, path + "." + str(i)) for i, a in enumerate(t.args)])
                    if t.op == "py" and cval(t) is None:
                        return t
                    if t.sort in ("int", "str", "bool"):
                        return app("mv:%s%s" % (memoid, path), (idx, key), t.sort)
                    return mk("opaque", ("memo value", idx, key), "obj")
                r = skel(val, "")
                shapes[r] = r
        if len(shapes) != 1:
            raise Unsupported("memo values of different shapes")
        return next(iter(shapes))

    def keyeq(self, a, b):
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return and_(*[self.keyeq(x, y) for x, y in zip(a.args, b.args)])
        return eq(a, b)

    def case_conds(self, w):
        """Cases of a wmap/wflat as (cond over v, list of dlogs)."""
        if w.op == "wmap":
            return [(TRUE, dlog(w1(w.args[2], w.args[3])))]
        return [(c.args[0], c.args[1]) for c in w.args[2:]]

    def match_cond(self, d, key):
        """Condition that the dict log d writes key (no branching)."""
        out = []
        for w in d.args:
            if w.op == "w":
                out.append(self.keyeq(w.args[0], key))
            elif w.op in ("wmap", "wflat"):
                n, v = w.args[0], w.args[1]
                body = or_(*[and_(c, self.match_cond(p, key)) for c, p in self.case_conds(w)])
                out.append(le(ZERO, last(n, v, body)))
            else:
                raise Unsupported("dict log")
        return or_(*out)

    def log_match(self, w, key):
        n, v = w.args[0], w.args[1]
        cs = self.case_conds(w)
        body = or_(*[and_(c, self.match_cond(p, key)) for c, p in cs])
        if body is FALSE:
            return None
        l = last(n, v, body)
        if n in self.loopvars:
            r = self.decide(le(ZERO, l))
            if r is None:
                raise NeedMemo(n, w)
            if not r:
                return None
        elif not self.branch(le(ZERO, l)):
            return None
        # body holds at l: the last case needs no test, a single write no key test
        cs = [(c, p) for c, p in cs if and_(c, self.match_cond(p, key)) is not FALSE]
        for i, (c, p) in enumerate(cs):
            if i == len(cs) - 1 or self.branch_atomic(subst(and_(c, self.match_cond(p, key)), {v: l})):
                if len(p.args) == 1 and p.args[0].op == "w":
                    return subst(p.args[0].args[1], {v: l})
                found, val = self.dlookup(None, subst(p, {v: l}), key)
                if found:
                    return val
        raise Unsupported("dict log match")

    def getitem(self, o, i):
        o = self.force(o)
        if o.op == "tuple" and i.op == "py":
            try:
                return o.args[cval(i)]
            except IndexError:
                raise Raised(IndexError)
            except TypeError:
                raise Raised(TypeError)
        if o.op == "tuple":
            return self.seq_get(self.to_seq(o), i)
        if o.op in ("listval", "tupval"):
            return self.seq_get(o.args[0], i)
        if is_box(o):
            x = cval(o)
            if isinstance(x, (MatchObj,)):
                return x.group(self, i)
            if isinstance(x, (dict, list, tuple)) and is_hostable(i):
                try:
                    return lift(x[host(i)])
                except (KeyError, IndexError, TypeError) as e:
                    raise Raised(type(e), (i,))
            if isinstance(x, dict):
                for k in x:
                    if isinstance(k, str) and i.sort in ("str", "obj"):
                        if self.branch(eq(const(k), i)):
                            return lift(x[k])
                    else:
                        raise Unsupported("symbolic index of host dict")
                raise Raised(KeyError, (i,))
            raise Unsupported("item of host object")
        if o.op == "py" or o.sort == "str":
            if o.op == "py" and i.op == "py":
                try:
                    return const(cval(o)[cval(i)])
                except (IndexError, TypeError) as e:
                    raise Raised(type(e))
            return self.charat(o, i)
        if o.op == "dictval":
            f, v = self.dlookup(None, o.args[0], i)
            if f:
                return v
            raise Raised(KeyError, (i,))
        if o.op == "ref":
            h = self.get(o)
            if h.op == "L":
                return self.seq_get(h.args[0], i)
            if h.op == "D":
                f, v = self.dlookup(o, h.args[0], i)
                if f:
                    return v
                raise Raised(KeyError, (i,))
            raise Unsupported("item of %s" % h.op)
        if o.sort == "obj":
            if self.branch(self.isinst(o, cabc.Mapping)):
                if tm.is_app(i, "ikey") and i.args[1] is o and self.decide(
                        and_(le(ZERO, i.args[2]), lt(i.args[2], app("len", (o,), "int")))) is True:
                    return app("ival", (o, i.args[2]), "obj")
                if self.branch(app("mhas", (o, i), "bool")):
                    return app("mget", (o, i), "obj")
                raise Raised(KeyError, (i,))
            if self.branch(self.isinst(o, cabc.Sequence)) and not self.branch(self.isinst(o, (str, bytes))):
                if i.sort != "int":
                    if i.sort == "str":
                        raise Raised(TypeError)
                    raise Unsupported("index of unknown type")
                n = app("len", (o,), "int")
                if self.branch(le(ZERO, i)):
                    if self.branch(lt(i, n)):
                        return app("item", (o, i), "obj")
                    raise Raised(IndexError, (i,))
                if self.branch(le(ZERO, add(i, n))):
                    return app("item", (o, add(i, n)), "obj")
                raise Raised(IndexError, (i,))
            if self.branch(self.isinst(o, str)):
                return self.charat(o, i)
            raise Unsupported("item of an unknown object")
        raise Unsupported("item of %s" % o.op)

    def charat(self, s, i):
        if i.op != "py" or not isinstance(cval(i), int):
            raise Unsupported("character at symbolic position")
        k = cval(i)
        n = app("len", (s,), "int")
        if not self.branch(le(const(k + 1 if k >= 0 else -k), n)):
            raise Raised(IndexError)
        return app("charat", (s, i), "str")

    def slice(self, o, lo, hi, step):
        o = self.force(o)
        vals = [None if x is None or x is NONE else x for x in (lo, hi, step)]
        if all(x is None or x.op == "py" for x in vals):
            sl = slice(*[None if x is None else cval(x) for x in vals])
            if o.op == "py" and not is_box(o):
                return const(cval(o)[sl])
            if o.op == "tuple":
                return tup(o.args[sl])
            if is_box(o) and isinstance(cval(o), (list, tuple)):
                return const(cval(o)[sl]) if isinstance(cval(o), list) else lift(cval(o)[sl])
            if o.sort == "str" or o.sort == "obj" and self.decide(self.isinst(o, str)) is True:
                if sl == slice(None):
                    return o
                if sl in (slice(None, 1), slice(0, 1), slice(-1, None)):
                    at = app("charat", (o, const(-1 if sl.start == -1 else 0)), "str")
                    return at if self.branch(le(ONE, app("len", (o,), "int"))) else const("")
                return app("slice", (o,) + tuple(NONE if x is None else x for x in vals), "str")
            if vals[2] is None and (o.op in ("listval", "tupval") or o.op == "ref" and self.get(o).op == "L"):
                s = o.args[0] if o.op != "ref" else self.get(o).args[0]
                lo_, hi_ = (0 if vals[0] is None else cval(vals[0])), vals[1]
                if hi_ is None and lo_ >= 0:
                    return self.new_list(self.drop(s, lo_)) if o.op != "tupval" else mk("tupval", (self.drop(s, lo_),), "tuple")
        raise Unsupported("slice")

    def drop(self, s, k):
        segs = list(s.args)
        while k > 0 and segs:
            g = segs[0]
            if g.op == "elem":
                segs.pop(0)
                k -= 1
            elif g.op == "map":
                if not self.branch(lt(ZERO, g.args[0])):
                    segs.pop(0)
                    continue
                segs[0:1] = self.tail_map(g).args
                k -= 1
            else:
                raise Unsupported("slice of a flattened sequence")
        return seq(*segs)

    def tail_map(self, g):
        n, v, b = g.args
        return seq(smap(sub(n, ONE), v, subst(b, {v: add(v, ONE)})))

    def setitem(self, o, i, val):
        o = self.force(o)
        if o.op == "ref":
            h = self.get(o)
            if h.op == "D":
                self.put(o, mk("D", (dlog(h.args[0], w1(i, val)),), "heap"))
                return
            if h.op in ("L", "A"):
                n = seqlen(h.args[0])
                if i.sort != "int":
                    raise Unsupported("index type")
                if not self.branch(le(ZERO, i)):
                    i = add(i, n)
                    if not self.branch(le(ZERO, i)):
                        raise Raised(IndexError)
                if not self.branch(lt(i, n)):
                    raise Raised(IndexError)
                log = h.args[1] if h.op == "A" else EMPTYD
                if h.op == "L" and i.op == "py" and all(g.op == "elem" for g in h.args[0].args):
                    s = list(h.args[0].args)
                    s[cval(i)] = elem(val)
                    self.put(o, mk("L", (seq(*s),), "heap"))
                    return
                self.put(o, mk("A", (h.args[0], dlog(log, w1(i, val))), "heap"))
                return
        if o.sort == "obj":
            raise FrameViolation("writes into a caller's object")
        if is_box(o):
            raise FrameViolation("item assignment to an object that outlives the call")
        raise Unsupported("item assignment to %s" % o.op)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, frame=None):
        if name.startswith("__") and not name.endswith("__") and frame is not None and frame.mangle:
            name = "_%s%s" % (frame.mangle.lstrip("_"), name)
        o = self.force(o)
        if is_box(o):
            x = cval(o)
            if isinstance(x, SuperX):
                mro = self.get(x.obj).args[0].v.__mro__
                for c in mro[mro.index(x.cls) + 1:]:
                    if name in c.__dict__:
                        f = c.__dict__[name]
                        if isinstance(f, types.FunctionType):
                            return const(BoundFn(f, x.obj))
                        if c is object and name == "__init__":
                            return const(BM(x.obj, "object.__init__"))
                raise Unsupported("super attribute")
            if isinstance(x, MatchObj):
                return x.attr(self, name)
            if isinstance(x, (Clo, Part, BM, GenX, GenF, Lazy, BoundFn)):
                raise Unsupported("attribute of a callable")
            if isinstance(x, (list, dict, set)) and not isinstance(x, type):
                return const(BM(o, name))
            if isinstance(x, re.Pattern) and name not in ("pattern", "flags", "groupindex", "groups"):
                return const(BM(o, name))
            try:
                d = inspect.getattr_static(x, name)
            except AttributeError:
                raise Raised(AttributeError)
            if isinstance(d, property) and in_repo(d.fget):
                return self.call(const(d.fget), [o], {})
            return lift(getattr(x, name))
        if o.op == "ref" and self.get(o).op == "O":
            cls = self.get(o).args[0].v
            k = ("a", o.args[0], name)
            d = None
            for c in cls.__mro__:
                if name in c.__dict__:
                    d = c.__dict__[name]
                    break
            if isinstance(d, property):
                return self.call(const(d.fget), [o], {})
            if k in self.store:
                return self.store[k]
            if d is None:
                if name == "__class__":
                    return const(cls)
                raise Raised(AttributeError)
            if isinstance(d, types.FunctionType):
                return const(BoundFn(d, o))
            if isinstance(d, staticmethod):
                return const(d.__func__)
            if isinstance(d, classmethod):
                return const(BoundFn(d.__func__, const(cls)))
            return lift(d)
        if name == "__class__" and o.op == "py":
            return const(type(cval(o)))
        if o.sort == "tuple":
            k = {c._fields.index(name) for c in NAMED if name in c._fields and len(c._fields) == seqlen_of(o)}
            if len(k) == 1:
                return self.getitem(o, const(k.pop()))
        return const(BM(o, name))

    def setattr(self, o, name, val, frame):
        if name.startswith("__") and not name.endswith("__") and frame.mangle:
            name = "_%s%s" % (frame.mangle.lstrip("_"), name)
        if o.op == "ref" and self.get(o).op == "O":
            self.store[("a", o.args[0], name)] = val
            return
        if o.sort == "obj":
            raise FrameViolation("attribute assignment to a caller's object")
        if is_box(o):
            raise FrameViolation("attribute assignment to an object that outlives the call (%s)" % name)
        raise Unsupported("attribute assignment")

    # ---------------------------------------------------------------- calls
    def call(self, fn, args, kw):
        fn = self.force(fn)
        self.tick()
        if not is_box(fn):
            raise Unsupported("call of %r" % (fn,))
        f = cval(fn)
        h = self.contracts.get(f if not isinstance(f, types.MethodType) else f.__func__)
        if h is not None:
            if isinstance(f, types.MethodType):
                args = [lift(f.__self__)] + args
            return h(self, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(lift(f.__func__), [lift(f.__self__)] + args, kw)
        if isinstance(f, (Clo,)):
            return self.run_function(f.node, f.name, args, kw, f.defaults, f.kwdefaults, f.frame.glob, f.frame.mangle, f.frame, {}, f.frame.cls)
        if isinstance(f, BoundFn):
            return self.call(const(f.fn), [f.self_] + args, kw)
        if isinstance(f, Part):
            return self.call(f.fn, f.args + args, {**f.kw, **kw})
        if isinstance(f, functools.partial):
            return self.call(lift(f.func), [lift(a) for a in f.args] + args, {**{k: lift(v) for k, v in f.keywords.items()}, **kw})
        if isinstance(f, BM):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, types.FunctionType):
            if in_repo(f):
                node, cls = fn_ast(f)
                cells = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
                self.functions.add(f.__qualname__)
                owner = None
                c = cells.get("__class__")
                if c is not None:
                    owner = c.cell_contents
                return self.run_function(node, f.__qualname__, args, kw, [lift(d) for d in f.__defaults__ or ()],
                                         {k: lift(v) for k, v in (f.__kwdefaults__ or {}).items()}, f.__globals__, cls, None, cells, owner)
            if f in MODELS:
                return MODELS[f](self, args, kw)
            raise Unsupported("call of external function %s" % getattr(f, "__qualname__", f))
        m = MODELS.get(f) if not isinstance(f, type) or f in MODELS else None
        if m is not None:
            return m(self, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return const(ExcVal(f, tuple(args)))
        if isinstance(f, type) and in_repo_class(f) and issubclass(f, tuple) and hasattr(f, "_fields"):
            return self.named_tuple(f, args, kw)
        if isinstance(f, type) and in_repo_class(f):
            return self.instantiate(f, args, kw)
        if isinstance(f, (types.BuiltinMethodType, types.BuiltinFunctionType)):
            if isinstance(f.__self__, type) and f.__self__ is itertools.chain and f.__name__ == "from_iterable":
                return self.new(mk("It", (seq(*[x for a in self.to_seq(args[0]).args for x in self.flatten_seg(a).args]),), "heap"))
            if f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
                return self.method(lift(f.__self__), f.__name__, args, kw)
        raise Unsupported("call of %r" % (f,))

    def flatten_seg(self, g):
        if g.op == "elem":
            return self.to_seq(g.args[0])
        raise Unsupported("chain.from_iterable of a symbolic sequence")

    def named_tuple(self, cls, args, kw):
        """A named tuple of the code under test is the tuple of its fields."""
        if cls.__bases__ != (tuple,) or set(cls.__dict__) & {"__iter__", "__len__", "__getitem__", "__eq__", "__hash__", "__bool__", "__contains__"}:
            raise Unsupported("customised named tuple")
        kw, vals = dict(kw), list(args)
        for n in cls._fields[len(vals):]:
            if n in kw:
                vals.append(kw.pop(n))
            elif n in cls._field_defaults:
                vals.append(lift(cls._field_defaults[n]))
            else:
                raise Raised(TypeError)
        if kw or len(vals) != len(cls._fields):
            raise Raised(TypeError)
        for n in cls._fields:
            k = {c._fields.index(n) for c in NAMED | {cls} if n in c._fields and len(c._fields) == len(cls._fields)}
            if len(k) != 1:
                raise Unsupported("named tuples that share a field name")
        NAMED.add(cls)
        return tup(vals)

    def host_call(self, f, args, kw):
        try:
            return lift(f(*[host(a) for a in args], **{k: host(v) for k, v in kw.items()}))
        except Exception as e:
            raise Raised(type(e))

    def instantiate(self, cls, args, kw):
        if cls.__init__ is object.__init__ or not isinstance(cls.__init__, types.FunctionType):
            raise Unsupported("instance of %s" % cls.__name__)
        r = self.new(mk("O", (Box(cls),), "heap"))
        self.call(const(cls.__init__), [r] + args, kw)
        return r

    def bind(self, node, name, args, kw, defaults, kwdefaults):
        a = node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for i, p in enumerate(pos):
            if i < len(args):
                env[p] = args[i]
        if len(args) > len(pos):
            if not a.vararg:
                raise Raised(TypeError)
            env[a.vararg.arg] = tup(args[len(pos):])
        elif a.vararg:
            env[a.vararg.arg] = tup([])
        for k in list(kw):
            if k in [x.arg for x in a.args + a.kwonlyargs] and k not in env:
                env[k] = kw.pop(k)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(dlog(*[w1(const(k), v) for k, v in kw.items()]))
        elif kw:
            raise Raised(TypeError)
        for p, d in zip(pos[len(pos) - len(defaults):], defaults):
            env.setdefault(p, d)
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg not in kwdefaults:
                    raise Raised(TypeError)
                env[x.arg] = kwdefaults[x.arg]
        for p in pos:
            if p not in env:
                raise Raised(TypeError)
        return env

    def run_function(self, node, name, args, kw, defaults, kwdefaults, glob, mangle, parent, cells, owner):
        env = self.bind(node, name, args, kw, defaults, kwdefaults)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        self.fids += 1
        fr = Frame(self.fids, glob, mangle, parent, cells, bound_names(node) | set(env), owner)
        for k, v in env.items():
            self.store[("l", fr.fid, k)] = v
        if is_generator(node):
            self.depth -= 1
            return const(GenF(node.body, fr))
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            self.block(node.body, fr)
        except Ret as e:
            return e.v
        finally:
            self.depth -= 1
        return NONE

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        return m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, fr)

    def s_Return(self, s, fr):
        raise Ret(NONE if s.value is None else self.eval(s.value, fr))

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        load = ast.copy_location(type(s.target)(**{f: getattr(s.target, f) for f in s.target._fields if f != "ctx"}, ctx=ast.Load()), s.target)
        cur = self.eval(load, fr)
        v = self.eval(s.value, fr)
        if cur.op == "ref" and self.get(cur).op == "L" and isinstance(s.op, ast.Add):
            self.method(cur, "extend", [v], {})
            return
        if cur.op == "ref" and self.get(cur).op == "D" and isinstance(s.op, ast.BitOr):
            self.method(cur, "update", [v], {})
            return
        if cur.sort == "obj" or is_box(cur) and isinstance(cval(cur), (list, dict, set)):
            raise FrameViolation("augmented assignment may change %s in place" % ("a caller's object" if cur.sort == "obj" else "an object that outlives the call"))
        self.assign(s.target, self.binop(s.op, cur, v), fr)

    def s_If(self, s, fr):
        self.block(s.body if self.cond(self.eval(s.test, fr)) else s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.store.get(("l", 0, "exc"))
            if cur is None:
                raise Unsupported("bare raise")
            e = cval(cur)
            raise Raised(e.cls, e.args)
        v = self.force(self.eval(s.exc, fr))
        if is_box(v):
            x = cval(v)
            if isinstance(x, ExcVal):
                raise Raised(x.cls, x.args)
            if isinstance(x, type) and issubclass(x, BaseException):
                raise Raised(x)
        raise Unsupported("raise")

    def s_Assert(self, s, fr):
        if not self.cond(self.eval(s.test, fr)):
            raise Raised(AssertionError)

    def s_Break(self, s, fr):
        raise Break()

    def s_Continue(self, s, fr):
        raise Continue()

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        a = s.args
        self.setlocal(fr, s.name, const(Clo(s, fr, [self.eval(d, fr) for d in a.defaults],
                                            {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, s.name)))

    def s_Global(self, s, fr):
        raise FrameViolation("global statement (%s)" % ", ".join(s.names))

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        raise Unsupported("import statement")

    s_ImportFrom = s_Import

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store.pop(("l", fr.fid, t.id), None)
            else:
                raise Unsupported("del")

    def s_Try(self, s, fr):
        def fin():
            self.block(s.finalbody, fr)
        try:
            try:
                self.block(s.body, fr)
            except Raised as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        c = host(self.eval(h.type, fr))
                        ok = issubclass(e.cls, c)
                    if ok:
                        ev = const(ExcVal(e.cls, e.args_))
                        if h.name:
                            self.setlocal(fr, h.name, ev)
                        old = self.store.get(("l", 0, "exc"))
                        self.store[("l", 0, "exc")] = ev
                        self.block(h.body, fr)
                        if old is None:
                            self.store.pop(("l", 0, "exc"), None)
                        else:
                            self.store[("l", 0, "exc")] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (Raised, Ret, Break, Continue):
            fin()
            raise
        fin()

    def counted(self, s, fr):
        """`while i < bound: ...; i += 1` with a symbolic bound is a loop over a range."""
        t, body = s.test, s.body
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name) and len(body) > 1):
            return False
        i, last = t.left.id, body[-1]
        step = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and \
            isinstance(last.value, ast.Constant) and last.value.value == 1
        own = [n for b in body[:-1] for n in ast.walk(b)]
        if not step or i in fr.nonlocals or any(isinstance(n, ast.Continue) or isinstance(n, ast.Name) and n.id == i and not isinstance(n.ctx, ast.Load) for n in own):
            return False
        lo, hi = self.eval(t.left, fr), self.force(self.eval(t.comparators[0], fr))
        if lo.sort != "int" or hi.sort != "int" or is_hostable(lo) and is_hostable(hi):
            return False
        src = _range(self, [lo, hi], {})

        def run(x):
            self.setlocal(fr, i, x)
            if self.force(self.eval(t.comparators[0], fr)) is not hi:
                raise Unsupported("the bound of a while loop changes")
            self.block(body[:-1], fr)
        try:
            self.iterate(src, run)
        except Break:
            return True
        self.setlocal(fr, i, hi if self.branch(le(lo, hi)) else lo)
        self.block(s.orelse, fr)
        return True

    def s_While(self, s, fr):
        if self.counted(s, fr):
            return
        for _ in range(12):
            if not self.cond(self.eval(s.test, fr)):
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
        raise Unsupported("while loop")

    def s_For(self, s, fr):
        src = self.eval(s.iter, fr)
        if isinstance(s.body[-1], ast.Break) and not any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
            # at most one iteration, which ends with the break: what is left of an iterator stays
            it = _iter(self, [src], {})
            try:
                x = _next(self, [it], {})
            except Raised as e:
                if e.cls is not StopIteration:
                    raise
                return self.block(s.orelse, fr)
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Break:
                pass
            return

        def body(x):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Continue:
                pass
        try:
            self.iterate(src, body)
        except Break:
            return
        self.block(s.orelse, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setlocal(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            if v.op == "tuple":
                xs = list(v.args)
            else:
                s = self.to_seq(v)
                if not all(g.op == "elem" for g in s.args):
                    n = seqlen(s)
                    want = len(t.elts)
                    if any(isinstance(e, ast.Starred) for e in t.elts):
                        raise Unsupported("starred unpacking")
                    if not self.branch(eq(n, const(want))):
                        raise Raised(ValueError)
                    xs = [self.seq_get(s, const(i)) for i in range(want)]
                else:
                    xs = [g.args[0] for g in s.args]
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred unpacking")
            if len(xs) != len(t.elts):
                raise Raised(ValueError)
            for e, x in zip(t.elts, xs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v, fr)
        else:
            raise Unsupported("assignment target")

    def setlocal(self, fr, name, v):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.locals:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
        self.store[("l", f.fid, name)] = v

    # ----------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %d)" % (type(e).__name__, e.lineno))
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            raise Unsupported("ellipsis")
        return const(e.value)

    def e_Name(self, e, fr):
        name = e.id
        if name.startswith("__") and not name.endswith("__") and fr.mangle:
            name = "_%s%s" % (fr.mangle.lstrip("_"), name)
        f = fr
        while f is not None:
            k = ("l", f.fid, e.id)
            if k in self.store:
                v = self.store[k]
                if v.op == "maybe":
                    if not self.branch(v.args[0]):
                        raise Raised(UnboundLocalError)
                    v = v.args[1]
                if v.op == "opaque" and v.args[0] == "dead":
                    raise NeedLocal(e.id)
                return v
            if e.id in f.locals and f is fr:
                raise Raised(UnboundLocalError)
            if e.id in f.cells:
                return lift(f.cells[e.id].cell_contents)
            f = f.parent
        g = fr.glob
        for n in (e.id, name):
            if n in g:
                return lift(g[n])
        b = g["__builtins__"]
        b = b if isinstance(b, dict) else b.__dict__
        if e.id in b:
            return lift(b[e.id])
        raise Raised(NameError)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        while getattr(f, "comp", False):
            f = f.parent
        self.setlocal(f, e.target.id, v)
        return v

    def e_Tuple(self, e, fr):
        return self.seq_display(e, fr, tup)

    def seq_display(self, e, fr, mkf):
        xs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.to_seq(self.eval(x.value, fr))
                if not all(g.op == "elem" for g in s.args):
                    if mkf is tup:
                        segs = [elem(y) for y in xs] + list(s.args)
                        if x is not e.elts[-1]:
                            raise Unsupported("starred display")
                        return mk("tupval", (seq(*segs),), "tuple")
                    raise Unsupported("starred display")
                xs.extend(g.args[0] for g in s.args)
            else:
                xs.append(self.eval(x, fr))
        return mkf(xs)

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    segs.extend(self.to_seq(self.eval(x.value, fr)).args)
                else:
                    segs.append(elem(self.eval(x, fr)))
            return self.new_list(seq(*segs))
        return self.seq_display(e, fr, lambda xs: self.new_list(seq(*[elem(x) for x in xs])))

    def e_Dict(self, e, fr):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method(d, "update", [self.eval(v, fr)], {})
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_Set(self, e, fr):
        vs = [self.eval(x, fr) for x in e.elts]
        return const(frozenset(host(v) for v in vs))

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.cond(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            c = self.cond(v)
            if isinstance(e.op, ast.And) and not c:
                return v if v.sort != "bool" else FALSE
            if isinstance(e.op, ast.Or) and c:
                return v if v.sort != "bool" else TRUE

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.USub) and v.sort in ("int", "bool"):
            return mul(const(-1), v)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(e.op, a, self.eval(e.right, fr))

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if a.op == "py" and b.op == "py" and not is_box(a) and not is_box(b):
            try:
                return const(BINOPS[type(op)](cval(a), cval(b)))
            except KeyError:
                raise Unsupported("operator")
            except Exception as ex:
                raise Raised(type(ex))
        if {a.sort, b.sort} == {"int", "obj"} and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x = a if a.sort == "obj" else b
            if x.op != "py" and self.branch(self.isinst(x, int)):
                n = app("toint", (x,), "int")
                a, b = (n, b) if a is x else (a, n)
        if a.sort == "int" and b.sort == "int":
            if isinstance(op, ast.Add):
                return add(a, b)
            if isinstance(op, ast.Sub):
                return sub(a, b)
            if isinstance(op, ast.Mult):
                return mul(a, b)
        if isinstance(op, ast.Add):
            if a.sort == "str" and b.sort == "str":
                return cat(a, b)
            if a.op == "tuple" and b.op == "tuple":
                return tup(a.args + b.args)
            sa, sb = self.listy(a), self.listy(b)
            if sa is not None and sb is not None:
                return self.new_list(seq(sa, sb))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                s = self.listy(x)
                if s is not None and y.sort == "int":
                    if len(s.args) == 1 and s.args[0].op == "elem":
                        i = named_var("v@rep", "int")
                        v = s.args[0].args[0]
                        if v.op == "ref":
                            raise Unsupported("repetition of a reference")
                        if not self.branch(le(ZERO, y)):
                            return self.new_list(EMPTY)
                        return self.new_list(seq(smap(y, i, v)))
        if isinstance(op, ast.Mod) and a.op == "py" and isinstance(cval(a), str):
            return self.percent(cval(a), b)
        raise Unsupported("operator %s on %s, %s" % (type(op).__name__, a.sort, b.sort))

    def listy(self, v):
        if v.op == "listval":
            return v.args[0]
        if v.op == "ref" and self.get(v).op == "L":
            return self.get(v).args[0]
        return None

    def percent(self, f, b):
        args = list(b.args) if b.op == "tuple" else [b]
        out, i = [], 0
        for m in re.finditer(r"%(.)", f, re.S):
            out.append(const(f[i:m.start()]))
            i = m.end()
            if m.group(1) == "%":
                out.append(const("%"))
            elif m.group(1) in "sd" and args:
                out.append(self.tostr(args.pop(0)))
            else:
                raise Unsupported("percent format")
        out.append(const(f[i:]))
        if args:
            raise Unsupported("percent format")
        return cat(*out)

    def tostr(self, v):
        v = self.force(v)
        if v.sort == "str":
            return v
        if v.sort == "int":
            return istr(v)
        if v.op == "py" and not is_box(v):
            return const(str(cval(v)))
        return app("str", (self.deref(v),), "str")

    def deref(self, v):
        """Value usable as an argument of an uninterpreted function."""
        if v.op == "ref":
            return mk("opaque", ("container",), "obj")
        return v

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        out = []
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(x, fr)
            c = self.compare(op, a, b)
            if i == len(e.ops) - 1 and not out:
                return c
            if not self.branch(c):
                return FALSE
            a = b
            out.append(c)
        return TRUE

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b)
            return r if isinstance(op, ast.Eq) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not_(r)
        if a.sort in ("int", "bool") and b.sort in ("int", "bool"):
            if isinstance(op, ast.Lt):
                return lt(a, b)
            if isinstance(op, ast.LtE):
                return le(a, b)
            if isinstance(op, ast.Gt):
                return lt(b, a)
            if isinstance(op, ast.GtE):
                return le(b, a)
        raise Unsupported("comparison")

    def identical(self, a, b):
        a, b = self.force(a), self.force(b)
        for x, y in ((a, b), (b, a)):
            if y.op == "py" and (cval(y) is None or isinstance(cval(y), bool)):
                if x.op == "py":
                    return const(cval(x) is cval(y))
                if x.sort == "obj":
                    return eq(x, y)
                if x.sort == "bool" and cval(y) is not None:
                    return x if cval(y) else not_(x)
                return FALSE
        if a.op == "ref" or b.op == "ref":
            return const(a is b)
        if is_box(a) and is_box(b):
            return const(cval(a) is cval(b))
        if a is b and a.sort == "obj":
            return TRUE
        if is_box(a) or is_box(b):
            return eq(a, b)
        raise Unsupported("is")

    def equal(self, a, b):
        a, b = self.force(a), self.force(b)
        for x, y in ((a, b), (b, a)):
            if y.op == "tuple" and not y.args:
                if x.sort == "obj":
                    if self.branch(self.isinst(x, tuple)):
                        return eq(app("len", (x,), "int"), ZERO)
                    return app("pyeq", (x, y), "bool")
            if y.op == "py" and isinstance(cval(y), bool) and x.sort == "obj" and x.op != "py":
                return app("pyeq", (x, y), "bool")
        if is_box(a) and is_box(b):
            return const(cval(a) == cval(b))
        if a.op in ("ref", "listval", "dictval") or b.op in ("ref", "listval", "dictval"):
            if a is b:
                return TRUE
            for x, y in ((a, b), (b, a)):
                sx, sy = self.listy(x), self.listy(y)
                if sx is not None and sy is not None and (not sx.args or not sy.args):
                    return eq(seqlen(sx), seqlen(sy))
            raise Unsupported("comparison of containers")
        return eq(a, b)

    def contains(self, c, x):
        c = self.force(c)
        if c.op == "tuple":
            return or_(*[self.equal(x, y) for y in c.args])
        if c.op == "py" and not is_box(c) and x.op == "py":
            return const(cval(x) in cval(c))
        if is_box(c):
            h = cval(c)
            if is_hostable(x):
                return const(host(x) in h)
            if isinstance(h, (list, tuple, dict, set, frozenset)):
                return or_(*[eq(x, lift(y)) for y in h])
            raise Unsupported("in host object")
        if c.op == "ref" and self.get(c).op == "D":
            f, _ = self.dlookup(c, self.get(c).args[0], x)
            return const(f)
        if c.op == "dictval":
            f, _ = self.dlookup(None, c.args[0], x)
            return const(f)
        if c.sort == "obj" and self.branch(self.isinst(c, cabc.Mapping)):
            return app("mhas", (c, x), "bool")
        if c.sort == "str" and x.op == "py" and isinstance(cval(x), str) and len(cval(x)) == 1:
            return app("hasch", (c, x), "bool")
        raise Unsupported("in")

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            return self.slice(o, *[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr, fr)

    def e_Lambda(self, e, fr):
        a = e.args
        return const(Clo(e, fr, [self.eval(d, fr) for d in a.defaults],
                         {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}, "<lambda>"))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            if fr.cls is None:
                raise Unsupported("super")
            selfname = next(iter(k[2] for k in self.store if k[0] == "l" and k[1] == fr.fid), None)
            return const(SuperX(fr.cls, self.store[("l", fr.fid, selfname)]))
        fn = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.to_seq(self.eval(a.value, fr))
                if not all(g.op == "elem" for g in s.args):
                    raise Unsupported("starred call")
                args.extend(g.args[0] for g in s.args)
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                d = self.force(v)
                if d.op == "ref" and self.get(d).op == "D" and all(w.op == "w" and w.args[0].op == "py" for w in self.get(d).args[0].args):
                    for w in self.get(d).args[0].args:
                        kw[cval(w.args[0])] = w.args[1]
                elif is_box(d) and isinstance(cval(d), dict):
                    kw.update({a: lift(b) for a, b in cval(d).items()})
                else:
                    raise Unsupported("**kwargs")
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw)

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(const(p.value))
                continue
            v = self.eval(p.value, fr)
            if p.format_spec is not None and p.format_spec.values:
                raise Unsupported("format spec")
            if p.conversion == 114:
                out.append(self.repr_(v))
            elif p.conversion in (-1, 115):
                out.append(self.tostr(v) if v.op != "opaque" else app("str", (v,), "str"))
            else:
                raise Unsupported("conversion")
        return cat(*out)

    def repr_(self, v):
        if v.op == "py" and not is_box(v):
            return const(repr(cval(v)))
        return app("repr", (self.deref(v),), "str")

    def compframe(self, fr):
        self.fids += 1
        f = Frame(self.fids, fr.glob, fr.mangle, fr, {}, (), fr.cls)
        f.comp = True
        return f

    def comp(self, gens, fr, body, first=None):
        g = gens[0]
        if g.is_async:
            raise Unsupported("async")
        src = first if first is not None else self.eval(g.iter, fr)

        def step(x):
            self.assign(g.target, x, fr)
            for c in g.ifs:
                if not self.cond(self.eval(c, fr)):
                    return
            if len(gens) > 1:
                self.comp(gens[1:], fr, body)
            else:
                body()
        self.iterate(src, step)

    def e_ListComp(self, e, fr):
        out = self.new_list(EMPTY)
        f = self.compframe(fr)
        self.comp(e.generators, f, lambda: self.append(out, self.eval(e.elt, f)))
        return out

    def e_DictComp(self, e, fr):
        out = self.new_dict()
        f = self.compframe(fr)

        def body():
            k = self.eval(e.key, f)
            self.setitem(out, k, self.eval(e.value, f))
        self.comp(e.generators, f, body)
        return out

    def e_GeneratorExp(self, e, fr):
        return const(GenX(e, fr, self.eval(e.generators[0].iter, fr)))

    def append(self, ref, v):
        h = self.get(ref)
        if h.op != "L":
            raise Unsupported("append to an indexed list")
        self.put(ref, mk("L", (seq(h.args[0], elem(v)),), "heap"))

    # -------------------------------------------------------------- iteration
    def collect(self, v):
        out = self.new_list(EMPTY)
        self.iterate(v, lambda x: self.append(out, x))
        return out

    def iterate(self, src, body):
        """Run body(x) for every element; Break propagates to the caller."""
        src = self.force(src) if src.op != "seq" else src
        if is_box(src):
            x = cval(src)
            if isinstance(x, GenX):
                if x.used:
                    raise Unsupported("generator used twice")
                f = self.compframe(x.frame)
                self.comp(x.node.generators, f, lambda: body(self.eval(x.node.elt, f)), first=x.src)
                return
            if isinstance(x, GenF):
                return self.run_generator(x, body)
            if isinstance(x, Lazy):
                return self.iterate_lazy(x, body)
        for g in self.to_seq(src).args:
            self.iterate_seg(g, body)
        if src.op == "ref" and self.get(src).op == "It":
            self.put(src, mk("It", (EMPTY,), "heap"))

    def run_generator(self, x, body):
        """Run a generator's code, handing every element to body as it is yielded."""
        if x.used or any(isinstance(n, ast.Try) for b in x.body for n in ast.walk(b)):
            raise Unsupported("generator used twice or handling exceptions")
        self.depth += 1
        x.frame.sink = body
        try:
            self.block(x.body, x.frame)
        except Ret:
            pass
        except Raised as e:
            if e.cls is StopIteration:
                raise Unsupported("StopIteration in a generator")
            raise
        finally:
            self.depth -= 1
            x.frame.sink = None

    def e_Yield(self, e, fr):
        self.emit(fr, self.eval(e.value, fr) if e.value else NONE)
        return NONE

    def emit(self, fr, v):
        f = fr
        while getattr(f, "comp", False):
            f = f.parent
        if getattr(f, "sink", None) is None:
            raise Unsupported("yield outside of an iteration")
        # the consumer's code runs here
        try:
            f.sink(v)
        except (Break, Ret, Continue):
            raise Unsupported("a generator is left before its end")

    def e_YieldFrom(self, e, fr):
        self.iterate(self.eval(e.value, fr), lambda x: self.emit(fr, x))
        return NONE

    def iterate_seg(self, g, body):
        if g.op == "elem":
            body(g.args[0])
        elif g.op == "map":
            n, v, b = g.args
            self.fold(n, lambda k: body(subst(b, {v: k})))
        elif g.op == "flat":
            n, v = g.args[0], g.args[1]

            def step(k):
                for c in g.args[2:]:
                    if self.branch(subst(c.args[0], {v: k})):
                        for s in subst(c.args[1], {v: k}).args:
                            self.iterate_seg(s, body)
                        return
            self.fold(n, step)
        else:
            raise Unsupported("iteration over %s" % g.op)

    def iterate_lazy(self, x, body):
        if x.kind == "map":
            if len(x.args) != 2:
                raise Unsupported("map with several iterables")
            return self.iterate(x.args[1], lambda y: body(self.call(x.args[0], [y], {})))
        if x.kind == "enumerate":
            src, start = x.args
            if is_box(src) and isinstance(cval(src), (GenX, GenF, Lazy)) and not (isinstance(cval(src), Lazy) and cval(src).kind == "zip"):
                # counter kept next to the iteration
                cnt = self.new(mk("C", (start, ONE), "heap"))

                def step(y):
                    i = self.get(cnt).args[0]
                    self.put(cnt, mk("C", (add(i, ONE), ONE), "heap"))
                    body(tup([i, y]))
                return self.iterate(src, step)
            s = self.lazy_seq(src)
            return self.enum_seq(s, start, body)
        if x.kind == "zip":
            return self.iterate(self.zip_seq([self.lazy_seq(a) for a in x.args]), body)
        raise Unsupported("lazy")

    def lazy_seq(self, src):
        src = self.force(src)
        if is_box(src) and isinstance(cval(src), Lazy):
            l = cval(src)
            if l.kind == "zip":
                return self.zip_seq([self.lazy_seq(a) for a in l.args])
            if l.kind == "enumerate":
                return self.enum_terms(self.lazy_seq(l.args[0]), l.args[1])
        if src.op == "ref" and self.get(src).op == "C":
            return src
        return self.to_seq(src)

    def enum_seq(self, s, start, body):
        self.iterate(self.enum_terms(s, start), body)

    def enum_terms(self, s, start):
        off, out = start, []
        for g in s.args:
            if g.op == "elem":
                out.append(elem(tup([off, g.args[0]])))
                off = add(off, ONE)
            elif g.op == "map":
                n, v, b = g.args
                out.append(smap(n, v, tup([add(off, v), b])))
                off = add(off, n)
            else:
                out.append(self.enum_flat(g, off))
                off = add(off, seqlen(seq(g)))
        return seq(*out)

    def enum_flat(self, g, off):
        n, v = g.args[0], g.args[1]
        sizes = tuple(case(c.args[0], seqlen(c.args[1])) for c in g.args[2:])
        pre = add(off, psum(v, tm.var("v@e", "int"), ()) if False else self.prefix(v, g))
        return flat(n, v, tuple(case(c.args[0], self.enum_terms(c.args[1], pre)) for c in g.args[2:]))

    def prefix(self, k, g):
        v = g.args[1]
        w = named_var("w@" + v.args[0], "int")
        return psum(k, w, tuple(subst(case(c.args[0], seqlen(c.args[1])), {v: w}) for c in g.args[2:]))

    def zip_seq(self, seqs):
        # itertools.count() arguments number the elements
        if any(s.op == "ref" for s in seqs):
            other = [s for s in seqs if s.op != "ref"]
            if len(other) != 1 or len(seqs) != 2:
                raise Unsupported("zip with counters")
            c = next(s for s in seqs if s.op == "ref")
            start, step = self.get(c).args
            if step is not ONE:
                raise Unsupported("zip with a stepped counter")
            e = self.enum_terms(other[0], start)
            # (the counter stops one further when it comes first; its position is not used again)
            self.put(c, mk("It", (mk("opaque", ("counter",), "obj"),), "heap"))
            if seqs[0].op == "ref":
                return e
            return self.map_seq(e, lambda t: tup([t.args[1], t.args[0]]))
        if all(g.op == "elem" for s in seqs for g in s.args):
            return seq(*[elem(tup(x)) for x in zip(*[[g.args[0] for g in s.args] for s in seqs])])
        if all(len(s.args) == 1 and s.args[0].op == "map" for s in seqs):
            n = seqs[0].args[0].args[0]
            for s in seqs[1:]:
                m = s.args[0].args[0]
                if m is n:
                    continue
                if self.branch(eq(n, m)):
                    continue
                if not self.branch(le(n, m)):
                    n = m
            v = seqs[0].args[0].args[1]
            nv = named_var("z@" + v.args[0], "int")
            return seq(smap(n, nv, tup([subst(s.args[0].args[2], {s.args[0].args[1]: nv}) for s in seqs])))
        if any(not s.args for s in seqs):
            return EMPTY
        # align a leading element
        heads = [s.args[0].op for s in seqs]
        if any(h == "elem" for h in heads) and all(h in ("elem", "map") for h in heads):
            first, rest = [], []
            for s in seqs:
                g = s.args[0]
                if g.op == "elem":
                    first.append(g.args[0])
                    rest.append(seq(*s.args[1:]))
                else:
                    if not self.branch(lt(ZERO, g.args[0])):
                        return self.zip_seq([seq(*q.args[1:]) if q is s else q for q in seqs])
                    first.append(subst(g.args[2], {g.args[1]: ZERO}))
                    rest.append(seq(self.tail_map(g), *s.args[1:]))
            return seq(elem(tup(first)), self.zip_seq(rest))
        raise Unsupported("zip of sequences of different form")

    def map_seq(self, s, f):
        out = []
        for g in s.args:
            if g.op == "elem":
                out.append(elem(f(g.args[0])))
            elif g.op == "map":
                out.append(smap(g.args[0], g.args[1], f(g.args[2])))
            elif g.op == "flat":
                out.append(flat(g.args[0], g.args[1], tuple(case(c.args[0], self.map_seq(c.args[1], f)) for c in g.args[2:])))
            else:
                raise Unsupported("sequence")
        return seq(*out)

    # ------------------------------------------------------------------ fold
    def fold(self, n, body, collect=None):
        """Execute body(k) for k = 0 .. n-1 (symbolic n) through an inferred,
        checked closed form of the state.  Returns the list of (pc, value) of the
        normal outcomes when `collect` (used for Pattern.sub)."""
        if n.op == "py":
            vals = []
            for i in range(max(0, cval(n))):
                try:
                    vals.append(body(const(i)))
                except Continue:
                    pass
            return vals
        L = len(self.levels)
        lv = self.levels[-1]
        name = "%s.%d" % (lv.name, lv.next())
        k = named_var("k@" + name, "int", L)
        v = named_var("v@" + name, "int", L)
        smt.DOMAIN[k] = n
        VAR_LEVEL[k] = VAR_LEVEL[v] = L
        S0 = dict(self.store)
        dims = [le(ZERO, k), lt(k, n)]
        key = (name, n, tuple(self.facts()), frozenset(S0.items()))
        for e in self.fold_cache.get(key, ()):
            if all(c in self.levels[li].pending or c in self.levels[li].set for li, c in e["activated"]):
                for li, c in e["activated"]:
                    self.levels[li].activate(c)
                self.memo_rules.update(e["rules"])
                self.memo_shapes.update(e["shapes"])
                self.consumed = dict(e["consumed"])
                self.refs, self.fids = e["refs"], e["fids"]
                cells, allouts, normal, exc = e["result"]
                break
        else:
            before = [set(l.set) for l in self.levels]
            rules, shapes = dict(self.memo_rules), dict(self.memo_shapes)
            cells, allouts, normal, exc = self.fold_form(n, body, collect, L, name, k, v, S0, dims)
            act = [(li, c) for li, l in enumerate(self.levels) for c in l.facts if c not in before[li]]
            self.fold_cache.setdefault(key, []).append(dict(
                activated=act, result=(cells, allouts, normal, exc), refs=self.refs, fids=self.fids, consumed=dict(self.consumed),
                rules={m: r for m, r in self.memo_rules.items() if rules.get(m) is not r},
                shapes={m: r for m, r in self.memo_shapes.items() if shapes.get(m) is not r}))
        self.store = dict(S0)
        if exc:
            E = or_(*[and_(*pc) for pc, p in decision_cases(allouts, lambda o: o.kind != "ok") if p])
            E = subst(E, {k: v})
            x = first(n, v, E)
            if has_op(E, "opaque", "opqd"):
                raise Unsupported("exceptional exit depends on unknown state")
            if self.branch(le(ZERO, x)):
                self.exit_loop(allouts, exc, k, x, cells)
        for c, a in cells.items():
            t = a.at(n, v)
            if t is None:
                self.store.pop(c, None)
            else:
                self.store[c] = t
        if collect is not None:
            cs = {}
            for pc, p in decision_cases(allouts, lambda o: self.freeze(o.val, S0, o.store) if o.kind == "ok" else DC):
                cs.setdefault(p, []).append(and_(*pc))
            return [(subst(or_(*c), {k: v}), subst(p, {k: v})) for p, c in cs.items()], v
        return None

    def exit_loop(self, allouts, exc, k, x, cells):
        """Leave the loop exceptionally at iteration x (the first such one)."""
        sb = {k: x}

        def label(o):
            if o.kind == "ok":
                return DC
            return (o.val.cls, o.val.tag) if o.kind == "raise" else id(o)
        groups = {}
        for pc, p in decision_cases(allouts, label):
            groups.setdefault(p, []).append(and_(*pc))
        items = list(groups.items())
        for i, (p, conds) in enumerate(items):
            if i == len(items) - 1 or self.branch_atomic(subst(or_(*conds), sb)):
                break
        os_ = [o for o in exc if label(o) == p]
        st = {}
        for c in set().union(*[o.store.keys() for o in os_]):
            vals = {o.store.get(c) for o in os_}
            if len(vals) == 1:
                t = vals.pop()
            else:
                t = mk("opaque", ("exit", c), "obj")
            st[c] = subst(t, sb) if isinstance(t, T) else t
        self.store = st
        o = os_[0]
        if o.kind == "break":
            raise Break()
        if o.kind == "ret":
            raise Ret(subst(o.val, sb))
        args = tuple(subst(a, sb) if isinstance(a, T) else a for a in o.val.args_) if len(os_) == 1 else ()
        raise Raised(o.val.cls, args, o.val.tag)

    def fold_form(self, n, body, collect, L, name, k, v, S0, dims):
        cells = {}
        prev_sig = None
        frames = {q[1] for q in S0 if q[0] == "l"}
        for rnd in range(16):
            begin = dict(S0)
            if rnd == 0:
                # counters start the discovery round at an unknown value, so that
                # no property of their initial value is mistaken for a loop invariant
                for c, t in S0.items():
                    if isinstance(t, T) and t.op == "C":
                        ov = named_var("cnt@%s@%d" % (name, c[1]), "int", L)
                        VAR_LEVEL[ov] = L
                        begin[c] = mk("C", (ov, t.args[1]), "heap")

            def run():
                self.store.update(begin)
                for c, a in cells.items():
                    self.store[c] = a.at(k, v)
                return body(k)
            self.loopvars.add(k)
            try:
                outs = self.explore(name, run, dims)
            except NeedMemo as e:
                if e.k is not k:
                    raise
                hit = [a for a in cells.values() if a.pre is not None and a.pre.op == "D" and e.w in a.at(k, v).args[0].args]
                if not hit:
                    raise Unsupported("dict lookup")
                for a in hit:
                    a.to_opaque()
                prev_sig = None
                self.store = dict(S0)
                continue
            finally:
                self.loopvars.discard(k)
            for o in outs:
                o.raw = o.pc
                o.feasible = not o.pc or smt.check(self.facts() + dims + list(o.pc)) != "unsat"
            allouts = outs
            outs = [o for o in outs if o.feasible]
            for o in outs:
                o.pc = clean_pc(o.pc)
            normal = [o for o in outs if o.kind == "ok"]
            exc = [o for o in outs if o.kind != "ok"]
            grew = False
            for o in normal:
                for c in o.store:
                    if c not in S0 and c[0] == "l" and c[1] in frames and c not in cells:
                        cells[c] = Cell(self, c, None, v, n)
                        grew = True
                for c in S0:
                    if c not in cells and o.store.get(c) is not begin[c]:
                        cells[c] = Cell(self, c, S0[c], v, n)
                        grew = True
            for a in cells.values():
                a.allouts, a.begin = allouts, begin
            sig = [(c, a.update(normal, k, v, S0)) for c, a in cells.items()]
            sig.append(tuple((o.kind, o.pc, None if o.kind != "raise" else o.val.cls) for o in outs))
            if collect is not None:
                sig.append(tuple((o.pc, self.freeze(o.val, S0, o.store) if o.kind == "ok" else None) for o in outs))
            sig = alpha(tuple(sig))
            if TRACE:
                print("fold", name, "round", rnd, "cells", {c: a.sig_str() for c, a in cells.items()}, "outs", outs)
            if not grew and sig == prev_sig and not any(a.pending for a in cells.values()):
                break
            prev_sig = sig
            self.store = dict(S0)
        else:
            raise Unsupported("no inductive closed form found for a loop")
        self.store = dict(S0)
        return cells, allouts, normal, exc

    # ------------------------------------------------------------ memo dicts
    def memo_lookup(self, w, key):
        mid, idx = w.args
        rule = self.memo_rules[mid]
        v, n = rule.v, rule.n
        hits = []
        for guard, wkey, inner, val in rule.cases:
            m = {}
            conds = []
            if not unify(wkey, key, inner[1] if inner else None, m, conds):
                continue
            if inner and inner[1] not in m:
                raise Unsupported("memo key does not determine the inner index")
            g = subst(guard, m)
            val_ = subst(val, m)
            cond = [g]
            if inner:
                ib = subst(inner[0], m)
                cond += [le(ZERO, m[inner[1]]), lt(m[inner[1]], ib)]
            eqs = [c for c in conds if c is not TRUE]
            if any(c is FALSE for c in eqs):
                continue
            rew = {}
            for c in conds:
                if c.op == "eq":
                    a, b = c.args
                    if v in fv(a) and v not in fv(b):
                        rew[a] = b
                    elif v in fv(b) and v not in fv(a):
                        rew[b] = a
                    if a.sort == "int" and b.sort == "int":
                        d = tm._cmp_norm(a, b)
                        vs = [t for t in d if t is not None and v in fv(t)]
                        if len(vs) == 1 and abs(d[vs[0]]) == 1:
                            co = d[vs[0]]
                            rest = add(*[mul(const(-co * q), t if t is not None else ONE) for t, q in d.items() if t is not vs[0]])
                            rew[vs[0]] = rest
            lits = []
            dead = False
            for c in cond:
                for l in (c.args if c.op == "and" else (c,)):
                    l2 = replace(l, rew) if rew else l
                    if v not in fv(l2):
                        if VAR_SUBSET(l2, self):
                            r = self.decide(l2)
                            if r is True:
                                continue
                            if r is False:
                                dead = True
                                break
                        lits.append(l2)
                    else:
                        lits.append(l2)
            if dead:
                continue
            hits.append((and_(*(lits + eqs)), val_))
        if not hits:
            return None
        body = or_(*[h[0] for h in hits])
        F = first(n, v, body)
        if not self.branch(and_(le(ZERO, F), lt(F, idx))):
            return None
        for c, val in hits[:-1]:
            if self.branch(subst(c, {v: F})):
                return subst(val, {v: F})
        return subst(hits[-1][1], {v: F})

    # --------------------------------------------------------- str methods etc.
    def method(self, o, name, args, kw):
        o = self.force(o)
        if is_box(o):
            x = cval(o)
            if isinstance(x, re.Pattern):
                return self.pattern_method(x, o, name, args, kw)
            if isinstance(x, MatchObj):
                return x.method(self, name, args, kw)
            if isinstance(x, dict):
                if name == "get":
                    k = args[0]
                    if is_hostable(k):
                        y = x.get(host(k), NONE)
                        return (args[1] if len(args) > 1 else NONE) if y is NONE else lift(y)
                    raise Unsupported("symbolic key of host dict")
                if name in ("items", "values", "keys"):
                    return seq(*[elem(lift(y)) for y in getattr(x, name)()])
            if name in MUTATORS and isinstance(x, (list, dict, set)):
                raise FrameViolation("%s() on an object that outlives the call" % name)
            raise Unsupported("method %s of host object" % name)
        if o.op == "py" and isinstance(cval(o), str) and name == "join":
            return self.join(cval(o), args[0])
        if o.op == "py" and isinstance(cval(o), str) and name == "format":
            return self.format(cval(o), args, kw)
        if o.op == "py" and all(is_hostable(a) for a in args) and not kw:
            f = getattr(cval(o), name, None)
            if f is None:
                raise Raised(AttributeError)
            if isinstance(cval(o), (str, bytes, int)):
                try:
                    return lift(f(*[host(a) for a in args]))
                except Exception as e:
                    raise Raised(type(e))
        if o.sort in ("str", "bytes"):
            return self.str_method(o, name, args, kw)
        if o.op == "ref":
            return self.ref_method(o, name, args, kw)
        if o.op == "dictval":
            return self.dict_method(o, o.args[0], name, args, kw)
        if o.op in ("listval", "tupval", "arrval", "tuple"):
            if name in ("append", "extend", "insert", "pop"):
                raise Unsupported("mutation of a container made in an earlier iteration")
            if name == "copy":
                return self.new_list(o.args[0])
        if tm.is_app(o, "re.compile"):
            repl, sql = (list(args) + [kw.get("string")] if "string" in kw else list(args) + [None, None])[:2]
            if name != "sub" or len(args) + len(kw) != 2 or repl.op != "py" or sql is None or sql.sort != "str" or "\\" in cval(repl):
                raise Unsupported("use of a symbolic pattern")
            return app("rxsub", (o, repl, sql), "str")
        if o.sort == "obj":
            return self.obj_method(o, name, args, kw)
        raise Unsupported("method %s of %s" % (name, o.op))

    def obj_method(self, o, name, args, kw):
        if name in ("upper", "isdecimal", "isdigit", "decode", "encode", "startswith", "endswith", "strip", "lower", "casefold",
                    "replace", "isnumeric", "isidentifier", "isascii"):
            if self.branch(self.isinst(o, str)) or self.branch(self.isinst(o, bytes)):
                return self.str_method(o, name, args, kw)
            if name == "decode" and self.branch(self.isinst(o, bytes)):
                return self.str_method(o, name, args, kw)
            raise Unsupported("method %s of an unknown object" % name)
        i = named_var("v@it", "int")
        if self.branch(self.isinst(o, cabc.Mapping)):
            n = app("len", (o,), "int")
            k, val = tm.ikey(o, i), app("ival", (o, i), "obj")
            if name == "items":
                return seq(smap(n, i, tup([k, val])))
            if name == "keys":
                return seq(smap(n, i, k))
            if name == "values":
                return seq(smap(n, i, val))
            if name == "get" and len(args) in (1, 2) and not kw:
                if self.branch(app("mhas", (o, args[0]), "bool")):
                    return app("mget", (o, args[0]), "obj")
                return args[1] if len(args) > 1 else NONE
            if name == "copy":
                return o
            if name == "__contains__":
                return app("mhas", (o, args[0]), "bool")
        if name == "__getitem__":
            return self.getitem(o, args[0])
        if name == "__len__":
            return app("len", (o,), "int")
        if name in MUTATORS:
            raise FrameViolation("%s() on a caller's object" % name)
        raise Unsupported("method %s of a caller's object" % name)

    def str_method(self, o, name, args, kw):
        if o.sort == "bytes" and name != "decode":
            raise Unsupported("bytes method %s" % name)
        if kw.keys() == {"encoding"} and not args:
            args, kw = [kw["encoding"]], {}
        if name in ("startswith", "endswith") and len(args) == 1 and args[0].op == "py" and isinstance(cval(args[0]), str) and len(cval(args[0])) == 1:
            at = app("charat", (o, const(0 if name == "startswith" else -1)), "str")
            return and_(le(ONE, app("len", (o,), "int")), eq(at, args[0]))
        if name == "upper" and not args:
            if o.op == "cat":
                return cat(*[self.str_method(p, "upper", [], {}) if p.op != "py" else const(cval(p).upper()) for p in o.args])
            if o.op == "istr":
                return o
            return app("upper", (o,), "str")
        if name in ("lower", "casefold", "strip", "title", "capitalize", "swapcase") and not args:
            return app(name, (o,), "str")
        if name in ("isdecimal", "isdigit", "isnumeric", "isidentifier", "isascii") and not args:
            return app(name, (o,), "bool")
        if name == "replace" and len(args) == 2 and args[0].op == "py" and args[1].op == "py" and len(cval(args[0])) == 1:
            return self.replace1(o, cval(args[0]), cval(args[1]))
        if o.sort == "str" and name == "decode":
            raise Raised(AttributeError)
        if name in ("decode", "encode") and len(args) <= 1 and (not args or args[0].op == "py"):
            enc = cval(args[0]) if args else "utf-8"
            import codecs
            enc = codecs.lookup(enc).name
            if name == "encode":
                if not self.branch(app("encodable:" + enc, (o,), "bool")):
                    raise Raised(UnicodeEncodeError)
                return app("encode:" + enc, (o,), "bytes")
            if enc != "iso8859-1":
                if not self.branch(app("decodable:" + enc, (o,), "bool")):
                    raise Raised(UnicodeDecodeError)
            return app("decode:" + enc, (o,), "str")
        if name == "join":
            raise Unsupported("join with a symbolic separator")
        raise Unsupported("string method %s" % name)

    def replace1(self, o, ch, new):
        out = []
        for p in tm.sparts(o):
            if p.op == "py":
                out.append(const(cval(p).replace(ch, new)))
            elif p.op == "istr" and ch not in "-0123456789":
                out.append(p)
            elif lacks_char(p, ch):
                out.append(p)
            else:
                out.append(app("replace", (p, const(ch), const(new)), "str"))
        return cat(*out)

    def join(self, sep, src):
        s = self.to_seq(src)

        def chk(s):
            for g in s.args:
                if g.op == "elem" and g.args[0].sort != "str" or g.op == "map" and g.args[2].sort != "str":
                    raise Unsupported("join of non-strings")
                if g.op == "flat":
                    for c in g.args[2:]:
                        chk(c.args[1])
        chk(s)
        return tm.join(sep, s)

    def format(self, f, args, kw):
        out = []
        auto = 0
        try:
            parts = list(string.Formatter().parse(f))
        except ValueError:
            raise Raised(ValueError)
        for lit, field, spec, conv in parts:
            out.append(const(lit))
            if field is None:
                continue
            if spec or conv not in (None, "s", "r"):
                raise Unsupported("format spec")
            if field == "":
                field = str(auto)
                auto += 1
            if field.isdigit():
                if int(field) >= len(args):
                    raise Raised(IndexError)
                v = args[int(field)]
            elif field.isidentifier():
                if field not in kw:
                    raise Raised(KeyError)
                v = kw[field]
            else:
                raise Unsupported("format field %r" % field)
            out.append(self.repr_(v) if conv == "r" else self.tostr(v))
        return cat(*out)

    def ref_method(self, o, name, args, kw):
        h = self.get(o)
        if h.op in ("L", "A"):
            if name == "append":
                self.append(o, args[0])
                return NONE
            if name == "extend" and h.op == "L":
                src = self.force(args[0])
                if is_box(src) and isinstance(cval(src), (GenX, GenF, Lazy)):
                    self.iterate(src, lambda x: self.append(o, x))
                else:
                    self.put(o, mk("L", (seq(h.args[0], self.to_seq(src)),), "heap"))
                return NONE
            if name == "copy" and h.op == "L":
                return self.new_list(h.args[0])
            if name == "insert" and h.op == "L" and args[0].op == "py" and cval(args[0]) == 0:
                self.put(o, mk("L", (seq(elem(args[1]), h.args[0]),), "heap"))
                return NONE
            raise Unsupported("list method %s" % name)
        if h.op == "D":
            return self.dict_method(o, h.args[0], name, args, kw)
        if h.op in ("C", "It") and name == "__next__":
            return MODELS[next](self, [o], {})
        if h.op == "O":
            if name == "object.__init__":
                return NONE
        raise Unsupported("method %s of %s" % (name, h.op))

    def dict_method(self, o, d, name, args, kw):
        if name == "get":
            f, v = self.dlookup(o, d, args[0])
            return v if f else (args[1] if len(args) > 1 else kw.get("default", NONE))
        if name == "setdefault" and o.op == "ref":
            f, v = self.dlookup(o, d, args[0])
            if f:
                return v
            v = args[1] if len(args) > 1 else NONE
            self.setitem(o, args[0], v)
            return v
        if name == "update" and o.op == "ref":
            for a in args:
                a = self.force(a)
                if a.op == "ref" and self.get(a).op == "D":
                    self.put(o, mk("D", (dlog(self.get(o).args[0], self.get(a).args[0]),), "heap"))
                elif a.op == "dictval":
                    self.put(o, mk("D", (dlog(self.get(o).args[0], a.args[0]),), "heap"))
                elif a.sort == "obj" and self.branch(self.isinst(a, cabc.Mapping)):
                    i = named_var("v@it", "int")
                    self.put(o, mk("D", (dlog(self.get(o).args[0], wmap(app("len", (a,), "int"), i, tm.ikey(a, i),
                                                                         app("ival", (a, i), "obj"))),), "heap"))
                else:
                    def put(x):
                        x = self.force(x)
                        if x.op != "tuple" or len(x.args) != 2:
                            raise Unsupported("dict update item")
                        self.setitem(o, x.args[0], x.args[1])
                    self.iterate(a, put)
            for k, v in kw.items():
                self.setitem(o, const(k), v)
            return NONE
        if name in ("items", "keys", "values"):
            return self.dict_keys(d, {"items": "i", "keys": "k", "values": "v"}[name])
        if name == "copy":
            return self.new_dict(d)
        if name == "__contains__":
            return const(self.dlookup(o, d, args[0])[0])
        raise Unsupported("dict method %s" % name)

    # -------------------------------------------------------------- patterns
    def pattern_method(self, pat, o, name, args, kw):
        if all(is_hostable(a) for a in args) and not kw and name in ("sub",):
            return lift(getattr(pat, name)(*[host(a) for a in args]))
        if name == "sub" and len(args) + len(kw) == 2:
            repl = args[0] if args else kw.get("repl")
            sql = args[1] if len(args) > 1 else kw.get("string")
            if repl is None or sql is None:
                raise Unsupported("Pattern.sub arguments")
            if sql.sort != "str":
                raise Unsupported("Pattern.sub on a non-string")
            if repl.op == "py" and isinstance(cval(repl), str) and not is_box(repl):
                if "\\" in cval(repl):
                    raise Unsupported("template replacement")
                return app("rxsub", (o, repl, sql), "str")
            if repl.sort == "str":
                raise Unsupported("symbolic replacement template")
            n = app("ntok", (o, sql), "int")
            cases, v = self.fold_sub(n, o, pat, sql, repl)
            return mk("sub", (o, sql, v) + tuple(case(c, r) for c, r in cases), "str")
        raise Unsupported("Pattern.%s" % name)

    def fold_sub(self, n, o, pat, sql, repl):
        def step(k):
            r = self.call(repl, [const(MatchObj(o, pat, sql, k))], {})
            r = self.force(r)
            if r.sort != "str":
                if r.sort == "obj":
                    raise Unsupported("callback result of unknown type")
                raise Raised(TypeError)
            return r
        return self.fold(n, step, collect=True)

    def kinds(self, pat):
        r = self.kindcache.get(pat)
        if r is None:
            try:
                r = rx.kinds(pat)
            except rx.Unsupported as e:
                raise Unsupported("regex: %s" % e)
            self.kindcache[pat] = r
        return r


MANY = set()


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class MatchObj:
    """The k-th match of a pattern in a string."""
    def __init__(self, o, pat, sql, k):
        self.o, self.pat, self.sql, self.k = o, pat, sql, k

    def kind(self, m):
        ks = m.kinds(self.pat)
        kt = app("kind", (self.o, self.sql, self.k), "int")
        KINDS[self.o] = len(ks)
        for j in range(len(ks) - 1):
            if m.branch(eq(kt, const(j))):
                return ks[j]
        return ks[-1]

    def val(self, m, kind, g):
        x = kind.groups[g]
        if x is None:
            return NONE
        if isinstance(x, str):
            return const(x)
        t = app("tg:%s" % g, (self.o, self.sql, self.k), "str")
        CHARSETS["tg:%s" % g, self.o] = x[1]
        return t

    def raw(self, m, kind):
        out = []
        for p in kind.raw:
            if isinstance(p, str):
                out.append(const(p))
            elif p[0] == "grp":
                out.append(self.val(m, kind, p[1]))
            else:
                return app("traw", (self.o, self.sql, self.k), "str")
        return cat(*out)

    def group(self, m, g):
        kind = self.kind(m)
        g = host(g)
        if g == 0:
            return self.raw(m, kind)
        if g not in kind.groups:
            if isinstance(g, int):
                inv = {i: n for n, i in self.pat.groupindex.items()}
                if g in inv:
                    return self.val(m, kind, inv[g])
            raise Raised(IndexError)
        return self.val(m, kind, g)

    def attr(self, m, name):
        if name == "lastgroup":
            return lift(self.kind(m).lastgroup)
        if name == "string":
            return self.sql
        if name == "re":
            return self.o
        return const(BM(const(self), name))

    def method(self, m, name, args, kw):
        if name == "groupdict":
            kind = self.kind(m)
            d = args[0] if args else kw.get("default", NONE)
            out = []
            for g in self.pat.groupindex:
                v = self.val(m, kind, g)
                out.append(w1(const(g), d if v is NONE else v))
            return m.new_dict(dlog(*out))
        if name in ("group", "__getitem__"):
            if not args:
                return self.group(m, ZERO)
            vs = [self.group(m, a) for a in args]
            return vs[0] if len(vs) == 1 else tup(vs)
        if name == "groups":
            kind = self.kind(m)
            inv = {i: n for n, i in self.pat.groupindex.items()}
            return tup([self.val(m, kind, inv.get(i, i)) for i in range(1, self.pat.groups + 1)])
        raise Unsupported("match.%s" % name)


CHARSETS = {}
KINDS = {}


def lacks_char(p, ch):
    """The string term certainly does not contain ch."""
    if p.op == "app" and p.args[0].startswith("tg:"):
        cs = CHARSETS.get((p.args[0], p.args[1]))
        return cs is not None and not cs[ord(ch)]
    if p.op == "app" and p.args[0] == "upper":
        q = p.args[1]
        if q.op == "app" and q.args[0].startswith("tg:"):
            cs = CHARSETS.get((q.args[0], q.args[1]))
            return cs is not None and ch not in _upper_image(cs)
    if p.op == "ite":
        return lacks_char(p.args[1], ch) and lacks_char(p.args[2], ch)
    if p.op == "cat":
        return all(ch not in cval(q) if q.op == "py" else lacks_char(q, ch) for q in p.args)
    if p.op == "istr":
        return ch not in "-0123456789"
    return False


_ui = {}


def _upper_image(cs):
    """Characters str.upper() can produce from the set (upper-casing is per
    character except for final sigma, which only lower() treats specially)."""
    key = cs.tobytes()
    h = hash(key)
    if h not in _ui:
        import numpy as np
        _ui[h] = set("".join(chr(c).upper() for c in np.flatnonzero(cs)))
    return _ui[h]


def VAR_SUBSET(t, m):
    """All index variables of t are those of the current path."""
    return all(VAR_LEVEL.get(x, 0) < len(m.levels) and not x.args[0].startswith("v@") for x in fv(t))


def unify(pat, key, iv, m, conds):
    if iv is not None and pat is iv:
        if key.sort != "int":
            return False
        m[iv] = key
        return True
    if pat.op == "tuple" or key.op == "tuple":
        if pat.op != key.op or len(pat.args) != len(key.args):
            return False
        return all(unify(a, b, iv, m, conds) for a, b in zip(pat.args, key.args))
    if iv is not None and iv in fv(pat):
        raise Unsupported("memo key of unknown form")
    c = eq(pat, key)
    if c is FALSE:
        return False
    conds.append(c)
    return True


def _kind_lit(l):
    """(kind term, j, positive) of a literal kind = j."""
    pos = True
    if l.op == "not":
        l, pos = l.args[0], False
    if l.op == "eq":
        for a, b in (l.args, l.args[::-1]):
            if a.op == "py" and is_app(b, "kind"):
                return b, cval(a), pos
    return None


def clean_pc(pc):
    """Bring the token kind literals of a path to the form kind = j."""
    pos, neg = {}, {}
    for l in pc:
        q = _kind_lit(l)
        if q:
            (pos if q[2] else neg).setdefault(q[0], set()).add(q[1])
    for kt, js in neg.items():
        n = KINDS.get(kt.args[1])
        rest = [j for j in range(n) if j not in js] if n else []
        if kt not in pos and len(rest) == 1:
            pos[kt] = set(rest)
    out = []
    for l in pc:
        q = _kind_lit(l)
        if q and q[0] in pos:
            l = eq(q[0], const(min(pos[q[0]])))
        out.append(l)
    return tuple(dict.fromkeys(out))


def alpha(x):
    if isinstance(x, T):
        return tm.hnorm(x)
    if isinstance(x, (tuple, list)):
        return tuple(alpha(y) for y in x)
    return x


DC = object()          # outcome that does not matter
NOCHANGE = object()


def decision_cases(outs, payload):
    """Outcomes of one exploration as few (conditions, payload) pairs.

    The paths form a binary decision tree.  Infeasible paths and those whose
    payload is DC do not matter (the closed form of a loop state is only used
    where every earlier iteration ended normally), so they are dropped, and tests
    that do not separate payloads are removed."""
    leaves = [(o.raw, payload(o) if o.feasible else DC) for o in outs]

    def build(ls, d):
        if len(ls) == 1 and len(ls[0][0]) == d:
            return ("leaf", ls[0][1])
        lits = {l[0][d] for l in ls}
        pos = [l for l in lits if l.op != "not"] or [next(iter(lits)).args[0]]
        c = pos[0]
        if not lits <= {c, not_(c)}:
            raise Unsupported("irregular path conditions")
        a = [l for l in ls if l[0][d] is c]
        b = [l for l in ls if l[0][d] is not c]
        A = build(a, d + 1) if a else ("leaf", DC)
        B = build(b, d + 1) if b else ("leaf", DC)
        if A == ("leaf", DC):
            return B
        if B == ("leaf", DC) or A == B:
            return A
        return ("node", c, A, B)
    out = []

    def walk(n, pc):
        if n[0] == "leaf":
            if n[1] is not DC:
                out.append((clean_pc(pc), n[1]))
        else:
            walk(n[2], pc + (n[1],))
            walk(n[3], pc + (not_(n[1]),))
    walk(build(leaves, 0), ())
    return out


class MemoRule:
    def __init__(self, n, v):
        self.n, self.v, self.cases, self.vals, self.classes = n, v, [], {}, {}


ACC = named_var("acc@iter", "str")
N_ITER = named_var("n@iter", "int")
ITERS = {}              # symbol of an iterated text -> (one step, its parameters)


class Cell:
    """Abstraction of one modified cell of a loop: its value at iteration m."""
    def __init__(self, mach, cell, pre, v, n):
        self.m, self.cell, self.pre, self.v, self.n = mach, cell, pre, v, n
        self.form = None          # callable m -> term
        self.pending = True
        self.opq = None
        self.raw = True           # the next outcomes were computed from S0 itself
        self.mode = "log"
        if pre is not None and pre.op not in ("L", "A", "D", "C", "It", "O"):
            s = pre.sort
            self.opq = named_var("opq@%s@%s" % (v.args[0], cell), s if s in ("int", "bool", "str") else "obj", VAR_LEVEL[v])
            VAR_LEVEL[self.opq] = VAR_LEVEL[v]
        self.memoid = "%s@%s" % (v.args[0], cell)
        if cell[0] == "l" and cell[2] not in mach.needed and not (pre is not None and pre.op == "ref"):
            dead = mk("opaque", ("dead", cell), "obj")
            self.form = lambda idx: dead
            self.mode = "dead"

    def to_opaque(self):
        if self.mode != "log":
            raise Unsupported("memo dict")
        if any(w.op != "w" for w in self.pre.args[0].args):
            raise Unsupported("memo dict with symbolic start content")
        self.mode, self.form = "opaque", None

    def sig_str(self):
        return "%s %s" % (self.mode, None if self.form is None else self.form(named_var("m", "int")))

    def at(self, idx, v):
        if self.form is not None:
            return self.form(idx)
        if self.pre is None:
            return mk("maybe", (lt(ZERO, idx), mk("opaque", ("local %s" % (self.cell[2],), idx), "obj")), "maybe")
        if self.opq is not None:
            return self.opq
        if self.pre.op == "D":
            return mk("D", (dlog(self.pre.args[0], mk("opqd", (self.memoid, idx), "dw")),), "heap")
        return self.pre

    def group(self, items, normal):
        """[(pc, payload)] -> cases with merged conditions."""
        by = {}
        pay = {pc: p for pc, p in items}
        for pc, p in decision_cases(self.allouts, lambda o: DC if o.kind != "ok" else pay.get(o.pc, NOCHANGE)):
            if p is not NOCHANGE:
                by.setdefault(p, []).append(and_(*pc))
        if len(by) == 1 and len(items) == len(normal):
            return [(TRUE, next(iter(by)))]
        return [(or_(*cs), p) for p, cs in by.items()]

    def update(self, normal, k, v, S0):
        """Derive the closed form from the outcomes of a generic iteration."""
        m, cell, pre = self.m, self.cell, self.pre
        sb = {k: v}
        raw, self.raw = self.raw, False
        start = (pre if pre is not None else None) if raw else self.at(k, v)
        self.pending = False
        if self.mode == "dead":
            return None
        if raw and self.opq is not None:
            self.pending = True
            return None
        if pre is None:
            items = []
            for o in normal:
                f = o.store.get(cell)
                if f is None or start is not None and f is start:
                    continue
                items.append((o.pc, m.freeze(f, S0, o.store)))
            return self.lastvalue(items, normal, k, v, None)
        if pre.op == "L" or pre.op == "A":
            return self.up_list(normal, k, v, S0, start)
        if pre.op == "D":
            return self.up_dict(normal, k, v, S0, start)
        if pre.op == "C":
            start = self.begin[cell] if raw else start
            items = []
            for o in normal:
                f = o.store[cell]
                if f.op != "C":
                    raise Unsupported("counter replaced")
                d = sub(f.args[0], start.args[0])
                items.append((o.pc, d))
            cs = tuple(case(subst(c, sb), subst(d, sb)) for c, d in self.group(items, normal))
            for c in cs:
                if has_op(c, "opaque"):
                    self.pending = True
            step = pre.args[1]
            base = pre.args[0]
            if raw:
                self.pending = True
                cs = tuple(subst(c, {start.args[0]: base}) for c in cs)
            self.form = lambda idx: mk("C", (add(base, psum(idx, v, cs)), step), "heap")
            return self.form(k)
        if pre.op in ("It", "O"):
            raise Unsupported("iterator advanced inside a loop")
        # local variables
        finals = []
        for o in normal:
            f = o.store.get(cell)
            if f is None:
                raise Unsupported("variable deleted in a loop")
            finals.append((o, f))
        if self.form is None:
            kind = None
            for o, f in finals:
                if f is start:
                    continue
                if self.opq not in fv(f):
                    kd = "last"
                elif self.opq.sort == "int" and self.opq not in fv(sub(f, self.opq)):
                    kd = "acc"
                elif self.opq.sort == "str" and f.op == "cat" and f.args[0] is self.opq and self.opq not in fv(cat(*f.args[1:])):
                    kd = "str"
                else:
                    kd = "unknown"
                kind = kd if kind in (None, kd) else "unknown"
            self.kind_ = kind
        kind = self.kind_
        if kind is None:
            self.form = lambda idx: pre
            return pre
        if kind == "acc":
            items = [(o.pc, sub(f, start)) for o, f in finals]
            cs = tuple(case(subst(c, sb), subst(d, sb)) for c, d in self.group(items, normal))
            self.form = lambda idx: add(pre, psum(idx, v, cs))
            return self.form(k)
        if kind == "str":
            items = []
            for o, f in finals:
                if f is start:
                    continue
                fp, sp_ = tm.sparts(f), tm.sparts(start)
                if fp[:len(sp_)] != sp_:
                    # closed forms may merge constants: recompute from the opaque form
                    raise Unsupported("string accumulation")
                items.append((o.pc, seq(elem(cat(*fp[len(sp_):])))))
            cs = tuple(case(subst(c, sb), subst(p, sb)) for c, p in self.group(items, normal))
            self.form = lambda idx: cat(pre, tm.join("", self.flatten(idx, v, cs)))
            return self.form(k)
        if kind == "last":
            items = [(o.pc, m.freeze(f, S0, o.store)) for o, f in finals if f is not start]
            return self.lastvalue(items, normal, k, v, pre)
        if self.opq.sort == "str" and self.recursive(finals, start, normal, k, v):
            return self.form(k)
        self.form = lambda idx: mk("opaque", ("local %s" % (cell[-1],), idx), "obj")
        return self.form(k)

    def recursive(self, finals, start, normal, k, v):
        """A text rewritten in every iteration by a function of itself: its value
        after idx iterations is iter(idx, initial value, what the step depends on)."""
        sb = {k: v}
        if any(start in subterms(c) or has_op(c, "opaque", "opqd") for o in self.allouts for c in o.pc):
            return False
        items = []
        for o, f in finals:
            if f is start:
                continue
            f = replace(f, {start: ACC})
            if has_op(f, "opaque", "opqd", "ref"):
                return False
            items.append((o.pc, seq(elem(f))))
        if any(ACC in subterms(start) for _ in (1,)) or ACC in subterms(self.pre):
            return False
        cs = tuple(case(subst(c, sb), subst(p, sb)) for c, p in self.group(items, normal))
        step = flat(N_ITER, v, cs)
        key, params = tm.abstract(step, ACC)
        ITERS["iter:" + key] = (step, tuple(params))
        self.form = lambda idx: app("iter:" + key, (idx, self.pre) + tuple(params), "str")
        return True

    def flatten(self, idx, v, cs):
        if not cs:
            return EMPTY
        if len(cs) == 1 and cs[0].args[0] is TRUE:
            p = cs[0].args[1]
            if len(p.args) == 1 and p.args[0].op == "elem":
                return seq(smap(idx, v, p.args[0].args[0]))
        return seq(flat(idx, v, cs))

    def lastvalue(self, items, normal, k, v, pre):
        sb = {k: v}
        if not items:
            self.form = lambda idx: pre
            return pre
        every = len(items) == len(normal)
        groups = [(subst(c, sb), subst(w, sb)) for c, w in self.group(items, normal)]
        dirty = any(has_op(w, "opaque") for c, w in groups) or any(has_op(c, "opaque", "opqd") for c, w in groups)

        def val(i):
            if dirty:
                return mk("opaque", ("local %s" % (self.cell[-1],), i), "obj")
            w = subst(groups[-1][1], {v: i})
            for c, x in reversed(groups[:-1]):
                w = ite(subst(c, {v: i}), subst(x, {v: i}), w)
            return w
        cond = or_(*[c for c, _ in groups])
        if every:
            indep = len(groups) == 1 and v not in fv(groups[0][1]) and not dirty

            def form(idx):
                w = groups[0][1] if indep else val(sub(idx, ONE))
                if pre is None:
                    return mk("maybe", (lt(ZERO, idx), w), "maybe")
                return ite(lt(ZERO, idx), w, pre)
        else:
            def form(idx):
                l = last(idx, v, cond)
                w = val(l)
                if pre is None:
                    return mk("maybe", (le(ZERO, l), w), "maybe")
                return ite(le(ZERO, l), w, pre)
        self.form = form
        return form(k)

    def up_list(self, normal, k, v, S0, start):
        m, cell, pre = self.m, self.cell, self.pre
        sb = {k: v}
        ops = {o.store[cell].op for o in normal}
        if pre.op == "L" and "A" not in ops:
            items = []
            for o in normal:
                f = o.store[cell].args[0]
                s = start.args[0]
                if f.args[:len(s.args)] != s.args:
                    raise Unsupported("a list is changed other than by appending in a loop")
                d = m.freeze(seq(*f.args[len(s.args):]), S0, o.store)
                if d.args:
                    items.append((o.pc, d))
            cs = tuple(case(subst(c, sb), subst(p, sb)) for c, p in self.group(items, normal))
            if any(has_op(c, "opaque", "opqd") for c in cs):
                self.pending = self.mode == "x"
            base = pre.args[0]
            self.form = lambda idx: mk("L", (seq(base, self.flatten(idx, v, cs)),), "heap")
            return self.form(k)
        base = pre.args[0]
        log0 = pre.args[1] if pre.op == "A" else EMPTYD
        items = []
        for o in normal:
            f = o.store[cell]
            if f.op == "L":
                if f is not start and f.args[0] is not base:
                    raise Unsupported("list both extended and assigned in a loop")
                continue
            if f.args[0] is not base:
                raise Unsupported("list both extended and assigned in a loop")
            sl = start.args[1].args if start.op == "A" else ()
            fl = f.args[1].args
            if fl[:len(sl)] != sl:
                raise Unsupported("list log")
            d = m.freeze(dlog(*fl[len(sl):]), S0, o.store)
            if d.args:
                items.append((o.pc, d))
        cs = tuple(case(subst(c, sb), subst(p, sb)) for c, p in self.group(items, normal))
        self.form = lambda idx: mk("A", (base, dlog(log0, wflatten(idx, v, cs))), "heap")
        return self.form(k)

    def up_dict(self, normal, k, v, S0, start):
        m, cell, pre = self.m, self.cell, self.pre
        sb = {k: v}
        items = []
        sl = start.args[0].args
        for o in normal:
            f = o.store[cell].args[0].args
            if f[:len(sl)] != sl:
                raise Unsupported("dict log")
            d = m.freeze(dlog(*f[len(sl):]), S0, o.store)
            items.append((o, d))
        if self.mode == "log":
            m.memo_shapes[self.memoid] = [(key, inner, val) for o, d in items for w in d.args for g, key, inner, val in memo_writes(w)] \
                if all(w.op in ("w", "wmap", "wflat") for o, d in items for w in d.args) and not any(
                    x.op != "w" for o, d in items for w in d.args if w.op == "wflat" for c in w.args[2:] for x in c.args[1].args) else []
            its = [(o.pc, d) for o, d in items if d.args]
            cs = tuple(case(subst(c, sb), subst(p, sb)) for c, p in self.group(its, normal))
            self.form = lambda idx: mk("D", (dlog(pre.args[0], wflatten(idx, v, cs)),), "heap")
            return self.form(k)
        return self.up_memo(items, k, v)

    def up_memo(self, items, k, v):
        """Memo rule.  `items` are the outcomes of a generic iteration.  In the
        opaque round the content at the start of iteration k is arbitrary
        (has:D(k, key)); checked there: (R1) a key is written only where has(k,
        key) was found false, (R2) whether it is written depends, besides has(k,
        key), on nothing else of the content.  Then by induction a key is present
        at iteration k iff some earlier iteration satisfied the write condition
        for it (without the has-literal), and it holds what the first such
        iteration wrote."""
        m = self.m
        sb = {k: v}
        writes = []
        pay = {o.pc: d for o, d in items}
        for pc, d in decision_cases(self.allouts, lambda o: DC if o.kind != "ok" else pay[o.pc]):
            for w in d.args:
                for guard, key, inner, val in memo_writes(w):
                    writes.append((set(pc + guard), key, inner, val))
        if self.mode == "opaque":
            by = {}
            for guard, key, inner, val in writes:
                has = app("has:%s" % self.memoid, (k, key), "bool")
                if not_(has) not in guard:
                    raise Unsupported("dict entries are overwritten")
                by.setdefault((key, inner), set()).add(frozenset(guard - {not_(has)}))
            rule = m.memo_rules[self.memoid] = MemoRule(self.n, v)
            rule.classes = {}
            for (key, inner), guards in by.items():
                guards = resolve_guards(guards)
                for g in guards:
                    for l in g:
                        if any(x.op == "app" and (x.args[0] == "has:%s" % self.memoid or x.args[0].startswith("mv:%s" % self.memoid))
                               for x in subterms(l)):
                            raise Unsupported("dict entries depend on other entries")
                    rule.classes.setdefault((key, inner), []).append(and_(*sorted(g, key=lambda t: t.uid)))
            for guard, key, inner, val in writes:
                pass
            self.mode = "memo"
        rule = m.memo_rules[self.memoid]
        vals = dict(rule.vals)
        for guard, key, inner, val in writes:
            if (key, inner) not in rule.classes:
                raise Unsupported("dict keys change between rounds")
            vals.setdefault((key, inner), {})
        cur = {}
        for guard, key, inner, val in writes:
            if cur.setdefault((key, inner), val) is not val:
                raise Unsupported("memo value depends on the path")
        rule.vals.update(cur)
        rule.cases = [(subst(g, sb), subst(key, sb), None if inner is None else (subst(inner[0], sb), inner[1]), subst(rule.vals[(key, inner)], sb))
                      for (key, inner), gs in rule.classes.items() for g in gs if (key, inner) in rule.vals]
        pre = self.pre
        self.form = lambda idx: mk("D", (dlog(pre.args[0], mk("memo", (self.memoid, idx), "dw")),), "heap")
        return tuple(rule.cases)


def resolve_guards(guards):
    """Merge conjunctions that differ in the polarity of one literal."""
    guards = set(guards)
    while True:
        for g in guards:
            hit = None
            for l in g:
                h = (g - {l}) | {not_(l)}
                if h in guards:
                    hit = (h, g - {l})
                    break
            if hit:
                guards = (guards - {g, hit[0]}) | {hit[1]}
                break
        else:
            return guards


def memo_writes(w, guard=()):
    if w.op == "w":
        return [(guard, w.args[0], None, w.args[1])]
    if w.op == "wmap":
        return [(guard, w.args[2], (w.args[0], w.args[1]), w.args[3])]
    if w.op == "wflat":
        out = []
        for c in w.args[2:]:
            for x in c.args[1].args:
                if x.op != "w":
                    raise Unsupported("memo write in a nested loop")
                cond = c.args[0]
                out.append((guard + (cond.args if cond.op == "and" else (cond,)), x.args[0], (w.args[0], w.args[1]), x.args[1]))
        return out
    raise Unsupported("memo write")


def wflatten(idx, v, cs):
    if not cs:
        return EMPTYD
    if len(cs) == 1 and cs[0].args[0] is TRUE:
        p = cs[0].args[1]
        if len(p.args) == 1 and p.args[0].op == "w":
            return wmap(idx, v, p.args[0].args[0], p.args[0].args[1])
    return wflat(idx, v, cs)


# ------------------------------------------------------------------ builtins
REPO_MODULES = set()
from . import theory  # noqa: E402  (registers the axiom providers)


def in_repo(f):
    return f.__module__.split(".")[0] in REPO_MODULES


def in_repo_class(c):
    return c.__module__.split(".")[0] in REPO_MODULES


BINOPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Mod: lambda a, b: a % b,
          ast.FloorDiv: lambda a, b: a // b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b}
ISA = {}


def smt_register(cls):
    ISA.setdefault(cls.__name__, cls)
    if ISA[cls.__name__] is not cls:
        raise Unsupported("two classes named %s" % cls.__name__)


for _c in (str, bytes, int, bool, tuple, list, dict, type(None), float, cabc.Mapping, cabc.Sequence, cabc.Iterable):
    smt_register(_c)


def _isinstance(m, args, kw):
    return m.isinst(m.force(args[0]), host(args[1]))


def _iter(m, args, kw):
    v = m.force(args[0])
    if v.op == "ref" and m.get(v).op in ("It", "C"):
        return v
    if is_box(v) and isinstance(cval(v), (GenX, GenF, Lazy)):
        return v
    return m.new(mk("It", (m.to_seq(v),), "heap"))


def _next(m, args, kw):
    v = m.force(args[0])
    if is_box(v) and isinstance(cval(v), (GenX, GenF)):
        # the first element of a fresh generator (what is left of it must not be used)
        f = m.compframe(cval(v).frame)

        def body(x):
            m.setlocal(f, ".next", x)
            raise Break()
        try:
            m.iterate(v, body)
        except Break:
            cval(v).used = True
            return m.store[("l", f.fid, ".next")]
        if len(args) > 1:
            return args[1]
        raise Raised(StopIteration)
    if v.op != "ref":
        raise Unsupported("next of %s" % v.op)
    h = m.get(v)
    if h.op == "C":
        x, step = h.args
        m.put(v, mk("C", (add(x, step), step), "heap"))
        return x
    if h.op == "It":
        if h.args[0].op == "opaque":
            raise Unsupported("an iterator used while or after it is consumed elsewhere")
        segs = list(h.args[0].args)
        while segs:
            g = segs[0]
            if g.op == "elem":
                m.put(v, mk("It", (seq(*segs[1:]),), "heap"))
                return g.args[0]
            if g.op == "map":
                if m.branch(lt(ZERO, g.args[0])):
                    m.put(v, mk("It", (seq(m.tail_map(g), *segs[1:]),), "heap"))
                    return subst(g.args[2], {g.args[1]: ZERO})
                segs.pop(0)
                continue
            raise Unsupported("next of a flattened sequence")
        if len(args) > 1:
            return args[1]
        raise Raised(StopIteration)
    raise Unsupported("next of %s" % h.op)


def _range(m, args, kw):
    a = [x for x in args]
    if len(a) == 1:
        lo, hi = ZERO, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with step")
    n = sub(hi, lo)
    i = named_var("v@r", "int")
    if n.op != "py" and not m.branch(le(ZERO, n)):
        return EMPTY
    return seq(smap(n, i, add(lo, i)))


def _list(m, args, kw):
    if not args:
        return m.new_list(EMPTY)
    return m.collect(args[0]) if is_box(m.force(args[0])) else m.new_list(m.to_seq(args[0]))


def _tuple(m, args, kw):
    if not args:
        return tup([])
    v = m.force(args[0])
    if v.sort == "tuple":
        return v
    s = m.to_seq(v)
    if all(g.op == "elem" for g in s.args):
        return tup([g.args[0] for g in s.args])
    return mk("tupval", (s,), "tuple")


def _dict(m, args, kw):
    d = m.new_dict()
    m.dict_method(d, EMPTYD, "update", args, kw)
    return d


def _int(m, args, kw):
    if not args:
        return ZERO
    if len(args) > 1:
        raise Unsupported("int with base")
    v = m.force(args[0])
    if v.sort == "int":
        return v
    if v.sort == "bool":
        return ite(v, ONE, ZERO)
    if v.op == "py" and not is_box(v):
        try:
            return const(int(cval(v)))
        except Exception as e:
            raise Raised(type(e))
    if v.op == "istr":
        return v.args[0]
    if v.sort not in ("str", "obj"):
        raise Unsupported("int()")
    if not m.branch(app("intable", (v,), "bool")):
        raise Raised(ValueError)
    return app("toint", (v,), "int")


def _str(m, args, kw):
    if len(args) == 2 and args[1].op == "py":
        return m.method(args[0], "decode", [args[1]], {})
    return m.tostr(args[0]) if args else const("")


def _repr(m, args, kw):
    return m.repr_(args[0])


def _sum(m, args, kw):
    c = m.new(mk("C", (args[1] if len(args) > 1 else ZERO, ONE), "heap"))

    def step(x):
        x = m.force(x)
        if x.sort == "bool":
            x = ite(x, ONE, ZERO)
        if x.sort != "int":
            raise Unsupported("sum of non-integers")
        m.put(c, mk("C", (add(m.get(c).args[0], x), ONE), "heap"))
    m.iterate(args[0], step)
    return m.get(c).args[0]


def _any(m, args, kw):
    try:
        m.iterate(args[0], lambda x: _brk(m.cond(x)))
    except Break:
        return TRUE
    return FALSE


def _all(m, args, kw):
    try:
        m.iterate(args[0], lambda x: _brk(not m.cond(x)))
    except Break:
        return FALSE
    return TRUE


def _reduce(m, args, kw):
    if len(args) not in (2, 3) or kw:
        raise Unsupported("reduce()")
    if len(args) < 3:
        raise Unsupported("reduce() without a start value")
    v = m.force(args[1])
    c = ("l", m.compframe(Frame(-1, {}, None)).fid, ".acc")
    m.needed.add(".acc")
    m.store[c] = args[2]

    def step(x):
        m.store[c] = m.call(args[0], [m.store[c], x], {})
    m.iterate(v, step)
    return m.store[c]


def _re_sub(m, args, kw):
    if len(args) > 3 or set(kw) - {"flags"}:
        raise Unsupported("re.sub()")
    pat = m.force(args[0])
    if not (is_box(pat) and isinstance(cval(pat), re.Pattern)):
        pat = m.call(const(re.compile), [pat], kw)
    return m.method(pat, "sub", list(args[1:]), {})


def _brk(c):
    if c:
        raise Break()


def _count(m, args, kw):
    a = args[0] if args else kw.get("start", ZERO)
    st = args[1] if len(args) > 1 else kw.get("step", ONE)
    return m.new(mk("C", (a, st), "heap"))


def _chain(m, args, kw):
    return m.new(mk("It", (seq(*[m.to_seq(a) for a in args]),), "heap"))


def _partial(m, args, kw):
    return const(Part(args[0], list(args[1:]), dict(kw)))


def _bool(m, args, kw):
    return m.truth(args[0]) if args else FALSE


def _type(m, args, kw):
    if len(args) != 1:
        raise Unsupported("type()")
    v = m.force(args[0])
    if v.op == "py":
        return const(type(cval(v)))
    if v.op == "ref" and m.get(v).op == "O":
        return m.get(v).args[0].v and const(m.get(v).args[0].v)
    if v.sort in PYSORT:
        return const(PYSORT[v.sort])
    return app("typeof", (m.deref(v),), "obj")


def _enumerate(m, args, kw):
    return const(Lazy("enumerate", [args[0], args[1] if len(args) > 1 else kw.get("start", ZERO)]))


def _minmax(op):
    def f(m, args, kw):
        if len(args) == 2 and args[0].sort == "int" and args[1].sort == "int" and not kw:
            a, b = args
            return (a if m.branch(le(a, b)) else b) if op == "min" else (b if m.branch(le(a, b)) else a)
        raise Unsupported(op)
    return f


def _callable(m, args, kw):
    v = m.force(args[0])
    if is_box(v):
        return const(callable(cval(v)) or isinstance(cval(v), (Clo, BM, Part, BoundFn)))
    raise Unsupported("callable")


def _re_escape(m, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("re.escape()")
    v = m.force(args[0])
    if is_hostable(v):
        return m.host_call(re.escape, args, kw)
    if v.sort == "obj" and not m.branch(m.isinst(v, str)):
        if m.branch(m.isinst(v, bytes)):
            return app("re.escape", (v,), "bytes")
        raise Raised(TypeError)
    return app("re.escape", (v,), "str")


def _re_compile(m, args, kw):
    a = [m.force(x) for x in args]
    k = {n: m.force(x) for n, x in kw.items()}
    if all(map(is_hostable, a)) and all(map(is_hostable, k.values())):
        return m.host_call(re.compile, a, k)
    flags = a[1] if len(a) > 1 else k.get("flags", ZERO)
    if len(a) > 2 or not a or a[0].sort != "str" or not is_hostable(flags):
        raise Unsupported("re.compile()")
    return app("re.compile", (a[0], const(int(host(flags)))), "obj")


MODELS = {functools.reduce: _reduce, re.sub: _re_sub, re.escape: _re_escape, re.compile: _re_compile, isinstance: _isinstance, len: lambda m, a, k: m.length(a[0]), iter: _iter, next: _next, enumerate: _enumerate,
          zip: lambda m, a, k: const(Lazy("zip", list(a))), map: lambda m, a, k: const(Lazy("map", list(a))), range: _range,
          list: _list, tuple: _tuple, dict: _dict, int: _int, str: _str, repr: _repr, sum: _sum, any: _any, all: _all,
          itertools.count: _count, itertools.chain: _chain, functools.partial: _partial, bool: _bool, type: _type,
          min: _minmax("min"), max: _minmax("max"), callable: _callable}
