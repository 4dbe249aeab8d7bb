"""Axioms of the theory symbols, instantiated at their ground occurrences.

These are the assumed contracts on the Python objects the code is given
(mappings, sequences, tuples, tokens of a regular expression) plus definitional
axioms and lemmas of first / last / psum.  Every symbol's axioms are listed in
AXIOMS for the evidence.
"""
import collections.abc as cabc
import numpy as np

from . import smt
from . import terms as tm
from .terms import *
from .terms import T, Box

ZERO, ONE = const(0), const(1)
AXIOMS = {
    "isa": "instance-of follows the class lattice; str, bytes, int, tuple, list, dict, float and None are disjoint; "
           "no object is both a Mapping and a Sequence",
    "len": "len(x) >= 0; a tuple is false exactly when its length is 0; a str of length 0 is the empty text, of length 1 its first is its last character",
    "mapping": "a Mapping's items() lists exactly the keys k with their values m[k], each key once, in a fixed order",
    "kind": "every match of a regex came about by one of its alternatives (kinds)",
    "toint": "int() accepts decimal digit strings (and ints, ASCII digit bytes) and maps digit strings to numbers >= 0",
    "first": "first/last: definitions of the least / greatest index satisfying a condition",
    "psum": "psum(0) = 0, psum(k + 1) = psum(k) + delta(k); lemma by induction on b: a < b and delta >= 0 give psum(a) + delta(a) <= psum(b)",
}
_BASES = [str, bytes, int, tuple, list, dict, float, type(None)]


def nonneg(t):
    if t.op == "py":
        return t.sort == "int" and cval(t) >= 0
    if t.op == "app":
        return t.args[0] in ("len", "ntok", "nrows", "seglen")
    if t.op == "psum":
        return all(nonneg(c.args[1]) for c in t.args[2:])
    if t.op == "add":
        return all(nonneg(a) for a in t.args)
    if t.op == "mul":
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if t.op == "ite":
        return nonneg(t.args[1]) and nonneg(t.args[2])
    return False


def delta(p, i):
    """The summand of a psum term at index i (cases are exclusive)."""
    v = p.args[1]
    r = ZERO
    for c in reversed(p.args[2:]):
        r = ite(subst(c.args[0], {v: i}), subst(c.args[1], {v: i}), r)
    return r


_key = {}
_N0 = named_var("n@psum", "int")


def psum_key(p):
    k = _key.get(p)
    if k is None:
        k = _key[p] = canon(tm.mk("psum", (_N0,) + p.args[1:], "int"))
    return k


def provide(fresh, terms):
    from . import engine
    out = []
    idx = None
    for t in fresh:
        if t.op == "app":
            n = t.args[0]
            if n.startswith("isa:"):
                cls = engine.ISA[n[4:]]
                x = t.args[1]
                if x.sort != "obj":
                    continue
                for b, bc in engine.ISA.items():
                    u = app("isa:" + b, (x,), "bool")
                    if bc is cls or (u not in terms and bc not in (cabc.Mapping, cabc.Sequence) and bc not in _BASES):
                        continue
                    if u not in terms:
                        # keep the lattice small: only Mapping/Sequence consequences of bases
                        if not (cls in _BASES and bc in (cabc.Mapping, cabc.Sequence)):
                            continue
                    if issubclass(cls, bc):
                        out.append(implies(t, u))
                    elif issubclass(bc, cls):
                        out.append(implies(u, t))
                    elif _disjoint(cls, bc):
                        out.append(or_(not_(t), not_(u)))
                if cls is type(None):
                    out.append(eq(t, eq(x, const(None))))
            elif n in ("len", "ntok", "nrows", "seglen"):
                out.append(le(ZERO, t))
                if n == "len" and t.args[1].sort == "str":
                    out.append(eq(eq(t, ZERO), eq(t.args[1], const(""))))
                if n == "len" and t.args[1].sort == "obj":
                    x = t.args[1]
                    tr = app("truthy", (x,), "bool")
                    if tr in terms:
                        out.append(implies(app("isa:tuple", (x,), "bool"), eq(tr, lt(ZERO, t))))
            elif n == "truthy":
                x = t.args[1]
                out.append(implies(app("isa:tuple", (x,), "bool"), eq(t, lt(ZERO, app("len", (x,), "int")))))
                out.append(implies(eq(x, const(None)), not_(t)))
            elif n == "kind":
                k = engine.KINDS.get(t.args[1])
                if k:
                    out += [le(ZERO, t), lt(t, const(k))]
            elif n == "ikey" or n == "ival":
                P, i = t.args[1:]
                key = ikey(P, i)
                inr = and_(le(ZERO, i), lt(i, app("len", (P,), "int")))
                isk = app("kx", (P, key), "int")
                out.append(implies(inr, and_(app("mhas", (P, key), "bool"), eq(app("mget", (P, key), "obj"), app("ival", (P, i), "obj")), eq(isk, i))))
            elif n == "mhas":
                P, x = t.args[1:]
                kx = app("kx", (P, x), "int")
                out.append(implies(t, and_(le(ZERO, kx), lt(kx, app("len", (P,), "int")), eq(ikey(P, kx), x))))
            elif n in ("toint", "intable"):
                x = t.args[1]
                ab = app("intable", (x,), "bool")
                if x.sort == "obj":
                    out.append(implies(app("isa:int", (x,), "bool"), ab))
                    out.append(implies(and_(app("isa:str", (x,), "bool"), app("isdecimal", (x,), "bool")), ab))
                    out.append(implies(and_(app("isa:bytes", (x,), "bool"), app("isdigit", (x,), "bool")), ab))
                elif digits_only(x):
                    out.append(ab)
                    out.append(le(ZERO, app("toint", (x,), "int")))
                elif x.sort == "str":
                    out.append(implies(app("isdecimal", (x,), "bool"), ab))
            elif n == "charat" and t.args[2] is const(-1):
                first_ = app("charat", (t.args[1], ZERO), "str")
                if first_ in terms:
                    out.append(implies(eq(app("len", (t.args[1],), "int"), ONE), eq(first_, t)))
        elif t.op in ("first", "last"):
            n, v, c = t.args
            out += [le(const(-1), t), lt(t, n) if True else TRUE]
            if n.op != "py":
                out[-1] = or_(lt(t, n), eq(t, const(-1)))
            out.append(implies(le(ZERO, t), subst(c, {v: t})))
        elif t.op == "psum":
            if nonneg(t):
                out.append(implies(le(ZERO, t.args[0]), le(ZERO, t)))
    # index instantiation of first / last
    fl = [t for t in terms if t.op in ("first", "last")]
    if fl:
        idx = smt.index_terms(terms)
        fs = set(fresh)
        for t in fl:
            n, v, c = t.args
            cands = idx if t in fs else [i for i in idx if i in fs]
            for i in cands:
                if i is t or not smt.compatible(i, n):
                    continue
                pre = and_(le(ZERO, i), lt(i, n), subst(c, {v: i}))
                post = le(t, i) if t.op == "first" else le(i, t)
                out.append(implies(pre, and_(le(ZERO, t), post)))
    ps = [t for t in terms if t.op == "psum" and nonneg(t)]
    if len(ps) > 1:
        groups = {}
        for t in ps:
            groups.setdefault(psum_key(t), []).append(t)
        fs = set(fresh)
        for g in groups.values():
            for a in g:
                for b in g:
                    if a is b or not (a in fs or b in fs):
                        continue
                    x, y = a.args[0], b.args[0]
                    out.append(implies(and_(le(ZERO, x), lt(x, y)), le(add(a, delta(a, x)), b)))
                    out.append(implies(eq(x, y), eq(a, b)))
    return out


def _disjoint(a, b):
    if a in _BASES and b in _BASES:
        return True
    M, S = cabc.Mapping, cabc.Sequence
    for x, y in ((a, b), (b, a)):
        if issubclass(x, M) and (issubclass(y, S) or y in (int, float, type(None))):
            return True
        if x is S and y in (int, float, type(None)):
            return True
        if x is bool and y in _BASES and y is not int:
            return True
        if x is cabc.Iterable and y in (int, float, type(None)):
            return True
    return False


_digits = None


def digits_only(x):
    """The string term is a non-empty run of decimal digits (regex language)."""
    from . import engine
    global _digits
    if x.op == "app" and x.args[0].startswith("tg:"):
        cs = engine.CHARSETS.get((x.args[0], x.args[1]))
        if cs is None:
            return False
        if _digits is None:
            _digits = np.fromiter((chr(c).isdecimal() for c in range(0x110000)), dtype=bool, count=0x110000)
        return bool((cs <= _digits).all())
    return False


smt.PROVIDERS.append(provide)
