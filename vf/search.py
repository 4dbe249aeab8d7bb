"""Directed witness search: runs the real code of /repo against the oracles.

This never proves anything.  It serves to find and replay a concrete failing
input once an obligation fails, as the labelled bounded stand-in where a
function is out of the verifier's reach, and as the CPython cross-check of
accepted proofs.
"""
import ast
import base64
import collections
import datetime
import decimal
import fractions
import glob
import itertools
import json
import os
import pickle
import random
import re
import uuid
import sys
import time
import types
from collections.abc import Mapping, Sequence
from multiprocessing import get_context

from . import loader, oracles, spec
from .spec import Cfg, KIND, MARK, STYLES


# ------------------------------------------------------------------ values
class Val:
    """A value with identity semantics."""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<v%s>" % self.n


class Flag:
    """False in a test, nothing else."""
    def __bool__(self):
        return False


class Text(str):
    pass


class Num(int):
    pass


class Pair(list):
    pass


class Loud:
    """A value that must not be rendered, compared or measured."""
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "INJECTED"

    def __len__(self):
        return 2

    def __iter__(self):
        return iter((1, 2))

    def __repr__(self):
        return "<loud%s>" % self.n


NT = collections.namedtuple("NT", "x y")


class Map(Mapping):
    def __init__(self, d):
        self.d = dict(d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return "Map(%r)" % self.d


class Seq(Sequence):
    def __init__(self, l):
        self.l = list(l)

    def __getitem__(self, i):
        return self.l[i]

    def __len__(self):
        return len(self.l)

    def __repr__(self):
        return "Seq(%r)" % self.l


# --------------------------------------------------------------- literals
def harvest(repo=None):
    """Short string and integer literals of the code under test."""
    strs, ints = set(), set()
    for f in sorted(glob.glob(os.path.join(repo or loader.REPO, "sqlparams", "*.py"))):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 24 and "\n\t\t" not in v:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 24:
                    strs.add(v.decode("latin1"))
                elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 70000:
                    ints.add(v)
    return sorted(strs), sorted(ints)


class Gen:
    def __init__(self, seed, hints=None, focus=None):
        self.r = random.Random(seed)
        s, i = harvest()
        hs, hi = hints or ((), ())
        self.strs = list(dict.fromkeys(list(hs) * 3 + s))
        self.ints = list(dict.fromkeys([x for x in list(hi) + i if x <= 2000]))
        self.idents = [x for x in self.strs if x.isidentifier()]
        self.big = sorted({x for x in list(hi) + i if 3 < x <= 20000})
        self.vals = [Val(i) for i in range(12)]
        self.focus = focus
        self.n = 0

    def scale(self, p=.02, top=20000):
        """Sometimes: a number about one of the code's larger constants."""
        if self.big and self.r.random() < p:
            n = self.r.choice(self.big) + self.r.choice([-1, 0, 1, 2])
            return n if n <= top else None
        return None

    # -- configuration
    def cfg(self, ins=None, outs=None, escape="?", strip=None):
        r = self.r
        ins = ins or r.choice(STYLES)
        outs = outs or r.choice(STYLES)
        if escape == "?":
            escape = r.choice([None, None, True, MARK[ins], "\\", "!", "^", "a", ".", "%", "[", "é", "\n", "~", "-"])
        exp = r.choice([None, None, True, False])
        quotes = r.choice([None, None, True, False])
        return Cfg(ins, outs, escape, exp, strip, quotes)

    # -- names
    def name(self):
        r = self.r
        n = self.scale(.05)
        if n:
            return (r.choice("abX_") + r.choice("abcX1_") * n)[:n]
        x = r.random()
        if x < .62:
            return r.choice(["a", "b", "c", "ab", "a_b", "id", "A", "aB"])
        if x < .74:
            return r.choice(["_", "_x", "a1", "a_1", "a10", "aé", "aª", "s", "x2_", "a__0", "_1", "_0", "aß", "b_0", "null", "a_sqlp",
                             "a\u0130", "a\u0131", "a\u017f", "a\ufb01", "a\u03c2", "a\u0345", "a\u1e9e", "a\u212b", "a\u01c5", "a\u01f0", "a\u1e96", "a\u0390"])
        if x < .82:
            return r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ_") * r.choice([1, 2, 3, 9, 17, 31, 33, 64, 65, 130])
        if x < .9 and self.idents:
            return r.choice(self.idents)
        if self.idents and x < .93:
            return r.choice(self.idents) + r.choice(["1", "_", "x"])
        return r.choice("abcxyz_") + "".join(r.choice("abcXYZ_019éµ²") .replace("²", "3") for _ in range(r.randrange(1, 5)))

    def number(self):
        r = self.r
        x = r.random()
        if x < .7:
            return str(r.randrange(1, 6))
        if x < .8:
            return "0" * r.randrange(1, 3) + str(r.randrange(1, 4))
        if x < .86:
            return r.choice(["٣", "१", "1٢", "٠1"])
        if x < .93 and self.ints:
            return str(max(1, r.choice(self.ints) + r.choice([-1, 0, 1])))
        return str(r.randrange(1, 30))

    # -- values
    def tuple_len(self):
        r = self.r
        n = self.scale()
        if n:
            return n
        x = r.random()
        if x < .75:
            return r.randrange(0, 4)
        if x < .9:
            return r.choice([4, 5, 9, 10, 11, 12, 20])
        if x < .97 and self.ints:
            return max(0, min(300, r.choice(self.ints) + r.choice([-1, 0, 1])))
        return r.choice([33, 64, 101, 130])

    ODD = [NotImplemented, Ellipsis, float("nan"), float("inf"), -0.0, 0.0, 1.0, 10 ** 30, -10 ** 30, 2 ** 31, 2 ** 63, 1j, bytearray(b"ab"), b"", "\x00", "\ud800",
           "é", "NULL", "null", "None", int, tuple, dict, object, len, ValueError("x"), StopIteration, decimal.Decimal("1.0"), decimal.Decimal("NaN"),
           datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3), fractions.Fraction(1, 3), uuid.UUID(int=5), re.compile("a"), Flag(), Text("t"), Num(7), Pair((1, 2)),
           collections.deque((1, 2)), collections.OrderedDict(a=1), "x" * 300, " ", "\n", ";", "\\", "a" * 40, "1 OR 1=1"]

    def value(self, depth=0):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice(self.vals)
        if x < .55:
            return r.choice([None, True, False, 0, 1, 2, "", "x", "1", ":a", "%s", "?", "%(a)s", "$1", "a'b", "--", 1.5,
                             b"x", 10, -1, "(NULL)"]) if r.random() < .8 else r.choice(self.ODD)
        if x < .6 and self.strs:
            return r.choice(self.strs)
        if x < .64 and self.ints:
            return r.choice(self.ints)
        if x < .72:
            if r.random() < .2:
                l = [r.choice(self.vals) if r.random() < .7 else r.randrange(9) for _ in range(self.tuple_len())]
                return l if r.random() < .7 else dict(enumerate(l))
            return r.choice([[], [1, 2], [2, 1], {"a": 1}, {1, 2}, range(3), Loud(1), Seq([1, 2]), frozenset((1,)), Map({"a": 1})])
        if x < .75:
            return NT(r.choice(self.vals), r.choice(self.vals))
        if depth > 1:
            return ()
        n = self.tuple_len()
        if n > 12:
            base = [Val(i) for i in range(n)]
            return tuple(base)
        return tuple(self.value(depth + 1) if r.random() < .5 else r.choice(self.vals) for _ in range(n))

    # -- queries
    TEXTS = [" ", " ", ", ", " = ", "x", ":", "::", "%", "%%", "$", "$$", "?", "??", "@", "@@", "'", '"', "(", ")", "s",
             "0", "1", "é", "²", "٣", "ÿ", "µ", "\\", "!", "^", "~", ".", "-", ";", "\t", "\n", "\r\n", "\r", "SELECT ", "IN ",
             "''", "'x'", '"x"', "a", "_", "%d", "%(x)d", "--", "/*", "*/", "[", "]", "10:20", "{", "}", "{param}", "\x00", "\u2028",
             "e\u0301", "\u212b", "\ufb01", "\ufeff", "\x85", "\x0b", "\x0c", "\x1c", "\u0130", "\xad", "\U0001f600", "\ud800", "\uff1a",
             "\uff05", "\u0660", "\xa0", "  ", " \n", "\t\t"]

    def placeholder(self, style, names):
        r = self.r
        if style == "format":
            return "%s"
        if style == "qmark":
            return "?"
        n = r.choice(names)
        if style == "pyformat":
            return "%%(%s)s" % n
        if style == "named_oracle" and r.random() < .35:
            return ':"%s"' % n
        return MARK[style] + n

    def names(self, cfg, k=None):
        r = self.r
        k = k or r.choice([1, 2, 2, 3, 3, 4])
        if cfg.ki == "numeric":
            return [self.number() for _ in range(k)]
        return [self.name() for _ in range(k)]

    def sql(self, cfg, names, texts=None, plain=None):
        r = self.r
        texts = texts or self.TEXTS
        plain = r.random() < .4 if plain is None else plain
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8])
        if r.random() < .03:
            n = r.choice([12, 25, 60, 120])
        n = self.scale() or n
        out = []
        m = MARK[cfg.ins]
        k = self.scale()
        if k:
            out.append(r.choice(texts + ["x", " "]) * k)
        for _ in range(n):
            if plain:
                out.append(r.choice([" ", ", ", " = ", " AND x = ", "\n"]))
            else:
                x = r.random()
                if x < .55:
                    out.append(r.choice(texts))
                elif x < .62:
                    out.append("".join(r.choice(texts) for _ in range(3)))
                elif x < .72:
                    out.append(r.choice([m, m + m, m + m + m, (cfg.esc or m) + m, (cfg.esc or m) * 2 + m, (cfg.esc or m)]))
                elif x < .76 and self.strs:
                    out.append(r.choice(self.strs))
                elif x < .77:
                    out.append(chr(r.randrange(1, 0x250)) if r.random() < .7 else chr(r.randrange(0xd800)))
            out.append(self.placeholder(cfg.ins, names))
        if r.random() < .6:
            out.append(r.choice(texts) if not plain else r.choice([" ", ")", "", ";", "\n"]))
        return "".join(out)

    # -- parameters
    def params(self, cfg, sql, names, value=None, full=True, kind=None):
        """A parameter set covering the query's placeholders (if full)."""
        r = self.r
        value = value or self.value
        segs = [s for s in spec.scan(cfg, spec.strip(cfg, sql)) if s[0] == "par"]
        if cfg.ki == "named":
            d = {}
            for s in segs:
                d.setdefault((s[1], s[2]), None)
            out, seen = {}, {}
            for (nm, q) in d:
                key = nm
                if cfg.ins == "named_oracle":
                    want = nm if q else nm.upper()
                    if want in seen:
                        continue
                    seen[want] = 1
                    if want.upper() == want and r.random() < .6:
                        key = want if r.random() < .5 else nm if nm.upper() == want else want
                        if key.upper() != want:
                            key = '"%s"' % want
                    else:
                        key = '"%s"' % want
                out[key] = value()
            for _ in range(self.scale(.01) or r.choice([0, 0, 1, 2])):
                k = r.choice(["zz", "unused", "q", "y1"]) if r.random() < .6 else self.other_key(cfg)
                if k == k and cfg.ins == "named_oracle" and k.strip('"').upper() in seen:
                    continue
                if cfg.ins != "named_oracle" or k.upper() not in seen:
                    out.setdefault(k, value())
            items = list(out.items())
            r.shuffle(items)
            if not full and items:
                items.pop()
            return self.mapping(dict(items))
        if cfg.ki == "numeric":
            need = [int(s[1]) for s in segs]
            top = max(need, default=0)
            base = 1
        else:
            need = list(range(len(segs)))
            top = len(segs)
            base = 0
        kind = kind or r.choice(["seq", "seq", "map"])
        if kind == "seq":
            n = top + (self.scale(.01) or r.choice([0, 0, 1, 2, 2, 15]))
            if not full:
                n = max(0, top - 1)
            vals = [value() for _ in range(n)]
            x = r.random()
            return vals if x < .5 else tuple(vals) if x < .85 else Seq(vals) if x < .95 else collections.deque(vals)
        d = {}
        for k in dict.fromkeys(need):
            d[k if r.random() < .6 else str(k)] = value()
        if not full and d:
            d.pop(r.choice(list(d)))
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.choice([top + 3, str(top + 4), "x", "²", "", None, 1.5, "-1", "x1", ("t",), b"ab", "a b", " 1", "1 ", "+1", "1_0", "0x1", "1.0"])
            d.setdefault(k, value())
        items = list(d.items())
        r.shuffle(items)
        return self.mapping(dict(items))

    def other_key(self, cfg):
        """A key no placeholder can refer to."""
        r = self.r
        ks = ["", " ", "a b", "x y", " a", "a ", "1", "a-b", ":a", "a.b", "é", "a\u0301", "@q", "%(a)s", "zz__0_sqlp", "a" * 300, "\x00", "\n"]
        if cfg.ins == "named_oracle":
            return r.choice([k for k in ks if k] + ['"a b"', '""zz""', '"zz"', 'z"z', '"1"', '" "', '"."'])
        return r.choice(ks + [None, 1, 0, -1, 1.5, ("k",), ("a", 0), b"a", True, '"a"', '"'])

    def mapping(self, d):
        x = self.r.random()
        return d if x < .8 else Map(d) if x < .9 else collections.OrderedDict(d) if x < .95 else collections.UserDict(d)

    def warm(self, cfg, case):
        """Earlier calls on the same instance (sometimes)."""
        r = self.r
        if r.random() < .12:
            ws = []
            for _ in range(r.choice([1, 1, 2])):
                names = self.names(cfg)
                sql = self.sql(cfg, names) if r.random() < .6 else case["sql"]
                full = r.random() < .8
                if isinstance(sql, bytes):
                    sql = sql.decode("latin1")
                if r.random() < .5:
                    ws.append(dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names, full=full)))
                else:
                    ws.append(dict(cfg=cfg, sql=sql, rows=self.rows(cfg, sql, names)))
            case["warm"] = ws
        return case

    def reshape(self, v):
        """Another value of the same shape (tuple-ness and length)."""
        if isinstance(v, tuple):
            return tuple(self.nt() for _ in v)
        return self.nt()

    def nt(self):
        while True:
            v = self.value(2)
            if not isinstance(v, tuple):
                return v

    def like(self, params, value):
        """A parameter set with the same keys."""
        if spec.is_map(params):
            return self.mapping({k: value(params[k]) for k in params})
        vals = [value(v) for v in params]
        return vals if self.r.random() < .5 else tuple(vals)

    def as_map(self, cfg, seq):
        base = 1 if cfg.ki == "numeric" else 0
        items = [((i + base) if self.r.random() < .5 else str(i + base), v) for i, v in enumerate(seq)]
        if self.r.random() < .4:
            items.append((self.r.choice(["x", "²", "", "a1", "-1", None, 1.5, "x_", ("k",), "①"]), Val("junk")))
        self.r.shuffle(items)
        return self.mapping(dict(items))

    def rows(self, cfg, sql, names, n=None, same_shape=True, kind=None):
        r = self.r
        n = n or self.scale() or r.choice([1, 2, 2, 3, 4, 7])
        first = self.params(cfg, sql, names, kind=kind)
        out = [first]
        for _ in range(n - 1):
            p = self.like(first, self.reshape)
            if cfg.ki != "named" and not spec.is_map(p) and r.random() < .4:
                p = self.as_map(cfg, p)
            out.append(p)
        return out

    # -------------------------------------------------------- per property
    def base(self, cfg=None, **kw):
        cfg = cfg or self.cfg(**kw)
        names = self.names(cfg)
        sql = self.sql(cfg, names)
        return cfg, names, sql

    def C01(self):
        cfg, names, sql = self.base()
        if self.r.random() < .15:
            cfg.strip = True
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    C04 = C01

    def C02(self):
        cfg, names, sql = self.base(escape=self.r.choice([None, False, ""]))
        if self.r.random() < .3:
            return dict(cfg=cfg, sql=sql, rows=self.rows(cfg, sql, names))
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    def C03(self):
        cfg, names, sql = self.base()
        p = self.params(cfg, sql, names)
        shape_matters = cfg.exp
        q = self.like(p, self.reshape if shape_matters or self.r.random() < .5 else (lambda v: self.value()))
        return dict(cfg=cfg, sql=sql, params=p, params2=q, same=self.r.random() < .5)

    def C05(self):
        cfg, names, sql = self.base()
        return self.warm(cfg, dict(cfg=cfg, sql=sql, rows=self.rows(cfg, sql, names), iter=self.r.random() < .4))

    def C06(self):
        r = self.r
        cfg = self.cfg()
        cfg.expand = True if KIND[cfg.outs] == "named" or r.random() < .5 else None
        names = self.names(cfg)
        sql = self.sql(cfg, names)
        rows = self.rows(cfg, sql, names, n=r.choice([2, 2, 3, 4, 6]))
        i = r.randrange(1, len(rows))
        row = rows[i]
        keys = [k for k in row if isinstance(row[k], tuple)] if spec.is_map(row) else \
            [j for j, v in enumerate(row) if isinstance(v, tuple)]
        if keys:
            k = r.choice(keys)
            n = len(row[k])
            new = r.choice([self.nt(), tuple(r.choice(self.vals) for _ in range(r.choice([0, n + 1, max(0, n - 1), n + 2, 1, 2 * n]))),
                            [1] * n, None, "x" * n, Seq([1] * n), {"a": 1}])
            if spec.is_map(row):
                row = {x: row[x] for x in row}
                row[k] = new
            else:
                row = list(row)
                row[k] = new
            rows[i] = row
        return self.warm(cfg, dict(cfg=cfg, sql=sql, rows=rows))

    def C07(self):
        cfg = self.cfg(outs=self.r.choice(["numeric", "numeric_dollar"]))
        cfg, names, sql = self.base(cfg)
        if self.r.random() < .2:
            rows = self.rows(cfg, sql, names)
            return dict(cfg=cfg, sql=sql, rows=rows, params=rows[0])
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    def C08(self):
        cfg, names, sql = self.base()
        if self.r.random() < .1:
            sql = self.sql(cfg, names).replace(MARK[cfg.ins], "")
        if self.r.random() < .3:
            rows = self.rows(cfg, sql, names)
            return dict(cfg=cfg, sql=sql, rows=rows, params=rows[0])
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    def C09(self):
        r = self.r
        ins = r.choice(STYLES)
        esc = r.choice([None, True, True, True, MARK[ins], "\\", "!", "^", "a", ".", "%", "[", "é", "]", "-", "_", "1", " ", "\n", "(", "s", '"'])
        if r.random() < .35:
            esc = chr(r.randrange(1, 128)) if r.random() < .9 else chr(r.randrange(128, 1024))
        cfg = self.cfg(ins=ins, escape=esc)
        names = self.names(cfg)
        c, m = cfg.esc or MARK[ins], MARK[ins]
        parts = [c, m, c + m, c + c + m, m + m, c + m + m, " ", "x", "s", "1", "a", ")", "(a)s"]
        sql = "".join(r.choice(parts) if r.random() < .7 else self.placeholder(ins, names) for _ in range(r.randrange(1, 9)))
        if r.random() < .2:
            sql = self.sql(cfg, names)
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    def C10(self):
        r = self.r
        cfg = self.cfg(outs=r.choice(["format", "pyformat"]) if r.random() < .7 else None, escape=r.choice([None, None, True, "!", "\\"]))
        names = self.names(cfg)
        sql = "".join(r.choice(["%", "%", "%%", "%s", "%(a)s", " ", "x", "5%", "5 % ", "':%'", "\n"]) if r.random() < .6 else
                      self.placeholder(cfg.ins, names) for _ in range(r.randrange(1, 8)))
        if r.random() < .3:
            sql = self.sql(cfg, names)
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    def C11(self):
        r = self.r
        cfg, names, sql = self.base(strip=r.choice([None, None, True]))
        if r.random() < .06:
            return dict(cfg=cfg, sql=r.choice([None, 5, bytearray(b"x"), memoryview(b"x"), ["x"], ("x",), object(), 1.0]),
                        **({"params": [] if cfg.ki != "named" else {}} if r.random() < .5 else
                           {"rows": [[] if cfg.ki != "named" else {}]}))
        sql = "".join(ch if ord(ch) < 256 else r.choice("\x80\xa0é\xff\x85") for ch in sql)
        if r.random() < .5:
            i = r.randrange(len(sql) + 1)
            sql = sql[:i] + (r.choice(["\x80", "\xa0", "\xe9", "\xff", "\x85", "\x00", "\x1c", "\xc3\xa9"]) if r.random() < .5 else chr(r.randrange(256))) + sql[i:]
        many = r.random() < .4
        rows = self.rows(cfg, sql, names)
        b = sql.encode("latin1") if r.random() < .85 else sql
        return self.warm(cfg, dict(cfg=cfg, sql=b, **({"rows": rows} if many else {"params": rows[0]})))

    def comment_styles(self):
        r = self.r
        x = r.random()
        if x < .5:
            return True
        if x < .55:
            return r.choice([None, False, [], ()])
        pool = ["--", "#", "//", ";", "rem", ".", "*", "\\", "^", "[", "- -", ("/*", "*/"), ("{", "}"), ("<!--", "-->"),
                ("(*", "*)"), ("'''", "'''"), ["/*", "*/"], ("#", "#"), ("--[[", "]]"), ("begin", "end"), ("*", "*")]
        return [r.choice(pool) for _ in range(r.randrange(1, 4))]

    def C12(self):
        r = self.r
        cfg = self.cfg(strip=self.comment_styles())
        names = self.names(cfg)
        toks = [" ", "\t", "\n", "\n", "\r\n", "\r", "x", " ", "\x0b", "\x0c", "\xa0", "\u2028", "\x85", "'", "--", "/*", "*/"]
        for c in cfg.comments or ("--",):
            toks += [c] * 3 if isinstance(c, str) else list(c) * 3
            for m in ((c,) if isinstance(c, str) else c):
                # what resembles the marker: other case, doubled, cut short, split by a blank
                toks.append(r.choice([m.swapcase(), m + m, m[:-1], m[1:], " ".join(m), m[::-1], "\\" + m]))
        parts = []
        for _ in range(r.randrange(1, 14)):
            parts.append(self.placeholder(cfg.ins, names) if r.random() < .12 else
                         r.choice(self.strs) if self.strs and r.random() < .03 else r.choice(toks))
        k = self.scale(.05)
        if k:
            parts = parts[:6] * (k // 2 + 1) if r.random() < .5 else [r.choice([cfg.comments[0] if cfg.comments and isinstance(cfg.comments[0], str) else "--", "x"]) + "\n"] * k
        sql = "".join(parts)
        rows = self.rows(cfg, sql, names)
        bytes_ = r.random() < .25
        if r.random() < .15:
            return dict(cfg=cfg, sql=sql, rows=rows, bytes=bytes_)
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=rows[0], bytes=bytes_))

    def C13(self):
        r = self.r
        cfgs = [self.cfg() for _ in range(r.choice([1, 1, 2]))]
        if len(cfgs) == 2 and r.random() < .6:
            # differ in one option only
            c = cfgs[0]
            cfgs[1] = Cfg(c.ins, c.outs, c.escape, c.expand, c.strip, c.quotes)
            x = r.randrange(4)
            if x == 0:
                cfgs[1].expand = not c.exp
            elif x == 1:
                cfgs[1].outs = r.choice(STYLES)
            elif x == 2:
                cfgs[1].escape = r.choice([None, True, "!"])
            else:
                cfgs[1].strip = True
        steps, prev = [], None
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            cfg = r.choice(cfgs)
            if prev is not None and prev[0].ins == cfg.ins and r.random() < .5:
                names, sql = prev[1], prev[2]
            else:
                names = self.names(cfg)
                sql = self.sql(cfg, names)
            prev = (cfg, names, sql)
            q = sql
            if r.random() < .1:
                q = sql.encode("latin1", "replace")
            full = r.random() < .85
            if r.random() < .6:
                steps.append(dict(cfg=cfg, sql=q, params=self.params(cfg, sql, names, full=full)))
            else:
                rows = self.rows(cfg, sql, names)
                if not full:
                    rows.append(self.params(cfg, sql, names, full=False))
                steps.append(dict(cfg=cfg, sql=q, rows=rows, iter=r.random() < .3))
        return dict(steps=steps, ref=r.random() < .5)

    def C14(self):
        r = self.r
        cfg, names, sql = self.base()
        x = r.random()
        if x < .2:
            bad = r.choice([None, 5, "ab", b"ab", object(), {"a", "b"}, iter([1]), 1.5, (x for x in ()).__class__])
            if cfg.ki == "named" and r.random() < .5:
                bad = r.choice([[1, 2], (1,), ("a",), Seq([1]), range(3)])
            if r.random() < .5:
                return dict(cfg=cfg, sql=sql, params=bad)
            rows = self.rows(cfg, sql, names)
            rows.insert(r.randrange(0, len(rows) + 1), bad)
            return dict(cfg=cfg, sql=sql, rows=rows)
        if x < .35 and cfg.ki == "numeric":
            sql = sql + " " + MARK[cfg.ins] + r.choice(["0", "00", "٠", "99", "0"])
            p = self.params(cfg, sql, names)
            if not spec.is_map(p) and "99" in sql:
                p = list(p)[:98]
            if r.random() < .4:
                p2 = self.rows(cfg, sql, names)
                return dict(cfg=cfg, sql=sql, rows=p2)
            return dict(cfg=cfg, sql=sql, params=p)
        if x < .55:
            if r.random() < .5:
                return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names, full=False)))
            rows = self.rows(cfg, sql, names, n=r.choice([2, 3, 5]))
            i = r.randrange(len(rows))
            p = rows[i]
            if spec.is_map(p):
                if len(p):
                    k = r.choice(list(p))
                    rows[i] = {q: p[q] for q in p if q is not k}
            elif len(p):
                rows[i] = list(p)[:-1]
            return dict(cfg=cfg, sql=sql, rows=rows)
        return self.warm(cfg, dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names)))

    def C15(self):
        r = self.r
        if r.random() < .7:
            cfg = self.cfg(ins="named_oracle")
        else:
            cfg = self.cfg(outs="named_oracle" if r.random() < .8 else None)
            cfg.quotes = r.choice([True, True, False, None])
        names = self.names(cfg)
        if cfg.ki == "named":
            names = names + [n.upper() for n in names[:1]] + [n.lower() for n in names[:1]] + [n.title() for n in names[:1]]
        sql = self.sql(cfg, names)
        p = self.params(cfg, sql, names)
        if cfg.ins == "named_oracle":
            d = {}
            for k in p:
                x = r.random()
                if x < .2:
                    d[k.lower()] = p[k]
                elif x < .3:
                    d[k.swapcase()] = p[k]
                elif x < .4:
                    d['"%s"' % k.strip('"')] = p[k]
                elif x < .45:
                    d[k.strip('"')] = p[k]
                elif x < .48:
                    d['"%s' % k.strip('"')] = p[k]
                elif x < .51:
                    d['%s"' % k.strip('"')] = p[k]
                elif x < .55:
                    d[r.choice(['""%s""', '"%s""', '""%s"', '"%s"""', '" %s"', '"%s "']) % k.strip('"')] = p[k]
                else:
                    d[k] = p[k]
            if r.random() < .05:
                d['"'] = 1
            if r.random() < .05:
                d[""] = 1
            items = list(d.items())
            r.shuffle(items)
            p = dict(items)
        return dict(cfg=cfg, sql=sql, params=p)

    def C16(self):
        r = self.r
        cfg = self.cfg(ins=r.choice(["numeric", "numeric_dollar", "format", "qmark"]))
        names = self.names(cfg)
        sql = self.sql(cfg, names)
        if r.random() < .35:
            rows = [list(p) for p in self.rows_seq(cfg, sql, names)]
            return dict(cfg=cfg, sql=sql, rows=rows, rows2=[self.as_map(cfg, p) if r.random() < .7 else tuple(p) for p in rows])
        p = self.params(cfg, sql, names, kind="seq")
        return dict(cfg=cfg, sql=sql, params=p, params2=self.as_map(cfg, p))

    def rows_seq(self, cfg, sql, names):
        first = self.params(cfg, sql, names, kind="seq")
        return [first] + [[self.reshape(v) for v in first] for _ in range(self.r.choice([0, 1, 2, 3]))]

    def C17(self):
        r = self.r
        cfg = self.cfg(escape=None)
        cfg.expand = r.choice([False, None])
        names = self.names(cfg)
        m = MARK[cfg.ins]
        if r.random() < .6:
            pool = [m, m, m, m + m, "s", "1", "0", "a", "b", "_", "é", "²", "٣", "ª", " ", "?", "(", ")", ")s", "(a)s", "(a)", '"', "\n",
                    "a1", "-", "'", ":", "%", "$", "@", "x", "\u0301", "①", "\x00", "A", "Z", "[", "`", "{", "^", "K", "ſ", "İ"]
            sql = "".join(r.choice(pool) for _ in range(r.randrange(1, 8)))
            if self.strs and r.random() < .1:
                sql += r.choice(self.strs)
        else:
            sql = self.sql(cfg, names)
        it = (Val(100 + i) for i in itertools.count())
        return dict(cfg=cfg, sql=sql, params=self.params(cfg, sql, names, value=lambda: next(it)))

    def C18(self):
        r = self.r
        sty = STYLES + ["x", "", "Named", "NUMERIC", None, 5, b"named", ["named"], "named "]
        a = [r.choice(STYLES) if r.random() < .85 else r.choice(sty), r.choice(STYLES) if r.random() < .85 else r.choice(sty),
             r.choice([None, None, True, False, "", "!", "\\", "ab", "%", 0, 1, 2, 1.0, 0.0, b"x", b"", [], [1], ("!",), object()]),
             r.choice([None, True, False, 0, 1, "", "x", [], [0], 2, 0.0]),
             r.choice([None, True, False, [], ["--"], ["#", ("/*", "*/")], ("--",), [("a", "b")], [["a", "b"]], [5], [None], ["--", 5],
                       [b"--"], "--", "#", [("/*", "*/"), 3], [{"a": 1}]]),
             r.choice([None, True, False, 0, 1, "x"])]
        if self.strs and r.random() < .1:
            a[2] = r.choice(self.strs)
        return dict(args=a)


# ----------------------------------------------------------------- running
class Stuck(BaseException):
    """A single case did not end."""


def _stuck(*a):
    raise Stuck()


def judge(pid, case, S):
    """A message if the case breaks the property, "" or None if it does not or is not in its domain."""
    import signal
    try:
        signal.signal(signal.SIGALRM, _stuck)
        signal.setitimer(signal.ITIMER_REAL, 30)
        return oracles.ORACLES[pid](S, case)
    except (RecursionError, MemoryError, pickle.PicklingError):
        return None
    except Stuck:
        return "no result after 30 s"
    except Exception as e:
        # every case is a valid configuration: the constructor must not fail, nor the result be malformed
        return "the conversion cannot be judged: %r" % (e,)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def fresh_judge(pid, case):
    oracles.FRESH = loader.fresh_class
    for st in case.get("steps", ()):
        st.pop("_frozen", None)
    try:
        # a copy: the code under test may change what it is given
        case = pickle.loads(pickle.dumps(case))
    except Exception:
        pass
    return judge(pid, case, loader.fresh_class())


def shrink(pid, case, seconds=3.0):
    end = time.time() + seconds
    import copy as cp

    def bad(c):
        try:
            return bool(fresh_judge(pid, c))
        except Exception:
            return False
    if "warm" in case:
        c = {k: v for k, v in case.items() if k != "warm"}
        if bad(c):
            case = c
    if "steps" in case:
        i = 0
        while i < len(case["steps"]) and time.time() < end:
            c = dict(case, steps=case["steps"][:i] + case["steps"][i + 1:])
            if c["steps"] and bad(c):
                case = c
            else:
                i += 1
        return case
    if isinstance(case.get("sql"), (str, bytes)):
        n = max(1, len(case["sql"]) // 2)
        while n and time.time() < end:
            i = 0
            while i < len(case["sql"]) and time.time() < end:
                c = dict(case, sql=case["sql"][:i] + case["sql"][i + n:])
                if bad(c):
                    case = c
                else:
                    i += n
            n //= 2
    for f in ("params", "params2"):
        if f in case and isinstance(case[f], dict) and "params2" not in case:
            for k in list(case[f]):
                if time.time() > end:
                    break
                d = {x: y for x, y in case[f].items() if x != k or type(x) is not type(k)}
                c = dict(case, **{f: d})
                if bad(c):
                    case = c
    if "rows" in case and "rows2" not in case and "params" not in case:
        i = 0
        while i < len(case["rows"]) and len(case["rows"]) > 1 and time.time() < end:
            c = dict(case, rows=case["rows"][:i] + case["rows"][i + 1:])
            if bad(c):
                case = c
            else:
                i += 1
    return case


def _known(pid, case, msg, known):
    return any(k(pid, case, msg) for k in known)


def _worker(args):
    pid, seed, seconds, hints, known_on, limit = args
    from . import known as kn
    oracles.FRESH = loader.fresh_class
    S = loader.fresh_class()
    g = Gen(seed, hints)
    gen = getattr(g, pid)
    end = time.time() + seconds
    n = judged = 0
    shapes = set()
    knownhits = {}
    samples = []
    while n < limit:
        if n % 16 == 0 and time.time() > end:
            break
        n += 1
        state = g.r.getstate()
        case = gen()
        r = judge(pid, case, S)
        if r is None:
            continue
        judged += 1
        if judged % 997 == 1 and len(samples) < 3:
            samples.append(describe(case))
        if len(shapes) < 200000:
            c = case.get("cfg")
            shapes.add(hash((c.key() if c else None, repr(case.get("sql")), repr(case.get("args")), repr(case.get("params"))[:200],
                             repr(case.get("rows"))[:200], len(case.get("steps", ())) and
                             repr([(s["cfg"].key(), s["sql"]) for s in case["steps"]]))))
        if r:
            f = kn.match(pid, case, r)
            if f:
                knownhits[f] = knownhits.get(f, 0) + 1
                continue
            after = g.r.getstate()
            g.r.setstate(state)
            again = gen()      # the case as it was before the code under test saw it
            g.r.setstate(after)
            if fresh_judge(pid, again):
                case = again
            if case is again or fresh_judge(pid, case):
                try:
                    case = shrink(pid, case)
                    r2 = fresh_judge(pid, case) or r
                except Exception:
                    r2 = r
                return dict(n=n, judged=judged, distinct=len(shapes), known=knownhits, samples=samples,
                            found=(pickle.dumps(strip_frozen(case)), r2))
            # judged differently in a fresh state: the process state was polluted
            S = loader.fresh_class()
    return dict(n=n, judged=judged, distinct=len(shapes), known=knownhits, samples=samples, found=None)


def strip_frozen(case):
    for st in case.get("steps", ()):
        st.pop("_frozen", None)
    return case


def describe(case):
    d = {}
    for k, v in case.items():
        d[k] = repr([{a: b for a, b in s.items() if a != "_frozen"} for s in v])[:600] if k == "steps" else repr(v)[:400]
    return d


def search(pid, seconds, seed, procs=None, hints=None, limit=10 ** 9):
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = get_context("fork")
    jobs = [(pid, "%s/%s/%d" % (seed, pid, i), seconds, hints, True, limit) for i in range(procs)]
    tot = dict(n=0, judged=0, distinct=0, known={}, found=None, samples=[])
    with ctx.Pool(procs) as pool:
        for r in pool.imap_unordered(_worker, jobs):
            for k in ("n", "judged", "distinct"):
                tot[k] += r[k]
            for k, v in r["known"].items():
                tot["known"][k] = tot["known"].get(k, 0) + v
            tot["samples"] = (tot["samples"] + r["samples"])[:4]
            if r["found"] and not tot["found"]:
                tot["found"] = (pickle.loads(r["found"][0]), r["found"][1])
                pool.terminate()
                break
    return tot


# ------------------------------------------------------------------ replay
def write_replay(path, pid, case, msg, extra=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(property=pid, message=msg, case=describe(case),
                       pickle=base64.b64encode(pickle.dumps(strip_frozen(case))).decode(),
                       replay="cd /verif && python3-vt -m vf.check --replay %s" % path, **(extra or {})), f, indent=1)


def replay(path):
    d = json.load(open(path))
    if "pickle" not in d:
        print(json.dumps(d, indent=1))
        return 1
    case = pickle.loads(base64.b64decode(d["pickle"]))
    r = fresh_judge(d["property"], case)
    print(d["property"], describe(case))
    print("->", r if r else "holds")
    return 1 if r else 0
