"""Executable reading of the properties, independent of the code in /repo.

Used (a) to judge concrete runs of the real code (witness search, replay, the
CPython cross-check of the symbolic summaries) and (b) as the source of the
specification regexes and spec functions of the proof obligations.
Nothing in here imports or copies code of /repo.
"""
import re

STYLES = ["format", "named", "named_dollar", "named_oracle", "named_sqlserver",
          "numeric", "numeric_dollar", "pyformat", "qmark"]
KIND = {"format": "ordinal", "qmark": "ordinal", "numeric": "numeric", "numeric_dollar": "numeric",
        "named": "named", "named_dollar": "named", "named_oracle": "named", "named_sqlserver": "named",
        "pyformat": "named"}
MARK = {"format": "%", "qmark": "?", "numeric": ":", "numeric_dollar": "$", "named": ":",
        "named_dollar": "$", "named_oracle": ":", "named_sqlserver": "@", "pyformat": "%"}
DEFAULT_COMMENTS = (("/*", "*/"), "--")
RESERVED = re.compile(r".*__[0-9]+_sqlp", re.S)


class Cfg:
    """One configuration of SQLParams (constructor arguments)."""
    __slots__ = ("ins", "outs", "escape", "expand", "strip", "quotes")

    def __init__(self, ins, outs, escape=None, expand=None, strip=None, quotes=None):
        self.ins, self.outs, self.escape, self.expand, self.strip, self.quotes = ins, outs, escape, expand, strip, quotes

    def kw(self):
        d = {}
        if self.escape is not None:
            d["escape_char"] = self.escape
        if self.expand is not None:
            d["expand_tuples"] = self.expand
        if self.strip is not None:
            d["strip_comments"] = self.strip
        if self.quotes is not None:
            d["allow_out_quotes"] = self.quotes
        return d

    def make(self, SQLParams):
        return SQLParams(self.ins, self.outs, **self.kw())

    def key(self):
        return (self.ins, self.outs, self.escape, self.expand, repr(self.strip), self.quotes)

    def __repr__(self):
        return "SQLParams(%r, %r%s)" % (self.ins, self.outs, "".join(", %s=%r" % p for p in self.kw().items()))

    # ---- resolved options (as documented)
    @property
    def esc(self):
        if self.escape is True:
            return MARK[self.ins]
        return self.escape or None

    @property
    def exp(self):
        if self.expand is None:
            return KIND[self.outs] != "named"
        return bool(self.expand)

    @property
    def comments(self):
        if self.strip is True:
            return DEFAULT_COMMENTS
        return self.strip or ()

    @property
    def pct(self):
        return MARK[self.outs] == "%" and MARK[self.ins] != "%"

    @property
    def ki(self):
        return KIND[self.ins]

    @property
    def ko(self):
        return KIND[self.outs]

    @property
    def oq(self):
        return self.outs == "named_oracle" and bool(self.quotes)


def _word(c):
    return c == "_" or c.isalnum()


def _start(c):
    return c == "_" or ("a" <= c <= "z") or ("A" <= c <= "Z")


def _ident(sql, i):
    """End of the identifier starting at i, or -1."""
    if i >= len(sql) or not _start(sql[i]):
        return -1
    j = i + 1
    while j < len(sql) and _word(sql[j]):
        j += 1
    return j


def placeholder_at(style, sql, i):
    """(end, key, quoted) of the placeholder of the style at i, or None."""
    m = MARK[style]
    if sql[i] != m or (i > 0 and sql[i - 1] == m):
        return None
    if style == "format":
        return (i + 2, None, False) if sql[i + 1:i + 2] == "s" else None
    if style == "qmark":
        return (i + 1, None, False) if sql[i + 1:i + 2] != "?" else None
    if KIND[style] == "numeric":
        j = i + 1
        while j < len(sql) and sql[j].isdecimal():
            j += 1
        return (j, sql[i + 1:j], False) if j > i + 1 else None
    if style == "pyformat":
        if sql[i + 1:i + 2] != "(":
            return None
        j = _ident(sql, i + 2)
        return (j + 2, sql[i + 2:j], False) if j >= 0 and sql[j:j + 2] == ")s" else None
    if style == "named_oracle" and sql[i + 1:i + 2] == '"':
        j = _ident(sql, i + 2)
        return (j + 1, sql[i + 2:j], True) if j >= 0 and sql[j:j + 1] == '"' else None
    j = _ident(sql, i + 1)
    return (j, sql[i + 1:j], False) if j >= 0 else None


def scan(cfg, sql):
    """Segments of a (comment-stripped) query:
    ('t', text) | ('pct', '%') | ('esc', raw, literal) | ('par', key, quoted, raw)."""
    out, i, t, m = [], 0, 0, MARK[cfg.ins]
    esc = cfg.esc

    def flush():
        if t < i:
            out.append(("t", sql[t:i]))
    n = len(sql)
    while i < n:
        c = sql[i]
        if esc and sql.startswith(esc + m, i):
            flush()
            out.append(("esc", esc + m, m))
            i += len(esc) + 1
            t = i
            continue
        if cfg.pct and c == "%":
            flush()
            out.append(("pct", "%"))
            i += 1
            t = i
            continue
        if c == m:
            p = placeholder_at(cfg.ins, sql, i)
            if p:
                flush()
                out.append(("par", p[1], p[2], sql[i:p[0]]))
                i = t = p[0]
                continue
        i += 1
    flush()
    return out


def strip_one(style, sql):
    """Remove the comments of one style (C12), from the definition."""
    out, i, n = [], 0, len(sql)
    while i < n:
        if i == 0 or sql[i - 1] == "\n":
            j = i
            while j < n and sql[j] in " \t":
                j += 1
            if isinstance(style, str):
                # leading blanks may themselves start the marker
                if any(sql.startswith(style, p) for p in range(i, j + 1)):
                    e = sql.find("\n", i)
                    i = n if e < 0 else e + 1
                    continue
            else:
                start, end = style
                for p in range(j, i - 1, -1):
                    if sql.startswith(start, p):
                        e = sql.find(end, p + len(start))
                        if e >= 0:
                            e += len(end)
                            if sql.startswith("\r\n", e):
                                e += 2
                            elif sql.startswith("\n", e):
                                e += 1
                            break
                else:
                    e = -1
                if e >= 0:
                    i = e
                    continue
        out.append(sql[i])
        i += 1
    return "".join(out)


def strip(cfg, sql):
    for style in cfg.comments:
        sql = strip_one(style, sql)
    return sql


def is_seq(p):
    from collections.abc import Sequence
    return isinstance(p, Sequence) and not isinstance(p, (str, bytes))


def is_map(p):
    from collections.abc import Mapping
    return isinstance(p, Mapping)


def oracle_key(k):
    """Normal form of an Oracle parameter key; raises KeyError if unbalanced."""
    if len(k) > 1 and k[0] == '"' and k[-1] == '"':
        return k[1:-1]
    if k and (k[0] == '"' or k[-1] == '"'):
        raise KeyError(k)
    return k.upper()


def well_formed_oracle(k):
    if not isinstance(k, str):
        return False
    try:
        oracle_key(k)
    except KeyError:
        return False
    return True


class Missing(Exception):
    pass


class Ambiguous(Exception):
    pass


def number_key(k):
    """Number a mapping key stands for, or None (integers and decimal digits)."""
    if isinstance(k, int):
        return int(k)
    if isinstance(k, str) and k and all(c.isdecimal() for c in k):
        return int(k)
    if isinstance(k, bytes) and k and k.isdigit():
        return int(k)
    return None


def resolve(cfg, params, key, quoted, ordinal):
    """(identity of the parameter, value) that one placeholder denotes."""
    if cfg.ki == "named":
        if cfg.ins == "named_oracle":
            want = key if quoted else key.upper()
            hits = [k for k in params if oracle_key(k) == want]
            if not hits:
                raise Missing(key)
            if len(hits) > 1:
                raise Ambiguous(key)
            return want, params[hits[0]]
        try:
            return key, params[key]
        except KeyError:
            raise Missing(key)
    base = 1 if cfg.ki == "numeric" else 0
    num = int(key) if cfg.ki == "numeric" else ordinal
    if is_map(params):
        hits = [k for k in params if number_key(k) == num]
        if not hits:
            raise Missing(num)
        if len(hits) > 1:
            raise Ambiguous(num)
        return num, params[hits[0]]
    if not 0 <= num - base < len(params):
        raise Missing(num)
    return num, params[num - base]


def usable_container(cfg, params):
    return is_map(params) if cfg.ki == "named" else (is_seq(params) or is_map(params))


def denote(cfg, sql, params):
    """For each placeholder of the (stripped) query: (identity, value, expanded, slots)."""
    out, n = [], 0
    for s in scan(cfg, sql):
        if s[0] == "par":
            ident, v = resolve(cfg, params, s[1], s[2], n)
            n += 1
            ex = cfg.exp and isinstance(v, tuple)
            out.append((ident, v, ex, list(v) if ex else [v]))
    return out


# ------------------------------------------------------------ output side
# what the upper-case forms of identifiers contain besides word characters (e.g. of U+01F0)
MARKS = "".join(sorted({d for c in map(chr, range(0x80, 0x3000)) if _word(c) for d in c.upper() if not _word(d)}))


def _name_re(cfg):
    if cfg.ko == "numeric":
        return r"[0-9]+"
    w = r"[\w%s]+" % MARKS if cfg.ins == "named_oracle" else r"\w+"
    if cfg.outs == "named_oracle":
        return r'(?:"(?:[^"]|"")*"|%s)' % w
    return w


def gen_re(cfg, group=True):
    """Regex of one generated placeholder."""
    o = cfg.outs
    if cfg.ko == "ordinal":
        return re.escape("%s" if o == "format" else "?")
    n = _name_re(cfg)
    n = "(%s)" % n if group else n
    if o == "pyformat":
        return r"%%\(%s\)s" % n
    return re.escape(MARK[o]) + n


def out_form_re(cfg):
    p = gen_re(cfg, group=False)
    return r"(?:\(NULL\)|\(%s(?:,%s)*\)|%s)" % (p, p, p)


def align(cfg, segs, out_sql, pct="strict", esc="strict"):
    """Texts of the replacements of the placeholders, or None if the converted
    query does not consist of the kept text with one replacement per placeholder."""
    pat = []
    for s in segs:
        if s[0] == "t":
            pat.append(re.escape(s[1]))
        elif s[0] == "pct":
            pat.append("%%" if pct == "strict" else "%%?")
        elif s[0] == "esc":
            pat.append(re.escape(s[2]) if esc == "strict" else "(?:%s|%s)" % (re.escape(s[2]), re.escape(s[1])))
        else:
            pat.append("(" + out_form_re(cfg) + ")")
    m = re.fullmatch("".join(pat), out_sql, re.S)
    return None if m is None else list(m.groups())


def unambiguous(cfg, segs):
    """No kept text directly after a placeholder can extend a generated name."""
    if cfg.ko == "ordinal" or cfg.outs == "pyformat":
        return True
    for a, b in zip(segs, segs[1:]):
        if a[0] == "par" and b[0] == "t" and (_word(b[1][0]) or b[1][0] in MARKS or b[1][0] == '"'):
            return False
    return True


def refs(cfg, repl):
    """Out-references of one replacement: names, numbers, or None per ordinal slot."""
    if repl == "(NULL)":
        return []
    g = re.compile(gen_re(cfg))
    body = repl[1:-1] if repl.startswith("(") else repl
    out, i = [], 0
    while True:
        m = g.match(body, i)
        if not m:
            return out
        out.append(m.group(1) if g.groups else None)
        i = m.end()
        if body[i:i + 1] == ",":
            i += 1


def shape(repl):
    return "null" if repl == "(NULL)" else "tuple" if repl.startswith("(") else "one"
