"""Decision procedure for equality of two regexes as backtracking matchers.

equiv(p1, p2): for every string s and every position i, `p1.match(s, i)` (with
the characters before i visible to look-behinds) and `p2.match(s, i)` succeed
alike, with the same end and the same spans of the compared groups.  Since
search/sub/finditer are determined by the match function, the two patterns then
produce the same tokens on every string.

Method: both patterns are compiled to prioritised threads (Pike VM: ordered
threads with capture registers); the two machines are run in lockstep over the
minterms of the character sets that occur in them; the reachable joint states
(with capture positions canonicalised to their order) are finite and explored
exhaustively.  A difference yields a shortest distinguishing string.
"""
import re
import re._parser as sp
import re._compiler as sc
import re._constants as C
from collections import deque

import numpy as np

MAXCP = 0x110000
_ALL = None


class Unsupported(Exception):
    pass


def _all():
    global _ALL
    if _ALL is None:
        _ALL = "".join(map(chr, range(MAXCP)))
    return _ALL


_set_cache = {}


def charset(node, state_flags):
    """Boolean membership vector (numpy) of a single-character sre node."""
    key = (repr(node), state_flags & (re.I | re.A | re.S | re.U))
    r = _set_cache.get(key)
    if r is None:
        st = sp.State()
        st.flags = state_flags
        sub = sp.SubPattern(st, [node])
        pat = sc.compile(sub, state_flags & ~re.DEBUG)
        r = np.zeros(MAXCP, dtype=bool)
        idx = np.fromiter((m.start() for m in pat.finditer(_all())), dtype=np.int64)
        r[idx] = True
        _set_cache[key] = r
    return r


# ------------------------------------------------------------- compilation
# instructions: ("char", setid) ("split", a, b) ("jmp", a) ("save", slot)
#               ("prev", setid, neg) ("next", setid, neg) ("bol",) ("bot",) ("eot",) ("eol",) ("match",)
class Prog:
    def __init__(self, pattern, flags=0, sets=None):
        if isinstance(pattern, re.Pattern):
            pattern, flags = pattern.pattern, pattern.flags
        self.sets = sets if sets is not None else {}
        tree = sp.parse(pattern, flags)
        self.flags = tree.state.flags
        self.groups = dict(tree.state.groupdict)
        self.ngroups = tree.state.groups
        self.code = []
        self.const = {}
        self._seq(self._expand(list(tree)))
        self.code.append(("match",))

    # A finite group used by a back reference is expanded in place into the
    # alternatives of its words: A(g)B\\g -> A(?:(w1)B w1|(w2)B w2), in priority order.
    def _expand(self, items):
        refs = _refs(items)
        for g in sorted(refs):
            items, done = self._expand_group(items, g)
            if not done or g in _refs(items):
                raise Unsupported("back reference outside its group's sequence")
        return items

    def _expand_group(self, items, g):
        for i, (op, av) in enumerate(items):
            if op is C.SUBPATTERN and av[0] == g:
                alts = []
                for w in _finite(av[3]):
                    ls = [(C.LITERAL, ord(ch)) for ch in w]
                    alts.append([(C.SUBPATTERN, (av[0], av[1], av[2], ls))] + _replace_ref(items[i + 1:], g, ls))
                return items[:i] + [(C.BRANCH, (None, alts))], True
        out, done = [], False
        for op, av in items:
            if not done and any(_mentions(c, g) for c in _children(op, av)):
                if op is C.BRANCH:
                    alts = []
                    for a in av[1]:
                        a, d = self._expand_group(list(a), g)
                        done = done or d
                        alts.append(a)
                    av = (av[0], alts)
                elif op is C.SUBPATTERN:
                    sub, done = self._expand_group(list(av[3]), g)
                    av = (av[0], av[1], av[2], sub)
                elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
                    sub, done = self._expand_group(list(av[2]), g)
                    av = (av[0], av[1], sub)
            out.append((op, av))
        return out, done

    def emit(self, ins):
        self.code.append(ins)
        return len(self.code) - 1

    def _seqs(self, alts):
        if len(alts) == 1:
            self._seq(alts[0])
            return
        jumps = []
        for k, a in enumerate(alts):
            if k < len(alts) - 1:
                s = self.emit(None)
                self._seq(a)
                jumps.append(self.emit(None))
                self.code[s] = ("split", s + 1, len(self.code))
            else:
                self._seq(a)
        for j in jumps:
            self.code[j] = ("jmp", len(self.code))

    def setid(self, node):
        v = charset(node, self.flags)
        key = v.tobytes()
        h = hash(key)
        if h not in self.sets:
            self.sets[h] = v
        return h

    def _seq(self, items):
        for op, av in items:
            self._node(op, av)

    def _node(self, op, av):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            self.emit(("char", self.setid((op, av))))
        elif op is C.BRANCH:
            self._seqs([list(a) for a in av[1]])
        elif op is C.SUBPATTERN:
            group, add, dele, p = av
            if add or dele:
                raise Unsupported("inline flags")
            if group is not None:
                self.emit(("save", 2 * group))
            self._seq(list(p))
            if group is not None:
                self.emit(("save", 2 * group + 1))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            if hi is C.MAXREPEAT and _nullable(list(p)):
                raise Unsupported("nullable loop body")
            if lo > 50 or (hi is not C.MAXREPEAT and hi > 50):
                raise Unsupported("large repeat")
            for _ in range(lo):
                self._seq(list(p))
            greedy = op is C.MAX_REPEAT
            if hi is C.MAXREPEAT:
                s = self.emit(None)
                self._seq(list(p))
                self.emit(("jmp", s))
                e = len(self.code)
                self.code[s] = ("split", s + 1, e) if greedy else ("split", e, s + 1)
            else:
                splits = []
                for _ in range(hi - lo):
                    splits.append(self.emit(None))
                    self._seq(list(p))
                e = len(self.code)
                for s in splits:
                    self.code[s] = ("split", s + 1, e) if greedy else ("split", e, s + 1)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            p = list(p)
            neg = op is C.ASSERT_NOT
            if len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                self.emit(("prev" if d < 0 else "next", self.setid(p[0]), neg))
            elif not p:
                if neg:
                    self.emit(("fail",))
            else:
                raise Unsupported("look-around of more than one character")
        elif op is C.AT:
            if av is C.AT_BEGINNING:
                self.emit(("bol",) if self.flags & re.M else ("bot",))
            elif av is C.AT_BEGINNING_STRING:
                self.emit(("bot",))
            elif av is C.AT_END_STRING:
                self.emit(("eot",))
            elif av is C.AT_END and self.flags & re.M:
                self.emit(("eol",))
            else:
                raise Unsupported("anchor %s" % av)
        else:
            raise Unsupported(str(op))


def _children(op, av):
    if op is C.BRANCH:
        return [list(a) for a in av[1]]
    if op is C.SUBPATTERN:
        return [list(av[3])]
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
        return [list(av[2])]
    if op in (C.ASSERT, C.ASSERT_NOT):
        return [list(av[1])]
    if op is getattr(C, "ATOMIC_GROUP", None):
        return [list(av)]
    return []


def _refs(items):
    out = set()
    for op, av in items:
        if op is C.GROUPREF:
            out.add(av)
        elif op is C.GROUPREF_EXISTS:
            raise Unsupported("conditional group")
        for sub in _children(op, av):
            out |= _refs(sub)
    return out


def _replace_ref(items, g, lits):
    out = []
    for op, av in items:
        if op is C.GROUPREF and av == g:
            out.extend(lits)
            continue
        if op is C.BRANCH:
            av = (av[0], [_replace_ref(list(a), g, lits) for a in av[1]])
        elif op is C.SUBPATTERN:
            av = (av[0], av[1], av[2], _replace_ref(list(av[3]), g, lits))
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            av = (av[0], av[1], _replace_ref(list(av[2]), g, lits))
        elif op in (C.ASSERT, C.ASSERT_NOT):
            av = (av[0], _replace_ref(list(av[1]), g, lits))
        out.append((op, av))
    return out


def _mentions(items, g):
    for op, av in items:
        if op is C.GROUPREF and av == g:
            return True
        if op is C.SUBPATTERN and av[0] == g:
            return True
        if any(_mentions(c, g) for c in _children(op, av)):
            return True
    return False


def _nullable(items):
    for op, av in items:
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            return False
        if op is C.BRANCH:
            if not any(_nullable(list(a)) for a in av[1]):
                return False
        elif op is C.SUBPATTERN:
            if not _nullable(list(av[3])):
                return False
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if av[0] > 0 and not _nullable(list(av[2])):
                return False
    return True


def _finite(p, limit=16):
    """All words of a finite language in matching priority order."""
    words = [""]
    for op, av in p:
        if op is C.LITERAL:
            alts = [chr(av)]
        elif op is C.IN and all(o is C.LITERAL for o, _ in av):
            alts = [chr(v) for _, v in av]
        elif op is C.BRANCH:
            alts = [w for a in av[1] for w in _finite(a, limit)]
        elif op is C.SUBPATTERN:
            alts = _finite(av[3], limit)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[1] is not C.MAXREPEAT and av[1] <= 4:
            base = _finite(av[2], limit)
            if len(base) > 1 and av[1] > 1:
                raise Unsupported("repeated choice")

            def reps(n):
                out = [""]
                for _ in range(n):
                    out = [x + y for x in out for y in base]
                return out
            order = range(av[1], av[0] - 1, -1) if op is C.MAX_REPEAT else range(av[0], av[1] + 1)
            alts = [w for n in order for w in reps(n)]
        else:
            raise Unsupported("infinite group")
        words = [w + a for w in words for a in alts]
        if len(words) > limit:
            raise Unsupported("large group language")
    return words


# -------------------------------------------------------------- minterms
class Alphabet:
    def __init__(self, sets, extra=()):
        self.ids = list(sets)
        sig = np.zeros(MAXCP, dtype=np.int64)
        if len(self.ids) + 1 > 60:
            raise Unsupported("too many character sets")
        for b, h in enumerate(self.ids):
            sig |= sets[h].astype(np.int64) << b
        nl = np.zeros(MAXCP, dtype=np.int64)
        nl[10] = 1
        sig |= nl << len(self.ids)
        vals, first = np.unique(sig, return_index=True)
        self.reps = []
        for v in vals:
            members = np.nonzero(sig == v)[0]
            pref = [m for m in members[:2000] if 33 <= m < 127]
            letters = [m for m in pref if chr(m).isalpha()]
            self.reps.append((int(v), chr(int((letters or pref or list(members))[0]))))
        self.bit = {h: b for b, h in enumerate(self.ids)}
        self.nlbit = len(self.ids)

    def has(self, v, h):
        return v is not None and bool((v >> self.bit[h]) & 1)

    def nl(self, v):
        return v is not None and bool((v >> self.nlbit) & 1)


def closure(prog, threads, prev, nxt, alpha, pos, eof):
    """Ordered runnable threads after following non-consuming instructions.
    Returns (list of (pc, caps) at char instructions, match caps or None)."""
    out, seen = [], set()
    matched = None
    code = prog.code
    for pc0, caps0 in threads:
        stack = [(pc0, caps0)]
        while stack:
            pc, caps = stack.pop()
            if pc in seen:
                continue
            seen.add(pc)
            ins = code[pc]
            op = ins[0]
            if op == "char":
                out.append((pc, caps))
            elif op == "split":
                stack.append((ins[2], caps))
                stack.append((ins[1], caps))
            elif op == "jmp":
                stack.append((ins[1], caps))
            elif op == "save":
                d = dict(caps)
                d[ins[1]] = pos
                stack.append((pc + 1, tuple(sorted(d.items()))))
            elif op == "prev":
                if alpha.has(prev, ins[1]) != ins[2]:
                    stack.append((pc + 1, caps))
            elif op == "next":
                if (not eof and alpha.has(nxt, ins[1])) != ins[2]:
                    stack.append((pc + 1, caps))
            elif op == "bol":
                if prev is None or alpha.nl(prev):
                    stack.append((pc + 1, caps))
            elif op == "bot":
                if prev is None:
                    stack.append((pc + 1, caps))
            elif op == "eot":
                if eof:
                    stack.append((pc + 1, caps))
            elif op == "eol":
                if eof or alpha.nl(nxt):
                    stack.append((pc + 1, caps))
            elif op == "fail":
                pass
            elif op == "match":
                d = dict(caps)
                d[1] = pos
                return out, tuple(sorted(d.items()))
    return out, matched


class Result:
    def __init__(self, equal, witness=None, states=0, detail=None):
        self.equal, self.witness, self.states, self.detail = equal, witness, states, detail


def equiv(p1, p2, flags1=0, flags2=0, groups=None, max_states=200000):
    sets = {}
    a = Prog(p1, flags1, sets)
    b = Prog(p2, flags2, sets)
    alpha = Alphabet(sets)
    if groups is None:
        if set(a.groups) != set(b.groups):
            raise Unsupported("different group names")
        groups = {g: g for g in a.groups}
    slots1 = [1] + [s for g in groups for s in (2 * a.groups[g], 2 * a.groups[g] + 1)]
    slots2 = [1] + [s for g in groups for s in (2 * b.groups[groups[g]], 2 * b.groups[groups[g]] + 1)]
    keep1, keep2 = set(slots1), set(slots2)

    def proj(caps, keep):
        return tuple((k, v) for k, v in caps if k in keep)

    def final(m, slots):
        if m is None:
            return None
        d = dict(m)
        return tuple(d.get(s) for s in slots)

    def canon(th1, m1, th2, m2, pos):
        vals = {pos}
        for th, _ in ((th1, 0), (th2, 0)):
            for _, caps in th:
                vals.update(v for _, v in caps)
        for m in (m1, m2):
            if m is not None:
                vals.update(v for _, v in m)
        rank = {v: i for i, v in enumerate(sorted(vals))}

        def rc(caps):
            return tuple((k, rank[v]) for k, v in caps)
        return (tuple((pc, rc(c)) for pc, c in th1), None if m1 is None else rc(m1),
                tuple((pc, rc(c)) for pc, c in th2), None if m2 is None else rc(m2), rank[pos])

    start_prevs = [None] + [v for v, _ in alpha.reps]
    rep = dict(alpha.reps)
    seen = set()
    todo = deque()
    for pv in start_prevs:
        st = (pv, ((0, ()),), None, ((0, ()),), None, 0)
        todo.append((st, "" if pv is None else rep[pv], 0 if pv is None else 1))
        seen.add(st)
    n = 0
    while todo:
        (prev, th1, m1, th2, m2, pos), path, off = todo.popleft()
        n += 1
        if n > max_states:
            raise Unsupported("state limit")
        for nxt, ch in [(None, "")] + alpha.reps:
            eof = nxt is None
            r1, x1 = closure(a, th1, prev, nxt, alpha, pos, eof)
            r2, x2 = closure(b, th2, prev, nxt, alpha, pos, eof)
            n1 = proj(x1, keep1) if x1 is not None else m1
            n2 = proj(x2, keep2) if x2 is not None else m2
            if not eof:
                y1 = [(pc + 1, proj(c, keep1)) for pc, c in r1 if alpha.has(nxt, a.code[pc][1])]
                y2 = [(pc + 1, proj(c, keep2)) for pc, c in r2 if alpha.has(nxt, b.code[pc][1])]
            else:
                y1 = y2 = []
            if not y1 and not y2:
                f1, f2 = final(n1, slots1), final(n2, slots2)
                if f1 != f2:
                    return Result(False, (path + ch, off), n, (f1, f2))
                continue
            c1, cm1, c2, cm2, cp = canon(_dedupe(y1), n1, _dedupe(y2), n2, pos + 1)
            st = (nxt, c1, cm1, c2, cm2, cp)
            if st not in seen:
                seen.add(st)
                todo.append((st, path + ch, off))
    return Result(True, None, n)


def _dedupe(th):
    seen, out = set(), []
    for pc, c in th:
        if pc not in seen:
            seen.add(pc)
            out.append((pc, c))
    return out


# ------------------------------------------- language of a group / alternative
def alternatives(pattern):
    """Top-level alternatives of a pattern as lists of sre nodes."""
    tree = sp.parse(pattern.pattern, pattern.flags)
    items = list(tree)
    if len(items) == 1 and items[0][0] is C.BRANCH:
        return [list(x) for x in items[0][1][1]], tree
    return _unfactor(items), tree


def _unfactor(items):
    """sre factors out common prefixes of alternatives ('a|ab' -> 'a(|b)')."""
    for i, (op, av) in enumerate(items):
        if op is C.BRANCH:
            return [items[:i] + list(alt) + items[i + 1:] for alt in av[1]]
    return [items]


def groups_of(items):
    out = {}
    for op, av in items:
        if op is C.SUBPATTERN and av[0] is not None:
            out[av[0]] = list(av[3])
        for c in _children(op, av):
            out.update(groups_of(c))
    return out


# ------------------------------------------------------------- token kinds
class Kind:
    """One way a match can come about: for every group None, a constant string
    or ("sym", character set); raw is the matched text as constants and groups."""
    def __init__(self, groups, raw, last):
        self.groups, self.raw, self.lastgroup = groups, raw, last

    def __repr__(self):
        return "Kind(%r, %r)" % ({g: v if v is None or isinstance(v, str) else "*" for g, v in self.groups.items()}, self.raw)


def _variants(items, flags, limit=24):
    out = [[]]
    for op, av in items:
        if op is C.LITERAL:
            alts = [[("lit", chr(av))]]
        elif op is C.BRANCH:
            alts = [v for a in av[1] for v in _variants(list(a), flags, limit)]
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            alts = _variants(list(av[3]), flags, limit)
            if av[0] is not None:
                alts = [[("open", av[0])] + v + [("close", av[0])] for v in alts]
        elif op in (C.ASSERT, C.ASSERT_NOT, C.AT):
            alts = [[]]
        elif op is C.GROUPREF:
            alts = [[("ref", av)]]
        else:
            if any(_has_group(c) for c in _children(op, av)):
                raise Unsupported("group inside a repetition")
            try:
                alts = [[("lit", w)] for w in _finite([(op, av)])]
            except Unsupported:
                alts = [[("sym", _node_chars(op, av, flags))]]
        out = [v + a for v in out for a in alts]
        if len(out) > limit:
            raise Unsupported("too many token kinds")
    return out


def _has_group(items):
    return any(op is C.SUBPATTERN and av[0] is not None or any(_has_group(c) for c in _children(op, av)) for op, av in items)


def _node_chars(op, av, flags):
    """Union of the character sets an item can consume."""
    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        return charset((op, av), flags)
    acc = None
    for c in _children(op, av):
        for o, a in c:
            if o in (C.ASSERT, C.ASSERT_NOT, C.AT):
                continue
            s = _node_chars(o, a, flags)
            if s is not None:
                acc = s if acc is None else (acc | s)
    return acc


def kinds(pattern):
    tree = sp.parse(pattern.pattern, pattern.flags)
    flags = tree.state.flags
    names = {v: k for k, v in tree.state.groupdict.items()}
    for g in range(1, tree.state.groups):
        names.setdefault(g, g)
    out = []
    for v in _variants(list(tree), flags):
        groups = {n: None for n in names.values()}
        content, stack, raw, last = {}, [], [], None
        ok = True
        for t, x in v:
            if t == "open":
                stack.append(x)
                content[x] = []
            elif t == "close":
                stack.pop()
                last = x
                c = content[x]
                if all(a == "lit" for a, _ in c):
                    groups[names[x]] = "".join(b for _, b in c)
                else:
                    cs = None
                    for a, b in c:
                        import numpy as np
                        if a == "lit":
                            z = np.zeros(len(_sample_set(c)), dtype=bool)
                            z[[ord(ch) for ch in b]] = True
                            b = z
                        cs = b if cs is None else (cs | b)
                    groups[names[x]] = ("sym", cs)
                if not stack:
                    raw.append(groups[names[x]] if isinstance(groups[names[x]], str) else ("grp", names[x]))
                else:
                    content[stack[-1]].extend(c)
            else:
                if t == "ref":
                    g = groups.get(names[x])
                    if not isinstance(g, str):
                        raise Unsupported("back reference to an unbounded group")
                    t, x = "lit", g
                if stack:
                    content[stack[-1]].append((t, x))
                else:
                    raw.append(x if t == "lit" else ("sym", None))
        out.append(Kind(groups, raw, names.get(last)))
    return out


def _sample_set(c):
    return next(b for a, b in c if a == "sym")
