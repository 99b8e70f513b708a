"""Exact decision of a predicate over the abstract position: its quantifiers range over the 81 squares,
so each named quantified predicate is unfolded into the contents of the constant squares.  The result is
canonical (a reduced ordered decision diagram): 0 means no position satisfies the predicate, and any path
to 1 is a position that does."""
import dom as D
import bdd as B
from bdd import AND, OR, NOT, ITE, XOR

FREE = []       # [squares]: only these (and the named ones) hold pieces, when looking for a position
ALL = [('C', f, r) for f in range(9) for r in range(9)]


def order(centre=None):
    """the 81 squares, line by line from the centre outwards"""
    if centre is None:
        return list(ALL)
    out = []
    for d in D.DIRS.values():
        s = D.shift(centre, *d)
        while D.valid(s):
            out.append(s)
            s = D.shift(s, *d)
    for s in ALL:
        if s != centre and s not in out:
            out.append(s)
    return out


def prepare(centre=None):
    """allocate the contents of the constant squares in a good order"""
    for s in order(centre):
        D.pcbit(s, 0)


class Ground:
    """fix: the named tokens that stand for a constant square; parent: a Ground that fixes fewer of them"""

    def __init__(s, fix=None, keep=(), parent=None):
        s.fix = dict(fix or {})
        s.keep = set(keep)          # opaque tokens left uninterpreted
        s.parent = parent
        s.slot = 0 if parent is None else 1 + parent.slot
        m = {}
        for t, (c, f, r) in s.fix.items():
            for ax, v in ((0, f), (1, r)):
                for b in range(4):
                    m[B.level(D.cobit(t, ax, b))] = 1 if (v == 8 and b == 3) or (v < 8 and v >> b & 1) else 0
        if FREE:
            fixed = set(s.fix.values())
            for q in ALL:
                if q not in FREE[0] and q not in fixed:
                    for b in range(5):
                        if ('pc', q, b) in D._level:
                            m[D._level[('pc', q, b)]] = 0
        B.assign(s.slot, m)
        s.memo = {}
        s.instmemo = {}
        s.gmemo = {}
        s.allfixed = all(t[0] == 'C' or t[0] in s.fix for t, _ in D.NAMED)
        s.fixed = frozenset(s.fix.values())
        s.at = {q: (t, 0, 0) for t, q in s.fix.items()}
        s.sq = [q for q in ALL if q not in D.KINGS]

    def cof(s, f):
        return B.cofa(s.slot, f) if f > 1 else f

    def inst(s, l):
        """the body at every square it can hold of"""
        r = s.instmemo.get(l)
        if r is None:
            r = []
            if s.parent:
                for q, b in s.parent.inst(l):
                    if q in s.fixed:
                        continue
                    b = s.cof(b)
                    if b:
                        r.append((q, b))
            else:
                k = ('inst', l)
                ins = D._misc.get(k)
                if ins is None:
                    ins = []
                    d = D._desc[l]
                    for q in s.sq:
                        b = D.subst(d[1], d[2], q)
                        if b:
                            b = AND(b, D.bgvalid(q))
                        if b:
                            ins.append((q, b))
                    D._misc[k] = ins
                for q, b in ins:
                    if q in s.fixed:
                        continue
                    b = s.cof(b)
                    if b:
                        r.append((q, b))
            s.instmemo[l] = r
        return r

    def atom(s, l):
        r = s.memo.get(l)
        if r is not None:
            return r
        d = D._desc[l]
        r = 0
        if d[0] == 'ex':
            if l in D._counts:
                r = s.memo[l] = s.count(*D._counts[l])
                return r
            gk = None
            if s.allfixed and not (D.tokens(d[1]) - {d[2]}):
                # depends on the fixed squares only by leaving them out
                gk = ('gnd', l, frozenset(s.fixed.intersection(s.region(l))), FREE[0] if FREE else None)
                r = D._misc.get(gk)
                if r is not None:
                    s.memo[l] = r
                    return r
                r = 0
            for q, b in s.inst(l):
                if not s.allfixed:
                    b = AND(b, s.cof(D.unnamed(q)))
                if b:
                    r = OR(r, s.ground(b))
                if r == 1:
                    break
            if gk:
                D._misc[gk] = r
        elif d[0] == 'opq':
            S = D.TOKINFO[d[3]][1]
            none = 1
            for q in ALL:
                m = s.ground(s.linkc(D.subst(S, 'X', q), q))
                if m == 0:
                    continue
                b = s.ground(s.linkc(D.subst(d[1], d[2], q), q))
                r = OR(r, AND(none, m, b))
                none = AND(none, NOT(m))
                if none == 0:
                    break
        s.memo[l] = r
        return r

    def linkc(s, f, q):
        f = s.cof(f)
        if s.allfixed:
            n = s.at.get(q)
            if n is None or f < 2:
                return f
            m = {l: D.pcbit(n, D._desc[l][2]) for l in B.support(f) if D._desc[l][0] == 'pc' and D._desc[l][1] == q}
            return B.compose(f, m)
        return D.linkc(f, q, s.cof)

    def count(s, S, n):
        """at least n squares, none of them named, are members of S"""
        row = [1] + [0] * n
        for q in s.sq:
            if q in s.fixed:
                continue
            b = s.cof(D.subst(S, 'X', q))
            if b and not s.allfixed:
                b = AND(b, s.cof(D.unnamed(q)))
            if b:
                b = s.ground(AND(b, D.bgvalid(q)))
            if b:
                row = [1] + [OR(row[j], AND(b, row[j - 1])) for j in range(1, n + 1)]
        return row[n]

    def region(s, l):
        """the squares whose content the atom at level l can depend on"""
        k = ('region', l)
        r = D._misc.get(k)
        if r is None:
            r = set()
            d = D._desc[l]
            for q in s.sq:
                b = D.subst(d[1], d[2], q)
                if b == 0:
                    continue
                r.add(q)
                for m in B.support(b):
                    if D._desc[m][0] == 'ex':
                        r |= s.region(m)
            r = D._misc[k] = frozenset(r)
        return r

    def linkbit(s, q, b):
        if s.allfixed:
            return D.pcbit(s.at.get(q, q), b)
        return D.linkbit(q, b, s.cof)

    def term(s, t):
        """the content bits of a square that is neither named nor constant"""
        k = ('t', t)
        r = s.memo.get(k)
        if r is None:
            r = [0] * 5
            for q in ALL:
                e = s.cof(D.eq(t, q))
                if e == 0:
                    continue
                for b in range(5):
                    r[b] = OR(r[b], AND(e, s.linkbit(q, b)))
            s.memo[k] = r
        return r

    def ground(s, f):
        f = s.cof(f)
        if f < 2:
            return f
        if s.allfixed:
            r = s.gmemo.get(f)
            if r is None:
                r = s.gmemo[f] = s._ground(f)
            return r
        return s._ground(f)

    def _ground(s, f):
        mp = {}
        for l in B.support(f):
            d = D._desc[l]
            if d[0] == 'ex' or (d[0] == 'opq' and d[3] not in s.keep and D.TOKINFO[d[3]][0] == 'first'):
                mp[l] = s.atom(l)
            elif d[0] == 'pc' and d[1][0] != 'C' and not any(d[1] == n for n, _ in D.NAMED):
                mp[l] = s.term(d[1])[d[2]]
        return B.compose(f, mp) if mp else f

    def decide(s, f):
        """0, or a satisfiable predicate over named and constant squares"""
        f = s.ground(f)
        if f == 0:
            return 0
        for q in s.sq:
            if q in s.fixed:
                continue
            if any(('pc', q, b) in D._level and D._level[('pc', q, b)] in s.sup(f) for b in range(5)):
                f = AND(f, D.bgvalid(q))
                if f == 0:
                    return 0
        return f

    def sup(s, f):
        if getattr(s, '_sf', None) != f:
            s._sf, s._ss = f, set(B.support(f))
        return s._ss


def instances(f, tokens=None, keep=()):
    """the satisfiable instances (fix, predicate, number examined) of f over all squares for the named
    tokens; (None, 0, total) at the end"""
    ts = [t[0] for t, _ in D.NAMED if t[0] != 'C'] if tokens is None else tokens
    n = [0]

    def rec(x, fix, rest, par):
        if x == 0:
            return
        if not rest:
            n[0] += 1
            g = par if par is not None and par.fix == fix else Ground(fix, keep, par)
            y = g.decide(x)
            if y:
                yield fix, y, n[0]
            return
        for q in ALL:
            x2 = D.cof1(x, rest[0], q)
            if x2 == 0:
                continue
            f2 = dict(fix, **{rest[0]: q})
            p2 = Ground(f2, keep, None) if par is None and len(rest) > 1 else par
            yield from rec(x2, f2, rest[1:], p2)
    yield from rec(f, {}, ts, None)
    yield None, 0, n[0]


def decide(f, tokens=None, keep=()):
    """first satisfiable instance of f: (fix, predicate) or None"""
    for fix, y, n in instances(f, tokens, keep):
        return ((fix, y) if fix is not None else None), n
