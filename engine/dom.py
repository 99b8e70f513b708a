"""The abstract domain: finite predicates (decision diagrams) over symbolic squares of one opaque
position, with quantified predicates as named atoms.

* A *token* stands for an arbitrary square.  A *term* (token, df, dr) is the square at a constant
  offset from a token; ('C', f, r) terms are constant squares (file f, rank r, both 0-based).
* pc(term) is the content of a square in the opaque position the analysis starts from
  (0 = empty, 1..14 Black's pieces, 17..30 White's: the codes of shogi_core).
* EX(phi, tok) is "some square satisfies phi"; it is a fresh named predicate unless it can be
  eliminated (no dependence, one-point rule, geometry only).
"""
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE, IFF, IMP

# ---------------------------------------------------------------- variable registry
FLAG0, FILE0, RANK0, PC0, HOLE0, OPQ0, EX0 = 10, 20000, 40000, 60000, 200000, 300000, 500000
SLOTS = 4000
_desc = {}      # level -> descriptor
_level = {}     # descriptor -> level
_nflag = 0
_npc = 0
_nhole = 0
_nex = 0
_nopq = 0
TOK = {}        # token name -> slot
TOKINFO = {}    # token -> ('free',) or ('first', S)   (S a predicate over X)


NAMED = []        # [(token, None or piece code or (guard, code))]: squares whose content is tracked by name
AXIOMS = []       # facts about the content of an arbitrary square: function term -> predicate


def reset(named=(), axioms=(), bgcodes=None):
    """named: [(term, code or None)] the squares whose content is tracked by name"""
    global _nflag, _npc, _nhole, _nex, _nopq
    B.init()
    B._scache.clear()
    for d in (_desc, _level, TOK, TOKINFO, _ex, _exby, _first, _subcache, _cocache, _pccache, _eqcache, _exdepth, _dep, _btw, _misc, _wit, KINGS, _counts):
        d.clear()
    _nflag = _npc = _nhole = _nex = _nopq = 0
    for t in ('X', 'I0', 'I1', 'I2', 'K', 'y1', 'y2', 'y3', 'y4', 'y5', 'y6'):
        token(t)
    NAMED[:] = list(named)
    CARE[0] = 1
    AXIOMS[:] = list(axioms)
    BGCODES[:] = list(bgcodes if bgcodes is not None else [c for c in CODES if c not in (8, 24)])
    for t, c in NAMED:
        if t[0] != 'C':
            token(t[0])
        if c is not None:
            KINGS[t] = c


def _new(level, d):
    _desc[level] = d
    _level[d] = level
    return level


def flag(name):
    """a free Boolean"""
    global _nflag
    d = ('flag', name)
    l = _level.get(d)
    if l is None:
        l = _new(FLAG0 + _nflag, d)
        _nflag += 1
        assert _nflag < FILE0 - 100
    return B.var(l)


def token(name, info=('free',)):
    if name not in TOK:
        TOK[name] = len(TOK)
        TOKINFO[name] = info
        assert len(TOK) < SLOTS
    return name


_fresh = [0]


def fresh(prefix='e'):
    _fresh[0] += 1
    return token('%s#%d' % (prefix, _fresh[0]))


def term(tok, df=0, dr=0):
    return (tok, df, dr)


def csq(f, r):
    return ('C', f, r)


def shift(t, df, dr):
    return (t[0], t[1] + df, t[2] + dr)


_cocache = {}


def cobit(tok, axis, bit):
    d = ('co', tok, axis, bit)
    l = _level.get(d)
    if l is None:
        l = _new((FILE0 if axis == 0 else RANK0) + (3 - bit) * SLOTS + TOK[tok], d)
    return B.var(l)


def coeq(t, axis, v):
    """coordinate of term t on axis equals v"""
    if t[0] == 'C':
        return 1 if t[1 + axis] == v else 0
    v = v - t[1 + axis]
    if not 0 <= v <= 8:
        return 0
    k = (t[0], axis, v)
    r = _cocache.get(k)
    if r is None:
        # every assignment of the four bits denotes a coordinate: the top bit alone means 8
        if v == 8:
            r = cobit(t[0], axis, 3)
        else:
            r = AND(*[(cobit(t[0], axis, b) if v >> b & 1 else NOT(cobit(t[0], axis, b))) for b in range(4)])
        _cocache[k] = r
    return r


def feq(t, v):
    return coeq(t, 0, v)


def req(t, v):
    return coeq(t, 1, v)


def at(t, f, r):
    return AND(feq(t, f), req(t, r))


def valid(t):
    """the term lies on the board"""
    if t[0] == 'C':
        return 1 if 0 <= t[1] <= 8 and 0 <= t[2] <= 8 else 0
    return AND(OR(*[feq(t, v) for v in range(9)]), OR(*[req(t, v) for v in range(9)]))


_eqcache = {}


def eq(a, b):
    if a == b:
        return 1
    if a[0] == b[0]:
        return 0
    k = (a, b) if a < b else (b, a)
    r = _eqcache.get(k)
    if r is None:
        a, b = k
        if opaque(a):
            a, b = b, a
        if opaque(b):
            r = _eqcache[k] = opq(eq(a, _fresh_o(a)), _fresh_o(a)[0], b)
            return r
        r = 1
        for ax in (0, 1):
            r = AND(r, OR(*[AND(coeq(a, ax, v), coeq(b, ax, v)) for v in range(9)]))
        _eqcache[k] = r
    return r


def diff(a, b, axis, d):
    """coordinate(b) - coordinate(a) == d"""
    k = ('d', a, b, axis, d)
    r = _eqcache.get(k)
    if r is None and (opaque(a) or opaque(b)):
        r = _eqcache[k] = opq_rel(lambda x, y: diff(x, y, axis, d), a, b)
    if r is None:
        r = OR(*[AND(coeq(a, axis, v), coeq(b, axis, v + d)) for v in range(9) if 0 <= v + d <= 8])
        _eqcache[k] = r
    return r


def delta(a, b, df, dr):
    """b is exactly at offset (df,dr) from a"""
    return AND(diff(a, b, 0, df), diff(a, b, 1, dr))


# ---------------------------------------------------------------- opaque squares
# The first member of a set that is not known by name is an opaque square: predicates about it are
# uninterpreted atoms ('opq', body over a bound token, the square), equal when body and square are equal.
def opaque(t):
    return t[0] != 'C' and TOKINFO[t[0]][0] != 'free'


def _O(n):
    return token('o%d' % n)


def _fresh_o(*ts):
    n = 0
    while any(t[0] == 'o%d' % n for t in ts):
        n += 1
    return (_O(n), 0, 0)


def opq_rel(rel, *args):
    """rel of squares of which some are opaque"""
    sub = []
    xs = []
    for i, a in enumerate(args):
        if opaque(a):
            g = (_O(90 + i), 0, 0)
            sub.append((g[0], a))
            xs.append(g)
        else:
            xs.append(a)
    f = rel(*xs)
    for g, a in sub:
        f = subst(f, g, a)
    return f


def opq(f, tok, t):
    """f with the token tok replaced by the opaque term t"""
    global _nopq
    if f < 2 or tok not in tokens(f):
        return f
    dl = cube_of(f, tok)
    if all(_desc[l][0] == 'pc' for l in dl):
        return B.compose(f, {l: pcbit(subst_term(_desc[l][1], tok, t), _desc[l][2]) for l in dl})
    if all(_desc[l][0] == 'pc' or (_desc[l][0] == 'co' and _desc[l][1] == tok) for l in dl) and \
            not any(_desc[l][0] == 'co' and _desc[l][1] != tok for l in B.support(f)):
        return B.compose(f, {l: pcbit(subst_term(_desc[l][1], tok, t), _desc[l][2]) if _desc[l][0] == 'pc'
                             else cobits(t, _desc[l][2])[_desc[l][3]] for l in dl})
    body = f
    # an offset is part of the body
    if t[1] or t[2]:
        body = subst(subst(f, tok, (token('oy'), 0, 0)), 'oy', (tok, t[1], t[2]))
    d = ('opq', body, tok, t[0])
    l = _level.get(d)
    if l is None:
        l = _new(OPQ0 + _nopq, d)
        _nopq += 1
    return B.var(l)


# geometry: N = rank-1 (towards Black's far side), E = file-1
DIRS = {'N': (0, -1), 'S': (0, 1), 'E': (-1, 0), 'W': (1, 0),
        'NE': (-1, -1), 'NW': (1, -1), 'SE': (-1, 1), 'SW': (1, 1)}


def ray(a, b, d):
    """b lies in direction d from a (any distance >= 1)"""
    k = ('ray', a, b, d)
    r = _eqcache.get(k)
    if r is None and (opaque(a) or opaque(b)):
        r = _eqcache[k] = opq_rel(lambda x, y: ray(x, y, d), a, b)
    if r is None:
        f, q = DIRS[d]
        r = OR(*[delta(a, b, f * n, q * n) for n in range(1, 9)])
        _eqcache[k] = r
    return r


_btw = {}


def between(a, b, c):
    """c lies strictly between a and b on a common line"""
    k = (a, b, c)
    r = _btw.get(k)
    if r is None and (opaque(a) or opaque(b) or opaque(c)):
        r = _btw[k] = _btw[(b, a, c)] = opq_rel(between, a, b, c)
    if r is None:
        r = OR(*[AND(ray(a, c, d), ray(c, b, d)) for d in DIRS])
        _btw[k] = r
        _btw[(b, a, c)] = r
    return r


def idxlt(a, b):
    """index order (file major): a before b"""
    k = ('lt', a, b)
    r = _eqcache.get(k)
    if r is None and (opaque(a) or opaque(b)):
        r = _eqcache[k] = opq_rel(idxlt, a, b)
    if r is None:
        flt = OR(*[diff(a, b, 0, d) for d in range(1, 9)])
        r = OR(flt, AND(diff(a, b, 0, 0), OR(*[diff(a, b, 1, d) for d in range(1, 9)])))
        _eqcache[k] = r
    return r


# ---------------------------------------------------------------- board content atoms
_pccache = {}

CODES = list(range(1, 15)) + list(range(17, 31))
NONE = 0


def pcbit(t, b):
    """bit b of the content of square t; the contents of different terms are linked only by link()"""
    global _npc
    d = ('pc', t, b)
    l = _level.get(d)
    if l is None:
        if t in KINGS:
            return KINGS[t] >> b & 1
        base = PC0 + _npc * 8
        _npc += 1
        for i in range(5):
            _new(base + 4 - i, ('pc', t, i))
        l = _level[d]
    return B.var(l)


KINGS = {}


def pcv(t, code):
    """the square t holds code"""
    k = ('v', t, code)
    r = _pccache.get(k)
    if r is None:
        r = AND(*[(pcbit(t, b) if code >> b & 1 else NOT(pcbit(t, b))) for b in range(5)])
        _pccache[k] = r
    return r


pc = pcv


def pcin(t, codes):
    return OR(*[pc(t, c) for c in codes])


BGCODES = []


def bgvalid(t):
    """what is known about the content of any square that is not named"""
    k = ('bgok', t)
    r = _pccache.get(k)
    if r is None:
        r = OR(*[pcv(t, c) for c in [0] + BGCODES])
        for ax in AXIOMS:
            r = AND(r, ax(t))
        _pccache[k] = r
    return r


def unnamed(t):
    """t is none of the named squares"""
    r = 1
    for n, c in NAMED:
        r = AND(r, NOT(eq(t, n)))
    return r


def link(t):
    """the content of t in terms of the named squares"""
    k = ('link', t)
    r = _pccache.get(k)
    if r is None:
        r = AND(unnamed(t), bgvalid(t))
        for n, c in NAMED:
            if n == t:
                continue
            r = OR(r, AND(eq(t, n), pceqv(t, n), 1 if c is not None else bgvalid(n)))
        r = OR(r, NOT(valid(t)))
        _pccache[k] = r
    return r


def links(f, keep=None):
    """f with the contents of its squares linked to the named squares"""
    if f < 2:
        return f
    for t in sorted(terms_of(f)):
        if any(t == n for n, _ in NAMED):
            continue
        f = AND(f, link(t))
        if f == 0:
            return 0
    return f


def cof1(f, tok, q):
    """f with the coordinates of tok fixed (top level only)"""
    for ax in (0, 1):
        for b in range(4):
            l = _level.get(('co', tok, ax, b))
            if l is not None:
                v = q[1 + ax]
                f = B.cofactor(f, l, 1 if (v == 8 and b == 3) or (v < 8 and v >> b & 1) else 0)
    return f


def linkbit(q, b, cof=lambda f: f):
    """bit b of the content of the constant square q, whether or not it is a named one"""
    r = pcbit(q, b)
    for n, c in NAMED:
        if n != q:
            r = ITE(cof(eq(q, n)), pcbit(n, b), r)
    return r


def linkc(f, q, cof=lambda f: f):
    """f with the content of the constant square q read through the named squares"""
    if f < 2 or q in KINGS:
        return f
    m = {l: linkbit(q, _desc[l][2], cof) for l in B.support(f) if _desc[l][0] == 'pc' and _desc[l][1] == q}
    return B.compose(f, m) if m else f


def pceqv(a, b):
    return AND(*[IFF(pcbit(a, i), pcbit(b, i)) for i in range(5)])


# ---------------------------------------------------------------- holes (loop-carried unknowns)
def hole(hid, params):
    """an unknown Boolean attached to a memory leaf, a function of the given terms"""
    global _nhole
    d = ('hole', hid, tuple(params))
    l = _level.get(d)
    if l is None:
        l = _new(HOLE0 + _nhole, d)
        _nhole += 1
    return B.var(l)


def holes_in(f, hid=None):
    r = []
    for l in B.support(f):
        d = _desc[l]
        if d[0] == 'hole' and (hid is None or d[1] == hid):
            r.append(d)
    return r


# ---------------------------------------------------------------- dependence and substitution
_dep = {}


def tokens_of_desc(d):
    k = d[0]
    if k == 'co':
        return _closure((d[1],))
    if k == 'pc':
        return _closure((d[1][0],)) if d[1][0] != 'C' else frozenset()
    if k == 'hole':
        return _closure(tuple(t[0] for t in d[2] if t[0] != 'C'))
    if k == 'ex':
        s = tokens(d[1])
        return s - {d[2]}
    if k == 'opq':
        return (tokens(d[1]) - {d[2]}) | _closure((d[3],))
    return frozenset()


def _closure(toks):
    r = set()
    for t in toks:
        r.add(t)
        i = TOKINFO[t]
        if i[0] == 'first':
            r |= tokens(i[1]) - {'X'}
    return frozenset(r)


def tokens(f):
    """tokens a predicate depends on (through first-tokens and named predicates too)"""
    r = _dep.get(f)
    if r is None:
        r = set()
        for l in B.support(f):
            r |= tokens_of_desc(_desc[l])
        r = frozenset(r)
        _dep[f] = r
    return r


_subcache = {}


def cobits(t, axis):
    """the four coordinate bits of a term"""
    k = ('bits', t, axis)
    r = _cocache.get(k)
    if r is None:
        if t[0] != 'C' and t[1 + axis] == 0:
            r = [cobit(t[0], axis, b) for b in range(4)]
        else:
            r = [OR(*[coeq(t, axis, v) for v in range(9) if v >> b & 1]) for b in range(4)]
        _cocache[k] = r
    return r


def subst_term(t, tok, to):
    if t[0] == tok:
        return shift(to, t[1], t[2])
    if t[0] == 'C':
        return t
    i = TOKINFO[t[0]]
    if i[0] == 'first' and tok in (tokens(i[1]) - {'X'}):
        nb = first_token(subst(i[1], tok, to))
        return shift(nb, t[1], t[2])
    return t


def subst(f, tok, to):
    """replace token tok by the term `to` everywhere in the predicate f"""
    if f < 2 or tok not in tokens(f):
        return f
    if to == (tok, 0, 0):
        return f
    key = (f, tok, to)
    r = _subcache.get(key)
    if r is not None:
        return r
    if opaque(to):
        r = _subcache[key] = opq(f, tok, to)
        return r
    mp = {}
    for l in B.support(f):
        d = _desc[l]
        if tok not in tokens_of_desc(d):
            continue
        k = d[0]
        if k == 'co':
            nt = subst_term((d[1], 0, 0), tok, to)
            mp[l] = cobits(nt, d[2])[d[3]]
        elif k == 'pc':
            mp[l] = pcbit(subst_term(d[1], tok, to), d[2])
        elif k == 'hole':
            mp[l] = hole(d[1], [subst_term(t, tok, to) for t in d[2]])
        elif k == 'opq':
            body, bt = d[1], d[2]
            if bt != tok and tok in tokens(body):
                if to[0] == bt:
                    bt = fresh('o')
                    body = subst(body, d[2], (bt, 0, 0))
                body = subst(body, tok, to)
            mp[l] = subst(body, bt, subst_term((d[3], 0, 0), tok, to))
        elif k == 'ex':
            # bound tokens are y*, never the target of substitution and never inside `to`
            mp[l] = EXsub(subst(d[1], tok, to), d[2])
    r = B.compose(f, mp)
    _subcache[key] = r
    return r


def subst_many(f, pairs):
    """simultaneous substitution through fresh intermediates"""
    tmp = []
    for i, (tok, to) in enumerate(pairs):
        m = token('tmp%d' % i)
        f = subst(f, tok, term(m))
        tmp.append((m, to))
    for m, to in tmp:
        f = subst(f, m, to)
    return f


# ---------------------------------------------------------------- quantification
_ex = {}
_exby = {}
_exdepth = {}


def depth(f):
    r = 0
    for l in B.support(f):
        d = _desc[l]
        if d[0] == 'ex':
            r = max(r, int(d[2][1:]))
        elif d[0] == 'opq':
            r = max(r, depth(d[1]))
    return r


def cube_of(f, tok):
    """levels in f's support that depend on tok"""
    return [l for l in B.support(f) if tok in tokens_of_desc(_desc[l])]


def coord_levels(tok):
    return [_level[('co', tok, a, b)] for a in (0, 1) for b in range(4) if ('co', tok, a, b) in _level]


def project(f, keep):
    """existentially drop (as Booleans) every variable except the coordinates of tokens in keep"""
    drop = []
    for l in B.support(f):
        d = _desc[l]
        if not (d[0] == 'co' and d[1] in keep):
            drop.append(l)
    return B.exists(f, B.cube(drop))


def values_on(p, tok):
    """the squares (f,r) that p (over coordinates of tok only) allows"""
    return [(f, r) for f in range(9) for r in range(9) if AND(p, at((tok, 0, 0), f, r)) != 0]


def one_point(f, tok):
    """a term t (not involving tok) such that f implies tok == t, or None"""
    T = (tok, 0, 0)
    p = project(f, (tok,))
    vs = values_on(p, tok)
    if len(vs) == 1:
        return csq(*vs[0])
    for o in sorted(tokens(f)):
        if o == tok:
            continue
        if not any(_desc[l][0] == 'co' and _desc[l][1] == o for l in B.support(f)):
            continue
        p = project(f, (tok, o))
        # candidate offset from one satisfying point
        cand = None
        for v in range(9):
            q = AND(p, feq((o, 0, 0), v))
            if q == 0:
                continue
            for w in range(9):
                q2 = AND(q, req((o, 0, 0), w))
                if q2 == 0:
                    continue
                pts = values_on(B.exists(q2, B.cube([l for l in B.support(q2) if _desc[l][1] == o])), tok)
                if pts:
                    cand = (pts, v, w)
                    break
            if cand:
                break
        if not cand or len(cand[0]) != 1:
            continue
        (f2, r2), v, w = cand[0][0], cand[1], cand[2]
        t = (o, f2 - v, r2 - w)
        if AND(p, NOT(eq(T, t))) == 0:
            # a first-token that itself depends on tok cannot be used
            if tok in _closure((o,)):
                continue
            return t
    return None


def EX(f, tok):
    """some square tok satisfies f"""
    T = (tok, 0, 0)
    f = AND(f, valid(T))
    if f == 0:
        return 0
    key = (f, tok)
    r = _ex.get(key)
    if r is not None:
        return r
    r = _EX(f, tok, T)
    _ex[key] = r
    return r


def _EX(f, tok, T):
    # split on plain flags: they are global facts of the position
    for l in sorted(B.support(f)):
        if _desc[l][0] == 'flag':
            return ITE(B.var(l), EX(B.cofactor(f, l, 1), tok), EX(B.cofactor(f, l, 0), tok))
        break
    dl = cube_of(f, tok)
    if not dl:
        return f
    if geometric(dl, tok):
        return B.exists(f, B.cube(dl))
    t = one_point(f, tok)
    if t is not None:
        return AND(subst(f, tok, t), valid(t))
    # the named squares one by one, then the rest of the board
    r = 0
    for n, c in NAMED:
        if n == T:
            continue
        r = OR(r, subst(f, tok, n))
    return OR(r, EXbg(f, tok, depth(f)))


def EXbg(f, tok, dep=None):
    """some square that is not named satisfies f"""
    T = (tok, 0, 0)
    f = AND(f, valid(T), bgvalid(T))
    # Inside a named predicate the content of a bound square is the content of the board without the
    # named squares, so a body that needs a piece there excludes them by itself.
    if AND(f, pcv(T, 0)) != 0:
        f = AND(f, unnamed(T))
    if f == 0:
        return 0
    dl = cube_of(f, tok)
    # content that does not matter any more
    if geometric(dl, tok):
        return B.exists(AND(f, unnamed(T)), B.cube(dl))
    n = 1 + (depth(f) if dep is None else dep)
    y = 'y%d' % n
    if n > 6:
        raise Exception('quantifier depth')
    if tok != y:
        if y in tokens(f):
            raise Exception('bound token clash')
        f = subst(f, tok, (y, 0, 0))
    f = care(f)
    if f == 0:
        return 0
    r = exatom(f, y)
    # what the body says about the coordinates of another bound square
    for o in set(_desc[l][1] for l in B.support(f) if _desc[l][0] == 'co'):
        if o[0] == 'y' and o != y:
            r = AND(r, project(f, (o,)))
    return r


CARE = [1]


def care(f):
    """the representative of f among the predicates that agree with it wherever the named squares are
    pairwise distinct and hold admissible contents"""
    if CARE[0] == 1:
        return f
    sup = set(B.support(f))
    c = B.exists(CARE[0], B.cube([l for l in B.support(CARE[0]) if l not in sup]))
    return B.constrain(f, c)


def EXsub(f, tok):
    """EXbg for a body that a substitution has changed"""
    key = (f, tok, 'bg')
    r = _ex.get(key)
    if r is None:
        T = (tok, 0, 0)
        for l in sorted(B.support(f)):
            if _desc[l][0] == 'flag':
                r = ITE(B.var(l), EXsub(B.cofactor(f, l, 1), tok), EXsub(B.cofactor(f, l, 0), tok))
                _ex[key] = r
                return r
            break
        t = one_point(f, tok) if f > 1 and tok in tokens(f) else None
        if t is not None:
            r = AND(subst(AND(f, bgvalid(T), unnamed(T)), tok, t), valid(t))
        else:
            r = EXbg(f, tok)
        _ex[key] = r
    return r


def geometric(dl, tok):
    """only the token's own coordinates matter"""
    return all(_desc[l][0] == 'co' and _desc[l][1] == tok for l in dl)


def exatom(f, y):
    global _nex
    d = ('ex', f, y)
    l = _level.get(d)
    if l is None:
        # equal to a known predicate wherever it matters?
        dep = tokens(f)
        T = (y, 0, 0)
        u = None
        for g, m in _exby.get((y, dep), ()):
            if u is None:
                u = AND(CARE[0], unnamed(T), bgvalid(T))
            if AND(XOR(f, g), u) == 0:
                _level[d] = m
                return B.var(m)
        _exby.setdefault((y, dep), []).append((f, EX0 + _nex))
        l = _new(EX0 + _nex, d)
        _nex += 1
    return B.var(l)


def FORALL(f, tok):
    return NOT(EX(NOT(f), tok))


_first = {}


def first_token(S):
    """the first square (in index order) of the set S (a predicate over X); a term"""
    X = ('X', 0, 0)
    S = AND(S, valid(X))
    r = _first.get(S)
    if r is None:
        t = one_point(S, 'X') if S != 0 else None
        if t is None and CARE[0] != 1:
            # sets that are equal where it matters have the same first square
            S1 = AND(S, CARE[0])
            t = _first.get(S1)
            if t is None:
                t = one_point(S1, 'X') if S1 != 0 else None
            if t is None:
                t = _first[S1] = (token('first%d' % len(_first), ('first', S1)), 0, 0)
        if t is None:
            t = (token('first%d' % len(_first), ('first', S)), 0, 0)
        r = t
        _first[S] = r
    return r


def atleast(S, n):
    """the set S (predicate over X) has at least n members"""
    if n <= 0:
        return 1
    key = ('al', S, n)
    r = _misc.get(key)
    if r is None:
        # members among the named squares, then members elsewhere
        X = ('X', 0, 0)
        S = AND(S, valid(X))
        hit = [subst(S, 'X', t) for t, _ in NAMED]
        r = threshold(hit, n, lambda j: bgatleast(S, j))
        _misc[key] = r
    return r


def threshold(hit, n, rest):
    """at least n of the predicates in hit and the members counted by rest"""
    row = [rest(j) for j in range(n + 1)]
    for h in hit:
        if h:
            row = [1] + [OR(row[j], AND(h, row[j - 1])) for j in range(1, n + 1)]
    return row[n]


def bgatleast(S, n):
    """at least n unnamed squares are members of S"""
    if n == 0:
        return 1
    d = depth(S)
    X = ('X', 0, 0)
    t = one_point(S, 'X') if S else None
    if S == 0 or (t is not None and n > 1):
        return 0
    if t is not None:
        return AND(subst(S, 'X', t), unnamed(t), valid(t))
    ys = ['y%d' % (d + 1 + i) for i in range(n)]
    f = 1
    S0 = S
    for i in range(n):
        ti = (ys[i], 0, 0)
        f = AND(f, subst(S, 'X', ti))
        for j in range(i + 1, n):
            f = AND(f, NOT(eq(ti, (ys[j], 0, 0))))
        f = EXbg(f, ys[i], d + i)
    if f > 1 and n > 1 and f == B.var(B.level(f)):
        _counts[B.level(f)] = (S0, n)
    return f


_misc = {}
_counts = {}


def describe(l):
    d = _desc[l]
    if d[0] == 'ex':
        return 'ex%d' % (l - EX0)
    return str(d)


# ---------------------------------------------------------------- entailment
def atoms(f):
    return [l for l in B.support(f) if _desc[l][0] == 'ex']


def inst(l, t):
    """the body of the quantified atom at level l for the square t (a witness candidate)"""
    d = _desc[l]
    b = subst(d[1], d[2], t)
    return AND(b, valid(t), unnamed(t), bgvalid(t))


def elim_opaque(f):
    """what is said of the first member of a set becomes a statement about its members where the set is
    a singleton; where it is not, the statement stays uninterpreted"""
    for rnd in range(4):
        by = {}
        for l in B.support(f):
            d = _desc[l]
            if d[0] == 'opq' and TOKINFO[d[3]][0] == 'first':
                by.setdefault(d[3], []).append(l)
        by = {t: ls for t, ls in by.items() if not (rnd and t in _kept)}
        if not by:
            return f
        for t, ls in by.items():
            S = TOKINFO[t][1]
            two = atleast(S, 2)
            _kept.add(t)
            if AND(f, NOT(two)) == 0:
                continue
            mp = {}
            for l in ls:
                body, o = _desc[l][1], _desc[l][2]
                mp[l] = EX(AND(subst(S, 'X', (o, 0, 0)), body), o)
            f = OR(AND(f, two), AND(B.compose(f, mp), NOT(two)))
    return f


_kept = set()


def terms_of(f):
    return set(_desc[l][1] for l in B.support(f) if _desc[l][0] == 'pc')


def content_terms(f):
    """squares whose content the predicate mentions, also inside opaque atoms (bound squares excepted)"""
    return terms_of(f)


def elim_first(f):
    """replace every first-element token by its definition"""
    while True:
        ft = [t for t in tokens(f) if TOKINFO[t][0] == 'first']
        if not ft:
            return f
        # innermost last: eliminate one that no other first token's definition mentions
        t = next((t for t in ft if not any(u != t and t in tokens(TOKINFO[u][1]) for u in ft)), ft[0])
        S = TOKINFO[t][1]
        z = fresh('z')
        T = (t, 0, 0)
        isfirst = AND(subst(S, 'X', T), NOT(EX(AND(subst(S, 'X', (z, 0, 0)), idxlt((z, 0, 0), T)), z)))
        # treat t as an ordinary token from here on
        n = fresh('w')
        f2 = replace_token(AND(f, isfirst), t, n)
        some = EX(S, 'X')
        f = OR(EX(f2, n), AND(NOT(some), drop_token(f, t)))


def replace_token(f, t, n):
    return subst(f, t, (n, 0, 0))


def drop_token(f, t):
    """f where the token t denotes nothing: its value cannot matter, any square will do"""
    return subst(f, t, ('C', 0, 0))


class Unsat(Exception):
    pass


def saturate(g, skolems, depth_, budget, trace=None):
    """conjoin consequences of g until it is unsatisfiable or nothing new follows"""
    for rnd in range(budget):
        if g == 0:
            return 0
        g0 = g
        ats = atoms(g)
        # universal facts at the witnesses in scope
        for l in ats:
            for s in skolems:
                if s[0] in tokens_of_desc(_desc[l]) and False:
                    continue
                g = AND(g, OR(B.var(l), NOT(inst(l, s))))
                if g == 0:
                    return 0
        # equal squares have equal content
        ts = sorted(t for t in terms_of(g))
        for i, a in enumerate(ts):
            for b in ts[i + 1:]:
                if a[0] == b[0]:
                    continue
                g = AND(g, OR(NOT(eq(a, b)), pceqv(a, b)))
                if g == 0:
                    return 0
        for l in sorted(ats):
            if depth_ <= 0:
                break
            if AND(g, B.var(l)) == 0:
                continue
            g = AND(g, OR(NOT(B.var(l)), witness(g, l, skolems, depth_)))
            if g == 0:
                return 0
        if g == g0:
            break
    return g


_wit = {}


def witness(g, l, skolems, depth_):
    """what must hold if the atom at level l is true: some square satisfies its body, and that square
    obeys every universal fact in force"""
    w = 'w%d' % depth_
    if w not in TOK:
        token(w)
    W = (w, 0, 0)
    ats = atoms(g)
    key = (l, tuple(sorted(ats)), tuple(skolems), depth_)
    r = _wit.get(key)
    if r is not None:
        return r
    f = AND(inst(l, W), bgvalid(W), unnamed(W))
    for a in sorted(ats):
        if a != l:
            f = AND(f, OR(B.var(a), NOT(inst(a, W))))
    f = saturate(f, list(skolems) + [W], depth_ - 1, 1)
    drop = [k for k in B.support(f) if w in tokens_of_desc(_desc[k])]
    r = B.exists(f, B.cube(drop))
    _wit[key] = r
    return r


def refute(g, depth_=2, rounds=3):
    """0 if g is shown unsatisfiable, else what is left of g"""
    g = elim_opaque(g)
    if g == 0:
        return 0
    for d in range(1, depth_ + 1):
        g = saturate(g, [], d, rounds)
        if g == 0:
            return 0
    return g


_wit = {}
reset()
