"""Abstract values: every scalar is a finite map from a symbolic case to the guard under which the
case applies; aggregates are trees of such values.  Values are immutable."""
import dom as D
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE


class Unsupported(Exception):
    """the analysed program uses a construct the abstraction has no exact transfer function for"""


def unsup(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------------ linear terms
# (const, ((sym, coef), ...)); sym is a tuple, e.g. ('idx', term), ('ply',), ('hole', id), ('cnt', S)
def lconst(c):
    return (c, ())


def ladd(a, b, k=1):
    m = dict(a[1])
    for s, c in b[1]:
        m[s] = m.get(s, 0) + k * c
    return (a[0] + k * b[0], tuple(sorted((s, c) for s, c in m.items() if c)))


def lsubst(l, tok, to):
    if not l[1]:
        return l
    r = (l[0], ())
    for s, c in l[1]:
        if s[0] == 'idx':
            t = D.subst_term(s[1], tok, to)
            if t[0] == 'C':
                r = (r[0] + c * (t[1] * 9 + t[2]), r[1])
                continue
            s = ('idx', t)
        elif s[0] == 'cnt':
            s = ('cnt', D.subst(s[1], tok, to))
        r = ladd(r, (0, ((s, c),)))
    return r


def addcase(d, k, g):
    if g == 0:
        return
    o = d.get(k)
    d[k] = g if o is None else OR(o, g)


class V:
    __slots__ = ()

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self.key())


def dk(d):
    return tuple(sorted(d.items(), key=repr))


class VU(V):
    __slots__ = ('why',)

    def __init__(s, why):
        s.why = why

    def key(s):
        return (s.why,)


class VB(V):
    __slots__ = ('f',)

    def __init__(s, f):
        s.f = f

    def key(s):
        return (s.f,)


class VI(V):
    """integer: {linear term: guard}"""
    __slots__ = ('bits', 'sg', 'c')

    def __init__(s, bits, sg, c):
        s.bits, s.sg, s.c = bits, sg, c

    def key(s):
        return (s.bits, s.sg, dk(s.c))

    def const(s):
        if len(s.c) == 1:
            (k, g), = s.c.items()
            if not k[1]:
                return k[0]
        return None


class VE(V):
    """enum: {variant index: (guard, fields)}"""
    __slots__ = ('ty', 'c')

    def __init__(s, ty, c):
        s.ty, s.c = ty, c

    def key(s):
        return (s.ty, dk(s.c))


class VS(V):
    """struct, tuple or closure"""
    __slots__ = ('ty', 'f')

    def __init__(s, ty, f):
        s.ty, s.f = ty, tuple(f)

    def key(s):
        return (s.ty, s.f)


class VA(V):
    __slots__ = ('e',)

    def __init__(s, e):
        s.e = tuple(e)

    def key(s):
        return (s.e,)


class VL(V):
    """array with one element per square, as a function of the bound square token"""
    __slots__ = ('tok', 'e')

    def __init__(s, tok, e):
        s.tok, s.e = tok, e

    def key(s):
        return (s.tok, s.e)


class VR(V):
    """reference: {(root, path): guard}"""
    __slots__ = ('c',)

    def __init__(s, c):
        s.c = c

    def key(s):
        return (dk(s.c),)


class VSq(V):
    __slots__ = ('c',)

    def __init__(s, c):
        s.c = c

    def key(s):
        return (dk(s.c),)


class VPc(V):
    __slots__ = ('c',)

    def __init__(s, c):
        s.c = c

    def key(s):
        return (dk(s.c),)


class VSet(V):
    """set of squares: predicate over the bound token X"""
    __slots__ = ('f',)

    def __init__(s, f):
        s.f = f

    def key(s):
        return (s.f,)


class VH(V):
    """hand: seven counts"""
    __slots__ = ('n',)

    def __init__(s, n):
        s.n = tuple(n)

    def key(s):
        return (s.n,)


class VX(V):
    """64-bit exclusive-or of constant bits and independent random words.
    bits: {bit: guard}; terms: {(draw, mask): predicate}, draw a linear term over at most the bound
    square K, the predicate says for which K the word is included."""
    __slots__ = ('bits', 'terms')

    def __init__(s, bits, terms):
        s.bits = {k: g for k, g in bits.items() if g}
        s.terms = {k: g for k, g in terms.items() if g}

    def key(s):
        return (dk(s.bits), dk(s.terms))


class VRng(V):
    __slots__ = ('n',)

    def __init__(s, n):
        s.n = n

    def key(s):
        return (s.n,)


class VVec(V):
    __slots__ = ('base', 'e')

    def __init__(s, base, e):
        s.base, s.e = base, tuple(e)

    def key(s):
        return (s.base, s.e)


class VAv(V):
    """a growing move list, seen through one arbitrary move Q: the guards of the pushes of Q"""
    __slots__ = ('g', 's')

    def __init__(s, g, sites=None):
        s.g = tuple(g)
        s.s = tuple(sites) if sites is not None else ('',) * len(s.g)

    def key(s):
        return (s.g,)


class VIt(V):
    """iterator: segments still to come and the lazy adaptors on top.
    segment: ('elem', guard, value) | ('set', S, mk) with mk 'sq' or ('ref', root, path)
    primed: None | ('some', value) | ('body',)"""
    __slots__ = ('segs', 'ops', 'primed')

    def __init__(s, segs, ops=(), primed=None):
        s.segs, s.ops, s.primed = tuple(segs), tuple(ops), primed

    def key(s):
        return (s.segs, s.ops, s.primed)


class VPP(V):
    """the opaque position the analysis starts from"""
    __slots__ = ('name',)

    def __init__(s, name='pp'):
        s.name = name

    def key(s):
        return (s.name,)


class VPy(V):
    """a value only the models look into"""
    __slots__ = ('k',)

    def __init__(s, *k):
        s.k = k

    def key(s):
        return (s.k,)


class VO(V):
    """an array element inside a loop summary: its value before the iteration where g holds, v elsewhere"""
    __slots__ = ('id', 'g', 'v')

    def __init__(s, i, g=1, v=None):
        s.id, s.g, s.v = i, g, v

    def key(s):
        return (s.id, s.g, s.v)


def merge_old(g, a, b):
    def parts(x):
        return (x.g, x.v) if type(x) is VO else (0, x)
    ids = {x.id for x in (a, b) if type(x) is VO}
    if len(ids) != 1:
        return VU('merge of old elements')
    (ga, va), (gb, vb) = parts(a), parts(b)
    v = vb if va is None else va if vb is None else merge(g, va, vb)
    return mkold(ids.pop(), ITE(g, ga, gb), v)


def mkold(i, g, v):
    if g == 1:
        return VO(i)
    if g == 0:
        return v
    return VO(i, g, v)


UNIT = VS(None, ())
TRUE, FALSE = VB(1), VB(0)


def vint(bits, n, sg=False):
    return VI(bits, sg, {lconst(n): 1})


# ------------------------------------------------------------------ merge
def merge_cases(g, a, b):
    ng = NOT(g)
    r = {}
    for k, x in a.items():
        addcase(r, k, AND(g, x))
    for k, x in b.items():
        addcase(r, k, AND(ng, x))
    if len(r) == 1:
        k, = r
        r[k] = 1
    return r


def lam_rename(v, tok):
    if v.tok == tok:
        return v
    return VL(tok, vsubst(v.e, v.tok, (tok, 0, 0)))


def merge(g, a, b):
    """the value that is a where g holds and b elsewhere"""
    if a is b or g == 1:
        return a
    if g == 0:
        return b
    ta, tb = type(a), type(b)
    if ta is VU or tb is VU:
        if a == b:
            return a
        return VU('merge:' + (a.why if ta is VU else b.why))
    if ta is VO or tb is VO:
        return merge_old(g, a, b)
    if ta is not tb:
        if ta is VI and tb is VX:
            return merge(g, tovx(a), b)
        if ta is VX and tb is VI:
            return merge(g, a, tovx(b))
        if ta is VL and tb is VA:
            return merge(g, expand_lam(a), b)
        if ta is VA and tb is VL:
            return merge(g, a, expand_lam(b))
        return VU('merge of %s and %s' % (ta.__name__, tb.__name__))
    if ta is VB:
        return VB(ITE(g, a.f, b.f))
    if ta is VI:
        if a.c == b.c:
            return a
        return VI(a.bits, a.sg, merge_cases(g, a.c, b.c))
    if ta is VE:
        r = {}
        ng = NOT(g)
        for k in set(a.c) | set(b.c):
            x, y = a.c.get(k), b.c.get(k)
            if x is None:
                r[k] = (AND(ng, y[0]), y[1])
            elif y is None:
                r[k] = (AND(g, x[0]), x[1])
            else:
                xg, yg = AND(g, x[0]), AND(ng, y[0])
                if x[1] == y[1]:
                    fs = x[1]
                else:
                    gg = B.restrict(xg, OR(xg, yg))
                    fs = tuple(merge(gg, p, q) for p, q in zip(x[1], y[1]))
                r[k] = (OR(xg, yg), fs)
        r = {k: x for k, x in r.items() if x[0] != 0}
        if len(r) == 1:
            k, = r
            r[k] = (1, r[k][1])
        return VE(a.ty, r)
    if ta is VS:
        if len(a.f) != len(b.f):
            return VU('merge of structs')
        return VS(a.ty, [merge(g, x, y) for x, y in zip(a.f, b.f)])
    if ta is VA:
        if len(a.e) != len(b.e):
            return VU('merge of arrays')
        return VA([merge(g, x, y) for x, y in zip(a.e, b.e)])
    if ta is VL:
        b = lam_rename(b, a.tok)
        return VL(a.tok, merge(g, a.e, b.e))
    if ta in (VR, VSq, VPc):
        if a.c == b.c:
            return a
        return ta(merge_cases(g, a.c, b.c))
    if ta is VSet:
        return VSet(ITE(g, a.f, b.f))
    if ta is VH:
        return VH([merge(g, x, y) for x, y in zip(a.n, b.n)])
    if ta is VX:
        return VX({k: ITE(g, a.bits.get(k, 0), b.bits.get(k, 0)) for k in set(a.bits) | set(b.bits)},
                  {k: ITE(g, a.terms.get(k, 0), b.terms.get(k, 0)) for k in set(a.terms) | set(b.terms)})
    if a == b:
        return a
    if ta is VRng:
        return VU('merge of generator states')
    if ta is VVec:
        if a.base == b.base and len(a.e) == len(b.e):
            return VVec(a.base, [merge(g, x, y) for x, y in zip(a.e, b.e)])
        return VU('merge of vectors of different length')
    if ta is VAv:
        n = 0
        while n < len(a.g) and n < len(b.g) and a.g[n] == b.g[n]:
            n += 1
        return VAv(a.g[:n] + a.g[n:] + b.g[n:], a.s[:n] + a.s[n:] + b.s[n:])
    if ta is VIt:
        if a.ops == b.ops and a.primed == b.primed and len(a.segs) == len(b.segs):
            segs = []
            for x, y in zip(a.segs, b.segs):
                if x == y:
                    segs.append(x)
                elif x[0] == y[0] == 'set' and x[2] == y[2]:
                    segs.append(('set', ITE(g, x[1], y[1]), x[2]))
                elif x[0] == y[0] == 'elem':
                    xg, yg = AND(g, x[1]), AND(NOT(g), y[1])
                    segs.append(('elem', OR(xg, yg), merge(B.restrict(xg, OR(xg, yg)), x[2], y[2])))
                else:
                    return VU('merge of iterators')
            return VIt(segs, a.ops, a.primed)
        if not a.segs and not a.ops:
            return guard_iter(b, NOT(g))
        if not b.segs and not b.ops:
            return guard_iter(a, g)
        return VU('merge of iterators')
    return VU('merge of %s' % ta.__name__)


def guard_iter(it, g):
    segs = []
    for s in it.segs:
        if s[0] == 'elem':
            segs.append(('elem', AND(g, s[1]), s[2]))
        else:
            segs.append(('set', AND(g, s[1]), s[2]))
    return VIt(segs, it.ops, it.primed)


def expand_lam(v):
    return VA([vsubst(v.e, v.tok, ('C', i // 9, i % 9)) for i in range(81)])


def tovx(v):
    """an integer with constant cases as an exclusive-or of bits"""
    if type(v) is VX:
        return v
    bits = {}
    for (c, syms), g in v.c.items():
        if syms:
            unsup('symbolic integer used as a word')
        c &= (1 << 64) - 1
        b = 0
        while c:
            if c & 1:
                addcase(bits, b, g)
            c >>= 1
            b += 1
    return VX(bits, {})


# ------------------------------------------------------------------ generic mapping
def vmap(v, ff, fl, ft):
    """rebuild v with every predicate mapped by ff, linear term by fl and square term by ft"""
    t = type(v)
    if t in (VU, VPP, VPy):
        return v
    if t is VB:
        return VB(ff(v.f))
    if t is VO:
        return mkold(v.id, ff(v.g), None if v.v is None else vmap(v.v, ff, fl, ft))
    if t is VI:
        r = {}
        for k, g in v.c.items():
            addcase(r, fl(k), ff(g))
        return VI(v.bits, v.sg, r)
    if t is VE:
        r = {}
        for k, (g, fs) in v.c.items():
            g = ff(g)
            if g:
                r[k] = (g, tuple(vmap(x, ff, fl, ft) for x in fs))
        return VE(v.ty, r)
    if t is VS:
        return VS(v.ty, [vmap(x, ff, fl, ft) for x in v.f])
    if t is VA:
        return VA([vmap(x, ff, fl, ft) for x in v.e])
    if t is VL:
        return VL(v.tok, vmap(v.e, ff, fl, ft))
    if t is VR:
        r = {}
        for (root, path), g in v.c.items():
            path = tuple((p[0], vmap(p[1], ff, fl, ft)) if p[0] == 'x' else p for p in path)
            addcase(r, (root, path), ff(g))
        return VR(r)
    if t is VSq:
        r = {}
        for k, g in v.c.items():
            addcase(r, ft(k), ff(g))
        return VSq(r)
    if t is VPc:
        r = {}
        for k, g in v.c.items():
            addcase(r, k, ff(g))
        return VPc(r)
    if t is VSet:
        return VSet(ff(v.f))
    if t is VH:
        return VH([vmap(x, ff, fl, ft) for x in v.n])
    if t is VX:
        terms = {}
        for (lin, mask), g in v.terms.items():
            l2, g2 = bind_lin(fl(lin), ff(g))
            k = (l2, mask)
            terms[k] = XOR(terms.get(k, 0), g2)
        return VX({k: ff(g) for k, g in v.bits.items()}, terms)
    if t is VRng:
        return VRng(fl(v.n))
    if t is VVec:
        return VVec(v.base, [vmap(x, ff, fl, ft) for x in v.e])
    if t is VAv:
        return VAv([g if g == 'hole' else ff(g) for g in v.g], v.s)
    if t is VIt:
        segs = []
        for s in v.segs:
            if s[0] == 'elem':
                segs.append(('elem', ff(s[1]), vmap(s[2], ff, fl, ft)))
            else:
                segs.append(('set', ff(s[1]), s[2]))
        pr = v.primed
        if pr and pr[0] == 'some':
            pr = ('some', vmap(pr[1], ff, fl, ft))
        return VIt(segs, [tuple(vmap(x, ff, fl, ft) if isinstance(x, V) else x for x in o) for o in v.ops], pr)
    raise Exception('vmap %s' % t)


IDXK = ('idxK',)


def bind_lin(lin, g):
    """move the square a draw number depends on into the predicate (bound token K)"""
    idx = [(s, c) for s, c in lin[1] if s[0] == 'idx']
    if not idx:
        return lin, g
    if len(idx) > 1 or any(s == IDXK for s, _ in lin[1]):
        unsup('random word indexed by two squares')
    (s, c), = idx
    rest = tuple(sorted([x for x in lin[1] if x[0][0] != 'idx'] + [(IDXK, c)]))
    return (lin[0], rest), AND(g, D.eq(('K', 0, 0), s[1]))


_vs = {}


def vsubst(v, tok, to):
    """replace the square token tok by the term `to` in a value"""
    key = (id(v), tok, to)
    r = _vs.get(key)
    if r is not None and r[0] is v:
        return r[1]
    w = vmap(v, lambda f: D.subst(f, tok, to), lambda l: lsubst(l, tok, to), lambda t: D.subst_term(t, tok, to))
    _vs[key] = (v, w)
    return w


def depends(v, test):
    """some predicate or term in v satisfies test(kind, x)"""
    hit = [False]

    def ff(f):
        if test('f', f):
            hit[0] = True
        return f

    def fl(l):
        if test('l', l):
            hit[0] = True
        return l

    def ft(t):
        if test('t', t):
            hit[0] = True
        return t
    vmap(v, ff, fl, ft)
    return hit[0]


def lin_toks(l):
    r = set()
    for s, _ in l[1]:
        if s[0] == 'idx':
            r |= D._closure((s[1][0],)) if s[1][0] != 'C' else set()
        elif s[0] == 'cnt':
            r |= D.tokens(s[1]) - {'X'}
    return r


def on_token(v, tok):
    def test(k, x):
        if k == 'f':
            return x > 1 and tok in D.tokens(x)
        if k == 'l':
            return tok in lin_toks(x)
        return x[0] != 'C' and tok in D._closure((x[0],))
    return depends(v, test)


OWNED = [set()]      # the loop-carried unknowns of the loops being summarised, innermost last


def own_sym(s):
    return s[0] == 'hole' and s[1] in OWNED[-1]


def on_hole(v):
    """v depends on a loop-carried unknown of the innermost loop"""
    def test(k, x):
        if k == 'f':
            return x > 1 and has_hole(x)
        if k == 'l':
            return any(own_sym(s) for s, _ in x[1])
        return False
    return depends(v, test)


_hh = {}


def holes_of(f):
    r = _hh.get(f)
    if r is None:
        r = set()
        for l in B.support(f):
            d = D._desc[l]
            if d[0] == 'hole':
                r.add(d[1])
            elif d[0] in ('ex', 'opq'):
                r |= holes_of(d[1])
        r = frozenset(r)
        _hh[f] = r
    return r


def has_hole(f):
    return f > 1 and not OWNED[-1].isdisjoint(holes_of(f))


# ------------------------------------------------------------------ reading and writing by path
def idx_expand(i):
    """an index as {constant: guard}, expanding square indices"""
    r = {}
    for (c, syms), g in i.c.items():
        if not syms:
            addcase(r, c, g)
        elif len(syms) == 1 and syms[0][0][0] == 'idx':
            (s, co), = syms
            for q in range(81):
                addcase(r, c + co * q, AND(g, D.at(s[1], q // 9, q % 9)))
        else:
            unsup('index %r' % (syms,))
    return r


QUERY = [None]     # the arbitrary move a move list is viewed through


def elem_at(v, i):
    """element of an array value at an abstract index"""
    t = type(v)
    if t is VU:
        unsup('array read: ' + v.why)
    if t is VS and v.ty == 'avcur':
        if list(i.c) == [(0, ((('curi',), 1),))] and v.f[0].k == ('cur',) and v.f[1].f == 0:
            return QUERY[0]
        unsup('read of a move list')
    if t is VVec:
        c = i.const()
        r = None
        for (k, syms), g in i.c.items():
            if v.base is not None:
                if syms != ((('len', v.base), 1),):
                    unsup('index into an opaque vector')
            elif syms:
                unsup('index into a vector')
            if not 0 <= k < len(v.e):
                unsup('opaque vector element')
            r = v.e[k] if r is None else merge(g, v.e[k], r)
        return r
    if t is VL:
        r = None
        for (c, syms), g in i.c.items():
            if not syms:
                if not 0 <= c <= 80:
                    continue
                x = vsubst(v.e, v.tok, ('C', c // 9, c % 9))
            elif c == 0 and len(syms) == 1 and syms[0][0][0] == 'idx' and syms[0][1] == 1:
                x = vsubst(v.e, v.tok, syms[0][0][1])
            else:
                return elem_at(expand_lam(v), i)
            r = x if r is None else merge(g, x, r)
        if r is None:
            unsup('index out of range')
        return r
    if t is VA:
        r = None
        for c, g in sorted(idx_expand(i).items()):
            if not 0 <= c < len(v.e):
                continue
            r = v.e[c] if r is None else merge(g, v.e[c], r)
        if r is None:
            unsup('index out of range')
        return r
    unsup('indexing %s' % t.__name__)


def step(v, p):
    """one path step"""
    k = p[0]
    t = type(v)
    if t is VU:
        unsup('read of unknown value: ' + v.why)
    if k == 'f':
        if t is VS:
            return v.f[p[1]]
        if t is VE and len(v.c) == 1:
            (g, fs), = v.c.values()
            return fs[p[1]]
        unsup('field of %s' % t.__name__)
    if k == 'v':
        if t is not VE:
            unsup('variant of %s' % t.__name__)
        x = v.c.get(p[1])
        if x is None:
            return VU('absent variant')
        return VS(None, x[1])
    if k == 'x':
        return elem_at(v, p[1])
    if k == 'py':
        unsup('opaque projection')
    unsup('path %s' % k)


def readp(v, path):
    for p in path:
        v = step(v, p)
    return v


def writep(v, path, new):
    """v with the place at path replaced by new"""
    if not path:
        return new
    p, rest = path[0], path[1:]
    k = p[0]
    t = type(v)
    if t is VU:
        unsup('partial write into unknown value: ' + v.why)
    if k == 'f':
        if t is not VS:
            unsup('field write into %s' % t.__name__)
        fs = list(v.f)
        fs[p[1]] = writep(fs[p[1]], rest, new)
        return VS(v.ty, fs)
    if k == 'v':
        if t is not VE:
            unsup('variant write into %s' % t.__name__)
        c = dict(v.c)
        if p[1] not in c:
            return v
        g, fs = c[p[1]]
        w = writep(VS(None, fs), rest, new)
        c[p[1]] = (g, w.f)
        return VE(v.ty, c)
    if k == 'x':
        i = p[1]
        if t is VVec:
            es = list(v.e)
            for (c, syms), g in i.c.items():
                if (v.base is not None and syms != ((('len', v.base), 1),)) or (v.base is None and syms) \
                        or not 0 <= c < len(es):
                    unsup('write into an opaque vector')
                es[c] = merge(g, writep(es[c], rest, new), es[c])
            return VVec(v.base, es)
        if t is VL:
            e = v.e
            T = (v.tok, 0, 0)
            for (c, syms), g in i.c.items():
                if not syms:
                    q = ('C', c // 9, c % 9)
                elif c == 0 and len(syms) == 1 and syms[0][0][0] == 'idx' and syms[0][1] == 1:
                    q = syms[0][0][1]
                else:
                    return writep(expand_lam(v), path, new)
                gg = AND(g, D.eq(T, q))
                e = merge(gg, writep(e, rest, new), e)
            return VL(v.tok, e)
        if t is VA:
            es = list(v.e)
            for c, g in idx_expand(i).items():
                if 0 <= c < len(es):
                    es[c] = merge(g, writep(es[c], rest, new), es[c])
            return VA(es)
        unsup('indexed write into %s' % t.__name__)
    unsup('path %s' % k)
