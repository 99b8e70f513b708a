"""Transfer functions for the libraries yasai is built on (shogi_core, arrayvec, once_cell, rand, the
standard library).  They state what the documentation of those crates guarantees."""
import re
import dom as D
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE, IFF
from values import *
import values as VV

X = ('X', 0, 0)

PANICS = re.compile(r'(unwrap_failed|expect_failed|panicking::|panic_fmt|begin_panic|rt::panic|panic_display|'
                    r'slice_\w*_fail|index_fail|unreachable_display|handle_error|panic_cold|div_by_zero|abort)')
HANDK = [1, 2, 3, 4, 5, 6, 7]


def kind(code):
    return code & 15


def color(code):
    return code >> 4


def mkcode(k, c):
    return k + 16 * c


PROMO = {1: 9, 2: 10, 3: 11, 4: 12, 6: 13, 7: 14}
UNPROMO = {v: k for k, v in PROMO.items()}


class Board:
    """the opaque position (or that position after one symbolic move): what its accessors return"""

    def __init__(s, side, content, hands, ply=0):
        s.side, s.content, s.hands, s.plyoff = side, content, hands, ply


class Models:
    def __init__(self, interp):
        self.I = interp
        p = interp.p
        self.tid = {}
        for t in p.types.values():
            if t['k'] == 'adt':
                self.tid.setdefault(t['path'].split('::')[-1], []).append(t['id'])
        self.COLOR = self.find('Color', 'shogi_core')
        self.PK = self.find('PieceKind', 'shogi_core')
        self.MOVE = self.find('Move', 'shogi_core')
        self.ORD = self.find('Ordering', None)
        self.boards = {}
        self.cache = {}
        self.reads = set()
        self.seeds = set()
        self.contract_hook = None
        self.cur = None

    def find(self, name, krate):
        for i in self.tid.get(name, []):
            if krate is None or self.I.p.types[i].get('krate') == krate:
                return i
        return None

    # ------------------------------------------------------------ building values
    def enum(self, ty, cases):
        """fieldless enum from {discriminant: guard}"""
        t = self.I.p.types[ty]
        r = {}
        for i, v in enumerate(t['variants']):
            g = cases.get(int(v['discr']), 0)
            if g:
                r[i] = (g, ())
        return VE(ty, r)

    def discrs(self, v):
        """{discriminant: guard} of a fieldless enum"""
        if type(v) is not VE:
            unsup('enum expected, got %r' % type(v).__name__)
        t = self.I.p.types[v.ty]
        return {int(t['variants'][i]['discr']): g for i, (g, _) in v.c.items()}

    def col(self, c):
        return self.enum(self.COLOR, {c + 1: 1})

    def colors(self, v):
        """{0 or 1: guard}"""
        return {d - 1: g for d, g in self.discrs(v).items()}

    def kinds(self, cases):
        return self.enum(self.PK, cases)

    def opt(self, ty, g, v):
        r = {}
        if NOT(g):
            r[0] = (NOT(g), ())
        if g:
            r[1] = (g, (v,))
        return VE(ty, r)

    def option_parts(self, v):
        if type(v) is not VE:
            unsup('option expected')
        if 1 not in v.c:
            return 0, None
        g, fs = v.c[1]
        return g, fs[0]

    def idx(self, t):
        if t[0] == 'C':
            return vint(64, t[1] * 9 + t[2])
        return VI(64, False, {(0, ((('idx', t), 1),)): 1})

    def sq(self, st, v):
        v = self.val(st, v)
        if type(v) is not VSq:
            unsup('square expected')
        return v.c

    def pcs(self, st, v):
        v = self.val(st, v)
        if type(v) is not VPc:
            unsup('piece expected')
        return v.c

    def set(self, st, v):
        v = self.val(st, v)
        if type(v) is VSet:
            return v.f
        if type(v) is VSq:
            r = 0
            for t, g in v.c.items():
                r = OR(r, AND(g, D.eq(X, t)))
            return r
        if type(v) is VU:
            unsup('set: ' + v.why)
        unsup('set of squares expected, got %s' % type(v).__name__)

    def val(self, st, v):
        n = 0
        while type(v) is VR:
            v = self.I.load(st, self.I.deref(st, v))
            n += 1
            if n > 4:
                break
        return v

    def setv(self, f):
        return VSet(f)

    def norm(self, S):
        return D.links(AND(S, D.valid(X)))

    def some(self, S):
        return D.EX(S, 'X')

    def first(self, S):
        return D.first_token(self.norm(S))

    def compress(self, cases):
        """a square given case by case as a single term, if it is one"""
        if len(cases) < 5:
            return cases
        some = 0
        for g in cases.values():
            some = OR(some, g)
        toks = set()
        for l in B.support(some):
            d = D._desc[l]
            if d[0] == 'co':
                toks.add(d[1])
        for g in cases.values():
            for l in B.support(g):
                d = D._desc[l]
                if d[0] == 'co':
                    toks.add(d[1])
        for o in sorted(toks):
            cand = None
            for t, g in cases.items():
                if t[0] != 'C':
                    break
                p = D.project(g, (o,))
                vs = D.values_on(p, o)
                if len(vs) != 1:
                    cand = None
                    break
                off = (t[1] - vs[0][0], t[2] - vs[0][1])
                if cand is None:
                    cand = off
                elif cand != off:
                    cand = None
                    break
            if cand is not None:
                return {(o, cand[0], cand[1]): some}
        return cases

    # ------------------------------------------------------------ constants
    def decode_const(self, t, num, off):
        p = t['path']
        if not t.get('krate') == 'shogi_core':
            if p.endswith('Lazy') and t.get('krate') == 'once_cell':
                return VU('lazy constant')
            return None
        n = p.split('::')[-1]
        if n == 'Square':
            i = num(off, 1) - 1
            return VSq({('C', i // 9, i % 9): 1})
        if n == 'Piece':
            return VPc({num(off, 1): 1})
        if n == 'Bitboard':
            a, b = num(off, 8), num(off + 8, 8)
            f = 0
            for i in range(81):
                if (a >> i & 1) if i < 63 else (b >> (i - 63) & 1):
                    f = OR(f, D.at(X, i // 9, i % 9))
            if f == D.valid(X):
                pass
            return VSet(f)
        if n == 'Hand':
            return VH([vint(8, num(off + i, 1)) for i in range(7)])
        return None

    def make_adt(self, t, variant, ops):
        return None

    # ------------------------------------------------------------ integers
    @staticmethod
    def wrapc(c, bits, sg):
        c &= (1 << bits) - 1
        if sg and c >> (bits - 1):
            c -= 1 << bits
        return c

    def norml(self, lin, bits, sg):
        c, syms = lin
        if not syms:
            return (self.wrapc(c, bits, sg), ())
        if not sg and c < 0 and any(k == ('ply',) for k, _ in syms):
            return lin
        if not -(1 << (bits - 1)) <= c < (1 << (bits - 1)):
            c = self.wrapc(c, bits, True)
        return (c, syms)

    def expand(self, v):
        """integer with its square-index cases replaced by constants"""
        if all(not k[1] for k in v.c):
            return v
        r = {}
        for c, g in VV.idx_expand(v).items():
            addcase(r, (self.wrapc(c, v.bits, v.sg), ()), g)
        return VI(v.bits, v.sg, r)

    def lin_eq_const(self, lin, val, bits):
        return self.lcmp('Eq', lin, lconst(val), bits)

    def lcmp(self, op, a, b, bits=64):
        d = ladd(a, b, -1)
        if not d[1]:
            if not a[1] and not b[1]:
                x, y = a[0], b[0]
            else:
                x, y = d[0], 0
            if op == 'Eq':
                m = (1 << bits) - 1
                return 1 if (x & m) == (y & m) else 0
            return 1 if {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y, 'Ne': x != y}[op] else 0
        if op == 'Ne':
            return NOT(self.lcmp('Eq', a, b, bits))
        if op == 'Gt':
            return self.lcmp('Lt', b, a, bits)
        if op == 'Ge':
            return NOT(self.lcmp('Lt', a, b, bits))
        if op == 'Le':
            return NOT(self.lcmp('Lt', b, a, bits))
        k = (op, d)
        r = self.cache.get(k)
        if r is None:
            r = self.lcmp_(op, d)
            self.cache[k] = r
        return r

    def lcmp_(self, op, d):
        """d == 0 or d < 0"""
        c, syms = d
        names = [s[0][0] for s in syms]
        if names == ['idx']:
            (s, co), = syms
            r = 0
            for q in range(81):
                v = c + co * q
                if (v == 0 if op == 'Eq' else v < 0):
                    r = OR(r, D.at(s[1], q // 9, q % 9))
            return r
        if names == ['idx', 'idx']:
            (s, k1), (u, k2) = syms
            if k1 + k2 != 0 or abs(k1) != 1:
                unsup('comparison of square indices')
            s, u = s[1], u[1]
            if k1 < 0:
                s, u = u, s
            # index(s) - index(u) + c
            if op == 'Eq':
                if c == 0:
                    return D.eq(s, u)
                r = 0
                for df in range(-8, 9):
                    dr = -c - 9 * df
                    if -8 <= dr <= 8:
                        r = OR(r, D.delta(u, s, df, dr))
                return r
            if c == 0:
                return D.idxlt(s, u)
            unsup('comparison of square indices')
        if names == ['cnt']:
            (s, co), = syms
            S = s[1]
            if abs(co) != 1:
                unsup('scaled count')
            n = -c * co     # d == 0  <=>  cnt == n
            if op == 'Eq':
                return AND(D.atleast(S, n), NOT(D.atleast(S, n + 1))) if n >= 0 else 0
            if co == 1:      # cnt + c < 0  <=>  cnt < -c
                return NOT(D.atleast(S, -c)) if -c > 0 else 0
            return D.atleast(S, c + 1) if c + 1 > 0 else 1      # c - cnt < 0 <=> cnt > c
        if names == ['len']:
            (s, co), = syms
            if co == 1:
                if op == 'Eq' and c >= 1:
                    return 0
                if op == 'Lt' and c >= 0:
                    return 0
            elif co == -1:
                if op == 'Eq' and c <= -1:
                    return 0
                if op == 'Lt' and c <= -1:
                    return 1
            thr = lambda n: D.flag('%s has %d' % (s[1], n)) if n > 0 else 1
            if abs(co) == 1:
                if op == 'Eq':
                    return AND(thr(-co * c), NOT(thr(1 - co * c)))
                return NOT(thr(-c)) if co == 1 else thr(c + 1)
            unsup('length of an opaque vector')
        if set(names) <= {'curi', 'curlen'}:
            m = {s[0][0]: s[1] for s in syms}
            # i < len during an iteration
            if m == {'curi': 1, 'curlen': -1} and c == 0:
                return 0 if op == 'Eq' else 1
            if m == {'curi': -1, 'curlen': 1} and c == 0:
                return 0
            unsup('cursor comparison')
        unsup('comparison involving %s' % ','.join(names))

    def lrange(self, lin):
        lo = hi = lin[0]
        for s, co in lin[1]:
            if s[0] == 'idx':
                a, b = 0, 80 * co
            elif s[0] == 'cnt':
                a, b = 0, 81 * co
            else:
                a, b = 0, 1000 * co
            lo += min(a, b)
            hi += max(a, b)
        return lo, hi

    def pairs(self, a, b):
        for k, g in a.c.items():
            for l, h in b.c.items():
                gh = AND(g, h)
                if gh:
                    yield k, l, gh

    def binop(self, op, a, b, t, st):
        ta, tb = type(a), type(b)
        if ta is VU or tb is VU:
            unsup('operand: ' + (a.why if ta is VU else b.why))
        if ta is VB and tb is VB:
            if op == 'BitAnd':
                return VB(AND(a.f, b.f))
            if op == 'BitOr':
                return VB(OR(a.f, b.f))
            if op in ('BitXor', 'Ne'):
                return VB(XOR(a.f, b.f))
            if op == 'Eq':
                return VB(NOT(XOR(a.f, b.f)))
            if op == 'Lt':
                return VB(AND(NOT(a.f), b.f))
            if op == 'Gt':
                return VB(AND(NOT(b.f), a.f))
            if op == 'Le':
                return VB(OR(NOT(a.f), b.f))
            if op == 'Ge':
                return VB(OR(NOT(b.f), a.f))
            unsup('bool op %s' % op)
        if VX in (ta, tb) and {ta, tb} <= {VX, VI}:
            return self.wordop(op, a, b)
        if ta is VI and tb is VI:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                r = 0
                for k, l, g in self.pairs(a, b):
                    r = OR(r, AND(g, self.lcmp(op, k, l, a.bits)))
                return VB(r)
            if op == 'Cmp':
                r = {}
                for k, l, g in self.pairs(a, b):
                    lt, eq = self.lcmp('Lt', k, l), self.lcmp('Eq', k, l)
                    addcase(r, -1, AND(g, lt))
                    addcase(r, 0, AND(g, eq))
                    addcase(r, 1, AND(g, NOT(lt), NOT(eq)))
                return self.enum(t['id'], self.fixdisc(t, r))
            return VI(a.bits, a.sg, self.arith(op, a, b))
        if ta is VR and tb is VI and op == 'Offset':
            unsup('pointer arithmetic')
        unsup('operator %s on %s and %s' % (op, ta.__name__, tb.__name__))

    def fixdisc(self, t, r):
        ds = [int(v['discr']) for v in t['variants']]
        if -1 in ds:
            return r
        return {max(ds) if k == -1 and max(ds) > 1 else k: g for k, g in r.items()}

    def arith(self, op, a, b):
        r = {}
        bits, sg = a.bits, a.sg
        o = op.replace('Unchecked', '').replace('WithOverflow', '')
        if o not in ('Add', 'Sub', 'Mul'):
            a, b = self.expand(a), self.expand(b)
        for k, l, g in self.pairs(a, b):
            if o == 'Add':
                v = ladd(k, l)
            elif o == 'Sub':
                v = ladd(k, l, -1)
            elif o == 'Mul':
                if k[1] and l[1]:
                    unsup('product of symbolic integers')
                if k[1]:
                    k, l = l, k
                v = ladd((0, ()), l, k[0])
            else:
                x, y = k[0], l[0]
                if o == 'BitAnd':
                    v = x & y
                elif o == 'BitOr':
                    v = x | y
                elif o == 'BitXor':
                    v = x ^ y
                elif o == 'Shl':
                    v = x << (y % bits)
                elif o == 'Shr':
                    v = x >> (y % bits)
                elif o in ('Div', 'Rem'):
                    if y == 0:
                        continue
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    v = q if o == 'Div' else x - q * y
                else:
                    unsup('operator %s' % op)
                v = lconst(v)
            addcase(r, self.norml(v, bits, sg), g)
        return r

    def checked(self, op, a, b, t, st):
        if type(a) is not VI or type(b) is not VI:
            unsup('checked %s' % op)
        o = op.replace('WithOverflow', '')
        over = 0
        bits, sg = a.bits, a.sg
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        wide = VI(a.bits, a.sg, {})
        for k, l, g in self.pairs(a, b):
            if o == 'Add':
                v = ladd(k, l)
            elif o == 'Sub':
                v = ladd(k, l, -1)
            elif o == 'Mul' and not (k[1] and l[1]):
                v = ladd((0, ()), l if not k[1] else k, k[0] if not k[1] else l[0])
            else:
                unsup('checked %s' % op)
            if not v[1]:
                if not lo <= v[0] <= hi:
                    over = OR(over, g)
                continue
            if all(s[0] in ('ply', 'len', 'avlen', 'hole') or s[0] in ('curi', 'curlen') for s, _ in v[1]):
                self.I.assumed.add('counters (%s) do not overflow' % ','.join(sorted({s[0] for s, _ in v[1]})))
                continue
            x, y = self.lrange(v)
            if lo <= x and y <= hi:
                continue
            if len(v[1]) == 1 and v[1][0][0][0] == 'idx':
                (s, co), = v[1]
                for q in range(81):
                    if not lo <= v[0] + co * q <= hi:
                        over = OR(over, AND(g, D.at(s[1], q // 9, q % 9)))
                continue
            unsup('possible overflow of %r' % (v,))
        return VS(None, [VI(bits, sg, self.arith(o, a, b)), VB(over)])

    def wordop(self, op, a, b):
        if op == 'BitXor':
            a, b = tovx(a), tovx(b)
            bits = dict(a.bits)
            for k, g in b.bits.items():
                bits[k] = XOR(bits.get(k, 0), g)
            terms = dict(a.terms)
            for k, g in b.terms.items():
                terms[k] = XOR(terms.get(k, 0), g)
            return VX(bits, terms)
        if op == 'BitAnd':
            if type(a) is not VX:
                a, b = b, a
            if type(b) is not VI:
                unsup('conjunction of random words')
            m = b.const()
            if m is None:
                unsup('mask of a random word')
            m &= (1 << 64) - 1
            bits = {k: g for k, g in a.bits.items() if m >> k & 1}
            terms = {}
            for (lin, mask), g in a.terms.items():
                k = (lin, (mask & m) if mask != -1 or m != (1 << 64) - 1 else -1)
                terms[k] = XOR(terms.get(k, 0), g)
            return VX(bits, terms)
        if op == 'BitOr':
            # setting bits
            unsup('disjunction with a random word')
        unsup('operator %s on a random word' % op)

    def unop(self, op, a, t, st):
        if type(a) is VU:
            unsup('operand: ' + a.why)
        if op == 'Not':
            if type(a) is VB:
                return VB(NOT(a.f))
            if type(a) is VI:
                a = self.expand(a)
                r = {}
                for k, g in a.c.items():
                    addcase(r, lconst(self.wrapc(~k[0], a.bits, a.sg)), g)
                return VI(a.bits, a.sg, r)
            if type(a) is VX:
                return self.wordop('BitXor', a, vint(64, (1 << 64) - 1))
        if op == 'Neg' and type(a) is VI:
            r = {}
            for k, g in a.c.items():
                addcase(r, self.norml(ladd((0, ()), k, -1), a.bits, a.sg), g)
            return VI(a.bits, a.sg, r)
        if op == 'PtrMetadata':
            return self.I.length(self.val(st, a))
        unsup('operator %s on %s' % (op, type(a).__name__))

    def cast(self, ck, v, t, st):
        if type(v) is VU:
            return v
        if ck == 'IntToInt':
            if type(v) is VB:
                r = {}
                addcase(r, lconst(1), v.f)
                addcase(r, lconst(0), NOT(v.f))
                return VI(t['bits'], t['k'] == 'int', r)
            if type(v) is VI:
                bits, sg = t.get('bits', 32), t['k'] == 'int'
                r = {}
                for k, g in v.c.items():
                    addcase(r, self.norml(k, bits, sg), g)
                return VI(bits, sg, r)
            if type(v) is VX and t.get('bits') == 64:
                return v
            if type(v) is VE:
                return VI(t['bits'], t['k'] == 'int', {lconst(d): g for d, g in self.discrs(v).items()})
        if ck.startswith('PtrToPtr') or 'Unsize' in ck or 'MutToConst' in ck or 'ReifyFn' in ck:
            return v
        if ck == 'Transmute' and type(v) in (VR,):
            if t['k'] == 'uint':
                return vint(t['bits'], 4096)     # pointers made from references are aligned and not null
            return v
        if 'BoxDeref' in ck:
            return v
        if 'Closure' in ck and type(v) is VS:
            ct = self.I.p.types.get(v.ty)
            if ct and ct.get('inst') is not None:
                return VPy('fn', ct['inst'])
        if ck == 'Transmute' and type(v) is VI and t['k'] in ('uint', 'int'):
            return self.cast('IntToInt', v, t, st)
        unsup('cast %s of %s' % (ck, type(v).__name__))

    # ------------------------------------------------------------ equality
    def eqv(self, a, b, st=None):
        if type(a) is VR and st is not None:
            a = self.val(st, a)
        if type(b) is VR and st is not None:
            b = self.val(st, b)
        if a is b:
            return 1
        ta, tb = type(a), type(b)
        if ta is VU or tb is VU:
            unsup('comparison of unknown values: ' + (a.why if ta is VU else b.why))
        if ta is not tb:
            unsup('comparison of %s and %s' % (ta.__name__, tb.__name__))
        if ta is VB:
            return NOT(XOR(a.f, b.f))
        if ta is VI:
            r = 0
            for k, l, g in self.pairs(a, b):
                r = OR(r, AND(g, self.lcmp('Eq', k, l, a.bits)))
            return r
        if ta is VSq:
            r = 0
            for k, g in a.c.items():
                for l, h in b.c.items():
                    r = OR(r, AND(g, h, D.eq(k, l)))
            return r
        if ta is VPc:
            r = 0
            for k, g in a.c.items():
                if k in b.c:
                    r = OR(r, AND(g, b.c[k]))
            return r
        if ta is VE:
            r = 0
            for k, (g, fs) in a.c.items():
                if k in b.c:
                    h, gs = b.c[k]
                    e = AND(g, h)
                    if e:
                        for x, y in zip(fs, gs):
                            e = AND(e, self.eqv(x, y, st))
                    r = OR(r, e)
            return r
        if ta is VS:
            r = 1
            for x, y in zip(a.f, b.f):
                r = AND(r, self.eqv(x, y, st))
            return r
        if ta is VA:
            r = 1
            for x, y in zip(a.e, b.e):
                r = AND(r, self.eqv(x, y, st))
            return r
        if ta is VSet:
            return NOT(D.EX(XOR(a.f, b.f), 'X'))
        if ta is VH:
            r = 1
            for x, y in zip(a.n, b.n):
                r = AND(r, self.eqv(x, y))
            return r
        unsup('comparison of %s' % ta.__name__)

    # ------------------------------------------------------------ closures
    def call_closure(self, cl, args, st):
        I = self.I
        ref = None
        while type(cl) is VR:
            ref = cl
            cl = I.load(st, I.deref(st, cl))
        if type(cl) is VPy and cl.k[0] == 'fn':
            return I.call_inst(I.p.insts[cl.k[1]], args, st, None)
        if type(cl) is VPy and cl.k[0] == 'py':
            return cl.k[1](args, st)
        if type(cl) is not VS:
            unsup('call of %s' % type(cl).__name__)
        t = I.p.types.get(cl.ty)
        if t is None or t.get('inst') is None:
            unsup('call of an unknown function value')
        inst = I.p.insts[t['inst']]
        if t['k'] == 'fndef':
            return I.call_inst(inst, args, st, None)
        body = inst.get('body')
        if not body:
            unsup('closure without body')
        et = I.p.types[body['locals'][1]]
        if et['k'] == 'ref':
            if ref is None:
                ref = I.temp(st, cl)
            env = ref
        else:
            env = cl
        n = body['argc']
        if n != 1 + len(args):
            unsup('closure arity')
        return I.run(inst, [env] + args, st)

    # ------------------------------------------------------------ iterators
    def to_iter(self, st, v):
        """the iterator value behind v (by value)"""
        t = type(v)
        if t is VIt:
            return v
        if t is VSet:
            return VIt([('set', v.f, 'sq')])
        if t is VS and len(v.f) in (2, 3) and type(v.f[0]) is VI and type(v.f[1]) is VI:
            lo, hi = v.f[0].const(), v.f[1]
            if lo is None:
                unsup('range start')
            hi = self.expand(hi)
            if any(k[1] for k in hi.c):
                unsup('range end')
            if len(v.f) == 3:
                hi = VI(hi.bits, hi.sg, {(k[0] + 1, ()): g for k, g in hi.c.items()})
            segs = []
            top = max(k[0] for k in hi.c)
            for i in range(lo, top):
                g = 0
                for k, gg in hi.c.items():
                    if k[0] > i:
                        g = OR(g, gg)
                segs.append(('elem', g, vint(v.f[0].bits, i, v.f[0].sg)))
            return VIt(segs)
        if t is VA:
            return VIt([('elem', 1, e) for e in v.e])
        if t is VL:
            return VIt([('set', D.valid(X), ('ref', ('V', v), ()))], (('deref',),))
        if t is VR:
            return self.ref_iter(st, v)
        if t is VE and set(v.c) <= {0, 1}:       # Option
            g, x = self.option_parts(v)
            return VIt([('elem', g, x)] if g else [])
        if t is VVec and v.base is None:
            return VIt([('elem', 1, e) for e in v.e])
        unsup('iteration over %s' % t.__name__)

    def ref_iter(self, st, v):
        pl = self.I.deref(st, v)
        x = self.I.load(st, pl)
        if type(x) is VIt or type(x) is VSet:
            unsup('iterator behind a reference')
        if type(x) is VR:
            return self.ref_iter(st, x)
        if len(pl) != 1:
            if type(x) is VA:
                return VIt([('elem', 1, VR({(r, p + (('x', vint(64, i)),)): g for g, r, p in pl})) for i in range(len(x.e))])
            unsup('iteration over several places')
        g, root, path = pl[0]
        if type(x) is VA or (type(x) is VVec and x.base is None):
            return VIt([('elem', 1, VR({(root, path + (('x', vint(64, i)),)): 1})) for i in range(len(x.e))])
        if type(x) is VL:
            return VIt([('set', D.valid(X), ('ref', root, path))])
        unsup('iteration over %s' % type(x).__name__)

    def next_it(self, it, ret_ty):
        """advance an iterator outside of a recognised loop: (Option, rest)"""
        if it.primed is not None:
            if it.primed[0] == 'some':
                return self.opt(ret_ty, 1, it.primed[1]), VIt(it.segs, it.ops, ('body',))
            unsup('iterator advanced twice in one iteration')
        if it.ops and it.segs:
            unsup('next on an adapted iterator')
        if not it.segs:
            return self.opt(ret_ty, 0, None), it
        s = it.segs[0]
        if s[0] == 'elem' and s[1] == 1:
            return self.opt(ret_ty, 1, s[2]), VIt(it.segs[1:], it.ops)
        if s[0] == 'set' and len(it.segs) == 1:
            S = self.norm(s[1])
            g = self.some(S)
            if g == 0:
                return self.opt(ret_ty, 0, None), VIt(())
            t = D.first_token(S)
            rest = AND(s[1], NOT(D.eq(X, t)))
            return self.opt(ret_ty, g, self.I.mkelem(s[2], t)), VIt([('set', rest, s[2])])
        # guarded elements: the first one present
        if all(x[0] == 'elem' for x in it.segs):
            g, v = 0, None
            segs = []
            for x in it.segs:
                take = AND(x[1], NOT(g))
                v = x[2] if v is None else merge(take, x[2], v)
                segs.append(('elem', AND(x[1], g), x[2]))
                g = OR(g, x[1])
            return self.opt(ret_ty, g, v), VIt([x for x in segs if x[1]])
        unsup('next on a mixed iterator')

    def consume(self, st, it, fn, end=None):
        """drive an iterator to its end; fn(state, element) -> (back state or None, {key: state}).
        end(state) gives the value when no exit was taken; exits leave theirs in mem[('T','ret')]"""
        I = self.I
        I.nheap += 1
        slot = ('T', I.nheap)
        self.slot = slot

        def body(s, e):
            back, ex = fn(s, e, slot)
            return back, ex
        last, exits = I.iterate(it, st, body)
        outs = []
        if last is not None:
            last.mem[slot] = end(last) if end else UNIT
            outs.append(last)
        for k, v in exits.items():
            outs.extend(v)
        import interp as IN
        outs = [IN.St(s.pc, dict(s.mem)) for s in outs]
        r = IN.join(outs)
        if r is None:
            return None
        v = r.mem.pop(slot)
        return v, r

    # ------------------------------------------------------------ the filter loop over the move list
    def cursor_loop(self, inst, body, cfg, fr, h, st):
        I = self.I
        import interp as IN
        blocks = cfg.loops[h]
        rm = False
        for b in blocks:
            t = body['blocks'][b]['t']
            if t['k'] == 'call':
                ci = I.p.insts.get(t['inst'])
                if ci is not None and re.search(r'ArrayVec.*::(swap_remove|swap_pop)$', ci['path']):
                    rm = True
        if not rm:
            return None
        avs = [(k, v) for k, v in st.mem.items() if type(v) is VAv]
        if len(avs) != 1:
            unsup('several move lists in a loop')
        (ak, av), = avs
        cand = []
        for i in range(len(body['locals'])):
            v = st.mem.get(('L', fr, i))
            if type(v) is VI and v.const() == 0 and self.assigned(body, blocks, i):
                cand.append(i)
        if len(cand) != 1:
            unsup('cursor of a filter loop')
        ik = ('L', fr, cand[0])
        Q = I.query
        s = IN.St(st.pc, dict(st.mem))
        s.mem[ak] = VS('avcur', (VPy('cur'), VB(0)))
        s.mem[ik] = VI(64, False, {(0, ((('curi',), 1),)): 1})
        ex = I.region(inst, body, cfg, fr, h, h, s)
        back = ex.pop('back', None)
        if ex or back is None or AND(st.pc, NOT(back.pc)) != 0:
            unsup('filter loop may stop early')
        a = back.mem[ak]
        if type(a) is not VS or a.ty != 'avcur':
            unsup('move list replaced in a filter loop')
        removed = a.f[1].f
        i = back.mem[ik]
        adv = 0
        for k, g in i.c.items():
            if k == (1, ((('curi',), 1),)):
                adv = OR(adv, g)
            elif k != (0, ((('curi',), 1),)) and AND(g, back.pc):
                unsup('cursor of a filter loop')
        if AND(back.pc, NOT(XOR(adv, removed))) != 0:
            unsup('cursor neither advances nor is its move removed')
        keep = NOT(removed)
        # after the loop: the cursor is at the end
        s = IN.St(st.pc, dict(st.mem))
        for k, v in back.mem.items():
            if k in s.mem and s.mem[k] is not v and k not in (ak, ik):
                s.mem[k] = VU('value of the last iteration')
        s.mem[ak] = VS('avcur', (VPy('end'), VB(0)))
        s.mem[ik] = VI(64, False, {(0, ((('cure',), 1),)): 1})
        ex = I.region(inst, body, cfg, fr, h, h, s)
        if 'back' in ex:
            unsup('filter loop does not stop at the end')
        outs = []
        for k, x in ex.items():
            x = IN.St(x.pc, dict(x.mem))
            x.mem[ak] = VAv([AND(g, keep) for g in av.g], av.s)
            x.mem[ik] = VU('cursor')
            outs.append((k, x))
        return outs

    def assigned(self, body, blocks, i):
        for b in blocks:
            for s in body['blocks'][b]['s']:
                if s[0] == '=' and s[1][0] == i and not s[1][1]:
                    return True
            t = body['blocks'][b]['t']
            if t['k'] == 'call' and t['d'][0] == i and not t['d'][1]:
                return True
        return False

    # ------------------------------------------------------------ dispatch
    def native(self, inst, args, st, span, ret_ty, fty):
        path = inst['path']
        f = self.cache.get(('n', path))
        if f is None:
            f = self.lookup(inst, path)
            self.cache[('n', path)] = f
        if f is False:
            return NotImplemented
        self.ret_ty, self.inst, self.span = ret_ty, inst, span
        r = f(st, *args)
        if r is NotImplemented or r is None:
            return r
        if isinstance(r, tuple):
            return r
        return r, st

    def lookup(self, inst, path):
        own = inst['krate'] == self.I.p.crate
        if own:
            m = re.search(r'Occupied for .*>::(\w+)$', path)
            if m and hasattr(self, 'occ_' + m.group(1)):
                self.I.stats['functions'].add(inst['name'])
                return getattr(self, 'occ_' + m.group(1))
            if inst.get('body'):
                if re.search(r' as (std|core)::fmt::', path):
                    return lambda st, *a: VU('formatting result')
                return False
        if PANICS.search(path) and not own:
            return self.panic
        if '::fmt::' in path or path.endswith('::fmt'):
            return lambda st, *a: VU('formatting result')
        last = path.split('::')[-1]
        if 'precondition_check' in path or last in ('assert_inhabited', 'drop_in_place', 'assert_unsafe_precondition'):
            return lambda st, *a: UNIT
        for pat, name in TABLE:
            if pat.search(path):
                return getattr(self, name)
        return False

    def panic(self, st, *args):
        self.I.oblige('panic', st, self.span, self.inst['path'].split('::')[-1])
        return None

    # ---- Occupied contracts
    def hook(self, st, op):
        pass

    def occ_shl(self, st, s):
        return VSet(AND(D.subst(self.set(st, s), 'X', ('X', 0, -1)), D.valid(('X', 0, -1)), D.valid(X)))

    def occ_shr(self, st, s):
        return VSet(AND(D.subst(self.set(st, s), 'X', ('X', 0, 1)), D.valid(('X', 0, 1)), D.valid(X)))

    def occ_vacant_files(self, st, s):
        S = self.set(st, s)
        z = D.fresh('v')
        Z = (z, 0, 0)
        return VSet(AND(D.valid(X), NOT(D.EX(AND(D.subst(S, 'X', Z), D.diff(X, Z, 0, 0)), z))))

    def slide(self, m, occ, positive):
        """members of the mask up to and including the first occupied one in index order"""
        key = ('slide', m, occ, positive)
        r = self.cache.get(key)
        if r is not None:
            return r
        m = AND(m, D.valid(X))
        # the directions in which index order is the order along the ray
        dirs = ('S', 'W', 'NW', 'SW') if positive else ('N', 'E', 'NE', 'SE')
        z = D.fresh('s')
        Z = (z, 0, 0)
        occz = D.subst(occ, 'X', Z)
        out = 0
        rest = m
        toks = set()
        for l in B.support(m):
            d = D._desc[l]
            if d[0] == 'co' and d[1] != 'X':
                toks.add(d[1])
        hit = False
        # flags and conditions select one ray: split on everything that is not geometry
        nong = [l for l in B.support(m) if D._desc[l][0] != 'co' and 'X' not in D.tokens_of_desc(D._desc[l])]
        if nong:
            l = nong[0]
            r = ITE(B.var(l), self.slide(B.cofactor(m, l, 1), occ, positive), self.slide(B.cofactor(m, l, 0), occ, positive))
            self.cache[key] = r
            return r
        if m == 0:
            self.cache[key] = 0
            return 0
        for K in [(k, 0, 0) for k in sorted(toks)] + [t for t, _ in D.NAMED if t[0] == 'C']:
            for d in dirs:
                if AND(XOR(m, AND(D.ray(K, X, d), D.valid(X))), D.valid(K)) == 0:
                    hit = True
                    out = AND(m, NOT(D.EX(AND(D.between(K, X, Z), occz), z)))
                    break
            if hit:
                break
        if not hit:
            mz = D.subst(m, 'X', Z)
            order = D.idxlt(Z, X) if positive else D.idxlt(X, Z)
            out = AND(m, NOT(D.EX(AND(mz, order, occz), z)))
        self.cache[key] = out
        return out

    def occ_sliding_positive_consecutive(self, st, s, mask):
        return VSet(self.slide(self.set(st, mask), self.set(st, s), True))

    def occ_sliding_negative_consecutive(self, st, s, mask):
        return VSet(self.slide(self.set(st, mask), self.set(st, s), False))

    def two(self, st, s, masks, pos):
        a = self.val(st, masks)
        if type(a) is not VA or len(a.e) != 2:
            unsup('pair of masks')
        o = self.set(st, s)
        return VSet(OR(self.slide(self.set(st, a.e[0]), o, pos), self.slide(self.set(st, a.e[1]), o, pos)))

    def occ_sliding_positives(self, st, s, masks):
        return self.two(st, s, masks, True)

    def occ_sliding_negatives(self, st, s, masks):
        return self.two(st, s, masks, False)

    # ---- Bitboard
    def bb_empty(self, st):
        return VSet(0)

    def bb_single(self, st, s):
        return VSet(self.set(st, s))

    def bb_and(self, st, a, b):
        return VSet(AND(self.set(st, a), self.set(st, b)))

    def bb_or(self, st, a, b):
        return VSet(OR(self.set(st, a), self.set(st, b)))

    def bb_xor(self, st, a, b):
        return VSet(XOR(self.set(st, a), self.set(st, b)))

    def bb_andnot(self, st, a, b):
        return VSet(AND(self.set(st, b), NOT(self.set(st, a))))

    def bb_not(self, st, a):
        return VSet(AND(NOT(self.set(st, a)), D.valid(X)))

    def bb_assign(self, st, a, b):
        p = self.inst['path']
        op = self.bb_and if 'bitand' in p else self.bb_or if 'bitor' in p else self.bb_xor
        v = op(st, a, b)
        self.I.store(st, self.I.deref(st, a), v)
        return UNIT

    def bb_is_empty(self, st, a):
        return VB(NOT(self.some(self.set(st, a))))

    def bb_contains(self, st, a, s):
        S = self.set(st, a)
        r = 0
        for t, g in self.sq(st, s).items():
            r = OR(r, AND(g, D.subst(S, 'X', t)))
        return VB(r)

    def bb_count(self, st, a):
        S = self.norm(self.set(st, a))
        if S == 0:
            return vint(8, 0)
        t = D.one_point(S, 'X')
        if t is not None:
            g = self.some(S)
            r = {}
            addcase(r, lconst(1), g)
            addcase(r, lconst(0), NOT(g))
            return VI(8, False, r)
        return VI(8, False, {(0, ((('cnt', self.set(st, a)), 1),)): 1})

    def bb_next(self, st, a):
        pl = self.I.deref(st, a)
        v = self.I.load(st, pl)
        if type(v) is VIt:
            r, rest = self.next_it(v, self.ret_ty)
        else:
            if type(v) is not VSet:
                unsup('next on %s' % type(v).__name__)
            r, rest = self.next_it(VIt([('set', v.f, 'sq')]), self.ret_ty)
            rest = VSet(rest.segs[0][1] if rest.segs else 0)
        self.I.store(st, pl, rest)
        return r

    def bb_vshift(self, st, a, n):
        k = self.val(st, n).const()
        if k is None:
            unsup('shift amount')
        d = {'shift_down': (0, -k), 'shift_up': (0, k), 'shift_left': (-k, 0), 'shift_right': (k, 0)}[self.inst['path'].split('::')[-1]]
        t = ('X',) + d
        return VSet(AND(D.subst(self.set(st, a), 'X', t), D.valid(t), D.valid(X)))

    def u128(self, st, *a):
        unsup('packed representation of a set')

    # ---- Square
    def sq_array_index(self, st, s):
        r = {}
        for t, g in self.sq(st, s).items():
            if t[0] == 'C':
                addcase(r, lconst(t[1] * 9 + t[2]), g)
            else:
                addcase(r, (0, ((('idx', t), 1),)), g)
        return VI(64, False, r)

    def sq_index(self, st, s):
        v = self.sq_array_index(st, s)
        return VI(8, False, {(k[0] + 1, k[1]): g for k, g in v.c.items()})

    def coord(self, st, s, axis):
        r = {}
        for t, g in self.sq(st, s).items():
            if t[0] == 'C':
                addcase(r, lconst(t[1 + axis] + 1), g)
            else:
                for v in range(9):
                    addcase(r, lconst(v + 1), AND(g, D.coeq(t, axis, v)))
        return VI(8, False, r)

    def sq_file(self, st, s):
        return self.coord(st, s, 0)

    def sq_rank(self, st, s):
        return self.coord(st, s, 1)

    def rel(self, st, s, c, axis):
        a = self.coord(st, s, axis)
        r = {}
        for k, g in self.colors(self.val(st, c)).items():
            for (n, _), h in a.c.items():
                addcase(r, lconst(n if k == 0 else 10 - n), AND(g, h))
        return VI(8, False, r)

    def sq_relative_rank(self, st, s, c):
        return self.rel(st, s, c, 1)

    def sq_relative_file(self, st, s, c):
        return self.rel(st, s, c, 0)

    def sq_shift(self, st, s, df, dr):
        df, dr = self.expand(self.val(st, df)), self.expand(self.val(st, dr))
        some, cases = 0, {}
        for t, g in self.sq(st, s).items():
            for a, h in df.c.items():
                for b, i in dr.c.items():
                    u = D.shift(t, a[0], b[0])
                    gg = AND(g, h, i, D.valid(u))
                    if gg:
                        some = OR(some, gg)
                        addcase(cases, u, gg)
        if not some:
            return self.opt(self.ret_ty, 0, None)
        return self.opt(self.ret_ty, some, VSq(cases))

    def sq_flip(self, st, s):
        r = {}
        for t, g in self.sq(st, s).items():
            if t[0] == 'C':
                addcase(r, ('C', 8 - t[1], 8 - t[2]), g)
            else:
                for f in range(9):
                    for k in range(9):
                        addcase(r, ('C', 8 - f, 8 - k), AND(g, D.at(t, f, k)))
        return VSq(r)

    def sq_new(self, st, f, k):
        f, k = self.expand(self.val(st, f)), self.expand(self.val(st, k))
        r, some = {}, 0
        for (a, _), g in f.c.items():
            for (b, _), h in k.c.items():
                gh = AND(g, h)
                if 1 <= a <= 9 and 1 <= b <= 9 and gh:
                    addcase(r, ('C', a - 1, b - 1), gh)
                    some = OR(some, gh)
        if not some:
            return self.opt(self.ret_ty, 0, None)
        return self.opt(self.ret_ty, some, VSq(self.compress(r)))

    def from_index(self, v):
        """squares with 1-based index v: (valid guard, cases)"""
        cases, ok = {}, 0
        for (c, syms), g in v.c.items():
            if not syms:
                if 1 <= c <= 81:
                    addcase(cases, ('C', (c - 1) // 9, (c - 1) % 9), g)
                    ok = OR(ok, g)
            elif len(syms) == 1 and syms[0][0][0] == 'idx' and syms[0][1] == 1:
                t = syms[0][0][1]
                k = c - 1
                for df in range(-9, 10):
                    dr = k - 9 * df
                    if not -8 <= dr <= 8:
                        continue
                    u = D.shift(t, df, dr)
                    gg = AND(g, D.valid(t), D.valid(u))
                    if gg:
                        addcase(cases, u, gg)
                        ok = OR(ok, gg)
            else:
                for q, h in VV.idx_expand(VI(v.bits, v.sg, {(c, syms): g})).items():
                    if 1 <= q <= 81:
                        addcase(cases, ('C', (q - 1) // 9, (q - 1) % 9), h)
                        ok = OR(ok, h)
        return ok, self.compress(cases)

    def sq_from_u8_unchecked(self, st, v):
        v = self.val(st, v)
        if type(v) is not VI:
            unsup('square index')
        ok, cases = self.from_index(v)
        bad = AND(st.pc, NOT(ok))
        self.I.stats['checked'] = self.I.stats.get('checked', 0) + 1
        if bad:
            self.I.oblige('ub', type(st)(bad, st.mem), self.span, 'invalid square constructed')
        if not cases:
            return None
        return VSq(self.restrict_cases(cases, st.pc))

    def restrict_cases(self, cases, pc):
        r = {t: g for t, g in cases.items() if self.I.feasible(AND(pc, g))}
        if len(r) == 1:
            t, = r
            return {t: 1}
        return r or cases

    def sq_from_u8(self, st, v):
        ok, cases = self.from_index(self.val(st, v))
        return self.opt(self.ret_ty, ok, VSq(cases or {('C', 0, 0): 1}))

    def sq_all(self, st):
        return VIt([('set', D.valid(X), 'sq')])

    # ---- Color, PieceKind, Piece
    def co_flip(self, st, c):
        return self.enum(self.COLOR, {2 - k: g for k, g in self.colors(self.val(st, c)).items()})

    def co_array_index(self, st, c):
        return VI(64, False, {lconst(k): g for k, g in self.colors(self.val(st, c)).items()})

    def co_all(self, st):
        return VA([self.col(0), self.col(1)])

    def pk_array_index(self, st, k):
        return VI(64, False, {lconst(d - 1): g for d, g in self.discrs(self.val(st, k)).items()})

    def pk_all(self, st):
        return VA([self.kinds({d: 1}) for d in range(1, 15)])

    def pk_map(self, st, k, table):
        some, r = 0, {}
        for d, g in self.discrs(self.val(st, k)).items():
            if d in table:
                addcase(r, table[d], g)
                some = OR(some, g)
        return self.opt(self.ret_ty, some, self.kinds(r) if r else None)

    def pk_promote(self, st, k):
        return self.pk_map(st, k, PROMO)

    def pk_unpromote(self, st, k):
        return self.pk_map(st, k, UNPROMO)

    def pk_from_u8(self, st, n):
        v = self.expand(self.val(st, n))
        r = {k[0]: g for k, g in v.c.items() if 1 <= k[0] <= 14}
        some = OR(*r.values()) if r else 0
        if 'unchecked' in self.inst['path']:
            bad = AND(st.pc, NOT(some))
            self.I.stats['checked'] = self.I.stats.get('checked', 0) + 1
            if bad:
                self.I.oblige('ub', type(st)(bad, st.mem), self.span, 'invalid piece kind constructed')
            return self.kinds(r)
        return self.opt(self.ret_ty, some, self.kinds(r) if r else None)

    def p_new(self, st, k, c):
        r = {}
        for d, g in self.discrs(self.val(st, k)).items():
            for e, h in self.colors(self.val(st, c)).items():
                addcase(r, mkcode(d, e), AND(g, h))
        return VPc(r)

    def p_kindv(self, st, p):
        r = {}
        for c, g in self.pcs(st, p).items():
            addcase(r, kind(c), g)
        return self.kinds(r)

    def p_colorv(self, st, p):
        r = {}
        for c, g in self.pcs(st, p).items():
            addcase(r, color(c) + 1, g)
        return self.enum(self.COLOR, r)

    def p_parts(self, st, p):
        return VS(self.ret_ty, [self.p_kindv(st, p), self.p_colorv(st, p)])

    def p_map(self, st, p, table):
        some, r = 0, {}
        for c, g in self.pcs(st, p).items():
            if kind(c) in table:
                addcase(r, mkcode(table[kind(c)], color(c)), g)
                some = OR(some, g)
        return self.opt(self.ret_ty, some, VPc(r) if r else None)

    def p_promote(self, st, p):
        return self.p_map(st, p, PROMO)

    def p_unpromote(self, st, p):
        return self.p_map(st, p, UNPROMO)

    def p_as_u8(self, st, p):
        return VI(8, False, {lconst(c): g for c, g in self.pcs(st, p).items()})

    def p_all(self, st):
        return VA([VPc({c: 1}) for c in D.CODES])

    # ---- Hand
    def h_new(self, st):
        return VH([vint(8, 0)] * 7)

    def hand(self, st, h):
        h = self.val(st, h)
        if type(h) is not VH:
            unsup('hand expected')
        return h

    def h_count(self, st, h, k):
        h = self.hand(st, h)
        some, v = 0, None
        for d, g in self.discrs(self.val(st, k)).items():
            if d <= 7:
                v = h.n[d - 1] if v is None else merge(g, h.n[d - 1], v)
                some = OR(some, g)
        return self.opt(self.ret_ty, some, v)

    def h_change(self, st, h, k, delta):
        h = self.hand(st, h)
        n = list(h.n)
        some = 0
        for d, g in self.discrs(self.val(st, k)).items():
            if d <= 7:
                old = h.n[d - 1]
                ok = 0
                new = {}
                for (c, syms), gg in old.c.items():
                    if syms:
                        unsup('hand count')
                    if c + delta >= 0:
                        addcase(new, lconst((c + delta) & 255), gg)
                        ok = OR(ok, gg)
                if new:
                    n[d - 1] = merge(g, VI(8, False, new), n[d - 1])
                    some = OR(some, AND(g, ok))
        return self.opt(self.ret_ty, some, VH(n))

    def h_added(self, st, h, k):
        return self.h_change(st, h, k, 1)

    def h_removed(self, st, h, k):
        return self.h_change(st, h, k, -1)

    def h_all(self, st):
        return VIt([('elem', 1, self.kinds({d: 1})) for d in HANDK])

    def h_is_hand_piece(self, st, k):
        r = 0
        for d, g in self.discrs(self.val(st, k)).items():
            if d <= 7:
                r = OR(r, g)
        return VB(r)

    # ---- Move
    def movef(self, variant, name):
        t = self.I.p.types[self.MOVE]
        for i, v in enumerate(t['variants']):
            if v['name'] == variant:
                for j, f in enumerate(v['fields']):
                    if f[0] == name:
                        return i, j
        unsup('move layout')

    def m_field(self, st, m, name):
        m = self.val(st, m)
        r, some = None, 0
        for vn in ('Normal', 'Drop'):
            try:
                i, j = self.movef(vn, name)
            except Unsupported:
                continue
            if i in m.c:
                g, fs = m.c[i]
                r = fs[j] if r is None else merge(g, fs[j], r)
                some = OR(some, g)
        return some, r

    def m_from(self, st, m):
        g, v = self.m_field(st, m, 'from')
        return self.opt(self.ret_ty, g, v)

    def m_to(self, st, m):
        return self.m_field(st, m, 'to')[1]

    def m_is_drop(self, st, m):
        m = self.val(st, m)
        i, _ = self.movef('Drop', 'to')
        return VB(m.c[i][0] if i in m.c else 0)

    def m_is_promoting(self, st, m):
        g, v = self.m_field(st, m, 'promote')
        return VB(AND(g, v.f) if v is not None else 0)

    def mk_normal(self, f, t, p):
        i, _ = self.movef('Normal', 'from')
        names = [x[0] for x in self.I.p.types[self.MOVE]['variants'][i]['fields']]
        d = {'from': f, 'to': t, 'promote': p}
        return VE(self.MOVE, {i: (1, tuple(d[n] for n in names))})

    def mk_drop(self, p, t):
        i, _ = self.movef('Drop', 'to')
        names = [x[0] for x in self.I.p.types[self.MOVE]['variants'][i]['fields']]
        d = {'piece': p, 'to': t}
        return VE(self.MOVE, {i: (1, tuple(d[n] for n in names))})

    # ---- the opaque position
    def board(self, st, p):
        p = self.val(st, p)
        if type(p) is not VPP:
            unsup('opaque position expected')
        return self.boards[p.name]

    def pp_side(self, st, p):
        return self.col(self.board(st, p).side)

    def pp_ply(self, st, p):
        return VI(16, False, {(self.board(st, p).plyoff, ((('ply',), 1),)): 1})

    def pp_hand(self, st, p, c):
        b = self.board(st, p)
        v = None
        for k, g in self.colors(self.val(st, c)).items():
            v = b.hands[k] if v is None else merge(g, b.hands[k], v)
        return v

    def pp_piece_at(self, st, p, s):
        b = self.board(st, p)
        some, cases = 0, {}
        for t, g in self.sq(st, s).items():
            for c in D.CODES:
                gg = AND(g, b.content(t, c))
                if gg:
                    addcase(cases, c, gg)
                    some = OR(some, gg)
            self.reads.add(t)
        return self.opt(self.ret_ty, some, VPc(cases) if cases else None)

    def pp_set(self, st, p, codes):
        b = self.board(st, p)
        return OR(*[b.content(X, c) for c in codes])

    def pp_occupied(self, st, p):
        return VSet(self.pp_set(st, p, D.CODES))

    def pp_vacant(self, st, p):
        return VSet(AND(D.valid(X), NOT(self.pp_set(st, p, D.CODES))))

    def pp_player(self, st, p, c):
        r = 0
        for k, g in self.colors(self.val(st, c)).items():
            r = OR(r, AND(g, self.pp_set(st, p, [x for x in D.CODES if color(x) == k])))
        return VSet(r)

    def pp_piece(self, st, p, pc):
        r = 0
        for k, g in self.pcs(st, pc).items():
            r = OR(r, AND(g, self.pp_set(st, p, [k])))
        return VSet(r)

    def pp_kind(self, st, p, k):
        r = 0
        for d, g in self.discrs(self.val(st, k)).items():
            r = OR(r, AND(g, self.pp_set(st, p, [d, d + 16])))
        return VSet(r)

    def pp_king(self, st, p, c):
        r = 0
        for k, g in self.colors(self.val(st, c)).items():
            r = OR(r, AND(g, self.pp_set(st, p, [8 + 16 * k])))
        S = self.norm(r)
        g = self.some(S)
        if g == 0:
            return self.opt(self.ret_ty, 0, None)
        return self.opt(self.ret_ty, g, VSq({D.first_token(S): 1}))

    def pp_startpos(self, st):
        return VPP('pp')

    # ---- arrayvec
    def av_new(self, st, *a):
        return VAv(())

    def av_push(self, st, av, m):
        I = self.I
        if I.query is None:
            unsup('no query move')
        pl = I.deref(st, av)
        v = I.load(st, pl)
        if type(v) is not VAv:
            unsup('push into %s' % type(v).__name__)
        g = AND(st.pc, self.eqv(self.val(st, m), I.query, st))
        I.pushes.append((self.I.fnstack[-1]['name'] if I.fnstack else '?', self.span))
        I.store(st, pl, VAv(v.g + (g,), v.s + ((I.fnstack[-1]['name'] if I.fnstack else '?', str(self.span)),)))
        last = self.inst['path'].split('::')[-1]
        if last == 'try_push':
            return VE(self.ret_ty, {0: (1, (UNIT,))})
        return UNIT

    def av_len(self, st, av):
        v = self.val(st, av)
        return self.lenv(v)

    def lenv(self, v):
        if type(v) is VS and v.ty == 'avcur':
            if v.f[0].k == ('end',):
                return VI(64, False, {(0, ((('cure',), 1),)): 1})
            if v.f[1].f != 0:
                unsup('length after removal in the same iteration')
            return VI(64, False, {(0, ((('curlen',), 1),)): 1})
        return self.I.length(v)

    def av_is_empty(self, st, av):
        v = self.val(st, av)
        return VB(self.lcmp('Eq', list(self.lenv(v).c)[0], lconst(0)))

    def av_deref(self, st, av):
        return av

    def av_swap_remove(self, st, av, i):
        pl = self.I.deref(st, av)
        v = self.I.load(st, pl)
        if not (type(v) is VS and v.ty == 'avcur' and v.f[0].k == ('cur',) and v.f[1].f == 0):
            unsup('removal from a move list')
        i = self.val(st, i)
        if list(i.c) != [(0, ((('curi',), 1),))]:
            unsup('removal at another index')
        self.I.store(st, pl, VS('avcur', (VPy('cur'), VB(1))))
        if self.inst['path'].endswith('swap_pop'):
            return self.opt(self.ret_ty, 1, self.I.query)
        return self.I.query

    def av_retain(self, st, av, f):
        pl = self.I.deref(st, av)
        v = self.I.load(st, pl)
        if type(v) is not VAv:
            unsup('retain')
        q = self.I.temp(st, self.I.query)
        r = self.call_closure(f, [q], st)
        if r is None:
            return None
        c, st = r
        if type(c) is not VB:
            unsup('retain')
        self.I.store(st, self.I.deref(st, av), VAv([AND(g, c.f) for g in v.g], v.s))
        return UNIT, st

    def av_into_iter(self, st, av):
        v = self.val(st, av)
        if type(v) is not VAv:
            unsup('into_iter')
        return VPy('avit', v)

    def av_clear(self, st, av):
        self.I.store(st, self.I.deref(st, av), VAv(()))
        return UNIT

    def av_extend(self, st, av, it):
        I = self.I
        it = self.to_iter(st, it)
        pl = I.deref(st, av)
        inst, span = self.inst, self.span

        def fn(s, e, slot):
            self.inst, self.span = inst, span
            v = I.load(s, pl)
            if type(v) is not VAv:
                unsup('extend')
            g = AND(s.pc, self.eqv(self.val(s, e), I.query, s))
            I.store(s, pl, VAv(v.g + (g,), v.s + ((I.fnstack[-1]['name'] if I.fnstack else '?', str(span)),)))
            return s, {}
        return self.consume(st, it, fn)

    def slice_index(self, st, a, i):
        """Index::index / get_unchecked on something array-like"""
        i = self.val(st, i)
        if type(i) is not VI:
            unsup('range index')
        self.in_range(st, a, i)
        return VR({(root, path + (('x', i),)): g for g, root, path in self.I.deref(st, a)})

    def in_range(self, st, a, i):
        """the index of an access without (or with a library) bounds check is below the length"""
        self.I.stats['checked'] = self.I.stats.get('checked', 0) + 1
        w = self.val(st, a)
        n = len(w.e) if type(w) is VVec and w.base is None or type(w) is VA else 81 if type(w) is VL else None
        bad = 0
        for k, g in self.expand(i).c.items():
            if k[1]:
                if len(k[1]) == 1 and k[1][0][0][0] == 'idx' and k[1][0][1] == 1 and k[0] == 0 and n is not None and n >= 81:
                    continue
                unsup('range of an unchecked index')
            if n is None or not 0 <= k[0] < n:
                bad = OR(bad, g)
        bad = AND(st.pc, bad)
        if bad:
            u = 'unchecked' in self.inst['path']
            self.I.oblige('ub' if u else 'panic', type(st)(bad, st.mem), self.span, 'index out of range')

    # ---- once_cell
    def lazy_deref(self, st, l):
        return l

    # ---- rand
    def rng_seed(self, st, *a):
        v = self.val(st, a[-1])
        c = v.const() if type(v) is VI else None
        if c is None:
            unsup('random seed is not a constant')
        self.seeds.add((self.inst['name'], c))
        return VRng((0, ()))

    def rng_gen(self, st, r):
        I = self.I
        pl = I.deref(st, r)
        v = I.load(st, pl)
        while type(v) is VR:
            pl = I.deref(st, v)
            v = I.load(st, pl)
        if type(v) is not VRng:
            unsup('random generator expected')
        I.store(st, pl, VRng(ladd(v.n, lconst(1))))
        return VX({}, {(v.n, -1): 1})

    def rng_other(self, st, *a):
        unsup('random generator call %s' % self.inst['path'])

    # ---- Vec, Box, slices
    def vec_new(self, st, *a):
        return VVec(None, ())

    def vec_push(self, st, v, x):
        pl = self.I.deref(st, v)
        w = self.I.load(st, pl)
        if type(w) is not VVec:
            unsup('push into %s' % type(w).__name__)
        self.I.store(st, pl, VVec(w.base, w.e + (x,)))
        return UNIT

    def vec_pop(self, st, v):
        pl = self.I.deref(st, v)
        w = self.I.load(st, pl)
        if type(w) is not VVec:
            unsup('pop from %s' % type(w).__name__)
        if not w.e:
            if w.base is None:
                return self.opt(self.ret_ty, 0, None)
            unsup('pop from an opaque vector')
        self.I.store(st, pl, VVec(w.base, w.e[:-1]))
        return self.opt(self.ret_ty, 1, w.e[-1])

    def vec_truncate(self, st, v, n):
        pl = self.I.deref(st, v)
        w = self.I.load(st, pl)
        n = self.val(st, n)
        if type(w) is not VVec or len(n.c) != 1:
            unsup('truncate')
        (k, _), = n.c.items()
        cur, = self.I.length(w).c
        d = ladd(k, cur, -1)
        if d[1] or -d[0] > len(w.e):
            unsup('truncate')
        if d[0] < 0:
            self.I.store(st, pl, VVec(w.base, w.e[:d[0]]))
        return UNIT

    def vec_lose(self, st, v, *a):
        """elements other than the last are taken out"""
        pl = self.I.deref(st, v)
        w = self.I.load(st, pl)
        name = self.inst['path'].split('::')[-1]
        if type(w) is not VVec:
            unsup('%s of %s' % (name, type(w).__name__))
        if name == 'clear' and w.base is None:
            self.I.store(st, pl, VVec(None, ()))
            return UNIT
        if name == 'remove' and w.base is None:
            i = self.val(st, a[0]).const()
            if i is not None and 0 <= i < len(w.e):
                self.I.store(st, pl, VVec(None, w.e[:i] + w.e[i + 1:]))
                return w.e[i]
        if w.base is None:
            unsup('%s of a vector' % name)
        self.I.oblige('lost', st, self.span, name)
        return VU('%s of an opaque vector' % name)

    def vec_len(self, st, v):
        return self.lenv(self.val(st, v))

    def vec_is_empty(self, st, v):
        w = self.val(st, v)
        return VB(self.lcmp('Eq', list(self.lenv(w).c)[0], lconst(0)))

    def ident(self, st, v, *a):
        return v

    def load1(self, st, v):
        return self.I.load(st, self.I.deref(st, v)) if type(v) is VR else v

    def sl_last(self, st, v):
        return self.sl_end(st, v, True)

    def sl_first(self, st, v):
        return self.sl_end(st, v, False)

    def sl_end(self, st, v, last):
        pl = self.I.deref(st, v)
        w = self.I.load(st, pl)
        if type(w) is VR:
            pl = self.I.deref(st, w)
            w = self.I.load(st, pl)
        n = self.I.length(w)
        (c, syms), = n.c
        if c == 0:
            if syms:
                unsup('end of an opaque vector')
            return self.opt(self.ret_ty, 0, None)
        i = VI(64, False, {(c - 1, syms): 1}) if last else vint(64, 0)
        return self.opt(self.ret_ty, 1, VR({(r, p + (('x', i),)): g for g, r, p in pl}))

    def sl_get(self, st, v, i):
        pl = self.I.deref(st, v)
        w = self.I.load(st, pl)
        i = self.val(st, i)
        if type(i) is not VI:
            unsup('range index')
        self.in_range(st, a, i)
        n = self.I.length(w)
        g = self.binop('Lt', i, n, None, st).f
        return self.opt(self.ret_ty, g, VR({(r, p + (('x', i),)): g2 for g2, r, p in pl}))

    def sl_iter(self, st, v):
        return self.ref_iter(st, v) if type(v) is VR else self.to_iter(st, v)

    def sl_contains(self, st, v, x):
        w = self.val(st, v)
        x = self.val(st, x)
        if type(w) is not VA:
            unsup('contains on %s' % type(w).__name__)
        return VB(OR(*[self.eqv(e, x, st) for e in w.e]) if w.e else 0)

    def box_new(self, st, x):
        self.I.nheap += 1
        root = ('H', self.I.nheap)
        st.mem[root] = x
        return VR({(root, ()): 1})

    def box_uninit(self, st):
        self.I.nheap += 1
        root = ('H', self.I.nheap)
        st.mem[root] = VU('uninitialised box')
        return VR({(root, ()): 1})

    def box_vec(self, st, b):
        v = self.val(st, b)
        if type(v) is not VA:
            unsup('boxed slice')
        return VVec(None, v.e)

    def mem_replace(self, st, a, b):
        pl = self.I.deref(st, a)
        o = self.I.load(st, pl)
        self.I.store(st, pl, b)
        return o

    def mem_swap(self, st, a, b):
        p, q = self.I.deref(st, a), self.I.deref(st, b)
        x, y = self.I.load(st, p), self.I.load(st, q)
        self.I.store(st, p, y)
        self.I.store(st, q, x)
        return UNIT

    def opt_take(self, st, a):
        pl = self.I.deref(st, a)
        o = self.I.load(st, pl)
        self.I.store(st, pl, self.opt(o.ty, 0, None))
        return o

    def eq(self, st, a, b):
        return VB(self.eqv(a, b, st))

    def ne(self, st, a, b):
        return VB(NOT(self.eqv(a, b, st)))

    def arr_map(self, st, a, f):
        if type(a) is VL:
            unsup('map over a square-indexed array')
        out = []
        for e in a.e:
            r = self.call_closure(f, [e], st)
            if r is None:
                return None
            v, st = r
            out.append(v)
        return VA(out), st

    def arr_from_fn(self, st, f):
        t = self.I.p.types[self.ret_ty] if self.ret_ty is not None else None
        if t is None or t['k'] != 'array':
            unsup('from_fn')
        n = t['len']
        if n == 81:
            # one arbitrary element, if building it has no side effect
            self.I.gdepth += 1
            tok = D.token('L%d' % self.I.gdepth)
            I_ = (tok, 0, 0)
            try:
                before = dict(st.mem)
                r = self.call_closure(f, [self.idx(I_)], type(st)(AND(st.pc, D.valid(I_)), dict(st.mem)))
            finally:
                self.I.gdepth -= 1
            if r is None:
                return None
            v, s2 = r
            if AND(st.pc, D.valid(I_), NOT(s2.pc)) != 0 or any(s2.mem.get(k) is not x for k, x in before.items()):
                unsup('from_fn with side effects')
            return VL(tok, v), st
        out = []
        for i in range(n):
            r = self.call_closure(f, [vint(64, i)], st)
            if r is None:
                return None
            v, st = r
            out.append(v)
        return VA(out), st

    # ---- iterator plumbing
    def it_into(self, st, v):
        if type(v) is VAv:
            return VPy('avit', v)
        if type(v) is VS and v.f and type(v.f[0]) is VI and v.ty != 'avcur':
            return v
        if type(v) is VR:
            x = self.I.load(st, self.I.deref(st, v))
            if type(x) in (VIt,):
                return v
        return self.to_iter(st, v)

    def it_next(self, st, a):
        pl = self.I.deref(st, a)
        v = self.I.load(st, pl)
        while type(v) is VR:
            pl = self.I.deref(st, v)
            v = self.I.load(st, pl)
        if type(v) is VIt:
            r, rest = self.next_it(v, self.ret_ty)
            self.I.store(st, pl, rest)
            return r
        if type(v) is VSet:
            return self.bb_next(st, a)
        if type(v) is VS and len(v.f) == 2 and type(v.f[0]) is VI:
            lo, hi = v.f
            g = self.binop('Lt', lo, hi, None, st).f
            one = vint(lo.bits, 1, lo.sg)
            inc = VI(lo.bits, lo.sg, self.arith('Add', lo, one))
            self.I.store(st, pl, VS(v.ty, [merge(g, inc, lo), hi]))
            return self.opt(self.ret_ty, g, lo)
        return NotImplemented

    def lazy_op(self, st, it, *f):
        name = self.inst['path'].split('::')[-1]
        it = self.to_iter(st, self.deiter(st, it))
        op = {'map': 'map', 'filter': 'filter', 'filter_map': 'filter_map', 'enumerate': 'enum',
              'copied': 'deref', 'cloned': 'deref'}[name]
        return VIt(it.segs, it.ops + ((op,) + f,), it.primed)

    def deiter(self, st, it):
        """an iterator passed by reference"""
        while type(it) is VR:
            pl = self.I.deref(st, it)
            x = self.I.load(st, pl)
            if type(x) is VIt or type(x) is VSet:
                self.I.store(st, pl, VIt(()) if type(x) is VIt else VSet(0))
                return x
            if type(x) is not VR:
                return it
            it = x
        return it

    def it_rev(self, st, it):
        it = self.to_iter(st, it)
        if it.ops or any(s[0] != 'elem' for s in it.segs):
            unsup('reversed iterator')
        return VIt(it.segs[::-1], it.ops)

    def it_chain(self, st, a, b):
        a, b = self.to_iter(st, a), self.to_iter(st, b)
        if a.ops != b.ops:
            unsup('chained iterators')
        return VIt(a.segs + b.segs, a.ops)

    def it_zip(self, st, a, b):
        a, b = self.to_iter(st, a), self.to_iter(st, b)
        if a.ops or b.ops or any(s[0] != 'elem' or s[1] != 1 for s in a.segs + b.segs):
            unsup('zipped iterators')
        return VIt([('elem', 1, VS(None, [x[2], y[2]])) for x, y in zip(a.segs, b.segs)])

    def it_take_skip(self, st, a, n):
        a = self.to_iter(st, a)
        k = self.val(st, n).const()
        if a.ops or k is None or any(s[0] != 'elem' or s[1] != 1 for s in a.segs):
            unsup('take/skip')
        return VIt(a.segs[:k] if self.inst['path'].endswith('take') else a.segs[k:])

    def it_for_each(self, st, it, f):
        it = self.to_iter(st, self.deiter(st, it))

        def fn(s, e, slot):
            r = self.call_closure(f, [e], s)
            return (r[1] if r else None), {}
        return self.consume(st, it, fn)

    def search(self, st, it, f, mode):
        ret_ty = self.ret_ty
        it = self.to_iter(st, self.deiter(st, it))
        import interp as IN

        def fn(s, e, slot):
            arg = self.I.temp(s, e) if mode == 'find' else e
            r = self.call_closure(f, [arg], s)
            if r is None:
                return None, {}
            c, s = r
            if mode == 'find_map':
                g, x = self.option_parts(c)
                hitv = c if g == 0 else self.opt(ret_ty, 1, x)
            else:
                if type(c) is not VB:
                    unsup('predicate')
                g = c.f if mode != 'all' else NOT(c.f)
                hitv = {'any': VB(1), 'all': VB(0), 'find': self.opt(ret_ty, 1, e)}[mode]
            hit = IN.St(AND(s.pc, g), dict(s.mem))
            hit.mem[slot] = hitv
            back = IN.St(AND(s.pc, NOT(g)), s.mem)
            return (back if self.I.feasible(back.pc) else None), ({'hit': hit} if self.I.feasible(hit.pc) else {})
        endv = {'any': VB(0), 'all': VB(1), 'find': self.opt(ret_ty, 0, None), 'find_map': self.opt(ret_ty, 0, None)}[mode]
        return self.consume(st, it, fn, lambda s: endv)

    def it_any(self, st, it, f):
        return self.search(st, it, f, 'any')

    def it_all(self, st, it, f):
        return self.search(st, it, f, 'all')

    def it_find(self, st, it, f):
        return self.search(st, it, f, 'find')

    def it_find_map(self, st, it, f):
        return self.search(st, it, f, 'find_map')

    def it_fold(self, st, it, init, f):
        it = self.to_iter(st, it)
        I = self.I
        I.nheap += 1
        acc = ('H', I.nheap)
        st.mem[acc] = init

        def fn(s, e, slot):
            r = self.call_closure(f, [s.mem[acc], e], s)
            if r is None:
                return None, {}
            v, s = r
            s.mem[acc] = v
            return s, {}
        r = self.consume(st, it, fn, lambda s: s.mem[acc])
        if r is None:
            return None
        v, s = r
        s.mem.pop(acc, None)
        return v, s

    def it_count(self, st, it):
        it = self.to_iter(st, it)
        if not it.ops and len(it.segs) == 1 and it.segs[0][0] == 'set':
            v = self.bb_count(st, VSet(it.segs[0][1]))
            return VI(64, False, v.c)
        one = VPy('py', lambda a, s: (VI(64, False, self.arith('Add', a[0], vint(64, 1))), s))
        return self.it_fold(st, it, vint(64, 0), one)

    def it_sum(self, st, it):
        t = self.I.p.types[self.ret_ty]
        if t['k'] not in ('uint', 'int'):
            unsup('sum')
        add = VPy('py', lambda a, s: (VI(a[0].bits, a[0].sg, self.arith('Add', a[0], self.val(s, a[1]))), s))
        return self.it_fold(st, it, vint(t['bits'], 0, t['k'] == 'int'), add)

    def it_collect(self, st, it):
        t = self.I.p.types.get(self.ret_ty) if self.ret_ty is not None else None
        it = self.to_iter(st, it)
        if t is not None and t.get('path', '').endswith('ArrayVec'):
            self.I.nheap += 1
            root = ('H', self.I.nheap)
            st.mem[root] = VAv(())
            r = self.av_extend(st, VR({(root, ()): 1}), it)
            if r is None:
                return None
            return r[1].mem.pop(root), r[1]
        unsup('collect')

    def it_last(self, st, it):
        unsup('last')

    def default(self, st):
        t = self.I.p.types.get(self.ret_ty)
        if t is None:
            return NotImplemented
        if t['k'] in ('uint', 'int'):
            return vint(t['bits'], 0, t['k'] == 'int')
        if t['k'] == 'bool':
            return VB(0)
        return NotImplemented

    def int_fn(self, st, *args):
        """integer helper methods"""
        name = self.inst['path'].split('::')[-1].replace('integer_', '')
        a = self.val(st, args[0])
        if name == 'clamp' and len(args) == 3 and type(a) is VI:
            for nm, x in (('max', args[1]), ('min', args[2])):
                b = self.val(st, x)
                r = {}
                for k, l, g in self.pairs(self.expand(a), self.expand(b)):
                    if k[1] or l[1]:
                        return NotImplemented
                    addcase(r, lconst((max if nm == 'max' else min)(k[0], l[0])), g)
                a = VI(a.bits, a.sg, r)
            return a
        if type(a) is VX or (len(args) > 1 and type(args[1]) is VX):
            unsup('%s on a random word' % name)
        if type(a) is not VI:
            return NotImplemented
        bits, sg = a.bits, a.sg
        if name in ('wrapping_add', 'wrapping_sub', 'unchecked_add', 'unchecked_sub', 'wrapping_mul'):
            b = self.val(st, args[1])
            return VI(bits, sg, self.arith({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[name.split('_')[1]], a, b))
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        a = self.expand(a)
        r = {}
        if name in ('abs', 'unsigned_abs', 'wrapping_abs', 'signum', 'is_positive', 'is_negative'):
            if name == 'abs' and any(k[0] == lo for k in a.c):
                return NotImplemented
            if name in ('is_positive', 'is_negative'):
                return VB(OR(*[g for k, g in a.c.items() if (k[0] > 0 if name == 'is_positive' else k[0] < 0)] or [0]))
            for k, g in a.c.items():
                v = abs(k[0]) if name != 'signum' else (k[0] > 0) - (k[0] < 0)
                addcase(r, lconst(v), g)
            return VI(bits, sg and name != 'unsigned_abs', r)
        if name in ('trailing_zeros', 'leading_zeros', 'count_ones', 'rotate_left', 'pow'):
            return NotImplemented
        if len(args) < 2:
            return NotImplemented
        b = self.expand(self.val(st, args[1]))
        if name in ('min', 'max', 'abs_diff', 'saturating_sub', 'saturating_add', 'checked_add', 'checked_sub',
                    'checked_add_signed', 'checked_sub_unsigned', 'wrapping_add_signed', 'rem_euclid', 'div_euclid'):
            some = 0
            for k, l, g in self.pairs(a, b):
                if k[1] or l[1]:
                    return NotImplemented
                x, y = k[0], l[0]
                if name in ('rem_euclid', 'div_euclid'):
                    if y == 0:
                        return NotImplemented
                    v = x % abs(y) if name == 'rem_euclid' else (x - x % abs(y)) // y
                else:
                    v = {'min': min(x, y), 'max': max(x, y), 'abs_diff': abs(x - y)}.get(name)
                    if v is None:
                        v = x - y if 'sub' in name else x + y
                if name.startswith('saturating'):
                    v = max(lo, min(hi, v))
                if name.startswith('checked'):
                    if lo <= v <= hi:
                        some = OR(some, g)
                    else:
                        continue
                if name.startswith('wrapping'):
                    v = self.wrapc(v, bits, sg)
                addcase(r, lconst(v), g)
            v = VI(bits, sg and name != 'abs_diff', r)
            if name.startswith('checked'):
                return self.opt(self.ret_ty, some, v)
            return v
        return NotImplemented


def _t(rows):
    return [(re.compile(p), n) for p, n in rows]


BBT = r'shogi_core::Bitboard'
TABLE = _t([
    (r'shogi_core::Bitboard::(empty|Bitboard_empty)$', 'bb_empty'),
    (r'shogi_core::Bitboard::single$', 'bb_single'),
    (r'Bitboard as std::ops::Bit\w+Assign.*>::bit\w+_assign$', 'bb_assign'),
    (r'Bitboard as std::ops::BitAnd.*>::bitand$|shogi_core::Bitboard::and$', 'bb_and'),
    (r'Bitboard as std::ops::BitOr.*>::bitor$|shogi_core::Bitboard::or$', 'bb_or'),
    (r'Bitboard as std::ops::BitXor.*>::bitxor$|shogi_core::Bitboard::xor$', 'bb_xor'),
    (r'shogi_core::Bitboard::andnot$', 'bb_andnot2'),
    (r'Bitboard as std::ops::Not>::not$', 'bb_not'),
    (r'shogi_core::Bitboard::is_empty$', 'bb_is_empty'),
    (r'shogi_core::Bitboard::contains$', 'bb_contains'),
    (r'shogi_core::Bitboard::count$', 'bb_count'),
    (r'shogi_core::Bitboard::pop$|shogi_core::Bitboard as std::iter::Iterator>::next$', 'bb_next'),
    (r'shogi_core::Bitboard::shift_(up|down|left|right)$', 'bb_vshift'),
    (r'shogi_core::Bitboard::(to_u128|from_u128_unchecked|swap_bytes|flip)$', 'u128'),
    (r'shogi_core::Square::array_index$', 'sq_array_index'),
    (r'shogi_core::Square::index$', 'sq_index'),
    (r'shogi_core::Square::file$', 'sq_file'),
    (r'shogi_core::Square::rank$', 'sq_rank'),
    (r'shogi_core::Square::relative_rank$', 'sq_relative_rank'),
    (r'shogi_core::Square::relative_file$', 'sq_relative_file'),
    (r'shogi_core::Square::shift$', 'sq_shift'),
    (r'shogi_core::Square::flip$', 'sq_flip'),
    (r'shogi_core::Square::new$', 'sq_new'),
    (r'shogi_core::Square::from_u8_unchecked$', 'sq_from_u8_unchecked'),
    (r'shogi_core::Square::from_u8$', 'sq_from_u8'),
    (r'shogi_core::Square::all$', 'sq_all'),
    (r'shogi_core::Color::flip$', 'co_flip'),
    (r'shogi_core::Color::array_index$', 'co_array_index'),
    (r'shogi_core::Color::all$', 'co_all'),
    (r'shogi_core::PieceKind::array_index$', 'pk_array_index'),
    (r'shogi_core::PieceKind::all$', 'pk_all'),
    (r'shogi_core::PieceKind::promote$', 'pk_promote'),
    (r'shogi_core::PieceKind::unpromote$', 'pk_unpromote'),
    (r'shogi_core::PieceKind::from_u8(_unchecked)?$', 'pk_from_u8'),
    (r'shogi_core::Piece::new$', 'p_new'),
    (r'shogi_core::Piece::to_parts$', 'p_parts'),
    (r'shogi_core::Piece::piece_kind$', 'p_kindv'),
    (r'shogi_core::Piece::color$', 'p_colorv'),
    (r'shogi_core::Piece::promote$', 'p_promote'),
    (r'shogi_core::Piece::unpromote$', 'p_unpromote'),
    (r'shogi_core::Piece::as_u8$', 'p_as_u8'),
    (r'shogi_core::Piece::all$', 'p_all'),
    (r'shogi_core::Hand::new$|shogi_core::Hand as std::default::Default>::default$', 'h_new'),
    (r'shogi_core::Hand::count$', 'h_count'),
    (r'shogi_core::Hand::added$', 'h_added'),
    (r'shogi_core::Hand::removed$', 'h_removed'),
    (r'shogi_core::Hand::all_hand_pieces$', 'h_all'),
    (r'shogi_core::Hand::is_hand_piece$', 'h_is_hand_piece'),
    (r'shogi_core::Move::from$', 'm_from'),
    (r'shogi_core::Move::to$', 'm_to'),
    (r'shogi_core::Move::is_drop$', 'm_is_drop'),
    (r'shogi_core::Move::is_promoting$', 'm_is_promoting'),
    (r'shogi_core::PartialPosition::side_to_move$', 'pp_side'),
    (r'shogi_core::PartialPosition::ply$', 'pp_ply'),
    (r'shogi_core::PartialPosition::hand_of_a_player$', 'pp_hand'),
    (r'shogi_core::PartialPosition::piece_at$', 'pp_piece_at'),
    (r'shogi_core::PartialPosition::occupied_bitboard$', 'pp_occupied'),
    (r'shogi_core::PartialPosition::vacant_bitboard$', 'pp_vacant'),
    (r'shogi_core::PartialPosition::player_bitboard$', 'pp_player'),
    (r'shogi_core::PartialPosition::piece_bitboard$', 'pp_piece'),
    (r'shogi_core::PartialPosition::piece_kind_bitboard$', 'pp_kind'),
    (r'shogi_core::PartialPosition::king_position$', 'pp_king'),
    (r'shogi_core::PartialPosition::startpos$', 'pp_startpos'),
    (r'arrayvec::ArrayVec::<T, CAP>::(new|new_const)$|ArrayVec<.*Default>::default$', 'av_new'),
    (r'arrayvec::ArrayVec::<T, CAP>::(push|try_push|push_unchecked)$', 'av_push'),
    (r'arrayvec::ArrayVec::<T, CAP>::len$', 'av_len'),
    (r'arrayvec::ArrayVec::<T, CAP>::is_empty$', 'av_is_empty'),
    (r'arrayvec::ArrayVec::<T, CAP>::(swap_remove|swap_pop)$', 'av_swap_remove'),
    (r'arrayvec::ArrayVec::<T, CAP>::retain$', 'av_retain'),
    (r'arrayvec::ArrayVec::<T, CAP>::clear$', 'av_clear'),
    (r'<arrayvec::ArrayVec<T, CAP> as std::iter::Extend<T>>::extend$', 'av_extend'),
    (r'<arrayvec::ArrayVec<T, CAP> as std::ops::Deref(Mut)?>::deref(_mut)?$|arrayvec::ArrayVec::<T, CAP>::as_(mut_)?slice$', 'av_deref'),
    (r'once_cell::sync::Lazy<.*Deref>::deref$|once_cell::sync::Lazy::<T, F>::force$|LazyLock<.*Deref>::deref$|LazyLock.*::force$', 'lazy_deref'),
    (r'SeedableRng::seed_from_u64$|SeedableRng.*::seed_from_u64$', 'rng_seed'),
    (r'rand::Rng::gen$|Rng.*::gen$|::next_u64$', 'rng_gen'),
    (r'rand::|rand_core::|getrandom::', 'rng_other'),
    (r'std::vec::Vec::<T>::(new|with_capacity)$', 'vec_new'),
    (r'std::vec::Vec::<T, A>::push$', 'vec_push'),
    (r'std::vec::Vec::<T, A>::pop$', 'vec_pop'),
    (r'std::vec::Vec::<T, A>::truncate$', 'vec_truncate'),
    (r'std::vec::Vec::<T, A>::(remove|drain|clear|swap_remove)$', 'vec_lose'),
    (r'std::vec::Vec::<T, A>::len$|core::slice::<impl \[T\]>::len$', 'vec_len'),
    (r'std::vec::Vec::<T, A>::is_empty$|core::slice::<impl \[T\]>::is_empty$', 'vec_is_empty'),
    (r'std::vec::Vec::<T, A>::(reserve|shrink_to_fit)$', 'unit'),
    (r'std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$|Vec::<T, A>::as_(mut_)?slice$', 'ident'),
    (r'(Vec<T, A>|\[T; N\]|\[T\]|ArrayVec<T, CAP>).* as std::ops::Index(Mut)?<I>>::index(_mut)?$', 'slice_index'),
    (r'slice::<impl \[T\]>::last(_mut)?$', 'sl_last'),
    (r'slice::<impl \[T\]>::first(_mut)?$', 'sl_first'),
    (r'slice::<impl \[T\]>::get(_mut)?$', 'sl_get'),
    (r'slice::<impl \[T\]>::get_unchecked(_mut)?$', 'slice_index'),
    (r'slice::<impl \[T\]>::iter(_mut)?$', 'sl_iter'),
    (r'slice::<impl \[T\]>::contains$', 'sl_contains'),
    (r'array::<impl \[T; N\]>::map$', 'arr_map'),
    (r'std::array::from_fn$', 'arr_from_fn'),
    (r'array::<impl \[T; N\]>::(as_slice|each_ref)$', 'ident'),
    (r'std::boxed::Box::<T>::new$', 'box_new'),
    (r'std::boxed::Box::<T>::new_uninit$', 'box_uninit'),
    (r'box_assume_init_into_vec_unsafe$|slice::<impl \[T\]>::into_vec$', 'box_vec'),
    (r'std::mem::replace$', 'mem_replace'),
    (r'std::mem::swap$', 'mem_swap'),
    (r'std::option::Option::<T>::take$', 'opt_take'),
    (r'^core::num::<impl [iu]\d+>::|^core::num::<impl [iu]size>::|^std::cmp::(min|max)$|std::cmp::Ord::(min|max|clamp)$|Ord for [iu](\d+|size)>::(min|max|clamp)$|std::intrinsics::integer_(min|max)$', 'int_fn'),
    (r'<shogi_core::.* as std::cmp::PartialEq.*>::eq$', 'eq'),
    (r'<shogi_core::.* as std::cmp::PartialEq.*>::ne$|std::cmp::PartialEq::ne$', 'ne'),
    (r'std::clone::Clone.*>::clone$|std::clone::Clone>::clone$|Clone::clone$|std::array::SpecArrayClone>::clone$', 'load1'),
    (r'Default>::default$', 'default'),
    (r'IntoIterator>?.*::into_iter$', 'it_into'),
    (r'std::iter::Iterator.*>::next$|std::iter::Iterator::next$', 'it_next'),
    (r'std::iter::Iterator::(map|filter|filter_map|enumerate|copied|cloned)$', 'lazy_op'),
    (r'::rev$', 'it_rev'),
    (r'std::iter::Iterator::chain$', 'it_chain'),
    (r'std::iter::Iterator::zip$', 'it_zip'),
    (r'std::iter::Iterator::(take|skip)$', 'it_take_skip'),
    (r'Iterator(>)?::for_each$', 'it_for_each'),
    (r'Iterator(>)?::any$', 'it_any'),
    (r'Iterator(>)?::all$', 'it_all'),
    (r'Iterator(>)?::find$', 'it_find'),
    (r'Iterator(>)?::find_map$', 'it_find_map'),
    (r'Iterator(>)?::fold$', 'it_fold'),
    (r'Iterator(>)?::count$', 'it_count'),
    (r'Iterator(>)?::sum$', 'it_sum'),
    (r'Iterator(>)?::collect$', 'it_collect'),
])


def bb_andnot2(self, st, a, b):
    return VSet(AND(NOT(self.set(st, a)), self.set(st, b)))


def unit(self, st, *a):
    return UNIT


Models.bb_andnot2 = bb_andnot2
Models.unit = unit
