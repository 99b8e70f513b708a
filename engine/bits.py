"""Bit-precise abstract interpretation of MIR: every byte of memory is eight decision diagrams over the
members of the input sets. Used for the square-set implementations, where the library code behind the
vendor intrinsics is followed down to the compiler's portable vector operations.

Control-flow paths that meet again are joined; loops are followed until their condition is false."""
import json
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE
from values import Unsupported
from interp import Cfg

BYTE = [tuple((v >> i) & 1 for i in range(8)) for v in range(256)]


def num(v, n):
    return [(v >> i) & 1 for i in range(n)]


def val(bits):
    """the integer when it is known"""
    r = 0
    for i, b in enumerate(bits):
        if b > 1:
            return None
        r |= b << i
    return r


def isptr(c):
    return type(c) is tuple and len(c) == 4 and c[0] == 'p'


def cells(bits):
    return [tuple(bits[i:i + 8]) for i in range(0, len(bits), 8)]


def bitsof(cs):
    r = []
    for c in cs:
        if c is None:
            raise Unsupported('uninitialised memory used as a number')
        if isptr(c):
            raise Unsupported('address used as a number')
        r.extend(c)
    return r


def ptr(targets, size):
    """cells of a pointer; targets: ((guard, obj, off), ...)"""
    t = tuple(targets)
    return [('p', t, k, size) for k in range(size)]


# ---- arithmetic on bit lists, least significant first
def add(a, b, c=0):
    r = []
    for x, y in zip(a, b):
        xy = XOR(x, y)
        r.append(XOR(xy, c))
        c = OR(AND(x, y), AND(c, xy))
    return r, c


def neg(a):
    return add([NOT(x) for x in a], num(0, len(a)), 1)[0]


def sub(a, b):
    """difference and borrow"""
    r, c = add(a, [NOT(y) for y in b], 1)
    return r, NOT(c)


def ult(a, b):
    return sub(a, b)[1]


def eq(a, b):
    r = 1
    for x, y in zip(a, b):
        r = AND(r, NOT(XOR(x, y)))
        if r == 0:
            break
    return r


def slt(a, b):
    return ult(a[:-1] + [NOT(a[-1])], b[:-1] + [NOT(b[-1])])


def mux(g, a, b):
    return [ITE(g, x, y) for x, y in zip(a, b)]


def shl(a, k):
    return [0] * min(k, len(a)) + a[:max(0, len(a) - k)]


def shr(a, k, fill=0):
    return a[k:] + [fill] * min(k, len(a))


def shift(a, k, left, arith, width):
    """shift by a (masked) amount"""
    v = val(k[:(width - 1).bit_length()])
    fill = a[-1] if arith else 0
    f = (lambda x, n: shl(x, n)) if left else (lambda x, n: shr(x, n, fill))
    if v is not None:
        return f(a, v)
    for i in range((width - 1).bit_length()):
        a = mux(k[i], f(a, 1 << i), a)
    return a


def mul(a, b):
    r = num(0, len(a))
    if val(a) is not None:
        a, b = b, a
    if val(b) is None and len(a) > 16:
        raise Unsupported('product of two unknown wide numbers')
    for i, x in enumerate(b):
        if x:
            r = add(r, [AND(x, y) for y in shl(a, i)])[0]
    return r


def divrem(a, b):
    n = len(a)
    q, r = num(0, n), num(0, n)
    for i in reversed(range(n)):
        r = [a[i]] + r[:-1]
        d, bo = sub(r, b)
        q[i] = NOT(bo)
        r = mux(bo, r, d)
    return q, r


def popcount(a, n):
    r = num(0, n)
    w = 1
    for x in a:
        c = x
        for i in range(min(n, len(a).bit_length())):
            r[i], c = XOR(r[i], c), AND(r[i], c)
    return r


def firstone(a, n):
    """trailing zeros (len(a) when there is none), as n bits"""
    r = num(len(a), n)
    for i in reversed(range(len(a))):
        r = mux(a[i], num(i, n), r)
    return r


def values(bits, pc, limit=512):
    """the values a number can take under pc: [(value, guard)]"""
    out = []

    def rec(i, g, v):
        if g == 0:
            return
        if i == len(bits):
            out.append((v, g))
            if len(out) > limit:
                raise Unsupported('a number with too many possible values')
            return
        b = bits[i]
        rec(i + 1, AND(g, NOT(b)), v)
        rec(i + 1, AND(g, b), v | (1 << i))
    rec(0, pc, 0)
    return out


class St:
    __slots__ = ('pc', 'mem')

    def __init__(s, pc, mem):
        s.pc, s.mem = pc, mem


def joincell(g, a, b):
    if a is b or a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isptr(a) or isptr(b):
        if isptr(a) and isptr(b) and a[2:] == b[2:]:
            d = {}
            for gg, o, f in a[1]:
                d[(o, f)] = OR(d.get((o, f), 0), AND(g, gg))
            for gg, o, f in b[1]:
                d[(o, f)] = OR(d.get((o, f), 0), AND(NOT(g), gg))
            return ('p', tuple((x, o, f) for (o, f), x in d.items() if x), a[2], a[3])
        raise Unsupported('address joined with a number')
    return tuple(ITE(g, x, y) for x, y in zip(a, b))


def join(a, b):
    if a is None:
        return b
    m = {}
    for k in a.mem:
        if k in b.mem:
            x, y = a.mem[k], b.mem[k]
            m[k] = x if x is y else [joincell(a.pc, p, q) for p, q in zip(x, y)]
    return St(OR(a.pc, b.pc), m)


class Bits:
    def __init__(s, path, steps=400000):
        s.d = json.load(open(path))
        s.types = {t['id']: t for t in s.d['types']}
        s.insts = {i['id']: i for i in s.d['insts']}
        s.psize = 4 if s.d['arch'] in ('wasm32', 'arm', 'x86') else 8
        s.cfg = {}
        s.bad = []
        s.aligns = {('H', 0): 64}
        s.functions = set()
        s.limit = steps
        s.steps = 0
        s.calls = 0
        s.depth = 0
        s.consts = {}
        s.rank = {}

    def fn(s, name):
        c = [i for i in s.insts.values() if i['krate'] == 'yasai' and i['name'].split('::')[-1] == name and i['body']]
        return c[0] if len(c) == 1 else None

    # ---- types
    def size(s, t):
        r = s.types[t].get('size')
        if r is None:
            raise Unsupported('size of %s' % s.types[t]['name'])
        return r

    def signed(s, t):
        return s.types[t]['k'] == 'int'

    def field(s, t, variant, i):
        T = s.types[t]
        if 'vmulti' in T and variant is not None:
            return T['vmulti']['variants'][variant][i]
        if 'offsets' in T:
            return T['offsets'][i]
        if T['k'] == 'adt' and T['adt'] == 'union':
            return 0
        if 'vmulti' in T:
            return T['vmulti']['variants'][0][i]
        return 0

    # ---- memory
    def alloc(s, st, i):
        k = ('A', i)
        if k not in st.mem:
            c = s.consts.get(i)
            if c is None:
                a = s.d['allocs'][i]
                if a['k'] != 'mem':
                    raise Unsupported('constant of kind %s' % a['k'])
                c = s.consts[i] = s.constcells(a['a'])
                s.aligns[k] = a['a'].get('align', 1)
            st.mem[k] = c
        return k

    def constcells(s, a):
        hx = a['bytes']
        c = [None if hx[i:i + 2] == '__' else BYTE[int(hx[i:i + 2], 16)] for i in range(0, len(hx), 2)]
        for off, i in a['ptrs']:
            base = val(bitsof(c[off:off + s.psize]))
            c[off:off + s.psize] = ptr([(1, ('A', i), base)], s.psize)
        return c

    def report(s, kind, g, where):
        if g:
            s.bad.append((kind, g, where))

    def read(s, st, targets, size, where):
        r = None
        for g, o, off in targets:
            if AND(g, st.pc) == 0:
                continue
            if o[0] == 'A':
                s.alloc(st, o[1])
            m = st.mem.get(o)
            if m is None:
                raise Unsupported('dangling address')
            if off < 0 or off + size > len(m):
                s.report('read outside the object', AND(g, st.pc), where)
                continue
            c = m[off:off + size]
            r = c if r is None else [joincell(g, x, y) for x, y in zip(c, r)]
        if r is None:
            if size == 0:
                return []
            st.pc = 0
            return [None] * size
        return r

    def write(s, st, targets, cs, where):
        live = [t for t in targets if AND(t[0], st.pc)]
        for g, o, off in live:
            m = st.mem.get(o)
            if m is None or o[0] == 'A':
                raise Unsupported('write to %s' % (o[0],))
            if off < 0 or off + len(cs) > len(m):
                s.report('write outside the object', AND(g, st.pc), where)
                continue
            m = list(m)
            if len(live) == 1:
                m[off:off + len(cs)] = cs
            else:
                m[off:off + len(cs)] = [joincell(g, x, y) for x, y in zip(cs, m[off:off + len(cs)])]
            st.mem[o] = m

    def pointer(s, cs):
        """(targets, metadata bits) of the cells of a thin or fat pointer"""
        c = cs[0]
        if not isptr(c) or c[2] != 0:
            if c is not None and not isptr(c) and val(bitsof(cs[:s.psize])) is not None:
                return [(1, ('N',), val(bitsof(cs[:s.psize])))], None
            raise Unsupported('unknown address')
        return list(c[1]), (cs[s.psize:] or None)

    # ---- places
    def aligned(s, st, tg, t, where):
        """every target of a pointer to type t lies at an address the type allows"""
        al = s.types[t].get('align', 1)
        if al > 1:
            for g, o, off in tg:
                if o[0] in 'LAH' and (off % al or s.aligns.get(o, al) % al):
                    s.report('access through a misaligned pointer', AND(g, st.pc), where)

    def place(s, st, fr, p, where, access=True):
        """targets, type, variant, metadata"""
        l, proj = p
        t = fr['body']['locals'][l]
        tg = [(1, ('L', fr['id'], l), 0)]
        variant, meta = None, None
        for e in proj:
            T = s.types[t]
            k = e[0]
            if k == 'deref':
                cs = s.read(st, tg, s.size(t), where)
                if st.pc == 0:
                    return [], T.get('elem', t), None, None
                if T['k'] == 'adt':
                    raise Unsupported('box')
                tg, meta = s.pointer(cs)
                t, variant = T['elem'], None
                if access:
                    s.aligned(st, tg, t, where)
            elif k == 'field':
                o = s.field(t, variant, e[1])
                tg = [(g, b, f + o) for g, b, f in tg]
                t, variant = e[2], None
            elif k == 'downcast':
                variant = e[1]
            elif k in ('index', 'cindex'):
                el = T['elem']
                z = s.size(el)
                if k == 'index':
                    ix = bitsof(st.mem[('L', fr['id'], e[1])])
                    vs = values(ix, st.pc)
                else:
                    n = T['len'] if T['k'] == 'array' else val(bitsof(meta))
                    vs = [((n - e[1]) if e[3] else e[1], 1)]
                if len(vs) == 1:
                    vs = [(vs[0][0], 1)]
                tg = [(AND(g, h) if h != 1 else g, b, f + v * z) for g, b, f in tg for v, h in vs]
                t, variant, meta = el, None, None
            elif k == 'subslice':
                raise Unsupported('subslice')
            else:
                raise Unsupported('projection ' + k)
        return tg, t, variant, meta

    def operand(s, st, fr, o, where):
        """cells, type"""
        k = o['k']
        if k in ('copy', 'move'):
            l, proj = o['p']
            if not proj:
                t = fr['body']['locals'][l]
                return st.mem[('L', fr['id'], l)], t
            tg, t, _, _ = s.place(st, fr, o['p'], where)
            return s.read(st, tg, s.size(t), where), t
        if k == 'const':
            t = o['ty']
            if o['v'] is None:
                return [None] * s.size(t), t
            if 'usize' in o['v']:
                return cells(num(o['v']['usize'], s.psize * 8)), t
            if 'bytes' not in o['v']:
                raise Unsupported('constant')
            return s.constcells(o['v']), t
        if k == 'rtcheck':
            return [BYTE[1 if o['w'] == 'UbChecks' else 0]], None
        raise Unsupported('operand ' + k)

    # ---- rvalues
    def binop(s, st, op, a, b, ta, tb, where):
        """bits, overflow condition"""
        n = len(a)
        sg = s.signed(ta)
        if op in ('Add', 'AddUnchecked'):
            r, c = add(a, b)
            ov = XOR(XOR(a[-1], b[-1]), XOR(r[-1], c)) if sg else c
            if sg:
                ov = AND(NOT(XOR(a[-1], b[-1])), XOR(a[-1], r[-1]))
            return r, ov
        if op in ('Sub', 'SubUnchecked'):
            r, c = sub(a, b)
            return r, (AND(XOR(a[-1], b[-1]), XOR(a[-1], r[-1])) if sg else c)
        if op in ('Mul', 'MulUnchecked'):
            if sg:
                w = mul(a + [a[-1]] * n, b + [b[-1]] * n)
                return w[:n], OR(*[XOR(x, w[n - 1]) for x in w[n:]])
            w = mul(a + [0] * n, b + [0] * n)
            return w[:n], OR(*w[n:])
        if op in ('Div', 'Rem'):
            if sg and (AND(st.pc, OR(a[-1], b[-1]))):
                raise Unsupported('signed division')
            q, r = divrem(a, b)
            return (q if op == 'Div' else r), 0
        if op == 'BitAnd':
            return [AND(x, y) for x, y in zip(a, b)], 0
        if op == 'BitOr':
            return [OR(x, y) for x, y in zip(a, b)], 0
        if op == 'BitXor':
            return [XOR(x, y) for x, y in zip(a, b)], 0
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            r = shift(a, b, op[:3] == 'Shl', sg, n)
            hi = b[(n - 1).bit_length():]
            return r, OR(*hi) if hi else 0
        lt = slt if sg else ult
        if op == 'Eq':
            return [eq(a, b)], 0
        if op == 'Ne':
            return [NOT(eq(a, b))], 0
        if op == 'Lt':
            return [lt(a, b)], 0
        if op == 'Gt':
            return [lt(b, a)], 0
        if op == 'Le':
            return [NOT(lt(b, a))], 0
        if op == 'Ge':
            return [NOT(lt(a, b))], 0
        if op == 'Cmp':
            e, l = eq(a, b), lt(a, b)
            return [NOT(e)] + [l] * 7, 0
        raise Unsupported('operation ' + op)

    def num_(s, cs, t):
        return bitsof(cs)

    def ptrop(s, st, op, x, y, where):
        a, _ = s.pointer(x)
        b, _ = s.pointer(y)
        r = 0
        for g, o, f in a:
            for h, p, q in b:
                gh = AND(g, h)
                if gh == 0:
                    continue
                if o != p:
                    if op not in ('Eq', 'Ne'):
                        raise Unsupported('order of addresses')
                    c = op == 'Ne'
                else:
                    c = {'Eq': f == q, 'Ne': f != q, 'Lt': f < q, 'Le': f <= q, 'Gt': f > q, 'Ge': f >= q}[op]
                if c:
                    r = OR(r, gh)
        return [r]

    def offset(s, st, cs, n, z, where):
        tg, meta = s.pointer(cs)
        vs = values(n, st.pc)
        w = len(n)
        if len(vs) == 1:
            vs = [(vs[0][0], 1)]
        sv = [(v - (1 << w) if v >> (w - 1) else v, g) for v, g in vs]
        return ptr([(AND(g, h), o, f + v * z) for g, o, f in tg for v, h in sv if AND(g, h)], s.psize) + list(cs[s.psize:])

    def rvalue(s, st, fr, r, where):
        k = r['k']
        t = r['ty']
        if k == 'use':
            return s.operand(st, fr, r['o'], where)[0]
        if k in ('ref', 'addrof'):
            tg, pt, _, meta = s.place(st, fr, r['p'], where, k == 'ref')
            return ptr(tg, s.psize) + (list(meta) if meta and s.size(t) > s.psize else [])
        if k in ('bin', 'cbin'):
            x, ta = s.operand(st, fr, r['a'], where)
            y, tb = s.operand(st, fr, r['b'], where)
            op = r['op']
            if op == 'Offset':
                return s.offset(st, x, bitsof(y), s.size(s.types[ta]['elem']), where)
            if x and isptr(x[0]) or y and isptr(y[0]):
                return cells(s.ptrop(st, op, x, y, where) + [0] * 7)
            a, b = bitsof(x), bitsof(y)
            v, ov = s.binop(st, op, a, b, ta, tb, where)
            if k == 'cbin' or op.endswith('WithOverflow'):
                offs = s.types[t]['offsets']
                out = [None] * s.size(t)
                out[offs[0]:offs[0] + len(x)] = cells(v)
                out[offs[1]] = (ov,) + (0,) * 7
                return out
            if op.endswith('Unchecked'):
                s.report('undefined ' + op, AND(st.pc, ov), where)
            if len(v) == 1:
                v = v + [0] * 7
            return cells(v)
        if k == 'un':
            x, ta = s.operand(st, fr, r['a'], where)
            op = r['op']
            if op == 'Not':
                if s.types[ta]['k'] == 'bool':
                    return [(NOT(x[0][0]),) + (0,) * 7]
                return cells([NOT(b) for b in bitsof(x)])
            if op == 'Neg':
                return cells(neg(bitsof(x)))
            if op == 'PtrMetadata':
                return list(x[s.psize:])
            raise Unsupported('operation ' + op)
        if k == 'cast':
            x, ta = s.operand(st, fr, r['o'], where)
            ck = r['ck']
            z = s.size(r['t'])
            if ck.startswith('IntToInt'):
                b = bitsof(x)
                if s.types[ta]['k'] == 'bool':
                    b = b[:1] + [0] * 7
                fill = b[-1] if s.signed(ta) else 0
                b = b[:z * 8]
                return cells(b + [fill] * (z * 8 - len(b)))
            if ck.startswith('PointerCoercion(Unsize') :
                el = s.types[ta]['elem']
                E = s.types[el]
                if E['k'] == 'array':
                    return list(x) + cells(num(E['len'], s.psize * 8))
                raise Unsupported('unsizing')
            if ck.startswith('PtrToPtr') or ck.startswith('PointerCoercion') or ck.startswith('Subtype'):
                return list(x[:z])
            if ck.startswith('Transmute'):
                if len(x) != z:
                    raise Unsupported('transmute')
                return list(x)
            raise Unsupported('cast ' + ck)
        if k == 'repeat':
            x, _ = s.operand(st, fr, r['o'], where)
            return list(x) * r['n']
        if k == 'len':
            tg, pt, _, meta = s.place(st, fr, r['p'], where)
            T = s.types[pt]
            return cells(num(T['len'], s.psize * 8)) if T['k'] == 'array' else list(meta)
        if k == 'discr':
            tg, pt, _, _ = s.place(st, fr, r['p'], where)
            return s.discr(st, tg, pt, s.size(t), where)
        if k == 'agg':
            out = [None] * s.size(t)
            ops = [s.operand(st, fr, o, where) for o in r['ops']]
            a = r['a']
            if a == 'array':
                z = s.size(s.types[t]['elem'])
                for i, (c, _) in enumerate(ops):
                    out[i * z:i * z + z] = c
            elif a == 'rawptr':
                return list(ops[0][0][:s.psize]) + list(ops[1][0])
            elif a == 'adt':
                T = s.types[t]
                if r['ufield'] is not None:
                    c = ops[0][0]
                    out[:len(c)] = c
                else:
                    for i, (c, _) in enumerate(ops):
                        o = s.field(t, r['variant'], i)
                        out[o:o + len(c)] = c
                    s.settag(out, t, r['variant'])
            elif a in ('tuple', 'closure'):
                for i, (c, _) in enumerate(ops):
                    o = s.field(t, None, i)
                    out[o:o + len(c)] = c
            else:
                raise Unsupported('aggregate')
            return out
        raise Unsupported('rvalue %s %s' % (k, r.get('d', '')))

    def tagplace(s, t):
        T = s.types[t]
        m = T['vmulti']
        o = T.get('offsets', [0])
        return m, (o[m['tagfield']] if m['tagfield'] < len(o) else 0)

    def settag(s, out, t, v):
        T = s.types[t]
        if 'vmulti' not in T:
            return
        m, o = s.tagplace(t)
        e = m['enc']
        if e['e'] == 'direct':
            d = int(T['variants'][v]['discr'])
        else:
            if v == e['untagged']:
                return
            d = v - e['lo'] + int(e['start'])
        out[o:o + m['tagsize']] = cells(num(d, m['tagsize'] * 8))

    def discr(s, st, tg, t, size, where):
        T = s.types[t]
        if 'vmulti' not in T:
            v = T.get('vsingle', 0)
            d = int(T['variants'][v]['discr']) if T.get('variants') and T['adt'] == 'enum' else 0
            return cells(num(d, size * 8))
        m, o = s.tagplace(t)
        tag = s.read(st, [(g, b, f + o) for g, b, f in tg], m['tagsize'], where)
        e = m['enc']
        if e['e'] == 'direct':
            b = bitsof(tag)
            return cells((b + [b[-1] if False else 0] * 128)[:size * 8])
        if isptr(tag[0]):
            return cells(num(e['untagged'], size * 8))
        b = bitsof(tag)
        r = num(int(T['variants'][e['untagged']]['discr']), size * 8)
        for v in range(e['lo'], e['hi'] + 1):
            if v == e['untagged']:
                continue
            r = mux(eq(b, num(v - e['lo'] + int(e['start']), len(b))), num(int(T['variants'][v]['discr']), size * 8), r)
        return cells(r)

    # ---- calls
    def run(s, inst, args, st):
        """follow one function; the joined state of its returns (or None) and the result"""
        body = inst['body']
        if s.depth > 60:
            raise Unsupported('call depth')
        s.functions.add(inst['name'])
        s.depth += 1
        s.calls += 1
        fid = s.calls
        fr = dict(id=fid, body=body, inst=inst)
        c = s.cfg.get(inst['id'])
        if c is None:
            c = s.cfg[inst['id']] = Cfg(body)
        for i, t in enumerate(body['locals']):
            z = s.types[t].get('size')
            st.mem[('L', fid, i)] = [None] * (z or 0)
            s.aligns[('L', fid, i)] = s.types[t].get('align', 1)
        if body['spread'] is not None:
            raise Unsupported('spread arguments')
        for i, a in enumerate(args):
            st.mem[('L', fid, i + 1)] = list(a)
        pend = {0: st}
        ret = None
        while pend:
            b = min(pend, key=lambda x: c.num[x])
            cur = pend.pop(b)
            s.steps += 1
            if s.steps > s.limit:
                raise Unsupported('too many steps')
            for tgt, ns in s.block(cur, fr, b):
                if ns.pc == 0:
                    continue
                if tgt == 'ret':
                    ret = join(ret, ns)
                else:
                    pend[tgt] = join(pend.get(tgt), ns)
        s.depth -= 1
        if ret is None:
            return None, None
        r = ret.mem[('L', fid, 0)]
        for i in range(len(body['locals'])):
            ret.mem.pop(('L', fid, i), None)
        return ret, r

    def block(s, st, fr, bi):
        blk = fr['body']['blocks'][bi]
        for x in blk['s']:
            where = x[-1] if type(x[-1]) is list and len(x[-1]) == 3 else None
            if x[0] == '=':
                v = s.rvalue(st, fr, x[2], where)
                if st.pc == 0:
                    return []
                l, proj = x[1]
                if not proj:
                    st.mem[('L', fr['id'], l)] = v
                else:
                    tg, t, _, _ = s.place(st, fr, x[1], where)
                    s.write(st, tg, v, where)
            elif x[0] == 'setd':
                tg, t, _, _ = s.place(st, fr, x[1], where)
                out = s.read(st, tg, s.size(t), where)
                out = list(out)
                s.settag(out, t, x[2])
                s.write(st, tg, out, where)
            elif x[0] == 'assume':
                c, _ = s.operand(st, fr, x[1], where)
                s.report('false assumption', AND(st.pc, NOT(c[0][0])), where)
            elif x[0] == 'copynonoverlapping':
                a, ta = s.operand(st, fr, x[1], where)
                d, _ = s.operand(st, fr, x[2], where)
                n = val(bitsof(s.operand(st, fr, x[3], where)[0]))
                if n:
                    s.aligned(st, s.pointer(a)[0], s.types[ta]['elem'], where)
                    s.aligned(st, s.pointer(d)[0], s.types[ta]['elem'], where)
                s.copy(st, a, d, n, s.size(s.types[ta]['elem']), where)
            else:
                raise Unsupported('statement ' + str(x[0]))
        t = blk['t']
        k = t['k']
        where = t.get('span')
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'drop':
            return [(t['t'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'unreachable':
            s.report('unreachable code reached', st.pc, where)
            return []
        if k == 'switch':
            c, ty = s.operand(st, fr, t['o'], where)
            if st.pc == 0:
                return []
            b = bitsof(c)
            if ty is not None and s.types[ty]['k'] == 'bool' or ty is None:
                b = b[:1]
            rest = st.pc
            out = []
            for v, tb in t['br']:
                g = AND(rest, eq(b, num(int(v) & ((1 << len(b)) - 1), len(b))))
                if g:
                    out.append((tb, St(g, dict(st.mem))))
                    rest = AND(rest, NOT(g))
            if rest:
                out.append((t['ow'], St(rest, dict(st.mem))))
            return out
        if k == 'assert':
            c, _ = s.operand(st, fr, t['c'], where)
            g = c[0][0] if t['e'] else NOT(c[0][0])
            s.report('panic: ' + t['msg'], AND(st.pc, NOT(g)), where)
            st.pc = AND(st.pc, g)
            return [(t['t'], st)]
        if k == 'call':
            inst = s.insts.get(t['inst']) if t['inst'] is not None else None
            if inst is None:
                raise Unsupported('indirect call')
            args = [s.operand(st, fr, a, where) for a in t['args']]
            if st.pc == 0:
                return []
            st, r = s.call(st, inst, args, t, where)
            if st is None or t['t'] is None:
                return []
            l, proj = t['d']
            if not proj:
                st.mem[('L', fr['id'], l)] = r
            else:
                tg, _, _, _ = s.place(st, fr, t['d'], where)
                s.write(st, tg, r, where)
            return [(t['t'], st)]
        raise Unsupported('terminator ' + k)

    def copy(s, st, a, d, n, z, where):
        if n is None:
            raise Unsupported('copy of unknown length')
        ta, _ = s.pointer(a)
        td, _ = s.pointer(d)
        s.write(st, td, s.read(st, ta, n * z, where), where)

    def call(s, st, inst, args, t, where):
        nm = inst['name']
        base = nm.split('::<')[0].split('::')[-1]
        if base in ('maybe_is_aligned_and_not_null', 'maybe_is_aligned', 'maybe_is_nonoverlapping', 'is_aligned_to'):
            return st, [BYTE[1]]
        if 'panicking::' in nm or base in ('panic_fmt', 'panic_nounwind', 'unwrap_failed', 'expect_failed', 'panic_nounwind_fmt'):
            s.report('panic in ' + nm, st.pc, where)
            return None, None
        if inst['body'] is None:
            return st, s.intrinsic(st, inst, base, args, where)
        return s.run(inst, [a for a, _ in args], st)

    def lanes(s, t):
        """(lane width in bits, number, type of a lane)"""
        T = s.types[t]
        a = s.types[T['variants'][0]['fields'][0][1]]
        return s.size(a['elem']) * 8, a['len'], a['elem']

    def vec(s, cs, t):
        w, n, _ = s.lanes(t)
        b = bitsof(cs)
        return [b[i * w:i * w + w] for i in range(n)]

    def intrinsic(s, st, inst, base, args, where):
        k = inst['kind']
        A = [a for a, _ in args]
        ty = [a for _, a in args]
        targs = [x.get('t') if x else None for x in inst['args']]
        if base in ('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path'):
            return []
        if base in ('likely', 'unlikely', 'black_box'):
            return A[0]
        if base in ('ctpop', 'cttz', 'ctlz', 'cttz_nonzero', 'ctlz_nonzero'):
            b = bitsof(A[0])
            if base == 'ctpop':
                return cells(popcount(b, 32))
            if base.endswith('_nonzero'):
                s.report('undefined ' + base, AND(st.pc, NOT(OR(*b))), where)
            if base.startswith('ctlz'):
                b = b[::-1]
            return cells(firstone(b, 32))
        if base in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_shl',
                    'unchecked_shr', 'add_with_overflow', 'sub_with_overflow', 'mul_with_overflow', 'disjoint_bitor'):
            op = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul', 'unchecked_add': 'Add', 'unchecked_sub': 'Sub',
                  'unchecked_shl': 'Shl', 'unchecked_shr': 'Shr', 'add_with_overflow': 'Add', 'sub_with_overflow': 'Sub',
                  'mul_with_overflow': 'Mul', 'disjoint_bitor': 'BitOr'}[base]
            v, ov = s.binop(st, op, bitsof(A[0]), bitsof(A[1]), ty[0], ty[1], where)
            if base.startswith('unchecked'):
                s.report('undefined ' + base, AND(st.pc, ov), where)
            if base.endswith('overflow'):
                return cells(v) + [(ov,) + (0,) * 7] + [None] * (len(A[0]) - 1)
            return cells(v)
        if base in ('saturating_add', 'saturating_sub') and not s.signed(ty[0]):
            v, ov = s.binop(st, 'Add' if base[-3:] == 'add' else 'Sub', bitsof(A[0]), bitsof(A[1]), ty[0], ty[1], where)
            return cells(mux(ov, num(-1 if base[-3:] == 'add' else 0, len(v)), v))
        if base in ('rotate_left', 'rotate_right'):
            b, n = bitsof(A[0]), val(bitsof(A[1]))
            if n is None:
                raise Unsupported(base)
            n %= len(b)
            n = len(b) - n if base == 'rotate_left' else n
            return cells(b[n:] + b[:n])
        if base == 'bswap':
            return list(A[0])[::-1]
        if base == 'bitreverse':
            return cells(bitsof(A[0])[::-1])
        if base in ('transmute', 'transmute_unchecked'):
            return A[0]
        if base == 'size_of':
            return cells(num(s.size(targs[0]), s.psize * 8))
        if base in ('offset', 'arith_offset', 'ptr_offset'):
            return s.offset(st, A[0], bitsof(A[1]), s.size(s.types[ty[0]]['elem']), where)
        if base == 'read_via_copy':
            tg, _ = s.pointer(A[0])
            return s.read(st, tg, s.size(s.types[ty[0]]['elem']), where)
        if base == 'write_via_move':
            tg, _ = s.pointer(A[0])
            s.write(st, tg, A[1], where)
            return []
        if base in ('copy_nonoverlapping', 'copy'):
            s.copy(st, A[0], A[1], val(bitsof(A[2])), s.size(targs[0]), where)
            return []
        if base == 'raw_eq':
            z = s.size(targs[0])
            a, b = (s.read(st, s.pointer(x)[0], z, where) for x in A)
            return [(eq(bitsof(a), bitsof(b)),) + (0,) * 7]
        if base == 'const_eval_select':
            raise Unsupported(base)
        if base.startswith('simd_'):
            return s.simd(st, inst, base[5:], A, ty, targs, where)
        if base in ('_vqmovn_u64',):
            b = bitsof(A[0])
            o = []
            for i in (0, 64):
                big = OR(*b[i + 32:i + 64])
                o += [OR(big, x) for x in b[i:i + 32]]
            return cells(o)
        if base == 'llvm_any_true_i8x16':
            return cells([OR(*bitsof(A[0]))] + [0] * 31)
        for w in (8, 16, 32, 64):
            if base == 'llvm_i%dx%d_all_true' % (w, 128 // w) or base == 'llvm_all_true_i%dx%d' % (w, 128 // w):
                b = bitsof(A[0])
                return cells([AND(*[OR(*b[i:i + w]) for i in range(0, 128, w)])] + [0] * 31)
        raise Unsupported('intrinsic ' + inst['name'])

    def simd(s, st, inst, op, A, ty, targs, where):
        out = lambda ls: cells([b for l in ls for b in l])
        if op in ('splat',):
            w, n, _ = s.lanes(targs[0])
            return out([bitsof(A[0])] * n)
        if op == 'shuffle':
            w, n, _ = s.lanes(ty[0])
            src = s.vec(A[0], ty[0]) + s.vec(A[1], ty[0])
            ix = bitsof(A[2])
            return out([src[val(ix[i:i + 32])] for i in range(0, len(ix), 32)])
        w, n, el = s.lanes(ty[0])
        x = s.vec(A[0], ty[0])
        sg = s.signed(el)
        if op in ('and', 'or', 'xor', 'add', 'sub', 'mul', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'shl', 'shr'):
            y = s.vec(A[1], ty[1])
            name = {'and': 'BitAnd', 'or': 'BitOr', 'xor': 'BitXor', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'eq': 'Eq', 'ne': 'Ne',
                    'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'shl': 'Shl', 'shr': 'Shr'}[op]
            r = []
            for a, b in zip(x, y):
                v, ov = s.binop(st, name, a, b, el, el, where)
                if op in ('shl', 'shr'):
                    s.report('vector shift by too much', AND(st.pc, ov), where)
                r.append([v[0]] * s.lanes(targs[-1])[0] if len(v) == 1 else v)
            return out(r)
        if op == 'neg':
            return out([neg(a) for a in x])
        if op in ('reduce_or', 'reduce_and', 'reduce_xor'):
            f = {'reduce_or': OR, 'reduce_and': AND, 'reduce_xor': XOR}[op]
            r = x[0]
            for a in x[1:]:
                r = [f(p, q) for p, q in zip(r, a)]
            return cells(r)
        if op in ('reduce_all', 'reduce_any'):
            r = (AND if op == 'reduce_all' else OR)(*[a[-1] for a in x])
            return cells([r] + [0] * 7)
        if op == 'bitmask':
            r = [a[-1] for a in x]
            z = s.size(targs[1]) * 8
            return cells(r + [0] * (z - len(r)))
        if op in ('extract', 'extract_dyn'):
            i = val(bitsof(A[1]))
            return cells(x[i])
        if op in ('insert', 'insert_dyn'):
            i = val(bitsof(A[1]))
            x[i] = bitsof(A[2])
            return out(x)
        if op == 'select':
            a, b = s.vec(A[1], ty[1]), s.vec(A[2], ty[2])
            return out([mux(m[-1], p, q) for m, p, q in zip(x, a, b)])
        if op in ('cast', 'as'):
            w2, n2, el2 = s.lanes(targs[1])
            return out([(a + [a[-1] if sg else 0] * w2)[:w2] for a in x])
        if op in ('ctpop', 'cttz', 'ctlz'):
            f = {'ctpop': lambda a: popcount(a, w), 'cttz': lambda a: firstone(a, w), 'ctlz': lambda a: firstone(a[::-1], w)}[op]
            return out([f(a) for a in x])
        raise Unsupported('vector operation ' + op)
