"""Abstract interpretation of the compiler's MIR over the value domain of values.py.

States are joined at every control-flow join (one abstract state per program point); calls are
inlined; loops over symbolic sets are summarised by transfer functions derived from one abstract
iteration, other loops are unrolled until their condition is false in every state."""
import json, re, sys
import dom as D
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE
from values import *
import values as VALUES

sys.setrecursionlimit(20000)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d['crate']
        self.types = {t['id']: t for t in d['types']}
        self.insts = {i['id']: i for i in d['insts']}
        self.allocs = d['allocs']
        self.statics = {s['name']: s for s in d['statics']}
        self.byname = {}
        for i in d['insts']:
            self.byname.setdefault(i['name'], i)
        self.cfg = {}

    def fn(self, suffix):
        """the unique function whose name ends with suffix (generics and impl paths stripped)"""
        c = [i for i in self.insts.values() if i.get('body') and (i['name'] == suffix or i['name'].endswith('::' + suffix))]
        if len(c) != 1:
            return None
        return c[0]

    def method(self, ty, name):
        """the inherent or extension method `name` of type `ty` in the analysed crate"""
        r = []
        for i in self.insts.values():
            if i['krate'] != self.crate or not i.get('body'):
                continue
            n = i['name']
            if not n.endswith('::' + name):
                continue
            h = n[:-len(name) - 2]
            m = re.search(r'<impl ([^<>]*)>$', h)
            h = m.group(1) if m else h
            if h.split('::')[-1] == ty:
                r.append(i)
        return r[0] if len(r) == 1 else None


class Cfg:
    """successors, reverse postorder, natural loops of one body"""

    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        self.succ = [self.succs(b['t']) for b in bl]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.num = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        new = p if new is None else self.inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st.extend(pred[x])
                elif self.num[s] <= self.num[b]:
                    raise Unsupported('irreducible control flow')

    def inter(self, idom, a, b):
        while a != b:
            while self.num[a] > self.num[b]:
                a = idom[a]
            while self.num[b] > self.num[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @staticmethod
    def succs(t):
        k = t['k']
        if k in ('goto', 'drop', 'assert'):
            return [t['t']]
        if k == 'switch':
            r = [b for _, b in t['br']]
            r.append(t['ow'])
            return list(dict.fromkeys(r))
        if k == 'call':
            return [t['t']] if t['t'] is not None else []
        return []


class St:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc, self.mem = pc, mem

    def fork(self, g):
        return St(AND(self.pc, g), dict(self.mem))


def join(states):
    states = [s for s in states if s.pc != 0]
    if not states:
        return None
    a = states[0]
    for b in states[1:]:
        u = OR(a.pc, b.pc)
        g = B.restrict(a.pc, u)
        mem = {}
        for k, x in a.mem.items():
            y = b.mem.get(k)
            if y is None:
                mem[k] = VU('not assigned on every path')
            elif x is y:
                mem[k] = x
            else:
                mem[k] = merge(g, x, y)
        for k in b.mem:
            if k not in mem:
                mem[k] = VU('not assigned on every path')
        a = St(u, mem)
    return a


class Probe(Exception):
    def __init__(self, place, it):
        self.place, self.it = place, it


class Probe2(Probe):
    pass


class Interp:
    UNROLL = 700

    def __init__(self, prog, models):
        self.p = prog
        self.m = models(self)
        self.ctx = []            # path conditions of the enclosing loop iterations
        self.facts = {}          # square term -> what is known of it
        self.nfid = 0
        self.nheap = 0
        self.nhole = 0
        self.gdepth = 0
        self.nopq = 0
        self.stubs = {}
        self.fdepth = 0
        self.statics = {}
        self.static_stack = []
        self.consts = {}
        self.obl = []            # things that must not happen: dict(kind, fn, span, pc, msg)
        self.query = None
        self.pushes = []
        self.dups = []
        self.probing = False
        self.stats = {'functions': set(), 'blocks': set(), 'calls': 0, 'loops_generic': 0, 'loops_focused': 0, 'loops_unrolled': 0,
                      'loops_cursor': 0}
        self.assumed = set()
        self.fnstack = []
        self.trace = False

    # ------------------------------------------------------------ feasibility
    def feasible(self, pc):
        if pc == 0:
            return False
        if pc == 1:
            return True
        f = pc
        for c in reversed(self.ctx):
            f = AND(f, c)
            if f == 0:
                return False
        toks = D.tokens(pc)
        for t, c in self.facts.items():
            if t[0] == 'C' or t[0] in toks:
                f = AND(f, c)
                if f == 0:
                    return False
        return True

    def know(self, t, f):
        """record what is known about any square (term t)"""
        if t not in self.facts:
            self.facts[t] = f

    def full(self, pc):
        for c in reversed(self.ctx):
            pc = AND(pc, c)
        return pc

    def oblige(self, kind, st, span, msg):
        if not self.feasible(st.pc):
            return
        self.obl.append(dict(kind=kind, fn=self.fnstack[-1]['name'] if self.fnstack else '?', span=span,
                             pc=self.full(st.pc), msg=msg, stack=[f['name'] for f in self.fnstack]))

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        k = root[0]
        if k == 'S':
            return self.static_value(root[1])
        if k == 'A':
            return self.alloc_value(root[1], root[2], root[3] if len(root) > 3 else None)
        if k == 'V':
            return root[1]
        v = st.mem.get(root)
        if v is None:
            unsup('read of unassigned memory %r' % (root,))
        return v

    def load(self, st, places):
        r = None
        for g, root, path in places:
            v = readp(self.root_value(st, root), path)
            r = v if r is None else merge(g, v, r)
        return r

    def store(self, st, places, v):
        for g, root, path in places:
            if root[0] in 'SAV':
                unsup('write to a constant')
            if root[0] == 'H':
                old = st.mem.get(root)
                if old is None or type(old) is VU:
                    st.mem[root] = v
                    continue
            if not path:
                old = st.mem.get(root)
                st.mem[root] = v if (g == 1 or old is None) else merge(g, v, old)
                continue
            old = st.mem.get(root)
            if old is None:
                unsup('partial write to unassigned memory')
            if type(old) is VU and g == 1 and path[0][0] == 'f' and len(path) == 1 and root[0] == 'L':
                unsup('field write to uninitialised local')
            if g == 1:
                st.mem[root] = writep(old, path, v)
            else:
                cur = readp(old, path)
                st.mem[root] = writep(old, path, merge(g, v, cur))

    def deref(self, st, v):
        if type(v) is VR:
            return [(g, root, path) for (root, path), g in v.c.items()]
        if type(v) is VU:
            unsup('dereference of unknown pointer: ' + v.why)
        unsup('dereference of %s' % type(v).__name__)

    def place(self, st, fr, p):
        cur = [(1, ('L', fr, p[0]), ())]
        for x in p[1]:
            k = x[0]
            if k == 'deref':
                nxt = []
                for g, root, path in cur:
                    v = readp(self.root_value(st, root), path)
                    for g2, r2, p2 in self.deref(st, v):
                        gg = AND(g, g2)
                        if gg:
                            nxt.append((gg, r2, p2))
                cur = nxt
            elif k == 'field':
                cur = [(g, root, self.fieldpath(st, root, path, x[1])) for g, root, path in cur]
            elif k == 'downcast':
                cur = [(g, root, path + (('v', x[1]),)) for g, root, path in cur]
            elif k == 'index':
                i = self.root_value(st, ('L', fr, x[1]))
                if type(i) is not VI:
                    unsup('index of kind %s' % type(i).__name__)
                cur = [(g, root, path + (('x', i),)) for g, root, path in cur]
            elif k == 'cindex':
                i = x[1]
                if x[3]:
                    n = self.length(self.load(st, cur))
                    i = n.const() - i
                i = vint(64, i)
                cur = [(g, root, path + (('x', i),)) for g, root, path in cur]
            elif k == 'opaque':
                pass
            else:
                unsup('projection %s' % k)
        return cur

    def fieldpath(self, st, root, path, i):
        if root[0] == 'H':
            v = st.mem.get(root)
            if v is None or type(v) is VU:
                return path
        try:
            v = readp(self.root_value(st, root), path)
        except Unsupported:
            return path + (('f', i),)
        if type(v) is VR or (type(v) is VU and v.why.startswith('pointer')):
            return path
        return path + (('f', i),)

    def length(self, v):
        t = type(v)
        if t is VA:
            return vint(64, len(v.e))
        if t is VL:
            return vint(64, 81)
        if t is VVec:
            if v.base is not None:
                return VI(64, False, {(len(v.e), ((('len', v.base), 1),)): 1})
            return vint(64, len(v.e))
        if t is VAv:
            return VI(64, False, {(0, ((('avlen', v.g), 1),)): 1})
        if t is VS and v.ty == 'avcur':
            return self.m.lenv(v)
        unsup('length of %s' % t.__name__)

    # ------------------------------------------------------------ constants
    def static_value(self, name):
        v = self.statics.get(name)
        if v is not None:
            return v
        if name in self.static_stack:
            unsup('recursive static')
        s = self.p.statics.get(name)
        if s is None:
            unsup('static %s' % name)
        self.static_stack.append(name)
        save = (self.ctx, self.probing, self.gdepth, self.fnstack)
        self.ctx, self.probing, self.fnstack = [], False, []
        try:
            ty = self.p.types[s['ty']]
            if ty['k'] == 'adt' and ty['path'].split('::')[-1] in ('Lazy', 'LazyLock', 'OnceLock', 'LazyCell'):
                fns = [self.p.allocs[a]['inst'] for _, a in s['alloc']['ptrs'] if self.p.allocs[a]['k'] == 'fn']
                if len(fns) != 1:
                    unsup('initialiser of static %s' % name)
                inst = self.p.insts[fns[0]]
                r = self.call_inst(inst, [UNIT] * (inst['body']['argc'] if inst.get('body') else 0), St(1, {}), None)
                if r is None:
                    unsup('initialiser of %s diverges' % name)
                v = r[0]
                self.statics[name] = v
            else:
                v = self.decode(s['ty'], s['alloc']['bytes'], dict(s['alloc']['ptrs']), 0)
                self.statics[name] = v
        finally:
            self.ctx, self.probing, self.gdepth, self.fnstack = save
            self.static_stack.pop()
        return v

    def alloc_value(self, aid, ty, n):
        k = (aid, ty, n)
        v = self.consts.get(k)
        if v is None:
            a = self.p.allocs[aid]
            if a['k'] != 'mem':
                unsup('constant of kind %s' % a['k'])
            m = a['a']
            if n is None:
                v = self.decode(ty, m['bytes'], dict(m['ptrs']), 0)
            else:
                sz = self.p.types[ty].get('size', 0)
                v = VA([self.decode(ty, m['bytes'], dict(m['ptrs']), i * sz) for i in range(n)])
            self.consts[k] = v
        return v

    def decode(self, ty, hx, ptrs, off):
        """the abstract value of constant memory"""
        t = self.p.types[ty]
        k = t['k']
        sz = t.get('size', 0)

        def num(o, n, signed=False):
            h = hx[2 * o:2 * (o + n)]
            if '_' in h:
                unsup('uninitialised constant')
            return int.from_bytes(bytes.fromhex(h), 'little', signed=signed)
        if k == 'bool':
            return VB(num(off, 1) & 1)
        if k == 'uint':
            return vint(t['bits'], num(off, t['bits'] // 8))
        if k == 'int':
            return vint(t['bits'], num(off, t['bits'] // 8, True), True)
        if k == 'char':
            return vint(32, num(off, 4))
        if k == 'array':
            e = self.p.types[t['elem']]
            n = t['len']
            return VA([self.decode(t['elem'], hx, ptrs, off + i * e.get('size', 0)) for i in range(n)])
        if k == 'tuple':
            return VS(ty, [self.decode(e, hx, ptrs, off + o) for e, o in zip(t['elems'], t['offsets'])])
        if k in ('ref', 'rawptr', 'fnptr'):
            if off not in ptrs:
                return VU('pointer constant')
            a = ptrs[off]
            al = self.p.allocs[a]
            if al['k'] == 'fn':
                return VPy('fn', al['inst'])
            if al['k'] == 'static':
                return VR({(('S', al['name']), ()): 1})
            if al['k'] != 'mem':
                return VU('pointer constant')
            e = self.p.types[t['elem']]
            if e['k'] == 'slice':
                return VR({(('A', a, e['elem'], num(off + 8, 8)), ()): 1})
            if e['k'] in ('str', 'dyn'):
                return VU('pointer to text')
            if num(off, 8) != 0:
                unsup('pointer into a constant')
            return VR({(('A', a, t['elem']), ()): 1})
        if k in ('fndef', 'closure') and not sz:
            return VS(ty, ())
        if k == 'adt':
            r = self.m.decode_const(t, num, off)
            if r is not None:
                return r
            if t['adt'] == 'enum':
                vi = self.variant_of(t, num, off)
                if 'vmulti' in t:
                    offs = t['vmulti']['variants'][vi]
                else:
                    offs = t['offsets']
                fs = tuple(self.decode(f[1], hx, ptrs, off + o) for f, o in zip(t['variants'][vi]['fields'], offs))
                return VE(ty, {vi: (1, fs)})
            if t['adt'] == 'struct':
                return VS(ty, [self.decode(f[1], hx, ptrs, off + o) for f, o in zip(t['variants'][0]['fields'], t['offsets'])])
            if t['adt'] == 'union':
                return VU('union constant')
        if k == 'pat':
            b = t.get('base', t.get('elem'))
            if b is not None:
                return self.decode(b, hx, ptrs, off)
        unsup('constant of type %s' % t['name'])

    def variant_of(self, t, num, off):
        if 'vmulti' not in t:
            return t.get('vsingle', 0) or 0
        m = t['vmulti']
        fo = t['offsets'][m.get('tagfield', 0)] if t.get('offsets') else 0
        tag = num(off + fo, m['tagsize'])
        e = m['enc']
        if e['e'] == 'direct':
            for i, v in enumerate(t['variants']):
                if int(v['discr']) % (1 << (8 * m['tagsize'])) == tag:
                    return i
            unsup('bad tag')
        start = int(e['start'])
        rel = (tag - start) % (1 << (8 * m['tagsize']))
        n = e['hi'] - e['lo']
        if rel <= n:
            return e['lo'] + rel
        return e['untagged']

    def zst(self, ty):
        t = self.p.types[ty]
        k = t['k']
        if k == 'tuple':
            return VS(ty, [self.zst(e) for e in t['elems']])
        if k == 'adt' and t['adt'] == 'struct':
            return VS(ty, [self.zst(f[1]) for f in t['variants'][0]['fields']]) if t.get('size') == 0 else VU('zst')
        if k == 'adt' and t['adt'] == 'enum' and len(t['variants']) == 1:
            return VE(ty, {0: (1, ())})
        if k == 'array' and t.get('len') == 0:
            return VA(())
        if k == 'adt' and t['adt'] == 'enum':
            v = t.get('vsingle')
            return VE(ty, {v or 0: (1, ())})
        return VS(ty, ())

    def operand(self, st, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            p = o['p']
            if not p[1]:
                v = st.mem.get(('L', fr, p[0]))
                if v is None:
                    unsup('read of unassigned local')
                return v
            return self.load(st, self.place(st, fr, p))
        if k == 'const':
            v = o['v']
            if v is None:
                return self.zst(o['ty'])
            if 'usize' in v:
                return vint(64, int(v['usize']))
            key = ('c', o['ty'], v['bytes'], json.dumps(v['ptrs']))
            r = self.consts.get(key)
            if r is None:
                r = self.decode(o['ty'], v['bytes'], dict(v['ptrs']), 0)
                self.consts[key] = r
            return r
        if k == 'rtcheck':
            return VB(0)
        unsup('operand %s' % k)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k in ('ref', 'addrof'):
            if len(r['p'][1]) == 1 and r['p'][1][0][0] == 'deref':
                v = st.mem.get(('L', fr, r['p'][0]))
                if type(v) in (VU, VR, VPy):
                    return v
            pl = self.place(st, fr, r['p'])
            c = {}
            for g, root, path in pl:
                addcase(c, (root, path), g)
            if len(c) == 1:
                kk, = c
                c[kk] = 1
            return VR(c)
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            a = r['a']
            if a == 'array':
                return VA(ops)
            if a == 'tuple':
                return VS(r['ty'], ops)
            if a == 'adt':
                t = self.p.types[r['ty']]
                n = self.m.make_adt(t, r['variant'], ops)
                if n is not None:
                    return n
                if t['adt'] == 'enum':
                    return VE(r['ty'], {r['variant']: (1, tuple(ops))})
                if t['adt'] == 'struct':
                    return VS(r['ty'], ops)
                return VU('union')
            if a == 'closure':
                return VS(r['ty'], ops)
            return VU('aggregate')
        if k == 'repeat':
            v = self.operand(st, fr, r['o'])
            if r['n'] == 81:
                return VL(D.token('L%d' % lam_depth(v)), v)
            return VA([v] * r['n'])
        if k == 'discr':
            v = self.load(st, self.place(st, fr, r['p']))
            t = self.p.types[r['ty']]
            return self.discr(v, t)
        if k == 'bin':
            return self.m.binop(r['op'], self.operand(st, fr, r['a']), self.operand(st, fr, r['b']), self.p.types[r['ty']], st)
        if k == 'cbin':
            a, b = self.operand(st, fr, r['a']), self.operand(st, fr, r['b'])
            t = self.p.types[r['ty']]
            return self.m.checked(r['op'], a, b, t, st)
        if k == 'un':
            return self.m.unop(r['op'], self.operand(st, fr, r['a']), self.p.types[r['ty']], st)
        if k == 'cast':
            return self.m.cast(r['ck'], self.operand(st, fr, r['o']), self.p.types[r['t']], st)
        if k == 'len':
            return self.length(self.load(st, self.place(st, fr, r['p'])))
        unsup('rvalue %s' % k)

    def discr(self, v, t):
        if type(v) is VE:
            et = self.p.types[v.ty] if v.ty is not None else None
            c = {}
            for i, (g, _) in v.c.items():
                d = int(et['variants'][i]['discr']) if et and et.get('variants') else i
                addcase(c, lconst(d), g)
            return VI(t.get('bits', 64), t['k'] == 'int', c)
        if type(v) is VU:
            return v
        unsup('discriminant of %s' % type(v).__name__)

    # ------------------------------------------------------------ statements, blocks
    def block(self, body, fr, b, st):
        """execute one block: [(successor or 'ret', state)]"""
        bl = body['blocks'][b]
        for s in bl['s']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2])
                p = s[1]
                if not p[1]:
                    st.mem[('L', fr, p[0])] = v
                else:
                    self.store(st, self.place(st, fr, p), v)
            elif s[0] == 'setd':
                unsup('set discriminant')
            elif s[0] == 'assume':
                pass
            else:
                unsup('statement %s' % s[0])
        t = bl['t']
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'drop':
            return [(t['t'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'switch':
            return self.switch(st, self.operand(st, fr, t['o']), t)
        if k == 'assert':
            msg = t['msg']
            if msg.startswith(('MisalignedPointer', 'NullPointer')):
                return [(t['t'], st)]
            c = self.operand(st, fr, t['c'])
            if type(c) is not VB:
                unsup('assertion on %s' % type(c).__name__)
            g = c.f if t['e'] else NOT(c.f)
            bad = AND(st.pc, NOT(g))
            self.stats['checked'] = self.stats.get('checked', 0) + 1
            if bad:
                self.oblige('panic', St(bad, st.mem), t['span'], msg.split('(')[0].split(' ')[0])
            s2 = St(AND(st.pc, g), st.mem)
            return [(t['t'], s2)] if self.feasible(s2.pc) else []
        if k == 'call':
            return self.call(body, fr, t, st)
        if k == 'unreachable':
            self.oblige('unreachable', st, t['span'], 'unreachable code reached')
            return []
        if k in ('resume', 'abort'):
            return []
        unsup('terminator %s' % k)

    def switch(self, st, v, t):
        out = []
        if type(v) is VU:
            unsup('branch on unknown value: ' + v.why)
        if type(v) is VB:
            rest = st.pc
            for val, b in t['br']:
                g = v.f if int(val) else NOT(v.f)
                out.append((b, AND(st.pc, g)))
                rest = AND(rest, NOT(g))
            out.append((t['ow'], rest))
        elif type(v) is VI:
            rest = st.pc
            mask = (1 << v.bits) - 1
            for val, b in t['br']:
                g = 0
                val = int(val)
                for (c, syms), gg in v.c.items():
                    if syms:
                        gg = AND(gg, self.m.lin_eq_const((c, syms), val, v.bits))
                    elif (c & mask) != (val & mask):
                        continue
                    g = OR(g, gg)
                out.append((b, AND(st.pc, g)))
                rest = AND(rest, NOT(g))
            out.append((t['ow'], rest))
        else:
            unsup('branch on %s' % type(v).__name__)
        acc = {}
        for b, g in out:
            acc[b] = OR(acc.get(b, 0), g)
        live = [(b, g) for b, g in acc.items() if self.feasible(g)]
        if len(live) == 1:
            b, g = live[0]
            return [(b, St(g, st.mem))]
        return [(b, St(g, dict(st.mem))) for b, g in live]

    # ------------------------------------------------------------ calls
    def call(self, body, fr, t, st):
        args = [self.operand(st, fr, a) for a in t['args']]
        span = t['span']
        if t['inst'] is None:
            f = self.operand(st, fr, t['f'])
            if type(f) is VPy and f.k[0] == 'fn':
                inst = self.p.insts[f.k[1]]
            else:
                unsup('indirect call')
        else:
            inst = self.p.insts[t['inst']]
        ret_ty = None
        if not t['d'][1]:
            ret_ty = body['locals'][t['d'][0]]
        r = self.call_inst(inst, args, st, span, ret_ty, t['fty'])
        if r is None:
            return []
        v, st = r
        if t['t'] is None:
            return []
        p = t['d']
        if not p[1]:
            st.mem[('L', fr, p[0])] = v
        else:
            self.store(st, self.place(st, fr, p), v)
        return [(t['t'], st)]

    def call_inst(self, inst, args, st, span, ret_ty=None, fty=None):
        """(value, state) or None when no path returns"""
        self.stats['calls'] += 1
        r = self.m.native(inst, args, st, span, ret_ty, fty)
        if r is not NotImplemented:
            return r
        if self.stubs:
            f = self.stubs.get(inst['name'].split('::')[-1])
            if f is not None:
                return f(self, inst, args, st)
        body = inst.get('body')
        if not body:
            unsup('call of %s' % inst['name'])
        if self.fdepth > 60:
            unsup('recursion')
        n = body['argc']
        if len(args) != n or (body.get('spread') and len(args) == n):
            # the arguments of closure calls travel as a tuple
            if len(args) == 2 and type(args[1]) is VS and len(args[1].f) == n - 1:
                args = [args[0]] + list(args[1].f)
            elif body.get('spread') and len(args) > n:
                k = body['spread'] - 1
                args = args[:k] + [VS(None, args[k:])]
            elif len(args) == 1 and n == 0:
                args = []
            elif len(args) == 2 and type(args[1]) is VS and n == 1 and not args[1].f:
                args = args[:1]
            elif len(args) != n:
                unsup('argument count of %s' % inst['name'])
        elif len(args) == 2 and type(args[1]) is VS and self.is_tuple_call(inst, fty) and len(args[1].f) == n - 1:
            args = [args[0]] + list(args[1].f)
        return self.run(inst, args, st)

    def is_tuple_call(self, inst, fty):
        if fty is None:
            return False
        p = self.p.types[fty].get('path', '')
        return p.split('::')[-1] in ('call', 'call_mut', 'call_once') and '{closure' in inst['path']

    def run(self, inst, args, st):
        body = inst['body']
        cfg = self.p.cfg.get(inst['id'])
        if cfg is None:
            cfg = self.p.cfg[inst['id']] = Cfg(body)
        self.nfid += 1
        fr = self.nfid
        st = St(st.pc, dict(st.mem))
        for i, a in enumerate(args):
            st.mem[('L', fr, i + 1)] = a
        self.fdepth += 1
        self.fnstack.append(inst)
        self.stats['functions'].add(inst['name'])
        try:
            exits = self.region(inst, body, cfg, fr, 0, None, st)
        finally:
            self.fdepth -= 1
            self.fnstack.pop()
        s = exits.get('ret')
        if s is None:
            return None
        v = s.mem.get(('L', fr, 0))
        if v is None:
            v = UNIT
        for k in [k for k in s.mem if k[0] == 'L' and k[1] == fr]:
            del s.mem[k]
        return v, s

    def region(self, inst, body, cfg, fr, entry, loop, st):
        """run the blocks of a loop body (or the whole function when loop is None) once from entry.
        Result: {successor outside, 'back' (to the loop header) or 'ret': joined state}"""
        blocks = cfg.loops[loop] if loop is not None else None
        pend = {entry: [st]}
        exits = {}
        done = set()
        for b in cfg.rpo[cfg.num[entry]:]:
            if b not in pend:
                continue
            s = join(pend.pop(b))
            if s is None:
                continue
            self.stats['blocks'].add((inst['id'], b))
            if b in cfg.loops and b != loop:
                outs = self.loop(inst, body, cfg, fr, b, s)
            else:
                try:
                    outs = self.block(body, fr, b, s)
                except Unsupported as e:
                    if not hasattr(e, 'where'):
                        e.where = (inst['name'], body['blocks'][b]['t'].get('span'))
                    raise
            for t, s2 in outs:
                if s2.pc == 0:
                    continue
                if t == 'ret':
                    exits.setdefault('ret', []).append(s2)
                elif loop is not None and t == loop:
                    exits.setdefault('back', []).append(s2)
                elif blocks is not None and t not in blocks:
                    exits.setdefault(t, []).append(s2)
                else:
                    pend.setdefault(t, []).append(s2)
        return {k: join(v) for k, v in exits.items()}

    # ------------------------------------------------------------ loops
    def loop(self, inst, body, cfg, fr, h, st):
        """abstract execution of a natural loop: [(exit target, state)]"""
        # which iterator does the loop advance?
        try:
            self.probe_header(body, cfg, fr, h, st)
            probe = None
        except Probe as p:
            probe = p
        if probe is not None:
            it = self.load(st, [(1,) + probe.place])
            if type(it) is VIt:
                return self.iter_loop(inst, body, cfg, fr, h, st, probe.place)
            if type(it) is VSet:
                st = St(st.pc, dict(st.mem))
                self.store(st, [(1,) + probe.place], VIt([('set', it.f, 'sq')]))
                outs = self.iter_loop(inst, body, cfg, fr, h, st, probe.place)
                for _, s in outs:
                    if probe.place[0] in s.mem:
                        v = self.load(s, [(1,) + probe.place])
                        if type(v) is VIt and not v.segs and v.primed is None:
                            self.store(s, [(1,) + probe.place], VSet(0))
                return outs
        r = self.m.cursor_loop(inst, body, cfg, fr, h, st)
        if r is not None:
            self.stats['loops_cursor'] += 1
            return r
        self.stats['loops_unrolled'] += 1
        outs = {}
        cur = st
        for n in range(self.UNROLL):
            ex = self.region(inst, body, cfg, fr, h, h, cur)
            for k, s in ex.items():
                if k != 'back':
                    outs.setdefault(k, []).append(s)
            cur = ex.get('back')
            if cur is None or not self.feasible(cur.pc):
                break
        else:
            unsup('loop bound not found')
        return [(k, join(v)) for k, v in outs.items()]

    def probe_header(self, body, cfg, fr, h, st):
        """raise Probe if the loop starts by advancing an iterator value"""
        s = St(st.pc, dict(st.mem))
        b = h
        for _ in range(6):
            t = body['blocks'][b]['t']
            if t['k'] == 'call':
                inst = self.p.insts.get(t['inst'])
                if inst is not None and inst['path'].endswith('::next'):
                    # run the statements to find out which place is advanced
                    for x in body['blocks'][b]['s']:
                        if x[0] == '=':
                            v = self.rvalue(s, fr, x[2])
                            if x[1][1]:
                                return
                            s.mem[('L', fr, x[1][0])] = v
                    a = self.operand(s, fr, t['args'][0])
                    for _ in range(3):
                        if type(a) is not VR or len(a.c) != 1:
                            return
                        (root, path), = a.c
                        v = readp(self.root_value(s, root), path)
                        if type(v) in (VIt, VSet):
                            raise Probe((root, path), v)
                        a = v
                    return
            if t['k'] != 'goto' or t['t'] not in cfg.loops[h]:
                return
            for x in body['blocks'][b]['s']:
                if x[0] != '=' or x[1][1]:
                    return
                s.mem[('L', fr, x[1][0])] = self.rvalue(s, fr, x[2])
            b = t['t']

    def iter_loop(self, inst, body, cfg, fr, h, st, place):
        def bodyfn(s, elem):
            self.store(s, [(1,) + place], VIt((), (), ('some', elem)))
            ex = self.region(inst, body, cfg, fr, h, h, s)
            back = ex.pop('back', None)
            if back is not None:
                v = self.load(back, [(1,) + place])
                if type(v) is not VIt or v.primed != ('body',):
                    unsup('the iterator is used inside the loop body')
            return back, ex

        it = self.load(st, [(1,) + place])
        if it.primed is not None:
            unsup('iterator advanced twice in one iteration')
        end, exits = self.iterate(it, st, bodyfn)
        outs = {k: list(v) for k, v in exits.items()}
        if end is not None:
            self.store(end, [(1,) + place], VIt((), ()))
            ex = self.region(inst, body, cfg, fr, h, h, end)
            if ex.get('back') is not None:
                unsup('loop continues after its iterator is exhausted')
            for k, s in ex.items():
                outs.setdefault(k, []).append(s)
        return [(k, join(v)) for k, v in outs.items()]

    def with_ops(self, it, st, elem, bodyfn, pos):
        """apply the lazy adaptors to one element, then the loop body.  Returns (back state, exits)"""
        skip = []
        s = st
        v = elem
        for o in it.ops:
            if o[0] == 'map':
                r = self.m.call_closure(o[1], [v], s)
                if r is None:
                    return join(skip), {}
                v, s = r
            elif o[0] in ('filter', 'filter_map'):
                if o[0] == 'filter':
                    r = self.m.call_closure(o[1], [self.temp(s, v)], s)
                    if r is None:
                        return join(skip), {}
                    c, s = r
                    if type(c) is not VB:
                        unsup('filter on %s' % type(c).__name__)
                    c = c.f
                else:
                    r = self.m.call_closure(o[1], [v], s)
                    if r is None:
                        return join(skip), {}
                    w, s = r
                    c, v = self.m.option_parts(w)
                s0 = St(AND(s.pc, NOT(c)), dict(s.mem))
                if self.feasible(s0.pc):
                    skip.append(s0)
                s = St(AND(s.pc, c), dict(s.mem))
                if not self.feasible(s.pc):
                    return join(skip), {}
            elif o[0] == 'enum':
                if pos is None:
                    unsup('position of an element of a symbolic set')
                v = VS(None, [pos, v])
            elif o[0] == 'deref':
                v = self.load(s, self.deref(s, v))
            else:
                unsup('iterator adaptor %s' % o[0])
        back, ex = bodyfn(s, v)
        if back is not None:
            skip.append(back)
        return join(skip), ex

    def temp(self, st, v):
        self.nheap += 1
        root = ('T', self.nheap)
        st.mem[root] = v
        return VR({(root, ()): 1})

    def iterate(self, it, st, bodyfn):
        """run bodyfn for every element of the iterator.  Returns (state after the last element or
        None, {exit key: [states]})"""
        exits = {}
        cur = st
        n = 0
        posok = True
        for seg in it.segs:
            if cur is None:
                break
            if seg[0] == 'elem':
                g = seg[1]
                s1 = St(AND(cur.pc, g), dict(cur.mem))
                s0 = St(AND(cur.pc, NOT(g)), cur.mem)
                pos = vint(64, n) if posok else None
                if g != 1:
                    posok = False
                n += 1
                outs = []
                if self.feasible(s1.pc):
                    back, ex = self.with_ops(it, s1, seg[2], bodyfn, pos)
                    if back is not None:
                        outs.append(back)
                    for k, s in ex.items():
                        exits.setdefault(k, []).append(s)
                if self.feasible(s0.pc):
                    outs.append(s0)
                cur = join(outs)
            else:
                _, S, mk = seg
                whole = (AND(S, D.valid(('X', 0, 0))) == D.valid(('X', 0, 0))) and n == 0 and posok
                cur, ex = self.generic(it, cur, S, mk, bodyfn, whole)
                posok = False
                for k, v in ex.items():
                    exits.setdefault(k, []).extend(v)
        return cur, exits

    # ---- one arbitrary iteration over a symbolic set
    def generic(self, it, st, S, mk, bodyfn, whole):
        X = ('X', 0, 0)
        S = AND(S, D.valid(X))
        if AND(S, 1) == 0:
            return st, {}
        # a set with at most one member needs no summary
        t = D.one_point(S, 'X')
        self.stats['loops_generic'] += 1
        if t is not None:
            g = D.subst(S, 'X', t)
            s1 = St(AND(st.pc, g), dict(st.mem))
            s0 = St(AND(st.pc, NOT(g)), dict(st.mem))
            outs, exits = [], {}
            if self.feasible(s1.pc):
                back, ex = self.with_ops(it, s1, self.mkelem(mk, t), bodyfn, None)
                if back is not None:
                    outs.append(back)
                exits = {k: [s] for k, s in ex.items()}
            if self.feasible(s0.pc):
                outs.append(s0)
            return join(outs), exits
        r = self.focus(it, st, S, mk, bodyfn)
        if r is not None:
            return r
        self.gdepth += 1
        tok = D.token('G%d' % self.gdepth)
        I = (tok, 0, 0)
        SI = D.subst(S, 'X', I)
        self.know(I, D.pcin(I, [0] + D.CODES))
        self.ctx.append(st.pc)
        OWNED.append(set())
        try:
            return self.generic_(it, st, S, SI, tok, I, mk, bodyfn, whole)
        finally:
            OWNED.pop()
            self.ctx.pop()
            self.gdepth -= 1

    def focus(self, it, st, S, mk, bodyfn):
        """A loop that does nothing but push moves.  One iteration is run for an opaque element; if every
        push it may make of the query move forces the element to be one of the move's own squares, and
        nothing else changes, only the iterations at those squares matter."""
        q = VALUES.QUERY[0]
        if q is None or not any(type(v) is VAv for v in st.mem.values()):
            return None
        cands = []

        def note(t):
            if t not in cands and not D.opaque(t):
                cands.append(t)
            return t
        vmap(q, lambda f: f, lambda l: l, note)
        if not cands:
            return None
        self.nopq += 1
        I = (D.token('P%d' % self.nopq, ('opaque',)), 0, 0)
        SI = D.subst(S, 'X', I)
        keep = (list(self.obl), list(self.dups))
        self.know(I, D.pcin(I, [0] + D.CODES))
        self.ctx.append(st.pc)
        poison = {}
        try:
            for rnd in range(4):
                s = St(SI, dict(st.mem))
                s.mem.update(poison)
                back, ex = self.with_ops(it, s, self.mkelem(mk, I), bodyfn, None)
                if ex or back is None:
                    return None
                new = []
                more = False
                for k, a in st.mem.items():
                    b = back.mem.get(k)
                    if b is None or a is b or k in poison:
                        continue
                    if type(a) is VAv and type(b) is VAv and b.g[:len(a.g)] == a.g:
                        new += b.g[len(a.g):]
                    elif self.itroot(a, b):
                        continue
                    elif a != b:
                        poison[k] = VU('loop-carried value')
                        more = True
                if not more:
                    break
            else:
                return None
        except Unsupported:
            return None
        finally:
            self.ctx.pop()
            self.obl[:], self.dups[:] = keep
        need = []
        for g in new:
            for c in cands:
                if AND(g, NOT(D.eq(c, I))) == 0:
                    if c not in need:
                        need.append(c)
                    break
            else:
                return None
        self.stats['loops_focused'] += 1
        cur = St(st.pc, dict(st.mem))
        cur.mem.update(poison)
        exits = {}
        for t in need:
            if cur is None:
                break
            g = AND(D.subst(S, 'X', t), D.valid(t))
            s1 = St(AND(cur.pc, g), dict(cur.mem))
            s0 = St(AND(cur.pc, NOT(g)), dict(cur.mem))
            outs = []
            if self.feasible(s1.pc):
                back, ex = self.with_ops(it, s1, self.mkelem(mk, t), bodyfn, None)
                if back is not None:
                    outs.append(back)
                for k, x in ex.items():
                    exits.setdefault(k, []).append(x)
            if self.feasible(s0.pc):
                outs.append(s0)
            cur = join(outs)
        return cur, exits

    def itroot(self, a, b):
        """the place of the loop's own iterator"""
        return type(a) is VIt or type(b) is VIt

    def mkelem(self, mk, t):
        if mk == 'sq':
            return VSq({t: 1})
        if mk[0] == 'ref':
            return VR({(mk[1], mk[2] + (('x', self.m.idx(t)),)): 1})
        unsup('element kind')

    def generic_(self, it, st, S, SI, tok, I, mk, bodyfn, whole):
        elem = self.mkelem(mk, I)
        pos = self.m.idx(I) if whole else None
        holes = {}           # root -> holed value tree
        mem_in = dict(st.mem)
        for rnd in range(8):
            nobl = len(self.obl)
            s = St(SI, dict(mem_in))
            back, ex = self.with_ops(it, s, elem, bodyfn, pos)
            # which memory did the iteration change?
            changed = False
            for fin in ([back] if back is not None else []):
                for k in list(mem_in):
                    a, b = mem_in[k], fin.mem.get(k)
                    if b is None or a is b:
                        continue
                    h = self.havoc(a, b, holes)
                    if h is not a:
                        mem_in[k] = h
                        changed = True
            for k2, x in ex.items():
                for k in list(mem_in):
                    a, b = mem_in[k], x.mem.get(k)
                    # values changed only on the way out are handled below
            if not changed:
                break
            del self.obl[nobl:]
        else:
            unsup('loop summary does not stabilise')
        # induction variables: linear in the position when the loop visits every square
        ivs = {}
        if back is not None:
            for k in mem_in:
                if k in back.mem:
                    self.induct(st.mem.get(k), mem_in[k], back.mem[k], ivs, I, whole)
        if ivs:
            def sub(v):
                return vmap(v, lambda f: f, lambda l: self.lin_iv(l, ivs), lambda t: t)
        else:
            def sub(v):
                return v
        # early exits
        exits = {}
        anyexit = 0
        E = 0
        for k, x in ex.items():
            if has_hole(x.pc):
                unsup('loop exit depends on earlier iterations')
            E = OR(E, x.pc)
        if E:
            anyexit = D.EX(E, tok)
            ft = None
            for k, x in ex.items():
                # the iteration that leaves the loop is the first one for which some exit condition holds
                if len(ex) == 1:
                    g = anyexit
                else:
                    ft = ft or D.first_token(D.subst(E, tok, ('X', 0, 0)))
                    g = AND(anyexit, D.subst(x.pc, tok, ft))
                mem = {}
                for r, v in x.mem.items():
                    o = st.mem.get(r)
                    if o is v or (r in mem_in and mem_in[r] is v and not on_hole(v)):
                        mem[r] = v
                        continue
                    mem[r] = self.exit_value(o, v, tok, E, sub)
                s2 = St(AND(st.pc, g), mem)
                self_ok = self.feasible_outer(s2.pc)
                if self_ok:
                    exits.setdefault(k, []).append(s2)
        # falling through: every iteration completed
        npc = AND(st.pc, NOT(anyexit))
        if not self.feasible_outer(npc):
            return None, exits
        mem = dict(st.mem)
        if back is not None:
            some = None
            for k in mem_in:
                v0, vi, vo = st.mem[k], mem_in[k], back.mem.get(k)
                if vo is None:
                    continue
                if vi is vo and vi is v0:
                    continue
                mem[k] = self.summary(v0, vi, sub(vo), back.pc, SI, tok, I, ivs, whole, st)
        for k, v in list(mem.items()):
            if k[0] == 'T' and k not in st.mem:
                del mem[k]
        return St(npc, mem), exits

    def feasible_outer(self, pc):
        c = self.ctx.pop()
        try:
            return self.feasible(pc)
        finally:
            self.ctx.append(c)

    def exit_value(self, o, v, tok, E, sub):
        v = sub(v)
        if type(v) is VU:
            return v
        try:
            if on_hole(v):
                return VU('loop-carried value at an early exit')
            if on_token(v, tok):
                ft = D.first_token(D.subst(E, tok, ('X', 0, 0)))
                return vsubst(v, tok, ft)
            return v
        except Unsupported as e:
            return VU(str(e))

    def newhole(self):
        self.nhole += 1
        OWNED[-1].add(self.nhole)
        return self.nhole

    def havoc(self, a, b, holes):
        """a with every leaf that differs in b replaced by an unknown loop-carried value"""
        if a is b or a == b:
            return a
        ta, tb = type(a), type(b)
        if ta is VU:
            return a
        if ta is not tb:
            if ta is VI and tb is VX or ta is VX and tb is VI:
                return VX({}, {((0, ((('hole', self.newhole()), 1),)), -1): 1})
            if ta is VL and tb is VA:
                return self.havoc(expand_lam(a), b, holes)
            return VU('loop-carried value' + (': ' + b.why if tb is VU else ''))
        if ta is VB:
            if self.pure_hole(a.f):
                return a
            return VB(D.hole(self.newhole(), ()))
        if ta is VSet:
            if self.pure_hole(a.f):
                return a
            return VSet(D.hole(self.newhole(), (('X', 0, 0),)))
        if ta is VI:
            if len(a.c) == 1 and self.hole_lin(next(iter(a.c))):
                return a
            return VI(a.bits, a.sg, {(0, ((('hole', self.newhole()), 1),)): 1})
        if ta is VRng:
            if self.hole_lin(a.n):
                return a
            return VRng((0, ((('hole', self.newhole()), 1),)))
        if ta is VX:
            if len(a.terms) == 1 and not a.bits and self.hole_lin(next(iter(a.terms))[0]):
                return a
            return VX({}, {((0, ((('hole', self.newhole()), 1),)), -1): 1})
        if ta is VAv:
            if a.g and a.g[0] == 'hole':
                return a
            return VAv(('hole',))
        if ta is VS and len(a.f) == len(b.f):
            es = [self.havoc(x, y, holes) for x, y in zip(a.f, b.f)]
            return a if all(x is y for x, y in zip(es, a.f)) else VS(a.ty, es)
        if ta is VA and len(a.e) == len(b.e):
            es = [self.havoc(x, y, holes) for x, y in zip(a.e, b.e)]
            return a if all(x is y for x, y in zip(es, a.e)) else VA(es)
        if ta is VL:
            if a.tok != b.tok:
                b = lam_rename(b, a.tok)
            e = self.havoc_lam(a.e, b.e, (a.tok,))
            return a if e is a.e else VL(a.tok, e)
        if ta is VH:
            return VU('loop-carried hand')
        return VU('loop-carried value')

    def pure_hole(self, f):
        return f > 1 and B.lo(f) == 0 and B.hi(f) == 1 and D._desc[B.level(f)][0] == 'hole' and \
            D._desc[B.level(f)][1] in OWNED[-1]

    def hole_lin(self, l):
        return l[0] == 0 and len(l[1]) == 1 and own_sym(l[1][0][0])

    def havoc_lam(self, a, b, toks):
        """like havoc, below bound square tokens"""
        if a is b or a == b:
            return a
        ta, tb = type(a), type(b)
        if ta is VU:
            return a
        ps = tuple((t, 0, 0) for t in toks)
        if ta is VL and tb is VL:
            if a.tok != b.tok:
                b = lam_rename(b, a.tok)
            e = self.havoc_lam(a.e, b.e, toks + (a.tok,))
            return a if e is a.e else VL(a.tok, e)
        if ta is VA and tb is VA and len(a.e) == len(b.e):
            es = [self.havoc_lam(x, y, toks) for x, y in zip(a.e, b.e)]
            return a if all(x is y for x, y in zip(es, a.e)) else VA(es)
        if ta is VS and tb is VS and len(a.f) == len(b.f):
            es = [self.havoc_lam(x, y, toks) for x, y in zip(a.f, b.f)]
            return a if all(x is y for x, y in zip(es, a.f)) else VS(a.ty, es)
        if ta is VB and tb is VB:
            return a if self.pure_hole(a.f) else VB(D.hole(self.newhole(), ps))
        if ta is VSet and tb is VSet:
            return a if self.pure_hole(a.f) else VSet(D.hole(self.newhole(), ps + (('X', 0, 0),)))
        # anything else: an opaque old value that may only be kept or overwritten
        if ta is VO:
            return a
        return VO(self.newhole())

    # ---- induction variables
    def lin_iv(self, l, ivs):
        r = (l[0], ())
        for s, c in l[1]:
            if s in ivs:
                r = ladd(r, ivs[s], c)
            else:
                r = ladd(r, (0, ((s, c),)))
        return r

    def induct(self, v0, vi, vo, ivs, I, whole):
        if vi is vo or vi == vo:
            return
        t = type(vi)
        if t is VS and type(vo) is VS and type(v0) is VS:
            for a, b, c in zip(v0.f, vi.f, vo.f):
                self.induct(a, b, c, ivs, I, whole)
        elif t is VA and type(vo) is VA and type(v0) is VA:
            for a, b, c in zip(v0.e, vi.e, vo.e):
                self.induct(a, b, c, ivs, I, whole)
        elif t is VI and type(vo) is VI and type(v0) is VI and len(vi.c) == 1 and len(vo.c) == 1 and len(v0.c) == 1:
            (a, _), = vi.c.items()
            (o, _), = vo.c.items()
            (z, _), = v0.c.items()
            d = ladd(o, a, -1)
            if self.hole_lin(a) and not d[1] and whole:
                ivs[a[1][0][0]] = ladd(z, (0, ((('idx', I), d[0]),)))
        elif t is VRng and type(vo) is VRng and type(v0) is VRng and self.hole_lin(vi.n):
            d = ladd(vo.n, vi.n, -1)
            if not d[1] and whole:
                ivs[vi.n[1][0][0]] = ladd(v0.n, (0, ((('idx', I), d[0]),)))

    # ---- what the whole loop does to one memory leaf
    def summary(self, v0, vi, vo, pcB, SI, tok, I, ivs, whole, st):
        try:
            return self.summary_(v0, vi, vo, pcB, SI, tok, I, ivs, whole, st)
        except Unsupported as e:
            return VU('loop: ' + str(e))

    def summary_(self, v0, vi, vo, pcB, SI, tok, I, ivs, whole, st):
        if vo is v0 or vo == v0 or vi is vo:
            return v0
        t = type(vo)
        if t is VU:
            return vo
        if type(vi) is VU or type(v0) is VU:
            return self.last_value(v0, vo, SI, tok)
        if t is VS and type(vi) is VS and type(v0) is VS:
            return VS(vo.ty, [self.summary(a, b, c, pcB, SI, tok, I, ivs, whole, st) for a, b, c in zip(v0.f, vi.f, vo.f)])
        if t is VA and type(vi) is VA:
            if type(v0) is VL:
                v0 = expand_lam(v0)
            return VA([self.summary(a, b, c, pcB, SI, tok, I, ivs, whole, st) for a, b, c in zip(v0.e, vi.e, vo.e)])
        if t is VB:
            if not self.pure_hole(vi.f):
                return self.last_value(v0, vo, SI, tok)
            return VB(self.sum_bool(v0.f, vi.f, vo.f, SI, tok, None))
        if t is VSet:
            if not self.pure_hole(vi.f):
                return self.last_value(v0, vo, SI, tok)
            return VSet(self.sum_bool(v0.f, vi.f, vo.f, SI, tok, 'X'))
        if t is VL:
            return VL(vo.tok, self.sum_lam(v0 if v0.tok == vo.tok else lam_rename(v0, vo.tok), vi, vo, SI, tok, ()))
        if t is VI:
            return self.sum_int(v0, vi, vo, SI, tok, ivs, whole)
        if t is VRng:
            d = ladd(vo.n, self.lin_iv(vi.n, ivs), -1)
            if d[1] or not whole:
                unsup('generator advanced a data-dependent number of times')
            return VRng(ladd(v0.n, (81 * d[0], ())))
        if t is VX:
            return self.sum_xor(tovx(v0), vi, vo, SI, tok)
        if t is VAv:
            if vi.g[:1] != ('hole',) or vo.g[:len(vi.g)] != vi.g:
                unsup('move list replaced in a loop')
            new = list(v0.g)
            sites = list(v0.s) + list(vo.s[len(vi.g):])
            for g in vo.g[len(vi.g):]:
                if has_hole(g):
                    unsup('push depends on earlier iterations')
                self.check_once(g, tok, st)
                new.append(AND(st.pc, D.EX(AND(g, SI), tok)))
            return VAv(new, sites)
        return self.last_value(v0, vo, SI, tok)

    def check_once(self, g, tok, st):
        """two different iterations must not push the same move"""
        if D.one_point(g, tok) is not None:
            return
        a, b = D.fresh('d'), D.fresh('d')
        ga, gb = D.subst(g, tok, (a, 0, 0)), D.subst(g, tok, (b, 0, 0))
        both = AND(ga, gb, D.idxlt((a, 0, 0), (b, 0, 0)))
        if both:
            self.dups.append(self.full(AND(st.pc, D.EX(D.EX(both, a), b))))

    def last_value(self, v0, vo, SI, tok):
        if on_hole(vo):
            return VU('loop-carried value')
        if not on_token(vo, tok):
            some = D.EX(SI, tok)
            if some == 1:
                return vo
            return merge(some, vo, v0)
        return VU('value of the last iteration')

    def sum_bool(self, f0, h, fo, SI, tok, x):
        """f0: before; h: the hole; fo: after one iteration (mentions h, tok, and x for set members)"""
        l = B.level(h)
        A, Z = B.cofactor(fo, l, 1), B.cofactor(fo, l, 0)
        if has_hole(A) or has_hole(Z):
            unsup('update mixes loop-carried values')
        A = B.restrict(A, SI) if SI else A
        Z = B.restrict(Z, SI) if SI else Z
        S1 = SI
        if AND(S1, NOT(A)) == 0 and AND(S1, Z) == 0:
            return f0
        if AND(S1, NOT(A)) == 0:
            return OR(f0, D.EX(AND(S1, Z), tok))
        if AND(S1, Z) == 0:
            return AND(f0, NOT(D.EX(AND(S1, NOT(A)), tok)))
        if x is not None:
            # only the member equal to the loop's square changes
            T, Xt = (tok, 0, 0), (x, 0, 0)
            other = AND(S1, NOT(D.eq(T, Xt)))
            if AND(other, NOT(A)) == 0 and AND(other, Z) == 0:
                S_, A_, Z_ = (D.subst(q, tok, Xt) for q in (S1, A, Z))
                return ITE(S_, ITE(f0, A_, Z_), f0)
        if XOR(A, Z) == 0 or AND(S1, XOR(A, Z)) == 0:
            if tok not in D.tokens(A):
                return ITE(D.EX(S1, tok), A, f0)
        if tok not in D.tokens(A) and tok not in D.tokens(Z):
            pass
        unsup('no summary for a loop-carried predicate')

    def sum_lam(self, v0, vi, vo, SI, tok, outer):
        toks = outer + (vo.tok,)
        return self.sum_lam_elem(v0.e, vi.e, vo.e, SI, tok, toks)

    def sum_lam_elem(self, v0, vi, vo, SI, tok, toks):
        if vo is v0 or vo == v0 or vi is vo or vi == vo:
            return v0
        t = type(vo)
        if t is VL and type(vi) is VL:
            if type(v0) is not VL:
                unsup('array shape')
            if v0.tok != vo.tok:
                v0 = lam_rename(v0, vo.tok)
            return VL(vo.tok, self.sum_lam_elem(v0.e, vi.e, vo.e, SI, tok, toks + (vo.tok,)))
        if t is VA and type(vi) is VA:
            return VA([self.sum_lam_elem(a, b, c, SI, tok, toks) for a, b, c in zip(v0.e, vi.e, vo.e)])
        if t is VS and type(vi) is VS:
            return VS(vo.ty, [self.sum_lam_elem(a, b, c, SI, tok, toks) for a, b, c in zip(v0.f, vi.f, vo.f)])
        # element-wise: only the element of the loop's own square may change
        T = (tok, 0, 0)
        for bt in toks:
            Lt = (bt, 0, 0)
            w = self.elementwise(v0, vi, vo, SI, tok, T, bt, Lt)
            if w is not None:
                return w
        if t in (VB, VSet) and self.pure_hole(vi.f):
            x = 'X' if t is VSet else None
            return t(self.sum_bool(v0.f, vi.f, vo.f, SI, tok, x))
        unsup('array update is not element-wise')

    def elementwise(self, v0, vi, vo, SI, tok, T, bt, Lt):
        same = D.eq(T, Lt)
        # away from the loop's own square the element must be unchanged
        if not same_under(vo, vi, AND(SI, NOT(same))):
            return None
        here = vsubst(vo, tok, Lt)
        here = self.under(here, D.subst(SI, tok, Lt))
        here = self.fill_old(here, vi, v0)
        Sl = D.subst(SI, tok, Lt)
        return merge(Sl, here, v0)

    def under(self, v, c):
        """v simplified under the assumption c"""
        if c == 0:
            return v

        def ff(f):
            if f < 2:
                return f
            if AND(f, c) == 0:
                return 0
            if AND(NOT(f), c) == 0:
                return 1
            return B.restrict(f, c)
        w = vmap(v, ff, lambda l: l, lambda t: t)
        return self.drop_merge(w)

    def drop_merge(self, v):
        return v

    def fill_old(self, v, vi, v0):
        """replace the loop-carried element by its value before the loop"""
        if v == vi:
            return v0
        t = type(v)
        if t in (VB, VSet) and type(vi) is t:
            l = B.level(vi.f)
            f = v.f
            if l in B.support(f):
                f = B.compose(f, {l: v0.f})
            if has_hole(f):
                unsup('element depends on other elements')
            return t(f)
        if on_hole(v):
            unsup('element depends on loop-carried values')
        return v

    def sum_int(self, v0, vi, vo, SI, tok, ivs, whole):
        (a, _), = vi.c.items() if len(vi.c) == 1 else ((None, None),)
        if a is None:
            return self.last_value(v0, vo, SI, tok)
        h = a[1][0][0] if self.hole_lin(a) else None
        if h is None:
            return self.last_value(v0, vo, SI, tok)
        if h in ivs:
            # vo was already rewritten in terms of the position
            (z, _), = v0.c.items()
            (o, _), = vo.c.items()
            d = ladd(o, ivs[h], -1)
            return VI(vo.bits, vo.sg, {ladd(z, (81 * d[0], ())): 1})
        cnt = 0
        step_ = None
        for k, g in vo.c.items():
            d = ladd(k, a, -1)
            if d[1]:
                return self.last_value(v0, vo, SI, tok)
            if d[0] == 0:
                continue
            if d[0] != 1:
                unsup('counter step %d' % d[0])
            cnt = OR(cnt, g)
        if has_hole(cnt):
            unsup('counter depends on loop-carried values')
        P = D.subst(AND(SI, cnt), tok, ('X', 0, 0))
        t = D.one_point(P, 'X')
        r = {}
        if t is not None:
            g1 = D.subst(P, 'X', t)
            for k, g in v0.c.items():
                addcase(r, ladd(k, (1, ())), AND(g, g1))
                addcase(r, k, AND(g, NOT(g1)))
        else:
            for k, g in v0.c.items():
                addcase(r, ladd(k, (0, ((('cnt', P), 1),))), g)
        return VI(vo.bits, vo.sg, r)

    def sum_xor(self, v0, vi, vo, SI, tok):
        (hk, hg), = vi.terms.items()
        terms = dict(vo.terms)
        if terms.pop(hk, 0) != 1:
            unsup('word not accumulated by exclusive-or')
        if any(own_sym(s) for k in terms for s, _ in k[0][1]):
            unsup('word mixes loop-carried values')
        bits = dict(v0.bits)
        for b, g in vo.bits.items():
            unsup('constant bits toggled a data-dependent number of times')
        out = dict(v0.terms)
        for (lin, mask), pred in terms.items():
            if has_hole(pred):
                unsup('word depends on loop-carried values')
            p = AND(pred, SI)
            if (IDXK in [s for s, _ in lin[1]]):
                # distinct iterations must contribute distinct words
                if D.one_point(p, tok) is None:
                    unsup('word index not tied to the loop square')
                p = D.EX(p, tok)
            else:
                unsup('same word toggled in every iteration')
            k = (lin, mask)
            out[k] = XOR(out.get(k, 0), p)
        return VX(bits, out)


def same_under(a, b, c):
    """a and b are equal wherever c holds"""
    if a is b or a == b:
        return True
    if type(a) is not type(b):
        return False
    t = type(a)
    if t in (VB, VSet):
        return AND(XOR(a.f, b.f), c) == 0
    if t is VO:
        return a.id == b.id and AND(c, NOT(AND(a.g, b.g))) == 0
    if t in (VI, VSq, VPc, VR):
        ks = set(a.c) | set(b.c)
        return all(AND(XOR(a.c.get(k, 0), b.c.get(k, 0)), c) == 0 for k in ks)
    if t is VX:
        return all(AND(XOR(x.get(k, 0), y.get(k, 0)), c) == 0 for x, y in ((a.bits, b.bits), (a.terms, b.terms))
                   for k in set(x) | set(y))
    if t is VS and len(a.f) == len(b.f):
        return all(same_under(x, y, c) for x, y in zip(a.f, b.f))
    if t is VA and len(a.e) == len(b.e):
        return all(same_under(x, y, c) for x, y in zip(a.e, b.e))
    if t is VH:
        return all(same_under(x, y, c) for x, y in zip(a.n, b.n))
    if t is VL:
        b = lam_rename(b, a.tok)
        return same_under(a.e, b.e, c)
    if t is VE:
        for k in set(a.c) | set(b.c):
            (ga, fa), (gb, fb) = a.c.get(k, (0, ())), b.c.get(k, (0, ()))
            if AND(XOR(ga, gb), c) != 0:
                return False
            g = AND(ga, gb, c)
            if g and not all(same_under(x, y, g) for x, y in zip(fa, fb)):
                return False
        return True
    if t is VVec and a.base == b.base and len(a.e) == len(b.e):
        return all(same_under(x, y, c) for x, y in zip(a.e, b.e))
    return False


def lam_depth(v):
    """nesting depth of square-indexed arrays in a value"""
    t = type(v)
    if t is VL:
        return 1 + lam_depth(v.e)
    if t is VA:
        return max([lam_depth(x) for x in v.e[:1]] or [0])
    if t is VS:
        return max([lam_depth(x) for x in v.f] or [0])
    return 0
