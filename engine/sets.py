"""What a square-set implementation has to compute, for every input the engine can pass (C16), decided on
the bit-precise interpretation of its MIR."""
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE
from values import Unsupported
import bits as X
from moves import Job
from bits import Bits, St, num, val, cells, bitsof, ptr

NSQ = 81
NAMES = ['%d%s' % (i // 9 + 1, 'abcdefghi'[i % 9]) for i in range(NSQ)]


def ray(sq, df, dr):
    f, r = sq // 9 + df, sq % 9 + dr
    out = []
    while 0 <= f < 9 and 0 <= r < 9:
        out.append(f * 9 + r)
        f, r = f + df, r + dr
    return out


def blocked(line, S):
    """members of line (in order of distance) up to and including the first member of S"""
    r = {}
    free = 1
    for q in line:
        r[q] = free
        free = AND(free, NOT(S[q]))
    return [r.get(i, 0) for i in range(NSQ)]


def name(ps, S, a):
    """the set of one counterexample"""
    return ' '.join(NAMES[i] for i in range(NSQ) if S[i] == 1 or (S[i] > 1 and B.compose(S[i], {k: v for k, v in a.items()}) == 1)) or 'empty'


class Sets:
    """the implementation selected by one target and set of features"""

    def __init__(s, path, job, label):
        s.b = Bits(path)
        s.job = job
        s.label = label
        s.ub = []

    def call(s, fn, args, pc=1, mem=None):
        i = s.b.fn(fn)
        if i is None:
            raise Unsupported('no function ' + fn)
        s.b.steps = 0
        st, r = s.b.run(i, args, St(pc, dict(mem or {})))
        return st, r

    def encoding(s):
        """the bit a square has in the representation, from the code of single()"""
        s.pos = []
        ok, det = True, None
        for q in range(NSQ):
            st, r = s.call('h_single', [cells(num(q + 1, 8))])
            bs = bitsof(r)
            on = [i for i, x in enumerate(bs) if x]
            if any(x > 1 for x in bs) or len(on) != 1 or on[0] in s.pos:
                ok, det = False, dict(square=NAMES[q], bits=on)
                break
            s.pos.append(on[0])
            s.width = len(bs)
        return ok, det

    def enc(s, S):
        r = [0] * s.width
        for q in range(NSQ):
            r[s.pos[q]] = S[q]
        return cells(r)

    def const(s, m):
        return s.enc([1 if q in m else 0 for q in range(NSQ)])

    def where(s, fn):
        i = s.b.fn(fn)
        for blk in i['body']['blocks']:
            t = blk['t']
            if t['k'] == 'call' and t['inst'] is not None:
                c = s.b.insts[t['inst']]
                if 'Bitboard' in c['name'] and 'from_u8' not in c['name']:
                    return '%s (%s:%s)' % (c['name'], c['span'][0].split('/')[-1], c['span'][1])
        return fn

    def row(s, ob, bad, fn, n=1, vars_=(), extra=None):
        """bad: predicate of inputs where the obligation fails; vars_: (name, set) shown in a counterexample"""
        if bad == 0:
            s.job.add('C16', '%s: %s' % (s.label, ob), 'ok', n, None)
            return
        a = B.sat_one(bad)
        full = dict(a)
        d = {nm: name(None, S, {v: full.get(v, 0) for x in S for v in B.support(x)}) for nm, S in vars_}
        d.update(extra or {})
        d['function'] = s.where(fn)
        s.job.add('C16', '%s: %s' % (s.label, ob), 'violated', n, d)

    def diff(s, r, want):
        """where the representation r is not the set want"""
        bs = bitsof(r)
        w = bitsof(s.enc(want))
        return OR(*[XOR(x, y) for x, y in zip(bs, w)])

    def problems(s, ob, fn, vars_=(), domain=1, extra=None):
        for kind, g, where in s.b.bad:
            g = AND(g, domain)
            if g:
                s.row(ob + ': ' + kind, g, fn, 1, vars_, dict(extra or {}, at=str(where)))
        s.b.bad = []

    def setop(s, fn, ob, args, want, vars_, domain=1, extra=None, quiet=False):
        st, r = s.call(fn, args, domain)
        s.problems(ob, fn, vars_, domain, extra)
        if st is None:
            return 1
        bad = AND(st.pc, s.diff(r, want))
        if not quiet or bad:
            s.row(ob, bad, fn, 1, vars_, extra)
        return bad

    def boolop(s, fn, ob, args, want, vars_, domain=1, extra=None, quiet=False):
        st, r = s.call(fn, args, domain)
        s.problems(ob, fn, vars_, domain, extra)
        if st is None:
            return 1
        bad = AND(st.pc, XOR(r[0][0], want))
        if not quiet or bad:
            s.row(ob, bad, fn, 1, vars_, extra)
        return bad


def guarded(f):
    """an analysis limit in one group leaves that group undecided"""
    def g(S, ob):
        try:
            f(S)
        except Unsupported as e:
            S.b.bad = []
            S.b.depth = 0
            S.job.add('C16', '%s: %s' % (S.label, ob), 'undecided', 1, dict(why=str(e)))
    return g


A = [B.var(2 * i) for i in range(NSQ)]
C = [B.var(2 * i + 1) for i in range(NSQ)]


@guarded
def algebra(S):
    a, c = S.enc(A), S.enc(C)
    va = (('a', A), ('b', C))
    st, r = S.call('h_empty', [])
    S.row('the empty set has no member', S.diff(r, [0] * NSQ), 'h_empty')
    for op, f in (('and', AND), ('or', OR), ('xor', XOR)):
        w = [f(x, y) for x, y in zip(A, C)]
        for suf, t in (('', ''), ('_ref', ' (by reference)'), ('_assign', ' (in place)')):
            S.setop('h_%s%s' % (op, suf), '%s of two sets%s' % (op, t), [a, c], w, va)
    w = [NOT(x) for x in A]
    S.setop('h_not', 'complement', [a], w, va[:1])
    S.setop('h_not_ref', 'complement (by reference)', [a], w, va[:1])
    e = AND(*[NOT(XOR(x, y)) for x, y in zip(A, C)])
    S.boolop('h_eq', 'equality of two sets', [a, c], e, va)
    S.boolop('h_ne', 'inequality of two sets', [a, c], NOT(e), va)
    S.boolop('h_is_empty', 'emptiness', [a], NOT(OR(*A)), va[:1])
    n = 0
    for q in range(NSQ):
        if S.boolop('h_contains', 'membership', [a, cells(num(q + 1, 8))], A[q], va[:1], extra=dict(square=NAMES[q]), quiet=True):
            break
        n += 1
    else:
        S.row('membership', 0, 'h_contains', n)
    st, r = S.call('h_count', [a])
    S.problems('number of members', 'h_count', va[:1])
    if st is not None:
        w = X.popcount(A, 8)
        S.row('number of members', OR(*[XOR(x, y) for x, y in zip(bitsof(r), w)]), 'h_count', 1, va[:1])


@guarded
def iteration(S):
    """each step yields the least member and leaves the iterator of the rest"""
    a = S.enc(A)
    st, it = S.call('h_iter', [a])
    least, free, num_ = [], 1, num(0, 8)
    for q in range(NSQ):
        least.append(AND(free, A[q]))
        free = AND(free, NOT(A[q]))
    for q in range(NSQ):
        num_ = [ITE(least[q], (q + 1) >> k & 1, x) for k, x in enumerate(num_)]
    rest = [AND(x, NOT(l)) for x, l in zip(A, least)]
    p = ptr([(1, ('H', 0), 0)], S.b.psize)
    st, r = S.call('h_next', [p], mem={('H', 0): list(it)})
    S.problems('iteration', 'h_next', (('set', A),))
    if st is None:
        S.row('iteration', 1, 'h_next', 1, (('set', A),))
        return
    bad = OR(*[XOR(x, y) for x, y in zip(bitsof(r), num_)])
    S.row('iteration yields the least member first, and ends on the empty set', bad, 'h_next', 1, (('set', A),))
    if bad:
        return
    st2, it2 = S.call('h_iter', [S.enc(rest)])
    ne = OR(*A)
    try:
        same = OR(*[XOR(x, y) for x, y in zip(bitsof(st.mem[('H', 0)]), bitsof(it2))])
    except Unsupported:
        same = 1
    if AND(same, ne) == 0 and AND(same, st.pc) == 0:
        S.row('iteration continues with the remaining members', 0, 'h_next')
        return
    # another way of keeping the state: follow all 82 steps
    mem = {('H', 0): list(it)}
    left = list(A)
    for step in range(NSQ + 1):
        want, free, nxt = num(0, 8), 1, []
        for q in range(NSQ):
            l = AND(free, left[q])
            free = AND(free, NOT(left[q]))
            want = [ITE(l, (q + 1) >> k & 1, x) for k, x in enumerate(want)]
            nxt.append(AND(left[q], NOT(l)))
        st, r = S.call('h_next', [p], mem=mem)
        S.problems('iteration, step %d' % (step + 1), 'h_next', (('set', A),))
        if st is None:
            return
        bad = OR(*[XOR(x, y) for x, y in zip(bitsof(r), want)])
        if bad:
            S.row('iteration continues with the remaining members', bad, 'h_next', 1, (('set', A),), dict(step=step + 1))
            return
        mem, left = {('H', 0): st.mem[('H', 0)]}, nxt
    S.row('iteration continues with the remaining members', 0, 'h_next', NSQ + 1)


@guarded
def shifts(S):
    a = S.enc(A)
    va = (('set', A),)
    dom = AND(*[NOT(A[q]) for q in range(NSQ) if q % 9 == 8])
    S.setop('h_shl', 'shift to the south (no member on the last rank)', [a], [A[q - 1] if q % 9 else 0 for q in range(NSQ)], va, dom)
    dom = AND(*[NOT(A[q]) for q in range(NSQ) if q % 9 == 0])
    S.setop('h_shr', 'shift to the north (no member on the first rank)', [a], [A[q + 1] if q % 9 < 8 else 0 for q in range(NSQ)], va, dom)


@guarded
def vacant(S):
    dom = 1
    w = []
    for f in range(9):
        c = A[f * 9:f * 9 + 9]
        one, none = 0, 1
        for x in c:
            one = OR(AND(one, NOT(x)), AND(none, x))
            none = AND(none, NOT(x))
        dom = AND(dom, OR(one, none))
        w += [none] * 9
    S.setop('h_vacant_files', 'files without a member (at most one member per file)', [S.enc(A)], w, (('set', A),), dom)


@guarded
def files(S):
    """sliding along the file, from every square"""
    a = S.enc(A)
    for fn, dr, nm in (('h_pos_consecutive', 1, 'south'), ('h_neg_consecutive', -1, 'north')):
        n = 0
        for q in range(NSQ):
            m = ray(q, 0, dr)
            if S.setop(fn, 'sliding to the ' + nm, [a, S.const(m)], blocked(m, A), (('occupied', A),), 1, dict(origin=NAMES[q]), True):
                break
            n += 1
        else:
            S.row('sliding to the ' + nm, 0, fn, n)


@guarded
def pairs(S):
    """sliding in two directions, from every square, the directions in either order"""
    a = S.enc(A)
    D = {'diagonally west': ('h_positives', (1, -1), (1, 1)), 'west and south': ('h_positives', (1, 0), (0, 1)),
         'diagonally east': ('h_negatives', (-1, -1), (-1, 1)), 'east and north': ('h_negatives', (-1, 0), (0, -1))}
    for nm, (fn, d, e) in D.items():
        n = 0
        stop = False
        for q in range(NSQ):
            m1, m2 = ray(q, *d), ray(q, *e)
            want = [OR(x, y) for x, y in zip(blocked(m1, A), blocked(m2, A))]
            for p, r in ((m1, m2), (m2, m1)):
                if S.setop(fn, 'sliding ' + nm, [a, S.const(p), S.const(r)], want, (('occupied', A),), 1, dict(origin=NAMES[q]), True):
                    stop = True
                    break
                n += 1
            if stop:
                break
        else:
            S.row('sliding ' + nm, 0, fn, n)


GROUPS = dict(algebra=algebra, iteration=iteration, shifts=shifts, vacant=vacant, files=files, pairs=pairs)


def check(path, label, group):
    j = Job('%s %s' % (label, group))
    if not path.endswith('.json'):
        j.add('C16', '%s: %s' % (label, group), 'undecided', 1, dict(why='does not compile for this target on its own: ' + path))
        return j
    S = Sets(path, j, label)
    try:
        ok, det = S.encoding()
    except Unsupported as e:
        j.add('C16', '%s: %s' % (label, group), 'undecided', 1, dict(why=str(e)))
        return j
    if not ok:
        j.add('C16', '%s: every square has a place of its own' % label, 'violated', 1, dict(det, function=S.where('h_single')))
        return j
    if group == 'algebra':
        j.add('C16', '%s: every square has a place of its own' % label, 'ok', NSQ, None)
    GROUPS[group](S, group)
    j.stats['functions'] = sorted(S.b.functions)
    return j
