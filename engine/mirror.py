"""C15: the predicates computed for White are those computed for Black on the board rotated by 180 degrees
with all colours exchanged.  The answer of each query is computed once per side by abstract interpretation;
the one for White is carried over to Black's domain with every square, piece colour and hand exchanged, and
the two predicates are compared."""
from moves import *
import play as PL
import mate as MT

class Carry:
    """predicates of one domain, kept as plain data while the domain is replaced"""

    def __init__(s, fs):
        s.node, s.level, s.info = {}, {}, {}
        st = list(fs)
        while st:
            f = st.pop()
            if f < 2 or f in s.node:
                continue
            l = B.level(f)
            s.node[f] = (l, B.lo(f), B.hi(f))
            st += [B.lo(f), B.hi(f)]
            if l in s.level:
                continue
            d = D._desc[l]
            n = D._counts.get(l)
            s.level[l] = (d, n)
            if n:
                st.append(n[0])
            if d[0] in ('ex', 'opq'):
                st.append(d[1])
            for t in ([d[3]] if d[0] == 'opq' else [d[1][0]] if d[0] == 'pc' and d[1][0] != 'C' else [x[0] for x in d[2]] if d[0] == 'hole' else
                      [d[1]] if d[0] == 'co' else []):
                s.token(t, st)

    def token(s, t, st):
        if t in s.info or t == 'C':
            return
        s.info[t] = D.TOKINFO[t]
        if s.info[t][0] == 'first':
            st.append(s.info[t][1])


class Mirror:
    """what a Carry holds, rotated, in the current domain"""

    def __init__(s, carry):
        s.c = carry
        s.m = {0: 0, 1: 1}
        s.v = {}
        s.ft = {}
        s.firsts = {}

    def term(s, t):
        if t[0] == 'C':
            return ('C', 8 - t[1], 8 - t[2])
        i = s.c.info.get(t[0], ('free',))
        if i[0] == 'first':
            r = s.ft.get(t[0])
            if r is None:
                S = s.get(i[1])
                r = s.ft[t[0]] = D.first_token(S)
            return D.shift(r, -t[1], -t[2])
        D.token(t[0])
        return (t[0], -t[1], -t[2])

    def pred(s, l):
        r = s.v.get(l)
        if r is not None:
            return r
        d, n = s.c.level[l]
        k = d[0]
        if n:
            r = D.bgatleast(s.get(n[0]), n[1])
        elif k == 'flag':
            x = d[1]
            if x[0] == 'h' and x[1] in 'BW':
                x = 'h' + ('W' if x[1] == 'B' else 'B') + x[2:]
            r = D.flag(x)
        elif k == 'co':
            D.token(d[1])
            t = (d[1], 0, 0)
            r = OR(*[D.coeq(t, d[2], 8 - v) for v in range(9) if v >> d[3] & 1])
        elif k == 'pc':
            t = s.term(d[1])
            bits = [D.pcbit(t, b) for b in range(4)]
            r = bits[d[2]] if d[2] < 4 else AND(OR(*bits), NOT(D.pcbit(t, 4)))
        elif k == 'hole':
            r = D.hole(d[1], [s.term(t) for t in d[2]])
        elif k == 'ex':
            r = D.EXbg(s.get(d[1]), d[2], int(d[2][1:]) - 1)
        elif k == 'opq':
            D.token(d[2])
            r = D.subst(s.get(d[1]), d[2], s.term((d[3], 0, 0)))
        s.v[l] = r
        return r

    def get(s, f):
        st = [f]
        while st:
            x = st[-1]
            if x in s.m:
                st.pop()
                continue
            l, a, b = s.c.node[x]
            w = [y for y in (a, b) if y not in s.m]
            if w:
                st += w
                continue
            s.m[x] = ITE(s.pred(l), s.m[b], s.m[a])
            st.pop()
        return s.m[f]


def q_check(prog, side, own, opp, mv):
    c = setup(prog, side, own_kings(side, own, opp), None)
    ref, st = fresh(c)
    r, _ = c.call('in_check', [ref], St(st.pc, dict(st.mem)), ty='Position')
    return c, r.f


def q_test(prog, side, own, opp, mv):
    c = setup(prog, side, own_kings(side, own, opp), mv)
    ref, st = fresh(c)
    ok, _ = PL.playable(c)
    c.pc = AND(c.pc, ok)
    r, _ = c.call('is_check_move', [ref, c.m], St(c.pc, dict(st.mem)), ty='Position')
    return c, AND(c.pc, r.f)


def q_list(prog, side, own, opp, mv):
    c = setup(prog, side, own_kings(side, own, opp), mv)
    ref, st = fresh(c)
    r, _ = c.call('legal_moves', [ref], St(c.pc, dict(st.mem)), ty='Position')
    return c, AND(c.pc, OR(*r.g))


def q_mate(prog, side, own, opp, mv):
    T = (opp, 0, 1 if side == 0 else -1)
    c = setup(prog, side, own_kings(side, own, opp), 'drop', to=T, stub=False)
    c.pc = AND(c.pc, c.pcs[mkcode(1, side)])
    return c, AND(c.pc, MT.answer(c, None, T, side))


QUERY = dict(in_check=q_check, is_check_move=q_test, legal_moves=q_list, mate=q_mate)


def unify(x, p):
    """x where p holds, with the uninterpreted atoms that agree wherever p holds identified"""
    x = AND(x, p)
    by = {}
    for l in sorted(B.support(x)):
        d = D._desc[l]
        if d[0] != 'opq':
            continue
        for m in by.setdefault(d[2:], []):
            if AND(p, D.valid((d[2], 0, 0)), XOR(d[1], D._desc[m][1])) == 0:
                x = B.compose(x, {l: B.var(m)})
                break
        else:
            by[d[2:]].append(l)
    return x


def choices(f, p):
    """the places where f depends on which member of a set comes first though there are several"""
    r = []
    for l in sorted(B.support(f)):
        d = D._desc[l]
        t = d[3] if d[0] == 'opq' else d[1][0] if d[0] in ('pc', 'co') else None
        if t is None or t == 'C' or D.TOKINFO[t][0] != 'first':
            continue
        x = AND(p, XOR(B.cofactor(f, l, 1), B.cofactor(f, l, 0)))
        if x:
            x = AND(x, D.atleast(D.TOKINFO[t][1], 2))
        if x:
            r.append((l, x))
    return r


def rot(k):
    return k if type(k) is str else ('C', 8 - k[1], 8 - k[2])


def turned(p, m):
    """position and move rotated by 180 degrees, colours exchanged"""
    q = lambda s: (8 - s[0], 8 - s[1])
    b = {q(s): x ^ 16 for s, x in p.b.items()}
    n = ('d', m[1] ^ 16, q(m[2])) if m and m[0] == 'd' else m and ('n', q(m[1]), q(m[2]), m[3])
    return S.Pos(b, (p.h[1], p.h[0]), 1 - p.side), n


def differs(query):
    """do the answers to the query differ between a position and its mirror image"""
    def go(prog, p, m):
        q, n = turned(p, m)
        if query == 'in_check':
            return K.in_check(prog, p) != K.in_check(prog, q)
        if query == 'is_check_move':
            return K.is_check(prog, p, m) != K.is_check(prog, q, n)
        return len(K.listed(prog, p, m)) != len(K.listed(prog, q, n))
    return go


WHAT = dict(in_check='check status', is_check_move='checking moves', legal_moves='legal moves', mate='the mate question')


def check_mirror(prog, query, own, opp, mv):
    job = Job('%s own=%s other=%s move=%s' % (query, own, opp, mv))
    c, f1 = QUERY[query](prog, 1, rot(own), rot(opp), mv)
    ca = Carry([f1, c.pc])
    p1 = c.pc
    t = time.time()
    c, f0 = QUERY[query](prog, 0, own, opp, mv)
    mi = Mirror(ca)
    pm = mi.get(p1)
    fm = mi.get(f1)
    ob = WHAT[query] + ': answer for White unlike the one for Black on the rotated board'
    care = [c.pc]
    if type(opp) is str and opp in D.TOKINFO:
        v = D.valid((opp, 0, 1))
        care = [AND(c.pc, v), AND(c.pc, NOT(v))]
    x = [D.links(unify(XOR(f0, fm), q)) for q in care] + [D.links(AND(c.pc, NOT(pm)))]
    bad = [y for y in x if y]
    ch = choices(f0, c.pc)
    if DEBUG:
        print('mirrored', B.size(f0), B.size(fm), [B.size(x) for x in bad], 'choices', [(D._desc[l], B.size(x)) for l, x in ch], '%.1fs' % (time.time() - t))
    if not bad and not ch:
        job.add('C15', ob, 'ok', 1)
    elif type(own) is tuple or type(opp) is tuple:
        confirm = (lambda p, m: p.legal(m)) if query == 'is_check_move' else None
        w = ['Position::new -> ' + ('legal_moves' if query == 'mate' else query) + ', Black and White']
        report(c, job, 'C15', ob, OR(*(x[:-1] or [1])), confirm, (w, differs(query)))
    else:
        job.add('C15', ob, 'undecided', 1, dict(why='the predicates differ'))
    return job.done(c)
