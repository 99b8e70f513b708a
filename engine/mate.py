"""C12: the pawn-drop-mate question.  The opponent's king stands on a constant square, the pawn is dropped
in front of it, everything else is unknown; the predicate computed for the question is compared with "the
opponent has no legal reply", reply by reply."""
import random
from moves import *
import moves as M

BIG = 12000000
NEAR = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b]


def after(bd, a, z, who):
    """the board bd after what stands on a (content who(code)) went to z"""
    def at(t, x):
        return ITE(D.eq(t, z), who(x), ITE(D.eq(t, a), 1 if x == 0 else 0, bd.at(t, x)))
    return SP.Bd(at)


def replies(c, K, T, side):
    """the opponent's possible replies to the check, each with the predicate under which it is legal:
    (name, origin, destination, predicate)"""
    opp = 1 - side
    bd = SP.after_drop(T, {mkcode(1, side): 1})
    king = lambda x: 1 if x == mkcode(8, opp) else 0
    for a, b in NEAR:
        s = D.shift(K, a, b)
        if D.valid(s):
            ok = 1 if s == T else NOT(bd.own(s, opp))
            yield ('king takes the pawn' if s == T else 'king escapes', K, s, AND(ok, NOT(after(bd, K, s, king).attacked(s, side))))
    z = D.fresh('r')
    Z = (z, 0, 0)
    clear = bd.clear(Z, T)
    reach = AND(D.valid(Z), NOT(D.eq(Z, T)), NOT(D.eq(Z, K)),
                OR(*[AND(bd.at(Z, mkcode(k, opp)), bd.reach(k, opp, Z, T, clear)) for k in range(1, 15) if k != 8]))
    went = after(bd, Z, T, lambda x: bd.at(Z, x) if x and color(x) == opp else 0)
    take = AND(reach, NOT(went.attacked(K, side)))
    for q in G.ALL:
        if q not in (K, T):
            x = D.subst(take, z, q)
            if x:
                yield 'piece takes the pawn', q, T, x


def forget(f, ls):
    for l in ls:
        if l in B.support(f):
            f = OR(B.cofactor(f, l, 0), B.cofactor(f, l, 1))
    return f


def weaker(f, keep, qs):
    """a predicate implied by f that mentions of its quantified atoms only keep, and these only at the
    squares qs (None: everywhere)"""
    ls = [l for l in B.support(f) if D._desc[l][0] in ('ex', 'opq')]
    f = forget(f, [l for l in ls if l not in keep])
    if qs is None:
        return f
    for l in keep:
        d = D._desc[l]
        if d[0] != 'ex' or l not in B.support(f):
            continue
        # "somewhere": at one of qs, or elsewhere
        at = OR(*[AND(D.subst(d[1], d[2], q), D.bgvalid(q) if q[0] == 'C' and q not in D.KINGS else 1) for q in qs])
        f1, f0 = B.cofactor(f, l, 1), B.cofactor(f, l, 0)
        f = OR(f1, AND(f0, NOT(at)))
    return f


def empty(x, apart=0):
    """instances examined if x is unsatisfiable, else 0; in a copy of the process if it may be large"""
    def go():
        if apart:
            B.set_limit(B.nodes() + apart)
        try:
            return holds(D.links(x()), ())
        except B.Overflow:
            return 0
    t = time.time()
    r = aside(go) if apart else go()
    if DEBUG:
        print('   %s %s %.1fs %d' % (apart, r, time.time() - t, B.nodes()))
    return r if type(r) is int else 0


def answer(c, K, T, side):
    """the predicate computed for the question, the drop being one the other rules allow"""
    ref, st = fresh(c)
    inst = question(c.prog) or unsup('no function answers the mate question')
    v, _ = c.I.call_inst(inst, [ref, VSq({T: 1})], St(st.pc, dict(st.mem)), None)
    return v.f


def check_mate(prog, side, k, job=None):
    """the answer to the question, for the opponent's king on k"""
    job = job or Job('pawn drop mate side=%d opponent king=%d,%d' % (side, k[1] + 1, k[2] + 1))
    T = D.shift(k, 0, 1 if side == 0 else -1)
    if not 0 <= T[2] <= 8 or T[2] == (0 if side == 0 else 8):
        return job.done()
    c = setup(prog, side, ('free', k) if side == 0 else (k, 'free'), 'drop', to=T, stub=False)
    pawn = mkcode(1, side)
    c.pc = AND(c.pc, c.pcs[pawn], SP.drop_ok(T, c.pcs, c.hands, side))
    f = answer(c, k, T, side)
    care = AND(c.pc, NOT(SP.PP.attacked(k, side)))
    rs = list(replies(c, k, T, side))
    w = ['Position::is_pawn_drop_mate, the opponent\'s king on %s' % S.usi(('n', k[1:], k[1:], False))[:2]]
    ls = [l for l in B.support(f) if D._desc[l][0] in ('ex', 'opq')]
    rnd = random.Random(str((side, k)))
    round_k = [s for s in (D.shift(k, a, b) for a, b in NEAR) if D.valid(s)]
    far = sorted(set(lines(k) + lines(T)) - set(round_k) - {k, T})

    def nearby(more):
        return [({}, set(round_k + more) | set(rnd.sample(far, 8))) for _ in range(16)]
    n = 0
    # every reply makes the answer "no mate"
    for name, a, z, r in rs:
        if r == 0:
            continue
        q = a if z == T and a != k else z
        m = 0
        for l in ls:
            m = m or empty(lambda: AND(care, weaker(f, [l], [q]), r))
        big = [lambda l=l: AND(care, weaker(f, [l], None), r) for l in ls] + [lambda: AND(care, weaker(f, ls, [q]), r), lambda: AND(care, f, r)]
        m = m or any(empty(x, BIG // 20) for x in big)
        found = None
        if not m:
            found = sparse(c, [care, f, r], nearby([q] if q != k else []), lambda p, m: p.legal(m), not_listed)
        if not found:
            m = m or any(empty(x, BIG) for x in big)
        ob = 'pawn drop refused though the opponent can answer: %s' % name
        if found:
            job.add('C12', ob, 'violated', 1, dict(found, where=w))
            return job.done(c)
        elif m:
            n += m
        else:
            job.add('C12', ob, 'undecided', 1, dict(why='no legal position found among the solutions, or too large'))
    # "no mate" is answered only if there is a reply
    direct = [r for r in rs if r[1] == k and r[2] == T]
    for x, kept, sub in claims(f, ls):
        for q in [q for q in G.ALL if q not in (k, T)] if kept else [None]:
            pre = x
            if kept:
                d = D._desc[kept]
                pre = AND(sub, D.subst(d[1], d[2], q), D.bgvalid(q))
            if pre == 0:
                continue
            near = [r for r in rs if q in (r[1], r[2])]
            m = 0
            for own in (near, direct, direct + near):
                m = m or own and empty(lambda: AND(care, pre, *[NOT(r[3]) for r in own]))
            found = None
            if not m:
                found = sparse(c, [care, NOT(f)] + [NOT(r[3]) for r in rs], nearby([q] if q else []), lambda p, m: p.pawn_drop_mate(m) and p.safe(m), is_listed)
            if not m and not found:
                m = empty(lambda: AND(care, pre, *[NOT(r[3]) for r in rs]), BIG)
            ob = 'pawn drop offered though it is mate'
            if found:
                job.add('C12', ob, 'violated', 1, dict(found, where=w))
                return job.done(c)
            elif m:
                n += m
            else:
                job.add('C12', ob, 'undecided', 1, dict(why='no legal position found among the solutions, or too large'))
    if n:
        job.add('C12', 'the answer to the mate question', 'ok', n)
    return job.done(c)


def claims(f, ls):
    """the ways in which the answer can be "no mate": (predicate, quantified atom that is true or None, the rest)"""
    g = NOT(f)
    for l in ls:
        if l not in B.support(g):
            continue
        g1, g0 = B.cofactor(g, l, 1), B.cofactor(g, l, 0)
        p = AND(g1, NOT(g0))
        if p:
            yield None, l, forget(p, ls)
        p = AND(g0, NOT(g1))
        if p:
            yield AND(NOT(B.var(l)), forget(p, ls)), None, None
        g = AND(g0, g1)
    if g:
        yield g, None, None


def sparse(c, xs, tries, confirm, reread):
    """a legal position in which all predicates xs hold, looked for among positions with few pieces: tries
    lists (squares of the named tokens, squares that may hold a piece)"""
    def go(fix, free):
        B.set_limit(B.nodes() + BIG // 4)
        G.FREE[:] = [frozenset(free)]
        try:
            g = G.Ground(fix)
            y = 1
            for x in xs:
                y = AND(y, g.ground(D.links(x)))
            y = g.decide(y) if y else 0
            w = W.witness(c, fix, y, confirm) if y else None
        except B.Overflow:
            return 'overflow'
        if not w:
            return 'none' if y else ''
        return [dict(position=w[0].sfen(), move=S.usi(w[1]))] if aside(reread, c.prog, w[0], w[1]) else 'not confirmed'
    for fix, free in tries:
        t = time.time()
        r = aside(go, fix, free)
        if DEBUG:
            print('   sparse', fix, r, '%.1fs' % (time.time() - t), flush=True)
        if type(r) is list:
            return r[0]


def lines(q):
    return [s for d in D.DIRS.values() for s in (D.shift(q, d[0] * n, d[1] * n) for n in range(1, 9)) if D.valid(s)]


def check_refused(prog, side, own='KO', opp='KP', job=None):
    """the pawn drop in front of the king is listed only if the question is answered "no mate" """
    job = job or Job('pawn drop listed side=%d king=%s' % (side, own))
    T = (opp, 0, 1 if side == 0 else -1) if type(opp) is str else D.shift(opp, 0, 1 if side == 0 else -1)
    c = setup(prog, side, own_kings(side, own, opp), 'drop', to=T)
    pawn = mkcode(1, side)
    c.pc = AND(c.pc, c.pcs[pawn], SP.drop_ok(c.T, c.pcs, c.hands, side))
    ref, st = fresh(c)
    r, _ = c.call('legal_moves', [ref], St(c.pc, dict(st.mem)), ty='Position')
    front = D.eq(D.shift(c.T, 0, -1 if side == 0 else 1), c.K[1 - side])
    rel = B.support(front)
    weak, full = [], 0
    for h in r.g:
        x = y = h
        for l in B.support(h):
            d = D._desc[l]
            if d[0] == 'hole' and d[1] == 'mate' and AND(c.pc, front, NOT(D.eq(d[2][0], c.T))) == 0:
                x = B.cofactor(h, l, 1)
                # what makes the answer matter; the rest of the guard is not needed
                mine = (B.support(x) - B.support(B.cofactor(h, l, 0))) | rel
                y = forget(x, [a for a in B.support(x) if a not in mine and D._desc[a][0] in ('ex', 'opq')])
        weak.append(AND(y, front))
        full = OR(full, AND(x, front))
    if DEBUG:
        for y in weak:
            print(B.size(y), [str(D._desc[a])[:100] for a in B.support(y) if D._desc[a][0] not in ('pc', 'co', 'flag')])
    if all(empty(lambda: AND(c.pc, y), BIG // 2) for y in weak):
        job.add('C12', 'pawn drop offered whatever the answer to the mate question', 'ok', 1)
    elif type(opp) is str:
        job.add('C12', 'pawn drop offered whatever the answer to the mate question', 'undecided', 1, dict(why='for kings on unknown squares'))
    else:
        up = 1 if side == 0 else -1
        rs = list(replies(c, opp, c.T, side))
        near = [s for s in (D.shift(opp, a, b) for a, b in NEAR) if D.valid(s)] + [s for s in [D.shift(opp, 0, 2 * up)] if D.valid(s)]
        rnd = random.Random(str((side, opp)))
        lined = [s for s in lines(c.T) if max(abs(s[1] - opp[1]), abs(s[2] - opp[2])) > 1 and s not in near]

        def some():
            free = set(near)
            fix = {}
            far = lined
            if own in D.TOKINFO:
                fix = {own: rnd.choice(lined)}
                far = lines(fix[own])
            far = sorted(set(far + lines(opp)) - free - set(fix.values()))
            return fix, free | set(rnd.sample(far, 10))
        ok = lambda p, m: p.pawn_drop_mate(m) and p.safe(m)
        w = sparse(c, [c.pc, NOT(SP.PP.attacked(opp, side)), full] + [NOT(r[3]) for r in rs], [some() for _ in range(60)], ok, is_listed)
        if w:
            job.add('C12', 'pawn drop offered whatever the answer to the mate question', 'violated', 1,
                    dict(w, where=['pushed by Position::legal_moves']))
        else:
            job.add('C12', 'pawn drop offered whatever the answer to the mate question', 'undecided', 1, dict(why='no position found'))
    return job.done(c)

