"""Obligations of playing and taking back a move in one context: abstract interpretation of do_move /
undo_move on an arbitrary position and move, compared with the rules and with a fresh set-up."""
from moves import *
import const as K


def playable(c):
    """the queried move is one the rules allow as far as movement, promotion, occupation and hand go (and,
    for a king whose square is named, king safety)"""
    side = c.side
    if c.move == 'drop':
        return SP.drop_ok(c.T, c.pcs, c.hands, side), SP.after_drop(c.T, c.pcs)
    mv, pr = SP.pseudo_normal(c.F, c.T, c.promo, side)
    for o in [c.K[1 - side]] if 1 - side in c.K else []:
        # a king never steps next to the other king
        near = OR(*[D.delta(o, c.T, a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)])
        mv = AND(mv, NOT(AND(D.pc(c.F, mkcode(8, side)), near)))
    return AND(mv, pr), SP.after_normal(c.F, c.T, c.promo, side)


def opp_kings(side, opp, mv):
    """the king that is attacked is named; the mover's own king is the moving piece or anywhere"""
    own = 'KO' if mv == 'king' else 'free'
    return (own, opp) if side == 0 else (opp, own)


def check_is_check(prog, side, opp, mv):
    """C07: is_check_move of a freshly set-up position"""
    job = Job('is_check_move side=%d opponent king=%s move=%s' % (side, opp, mv))
    c = setup(prog, side, opp_kings(side, opp, mv), mv)
    ref, st = fresh(c)
    ok, after = playable(c)
    c.pc = AND(c.pc, ok)
    r, _ = c.call('is_check_move', [ref, c.m], St(c.pc, dict(st.mem)), ty='Position')
    ksq = c.K.get(1 - side)
    before = SP.PP.attacked(ksq, side) if ksq else 0
    att = after.attacked(ksq, side) if ksq else 0
    f = AND(ok, NOT(before), r.f)
    g = AND(ok, NOT(before), NOT(r.f))
    w = ['Position::is_check_move']
    chk = lambda p, m: p.play(m).checked(1 - side)
    report(c, job, 'C07', 'move reported as check that gives none', AND(f, NOT(att)), lambda p, m: p.legal(m) and not chk(p, m),
           (w, lambda pr, p, m: K.is_check(pr, p, m)))
    report(c, job, 'C07', 'checking move not reported', AND(g, att), lambda p, m: p.legal(m) and chk(p, m),
           (w, lambda pr, p, m: not K.is_check(pr, p, m)))
    return job.done(c)


# ------------------------------------------------------------------ difference of abstract values
PC = [1]


def some(f, tok):
    """some square satisfies f, given what is assumed"""
    if f == 0:
        return 0
    # the named squares one by one, then any other square
    r = 0
    for n, _ in D.NAMED:
        r = OR(r, D.subst(f, tok, n))
    g = elsewhere(f, tok)
    if g and AND(PC[0], g):
        r = OR(r, D.EXbg(g, tok))
    return r


def elsewhere(f, tok):
    """f for a square that is not a named one"""
    t = (tok, 0, 0)
    u = AND(D.unnamed(t), D.bgvalid(t), D.valid(t), D.CARE[0])
    mp = {}
    for l in B.support(f):
        d = D._desc[l]
        if d[0] == 'ex' and tok in D.tokens(d[1]):
            mp[l] = D.EXsub(AND(d[1], u), d[2])
    return AND(B.compose(f, mp) if mp else f, u)


def vdiff(a, b, path=()):
    """[(path, predicate)]: where in the values they differ, and when"""
    if a is b or a == b:
        return []
    ta, tb = type(a), type(b)
    if ta is VI and tb is VX:
        a, ta = tovx(a), VX
    if ta is VX and tb is VI:
        b, tb = tovx(b), VX
    if ta is VL and tb is VA:
        a, ta = expand_lam(a), VA
    if ta is VA and tb is VL:
        b, tb = expand_lam(b), VA
    if ta is not tb:
        unsup('comparison of %s and %s at %s' % (ta.__name__, tb.__name__, path))
    here = lambda f: [(path, f)] if f else []
    if ta is VU:
        unsup('comparison of unknown values: ' + a.why)
    if ta is VB:
        return here(XOR(a.f, b.f))
    if ta is VSet:
        return here(some(XOR(a.f, b.f), 'X'))
    if ta in (VI, VSq, VPc):
        r = 0
        for k, g in a.c.items():
            for l, h in b.c.items():
                if k == l:
                    continue
                x = AND(g, h)
                if x == 0:
                    continue
                if ta is VSq:
                    x = AND(x, NOT(D.eq(k, l)))
                elif ta is VI and k[1] != l[1]:
                    unsup('comparison of symbolic integers')
                r = OR(r, x)
        return here(r)
    if ta is VE:
        r = []
        for k in set(a.c) | set(b.c):
            x, y = a.c.get(k), b.c.get(k)
            if x is None or y is None:
                r += here((x or y)[0])
                continue
            r += here(XOR(x[0], y[0]))
            both = AND(x[0], y[0])
            for i, (p, q) in enumerate(zip(x[1], y[1])):
                r += [(w, AND(both, f)) for w, f in vdiff(p, q, path + ((k, i),)) if AND(both, f)]
        return r
    if ta in (VS, VA, VH, VVec):
        xs, ys = {VS: ('f', 'f'), VA: ('e', 'e'), VH: ('n', 'n'), VVec: ('e', 'e')}[ta]
        xs, ys = getattr(a, xs), getattr(b, ys)
        if len(xs) != len(ys) or (ta is VVec and a.base != b.base):
            return here(1)
        r = []
        for i, (p, q) in enumerate(zip(xs, ys)):
            r += vdiff(p, q, path + (i,))
        return r
    if ta is VL:
        b = lam_rename(b, a.tok)
        r = []
        for w, f in vdiff(a.e, b.e, path + ('sq',)):
            f = some(f, a.tok)
            if f:
                r.append((w, f))
        return r
    if ta is VX:
        r = 0
        for k in set(a.bits) | set(b.bits):
            r = OR(r, XOR(a.bits.get(k, 0), b.bits.get(k, 0)))
        for k in set(a.terms) | set(b.terms):
            f = XOR(a.terms.get(k, 0), b.terms.get(k, 0))
            if f:
                r = OR(r, some(f, 'K') if any(s == VV.IDXK for s, _ in k[0][1]) else f)
        return here(r)
    unsup('comparison of %s' % ta.__name__)


# ------------------------------------------------------------------ playing the move
def captured(c, k):
    """the move captures a piece that goes to hand as kind k"""
    if c.move == 'drop':
        return 0
    opp = 1 - c.side
    return OR(*[D.pc(c.T, mkcode(x, opp)) for x in (k, PROMO.get(k)) if x])


def hands_after(c):
    hs = []
    for k in range(1, 8):
        n = c.hands[c.side].n[k - 1]
        if c.move == 'drop':
            g = c.pcs[mkcode(k, c.side)]
            d = -1
        else:
            g = captured(c, k)
            d = 1
        r = {}
        for (m, syms), h in n.c.items():
            VV.addcase(r, (m, syms), AND(h, NOT(g)))
            if 0 <= m + d <= 18:
                VV.addcase(r, (m + d, syms), AND(h, g))
        hs.append(VI(8, False, r))
    r = list(c.hands)
    r[c.side] = VH(hs)
    return r


def supply(c):
    """no more pieces of a kind than there are"""
    x = 1
    if c.move != 'drop':
        for k in range(1, 8):
            m = c.hands[c.side].n[k - 1].c.get((SP_MAX[k], ()), 0)
            x = AND(x, NOT(AND(m, captured(c, k))))
    return x


SP_MAX = S.MAXN


def history(v):
    """the position with any number of earlier states below the current one"""
    if type(v) is VVec and v.base is None and len(v.e) == 1:
        return VVec('past', v.e)
    if type(v) is VS:
        return VS(v.ty, [history(x) for x in v.f])
    return v


def facts(c):
    """what a move that obeys the rules implies about the named squares alone"""
    side = c.side
    if c.move == 'drop':
        return AND(D.pc(c.T, 0), OR(*c.pcs.values()))
    enemy = [x for x in D.CODES if color(x) != side and kind(x) != 8]
    r = OR(D.pc(c.T, 0), *[D.pc(c.T, x) for x in enemy])
    if c.move == 'piece':
        own = [x for x in D.CODES if color(x) == side and not (kind(x) == 8 and side in c.K)]
        r = AND(r, ITE(c.promo, OR(*[D.pc(c.F, x) for x in own if kind(x) in PROMO]), OR(*[D.pc(c.F, x) for x in own])))
    return r


class Play:
    """a freshly set-up position with the queried move played"""

    def __init__(s, c, deep=False):
        s.c = c
        s.ref, s.st0 = fresh(c)
        s.v0 = s.st0.mem[('H', 0)]
        s.ok, s.after = playable(c)
        s.ok = AND(s.ok, supply(c))
        c.pc = AND(c.pc, s.ok)
        PC[0] = c.pc
        D.CARE[0] = AND(D.CARE[0], facts(c))
        if deep:
            s.v0 = s.st0.mem[('H', 0)] = history(s.v0)
        s.st1 = s.do(s.st0)
        s.v1 = s.st1.mem[('H', 0)]
        s.hands = hands_after(c)
        c.M.boards['after'] = Board(1 - c.side, s.after.at, s.hands, 1)

    def do(s, st):
        return s.c.call('do_move', [s.ref, s.c.m], St(s.c.pc, dict(st.mem)), ty='Position')[1]

    def undo(s, st):
        return s.c.call('undo_move', [s.ref, s.c.m], St(s.c.pc, dict(st.mem)), ty='Position')[1]

    def color(s, i):
        return VE(s.c.M.COLOR, {i: (1, ())})

    def again(s):
        """the position after the move, freshly set up"""
        r, st = fresh(s.c, 'after', 'N')
        return r, st

    def ask(s, name, st, *args, ref=None):
        return s.c.call(name, [ref or s.ref] + list(args), St(s.c.pc, dict(st.mem)), ty='Position')[0]


def plain(f):
    """no statement about a square known only as the first member of a set"""
    return not any(D._desc[l][0] == 'opq' for l in B.support(f)) and not any(D.TOKINFO[t][0] == 'first' for t in D.tokens(f))


def split(c, ds, job, prop, what, confirm, where):
    """obligations from the places where two values differ"""
    by = {}
    for path, f in ds:
        f = AND(c.pc, f)
        by[path] = OR(by.get(path, 0), f)
    for path, f in sorted(by.items(), key=repr):
        report(c, job, prop, '%s %s' % (what, path), f, confirm, where)


def check_board(prog, side, mv, want):
    """C01, C02, C04: what playing and taking back a move does to board, hands, side, ply and keys,
    wherever the kings are"""
    job = Job('do_move/undo_move side=%d move=%s' % (side, mv))
    c = setup(prog, side, ('free', 'free'), mv)
    p = Play(c, 'C01' in want)
    legal = lambda q, m: q.legal(m)
    if 'C02' in want:
        Y = (D.fresh('Y'), 0, 0)
        r = p.ask('piece_at', p.st1, VSq({Y: 1}))
        bad = 0
        for x in D.CODES:
            g = AND(r.c[1][0], r.c[1][1][0].c.get(x, 0)) if 1 in r.c else 0
            bad = OR(bad, XOR(g, p.after.at(Y, x)))
        bad = D.EX(AND(c.pc, D.links(bad)), Y[0])
        w = (['Position::do_move'], K.moved)
        report(c, job, 'C02', 'a square does not hold what the move leaves there', bad, legal, w)
        for col in (0, 1):
            h = p.ask('hand', p.st1, p.color(col))
            for k in range(7):
                bad = OR(*[f for _, f in vdiff(h.n[k], p.hands[col].n[k])])
                report(c, job, 'C02', 'hand count of kind %d of side %d' % (k + 1, col), AND(c.pc, bad), legal, w)
        s = p.ask('side_to_move', p.st1)
        report(c, job, 'C02', 'the side to move does not change', AND(c.pc, NOT(s.c[1 - side][0] if 1 - side in s.c else 0)), legal, w)
        n = p.ask('ply', p.st1)
        up = n.c.get((1, ((('ply',), 1),)), 0)
        report(c, job, 'C02', 'the ply does not grow by one', AND(c.pc, NOT(up)), legal, w)
    if 'C04' in want:
        w = (['keys updated by Position::do_move'], K.keys_differ)
        n, sn = p.again()
        for q in ('keys', 'key'):
            a, b = p.ask(q, p.st1), p.ask(q, sn, ref=n)
            split(c, vdiff(a, b), job, 'C04', 'Position::%s differs from that of a fresh set-up' % q, legal, w)
        if not any(r[0] == 'C04' for r in job.pend):
            job.add('C04', 'keys equal those of a fresh set-up', 'ok')
    if 'C01' in want or 'C04' in want:
        st2 = p.undo(p.st1)
        if 'C04' in want:
            for q in ('keys', 'key'):
                split(c, vdiff(p.ask(q, st2), p.ask(q, p.st0)), job, 'C04', 'Position::%s after taking the move back' % q, legal,
                      (['Position::undo_move'], K.undone))
        if 'C01' in want:
            split(c, vdiff(p.v0, st2.mem[('H', 0)]), job, 'C01', 'after taking the move back, field', legal, (['Position::undo_move'], K.undone))
            job.add('C01', 'all other parts of the position are as before', 'ok')
            for o in c.I.obl:
                if o['kind'] == 'lost':
                    report(c, job, 'C01', 'earlier states are thrown away (%s), so that earlier moves cannot be taken back' % o['msg'],
                           AND(c.pc, o['pc']), legal, ['%s %s' % (o['fn'], o['span'])])
    return job.done(c)


def check_clone(prog, side):
    """C17: a clone has the same value as its original, earlier states included"""
    job = Job('clone side=%d' % side)
    c = setup(prog, side, ('free', 'free'), 'drop')
    p = Play(c, True)
    inst = K.cloner(prog)
    if inst is None:
        job.add('C17', 'a clone has the same value as its original', 'undecided', 1, 'no clone of Position')
        return job
    v, _ = c.I.call_inst(inst, [p.ref], St(c.pc, dict(p.st1.mem)), None)
    split(c, vdiff(p.v1, v), job, 'C17', 'a clone differs from its original in field', lambda q, m: q.legal(m), (['clone of Position'], K.cloned))
    if not job.pend:
        job.add('C17', 'a clone has the same value as its original', 'ok', 1)
    return job.done(c)


# ------------------------------------------------------------------ calls that abort or go wrong (C18, C19, C20)
KINDS = {'C18': ('ub', 'unreachable'), 'C20': ('panic',), 'C19': ('panic', 'ub', 'unreachable')}
WHAT = {'C18': 'undefined behaviour', 'C20': 'panic', 'C19': 'panic or undefined behaviour'}


def aborts(c, job, prop, ops, confirm, lost=False):
    """one obligation per operation that can panic or go wrong: it is never reached in that state"""
    n = 0
    by = {}
    for o in c.I.obl:
        if o['kind'] in KINDS[prop]:
            k = (o['fn'], o['msg'], str(o['span']))
            by[k] = OR(by.get(k, 0), o['pc'])
    for (fn, msg, span), x in sorted(by.items()):
        report(c, job, prop, '%s: %s in %s' % (WHAT[prop], msg, fn), x, confirm,
               (['%s %s' % (fn, span)], lambda pr, p, m: K.aborts(pr, p, m, KINDS[prop])))
    job.add(prop, 'every other operation in %s that can %s' % (ops, {'C18': 'go wrong', 'C20': 'panic', 'C19': 'panic or go wrong'}[prop]),
            'ok', max(1, c.I.stats.get('checked', 0) - len(by)))


def check_abort_play(prog, side, mv, prop, kings=('free', 'free')):
    """new, do_move, undo_move"""
    job = Job('%s: new, do_move, undo_move side=%d kings=%s move=%s' % (prop, side, kings, mv))
    p = Play(setup(prog, side, kings, mv), True)
    if p.st1 is not None:
        p.undo(p.st1)
    aborts(p.c, job, prop, 'new, do_move and undo_move', lambda q, m: q.legal(m))
    return job.done(p.c)


def check_abort_test(prog, side, mv, prop, kings=('free', 'free')):
    """is_check_move"""
    job = Job('%s: is_check_move side=%d kings=%s move=%s' % (prop, side, kings, mv))
    c = setup(prog, side, kings, mv)
    ref, st = fresh(c)
    ok, after = playable(c)
    c.pc = AND(c.pc, ok)
    c.call('is_check_move', [ref, c.m], St(c.pc, dict(st.mem)), ty='Position')
    aborts(c, job, prop, 'is_check_move', lambda q, m: q.legal(m))
    return job.done(c)


def check_abort_list(prog, side, own, opp, prop):
    """legal_moves (with the mate test) and in_check"""
    job = Job('%s: legal_moves side=%d king=%s other=%s' % (prop, side, own, opp))
    c = setup(prog, side, own_kings(side, own, opp), 'drop', stub=False)
    ref, st = fresh(c)
    c.call('in_check', [ref], St(st.pc, dict(st.mem)), ty='Position')
    c.call('legal_moves', [ref], St(st.pc, dict(st.mem)), ty='Position')
    aborts(c, job, prop, 'legal_moves and in_check', None)
    return job.done(c)


# ------------------------------------------------------------------ the cached state after a move (C03)
def leaves(v, path=()):
    if type(v) in (VS, VA):
        for i, x in enumerate(v.f if type(v) is VS else v.e):
            yield from leaves(x, path + (i,))
    elif type(v) is VVec:
        # only the current state can be observed; the others are compared by C01
        if v.e:
            yield from leaves(v.e[-1], path + ('current',))
    else:
        yield path, v


def replace(v, path, new):
    if not path:
        return new
    i, rest = path[0], path[1:]
    if i == 'current':
        return VVec(v.base, v.e[:-1] + (replace(v.e[-1], rest, new),))
    xs = list(v.f if type(v) is VS else v.e)
    xs[i] = replace(xs[i], rest, new)
    return VS(v.ty, xs) if type(v) is VS else VA(xs)


def cached(path):
    return 'current' in path


def history_leaves(a, b):
    """the parts of the current state that tell how the position was reached: optional values that a fresh
    set-up has none of"""
    r = []
    for p, x in leaves(a):
        y = b.get(p)
        if cached(p) and type(x) is VE and type(y) is VE and x != y and len(y.c) == 1:
            r.append(p)
    return r


def poisoned(v, ps):
    """the position with those parts unknown; to depend on them is not supported"""
    for p in ps:
        v = replace(v, p, VU('what an earlier move left behind'))
    return v


def check_state(prog, side, kings, mv, only=None, to=None):
    """C03: every part of the position after a move, against a fresh set-up of what the move leaves;
    only: of one kind of moving piece"""
    job = Job('state after do_move side=%d kings=%s move=%s %s' % (side, kings, mv, only or ''))
    c = setup(prog, side, kings, mv, to)
    if only:
        g = D.pc(c.F, only)
        c.pc = AND(c.pc, g)
        D.CARE[0] = AND(D.CARE[0], g)
    p = Play(c)
    n, sn = p.again()
    v2 = sn.mem[('N', 0)]
    b = dict(leaves(v2))
    hist = history_leaves(p.v1, b)
    if hist:
        # the move again, in a position that itself was reached by a move
        p.st0.mem[('H', 0)] = poisoned(p.v0, hist)
        p.st1 = p.do(p.st0)
        p.v1 = p.st1.mem[('H', 0)]
    opp = 1 - side
    named = opp in c.K and c.K[opp][0] == 'C'
    before = SP.PP.attacked(c.K[opp], side) if named else 0
    ok = AND(c.pc, NOT(before))
    legal = lambda q, m: q.legal(m)
    where = (['cached state after Position::do_move'], K.stale)
    chk = []

    def onlycheck(v, w):
        """False if the set is the fresh one when the move gives check and empty when it does not; else
        when not"""
        if not chk:
            chk.append(p.ask('is_check_move', p.st0, c.m).f)
        y = chk[0]
        bad = OR(AND(y, XOR(v, w)), AND(NOT(y), v))
        r = AND(c.pc, elsewhere(bad, 'X'))
        for q, _ in D.NAMED:
            r = OR(r, AND(c.pc, D.subst(bad, 'X', q)))
        return r
    for path, v in leaves(p.v1):
        name = 'part %s of the position after a move' % (path,)
        if path in hist:
            job.add('C03', 'part %s is not read by do_move' % (path,), 'ok')
            continue
        w = b.get(path)
        if w is None:
            job.add('C03', name, 'undecided', 1, dict(why='not there in a fresh set-up'))
            continue
        if cached(path) and type(v) is VX:
            continue        # the keys: C04
        if type(v) is VSet and type(w) is VSet:
            f = XOR(v.f, w.f)
            x = OR(*[AND(ok, D.subst(f, 'X', q)) for q, _ in D.NAMED])
            g = elsewhere(f, 'X')
            g = AND(ok, g) if g else 0
            bad = onlycheck(v.f, w.f) if (x or g) and cached(path) and c.move != 'drop' else 1
            if bad == 0:
                if not named:
                    # with the king anywhere: what remains is decided with its square named (check_quiet)
                    job.add('C03', name + ': as set up afresh if the move gives check, else empty', 'ok')
                    continue
                x = AND(ok, NOT(chk[0]), p.after.attacked(c.K[opp], side))
            elif (x or g) and cached(path) and c.move != 'drop' and not named:
                # look closer, by kind of piece and square
                ks = [code for code in D.CODES if color(code) == side and AND(bad, D.pc(c.F, code))]
                job.add('C03', name, 'undecided', 1, dict(why='not that of a fresh set-up if the move gives check, else empty', kinds=ks))
                job.stats.setdefault('follow', []).extend(closer(side, opp, mv, ks))
                continue
            elif g:
                x = OR(x, AND(ok, D.EXbg(g, 'X')))
        else:
            x = AND(ok, OR(*[f for _, f in vdiff(v, w)]))
        report(c, job, 'C03', name, x, legal, where)
    return job.done(c)


def closer(side, opp, mv, kinds):
    """analyses with the king and the target square named, near ones first"""
    r = []
    for K in ((4, 4), (4, 1), (4, 7), (0, 0), (8, 8)):
        ts = [(f, q) for f in range(9) for q in range(9) if (f, q) != K]
        ts.sort(key=lambda t: (max(abs(t[0] - K[0]), abs(t[1] - K[1])), t))
        if K != (4, 4):
            ts = ts[:24]
        for t in ts:
            for k in kinds:
                kings = ['free', ['C', K[0], K[1]]]
                r.append(['check_state', [side, kings if opp else kings[::-1], mv, k, ['C', t[0], t[1]]]])
    return r


def check_quiet(prog, side, opp, mv):
    """C03: a move after which the opponent is in check is not taken for one that gives none (the check
    status kept after it would then be empty)"""
    job = Job('check status after do_move side=%d opponent king=%s move=%s' % (side, opp, mv))
    c = setup(prog, side, opp_kings(side, opp, mv), mv)
    ref, st = fresh(c)
    ok, after = playable(c)
    c.pc = AND(c.pc, ok)
    r, _ = c.call('is_check_move', [ref, c.m], St(c.pc, dict(st.mem)), ty='Position')
    ksq = c.K[1 - side]
    x = AND(ok, NOT(SP.PP.attacked(ksq, side)), NOT(r.f), after.attacked(ksq, side))
    report(c, job, 'C03', 'no check status kept after a move that gives check', x, lambda p, m: p.legal(m) and p.play(m).checked(1 - side),
           (['cached state after Position::do_move'], K.stale))
    return job.done(c)


def check_queries(prog, side, kings, mv):
    """C03: no query looks at how the position was reached"""
    job = Job('queries side=%d kings=%s move=%s' % (side, kings, mv))
    p = Play(setup(prog, side, ('free', 'free'), 'drop'))
    n, sn = p.again()
    hist = history_leaves(p.v1, dict(leaves(sn.mem[('N', 0)])))
    c = setup(prog, side, kings, mv)
    ref, st = fresh(c)
    st.mem[('H', 0)] = poisoned(st.mem[('H', 0)], hist)
    for q, a in (('in_check', ()), ('legal_moves', ()), ('is_check_move', (c.m,)), ('key', ()), ('keys', ()), ('side_to_move', ()), ('ply', ()),
                 ('hand', (VE(c.M.COLOR, {0: (1, ())}),)), ('piece_at', (VSq({('C', 0, 0): 1}),))):
        c.call(q, [ref] + list(a), St(st.pc, dict(st.mem)), ty='Position')
        job.add('C03', '%s does not look at how the position was reached' % q, 'ok')
    return job.done(c)
