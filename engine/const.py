"""Second opinion on an alarm: the same abstract interpretation with the witness position as a constant.
All square sets become constant sets and no named predicate is needed, so the parts of the domain that
summarise unknown contents play no role.  It can only withdraw an alarm, never raise one."""
import re
from ctx import *


class CCtx:
    def __init__(s, prog, pos, mv=None):
        s.prog, s.pos = prog, pos
        D.reset([], bgcodes=list(D.CODES))
        s.I = Interp(prog, Models)
        s.M = s.I.m
        VV._vs.clear()
        VV._hh.clear()
        s.pc = 1
        occ = {}
        for q, code in pos.b.items():
            occ.setdefault(code, []).append(q)

        def content(t, code):
            if code == 0:
                return NOT(OR(*[D.at(t, *q) for q in pos.b]))
            return OR(*[D.at(t, *q) for q in occ.get(code, ())])
        s.hands = [VH([VI(8, False, {(n, ()): 1}) for n in h]) for h in pos.h]
        s.M.boards['pp'] = Board(pos.side, content, s.hands, 0)
        s.m = None
        if mv:
            if mv[0] == 'd':
                s.m = s.M.mk_drop(VPc({mv[1]: 1}), VSq({D.csq(*mv[2]): 1}))
            else:
                s.m = s.M.mk_normal(VSq({D.csq(*mv[1]): 1}), VSq({D.csq(*mv[2]): 1}), VB(1 if mv[3] else 0))
        s.I.query = s.m
        VV.QUERY[0] = s.m

    start = Ctx.start
    call = Ctx.call


def known(f):
    if f == 0 or f == 1:
        return bool(f)
    unsup('not a constant')


def fresh(c):
    v, st = c.call('new', [VPP('pp')], ty='Position')
    st.mem[('H', 0)] = v
    return VR({(('H', 0), ()): 1}), st


def listed(prog, pos, mv):
    """where the list built for this position gets the move pushed (once per push)"""
    c = CCtx(prog, pos, mv)
    ref, st = fresh(c)
    r, _ = c.call('legal_moves', [ref], St(st.pc, dict(st.mem)), ty='Position')
    return ['%s %s' % (s[0], s[1]) if type(s) is tuple else str(s) for g, s in zip(r.g, r.s) if known(g)]


def in_check(prog, pos):
    c = CCtx(prog, pos)
    ref, st = fresh(c)
    r, _ = c.call('in_check', [ref], St(st.pc, dict(st.mem)), ty='Position')
    return known(r.f)


def is_check(prog, pos, mv):
    c = CCtx(prog, pos, mv)
    ref, st = fresh(c)
    r = c.call('is_check_move', [ref, c.m], St(st.pc, dict(st.mem)), ty='Position')
    return known(r[0].f)


# ------------------------------------------------------------------ playing the witness move
class Played:
    def __init__(s, prog, pos, mv):
        s.pos, s.mv = pos, mv
        s.c = c = CCtx(prog, pos, mv)
        s.query = any_move(c)
        s.ref, s.st0 = fresh(c)
        s.st1 = s.run('do_move', s.st0)
        s.after = pos.play(mv)
        c.M.boards['after'] = Board(s.after.side, content_of(s.after), hands_of(s.after), 1)

    def run(s, name, st):
        return s.c.call(name, [s.ref, s.c.m], St(st.pc, dict(st.mem)), ty='Position')[1]

    def again(s):
        v, st = s.c.call('new', [VPP('after')], ty='Position')
        st.mem[('N', 0)] = v
        return VR({(('N', 0), ()): 1}), st


def content_of(pos):
    occ = {}
    for q, code in pos.b.items():
        occ.setdefault(code, []).append(q)

    def content(t, code):
        if code == 0:
            return NOT(OR(*[D.at(t, *q) for q in pos.b]))
        return OR(*[D.at(t, *q) for q in occ.get(code, ())])
    return content


def hands_of(pos):
    return [VH([VI(8, False, {(n, ()): 1}) for n in h]) for h in pos.h]


def any_move(c):
    """moves of every shape, with squares and piece open"""
    D.token('F')
    D.token('T')
    F, T = ('F', 0, 0), ('T', 0, 0)
    n = c.M.mk_normal(VSq({F: 1}), VSq({T: 1}), VB(D.flag('promo')))
    c.pcflags = [D.flag('dp%d' % b) for b in range(5)]
    pcs = {x: AND(*[g if x >> b & 1 else NOT(g) for b, g in enumerate(c.pcflags)]) for x in list(range(1, 8)) + list(range(17, 24))}
    d = c.M.mk_drop(VPc(pcs), VSq({T: 1}))
    return (('board move', n, AND(D.valid(F), D.valid(T))), ('drop', d, AND(D.valid(T), OR(*pcs.values()))))


def observe(s, ref, st, deep=True):
    """what a caller can see of a position: {name: value}"""
    c = s.c
    ask = lambda n, *a, pc=None: c.call(n, [ref] + list(a), St(st.pc if pc is None else AND(st.pc, pc), dict(st.mem)), ty='Position')[0]
    r = {}
    for f in range(9):
        for q in range(9):
            r['piece_at(%d%s)' % (f + 1, 'abcdefghi'[q])] = ask('piece_at', VSq({D.csq(f, q): 1}))
    for i, n in ((0, 'Black'), (1, 'White')):
        r['hand(%s)' % n] = ask('hand', VE(c.M.COLOR, {i: (1, ())}))
    for n in ('side_to_move', 'ply', 'keys', 'key', 'in_check'):
        r[n + '()'] = ask(n)
    if deep:
        for n, m, ok in s.query:
            c.I.query = VV.QUERY[0] = m
            l = OR(*ask('legal_moves').g)
            l = AND(l, ok)
            r['legal_moves(): ' + n] = VB(l)
            if l:
                r['is_check_move: ' + n] = VB(AND(l, ask('is_check_move', m, pc=l).f))
        c.I.query = VV.QUERY[0] = c.m
    return r


def compare(a, b):
    from play import vdiff, PC
    PC[0] = 1
    r = []
    for k in a:
        if k in b and any(f for _, f in vdiff(a[k], b[k])):
            r.append(k)
    return r


def moved(prog, pos, mv):
    """observables of board, hands, side and ply that playing the move gets wrong"""
    s = Played(prog, pos, mv)
    ref, st = s.again()
    a, b = observe(s, s.ref, s.st1, False), observe(s, ref, st, False)
    return [k + ' wrong after do_move' for k in compare(a, b) if 'key' not in k and 'check' not in k] or False


def keys_differ(prog, pos, mv):
    s = Played(prog, pos, mv)
    ref, st = s.again()
    a, b = observe(s, s.ref, s.st1, False), observe(s, ref, st, False)
    return [k + ' after do_move differs from a fresh set-up' for k in compare(a, b) if 'key' in k] or False


def undone(prog, pos, mv):
    s = Played(prog, pos, mv)
    st2 = s.run('undo_move', s.st1)
    a = observe(s, s.ref, s.st0, False)
    r = compare(a, observe(s, s.ref, st2, False))
    if not r:
        r = compare(observe(s, s.ref, s.st0), observe(s, s.ref, st2))
    return [k + ' changed by do_move and undo_move' for k in r] or False


def cloner(prog):
    """the clone function of Position"""
    r = [i for i in prog.insts.values() if i['krate'] == prog.crate and i.get('body') and
         re.search(r'<(\w+::)*Position as (std|core)::clone::Clone>::clone$', i['name'])]
    return r[0] if len(r) == 1 else None


def cloned(prog, pos, mv):
    """observables in which a clone differs from its original, after a move and after taking it back"""
    s = Played(prog, pos, mv)
    v, _ = s.c.I.call_inst(cloner(prog), [s.ref], St(s.c.pc, dict(s.st1.mem)), None)
    st = St(s.c.pc, dict(s.st1.mem))
    st.mem[('K', 0)] = v
    ref = VR({(('K', 0), ()): 1})
    r = compare(observe(s, s.ref, s.st1), observe(s, ref, st))
    if r:
        return [k + ' differs in a clone' for k in r]
    a = s.run('undo_move', s.st1)
    b = s.c.call('undo_move', [ref, s.c.m], st, ty='Position')
    if b is None or b[1] is None:
        return ['undo_move on a clone panics']
    x = observe(s, s.ref, a)
    try:
        r = compare(x, observe(s, ref, b[1]))
    except (Unsupported, TypeError):
        # nothing left to look at
        return ['a clone cannot take back the move']
    return [k + ' differs in a clone after undo_move' for k in r] or False


def aborts(prog, pos, mv, kinds):
    """calls that panic (or go wrong) on this position"""
    c = CCtx(prog, pos, mv)
    r = []

    def run(name, ref, args, st):
        n = len(c.I.obl)
        v = c.call(name, [ref] + args, St(c.pc, dict(st.mem)), ty='Position')
        for o in c.I.obl[n:]:
            if o['kind'] in kinds:
                r.append('%s: %s in %s' % (name, o['msg'], o['fn'].split('::')[-1]))
        return v[1] if v else None
    try:
        ref, st = fresh(c)
    except TypeError:
        st = None
    r += ['new: %s in %s' % (o['msg'], o['fn'].split('::')[-1]) for o in c.I.obl if o['kind'] in kinds]
    if st is None:
        return r or False
    run('in_check', ref, [], st)
    c.I.query = VV.QUERY[0] = c.m or c.M.mk_drop(VPc({2: 1}), VSq({D.csq(0, 0): 1}))
    run('legal_moves', ref, [], st)
    if mv and pos.legal(mv):
        run('is_check_move', ref, [c.m], st)
        s1 = run('do_move', ref, [c.m], st)
        if s1 is not None:
            run('undo_move', ref, [c.m], s1)
    return r or False


def stale1(prog, pos, mv):
    s = Played(prog, pos, mv)
    ref, st = s.again()
    a, b = observe(s, s.ref, s.st1), observe(s, ref, st)
    return [k + ' after do_move differs from a fresh set-up' for k in compare(a, b) if 'key' not in k]


def stale(prog, pos, mv):
    """queries that answer differently after the move than in a fresh set-up"""
    r = stale1(prog, pos, mv)
    if r:
        return r
    # the difference may need a reply to show: pieces in hand, and one that can take the piece that moved
    import shogi as S
    me, to = 1 - pos.side, mv[2]
    rich = S.Pos(pos.b, pos.h, pos.side)
    rich.h[me] = [n or 1 for n in rich.h[me]]
    tries = [rich]
    for f in range(9):
        for q in range(9):
            if (f, q) not in rich.b and (f, q) != to:
                x = S.Pos(rich.b, rich.h, rich.side)
                x.b[(f, q)] = (7 if abs(f - to[0]) + abs(q - to[1]) > 1 else 5) + 16 * me
                if abs(f - to[0]) <= 1 and abs(q - to[1]) <= 1 or (f == to[0] or q == to[1]) and (f + q) % 3 == 0:
                    tries.append(x)
    for x in tries[:10]:
        if x.valid() and x.legal(mv) and not x.checked(me):
            r = stale1(prog, x, mv)
            if r:
                return [k + ' (in %s)' % x.sfen() for k in r]
    return False
