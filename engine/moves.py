"""Obligations of the move generator in one context (one king square of the side to move, one abstract
move): the guard under which legal_moves emits the move, compared with the rules."""
import ctypes
import json
import signal
import time
import const as K
from ctx import *
import spec as SP
import ground as G
import witness as W
import shogi as S


import os
DEBUG = os.environ.get('DEBUG')


class Job:
    """the results of one context"""

    def __init__(s, name):
        s.name = name
        s.rows = []          # (property, obligation, status, instances, detail)
        s.stats = {}
        s.t0 = time.time()
        s.pend = []

    def add(s, prop, ob, status, n=1, detail=None):
        s.rows.append((prop, ob, status, n, detail))

    def done(s, c=None):
        if c:
            settle(c, s)
        s.stats['wall'] = round(time.time() - s.t0, 2)
        s.stats['nodes'] = B.nodes()
        if c:
            s.stats['functions'] = sorted(c.I.stats['functions'])
            s.stats['calls'] = c.I.stats['calls']
            s.stats['blocks'] = len(c.I.stats['blocks'])
            s.stats['loops'] = sum(c.I.stats[k] for k in c.I.stats if k.startswith('loops_'))
            s.stats['assumed'] = sorted(map(str, c.I.assumed))
        return s


def question(prog):
    """the function that answers whether a pawn drop on a square is mate: by name, or else the only method of
    Position that maps a square to a truth value"""
    i = prog.method('Position', 'is_pawn_drop_mate')
    if i:
        return i
    ty = lambda b, n: prog.types[b['locals'][n]]['name']
    c = [i for i in prog.insts.values() if i['krate'] == prog.crate and i.get('body') and i['body']['argc'] == 2 and ty(i['body'], 0) == 'bool'
         and ty(i['body'], 1).endswith('position::Position') and ty(i['body'], 2).endswith('::Square')]
    return c[0] if len(c) == 1 else None


def setup(prog, side, kings, mv, to=None, stub=True):
    """mv: 'piece', 'king' or 'drop'; 'piece+' and 'piece-' are board moves with and without promotion"""
    promo = None
    if mv and mv[-1] in '+-':
        mv, promo = mv[:-1], 1 if mv[-1] == '+' else 0
    c = Ctx(prog, side, kings, mv, to)
    c.pc0 = c.pc
    if mv:
        c.pc0 = AND(c.pc0, NOT(D.pc(c.T, 24 if side == 0 else 8)))
    m = None
    M = c.M
    if mv in ('piece', 'king'):
        c.promo = D.flag('promo') if promo is None else promo
        m = M.mk_normal(VSq({c.F: 1}), VSq({c.T: 1}), VB(c.promo))
    elif mv == 'drop':
        pcs = {}
        for k in range(1, 8):
            pcs[mkcode(k, side)] = AND(*[D.flag('dp%d' % b) if k >> b & 1 else NOT(D.flag('dp%d' % b)) for b in range(3)])
        c.pcs = pcs
        c.pc0 = AND(c.pc0, OR(*pcs.values()))
        m = M.mk_drop(VPc(pcs), VSq({c.T: 1}))
    c.pc = c.pc0
    if stub:
        def mate(I, inst, args, st):
            (t, g), = args[1].c.items()
            return VB(D.hole('mate', (t,))), st
        q = question(prog)
        if q:
            c.I.stubs[q['name'].split('::')[-1]] = mate
    c.I.query = m
    VV.QUERY[0] = m
    c.m = m
    for n, _ in D.NAMED:
        D.pcbit(n, 0)
    centre = next((k for k in c.K.values() if k[0] == 'C'), None)
    G.prepare(centre)
    return c


def fresh(c, ppname='pp', ref='H'):
    """Position::new of the abstract position, and a reference to it"""
    v, st = c.call('new', [VPP(ppname)], ty='Position')
    st.mem[(ref, 0)] = v
    return VR({((ref, 0), ()): 1}), st


def own_kings(side, own, opp='free'):
    return (own, opp) if side == 0 else (opp, own)


def report(c, job, prop, ob, x, confirm, where, keep=None, kings=True, cover=None):
    """decide that x is unsatisfiable; x: predicate over the context; cover: simpler predicates that
    together cover x"""
    job.pend.append((prop, ob, x, confirm, where, keep, kings, cover))


def settle(c, job):
    """decide the collected obligations: those of one property together, one by one if that fails"""
    pend, job.pend = job.pend, []
    by = {}
    for p in pend:
        by.setdefault(p[0], []).append(p)
    done = {}
    for prop, ps in by.items():
        xs = []
        for p in ps:
            x = p[2]
            if x:
                x = AND(c.pc, x)
            if x:
                x = D.links(x)
            xs.append(x)
        keep = ps[0][5]

        def zero(x):
            m = done.get(x)
            if m is None:
                m = done[x] = holds(x, keep)
            return m
        n = 0 if c.move == 'drop' else zero(OR(*xs))
        for p, x in zip(ps, xs):
            t = time.time()
            m = n
            if not m and p[7]:
                # simpler predicates that cover x
                m = 1
                for y in p[7]:
                    y = D.links(AND(c.pc, y)) if y else 0
                    k = zero(y) if m else 0
                    m = max(m, k) if k else 0
            if not m:
                m = zero(x)
            if m:
                job.add(prop, p[1], 'ok', m if x else 1)
            else:
                settle1(c, job, p, x)
            if DEBUG:
                print(p[:2], '%.1fs' % (time.time() - t), B.size(x), B.nodes())


def holds(x, keep):
    """number of instances examined if x is unsatisfiable, else 0"""
    if x == 0:
        return 1
    # with the opponent's king left uninterpreted: cheaper, and enough when it does not matter
    for kp in ((keep, ()) if keep else ((),)):
        for fix, y, n in G.instances(x, keep=kp):
            if fix is None:
                return n
            break
    return 0


def settle1(c, job, p, x):
    prop, ob, _, confirm, where, keep, kings, _ = p
    if x == 0:
        job.add(prop, ob, 'ok', 1)
        return
    where, reread = where if type(where) is tuple else (where, None)
    full = confirm
    left = [12]
    found = []
    if reread:
        def full(p, m):
            if confirm is not None and not confirm(p, m):
                return False
            left[0] -= 1
            ok = aside(reread, c.prog, p, m) if left[0] >= 0 else 'too many candidates'
            if type(ok) is list:
                found[:] = ok
                ok = True
            if ok is not True:
                job.stats.setdefault('not_confirmed', []).append([ob, p.sfen(), S.usi(m) if m else None, str(ok)])
            return ok is True
    st, n, w = W.search(c, x, full, kings)
    d = None
    if st == 'violated':
        pos, mv, path = w[2], w[3], w[4]
        d = dict(position=pos.sfen(), move=S.usi(mv) if mv else None, where=found or where)
    elif st == 'undecided':
        unk = sorted({D._desc[l][0] for l in B.support(w[1]) if D._desc[l][0] in ('hole', 'opq', 'ex')})
        d = dict(why='no legal position found among the solutions' + (', unknown: %s' % unk if unk else ''),
                 instance={k: v[1:] for k, v in w[0].items()})
    job.add(prop, ob, st, n, d)


def aside(fn, *args):
    """fn(*args) in a forked copy (it may reset the domain); an exception is returned as text"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # not outliving the analysis
        try:
            try:
                v = fn(*args)
            except BaseException as e:
                v = '%s: %s' % (type(e).__name__, str(e)[:200])
            os.write(w, json.dumps(v).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return json.loads(b) if b else 'no answer'


def is_listed(prog, p, m):
    return K.listed(prog, p, m) or False


def not_listed(prog, p, m):
    return not K.listed(prog, p, m)


def listed_twice(prog, p, m):
    r = K.listed(prog, p, m)
    return r if len(r) > 1 else False


def opq_kings(c):
    """the opaque tokens that are the first square of a set of kings"""
    return [t for t, i in D.TOKINFO.items() if i[0] == 'first']


def check_in_check(prog, side, own, opp='free', job=None):
    """C06/C19: Position::in_check of a freshly set up position"""
    job = job or Job('in_check side=%d king=%s' % (side, own))
    c = setup(prog, side, own_kings(side, own, opp), None)
    ref, st = fresh(c)
    r = c.call('in_check', [ref], St(st.pc, dict(st.mem)), ty='Position')
    f = r[0].f
    ksq = c.K.get(side)
    sp = SP.PP.attacked(ksq, 1 - side) if ksq else 0
    w = ['shogi position check status: Position::new -> in_check']
    report(c, job, 'C06', 'reported check without attacker', AND(f, NOT(sp)), lambda p, m: not p.checked(side), (w, lambda pr, p, m: K.in_check(pr, p)))
    report(c, job, 'C06', 'attacked king not reported', AND(sp, NOT(f)), lambda p, m: p.checked(side), (w, lambda pr, p, m: not K.in_check(pr, p)))
    return job.done(c)


def check_moves(prog, side, own, mv, want, opp='free'):
    """C08-C11, C13, C14 in one context"""
    job = Job('legal_moves side=%d king=%s move=%s' % (side, own, mv))
    c = setup(prog, side, own_kings(side, own, opp), mv)
    ref, st = fresh(c)
    r, _ = c.call('legal_moves', [ref], St(st.pc, dict(st.mem)), ty='Position')
    g = OR(*r.g)
    ksq = c.K.get(side)
    if mv == 'drop':
        drops(c, job, r, g, ksq, side, want)
    else:
        normals(c, job, r, g, ksq, side, mv, want)
    return job.done(c)


def normals(c, job, r, g, ksq, side, mv, want):
    promo = c.promo
    mvm, pr = SP.pseudo_normal(c.F, c.T, promo, side)
    KK = c.T if mv == 'king' else ksq
    att = SP.after_normal(c.F, c.T, promo, side).attacked(KK, 1 - side) if KK else 0
    push = lambda x: (['pushed by Position::legal_moves'], is_listed)
    lost = (['missing from the list built by Position::legal_moves'], not_listed)

    def ob(prop, name, x, confirm, where=None):
        if prop in want:
            report(c, job, prop, name, x, confirm, where or push(x))
    spec = AND(mvm, pr, NOT(att))
    ob('C08', 'emitted board move leaves the own king attacked', AND(g, att), lambda p, m: m[1] in p.b and not p.safe(m))
    ob('C09', 'emitted board move the piece cannot make', AND(g, NOT(mvm)),
       lambda p, m: p.pseudo(m) in ('piece', 'own', 'movement'))
    if 'C10' in want:
        lp = D._level[('flag', 'promo')]
        g1, g0 = B.cofactor(g, lp, 1), B.cofactor(g, lp, 0)
        own = [mkcode(k, side) for k in PROMO]
        allowed = AND(OR(*[D.pc(c.F, x) for x in own]), OR(SP.zone(c.F, side), SP.zone(c.T, side)))
        dead = OR(*[AND(D.pc(c.F, mkcode(k, side)), SP.dead(k, side, c.T)) for k in (1, 2, 3)])
        is1, is0 = promo, NOT(promo)
        ob('C10', 'promotion offered that is not allowed', AND(is1, g1, NOT(allowed)), lambda p, m: p.pseudo(m) == 'promotion')
        ob('C10', 'unpromoted move of a piece that could never move again', AND(is0, g0, dead), lambda p, m: p.pseudo(m) == 'dead')
        ob('C10', 'promotion not offered', AND(is1, g0, allowed, NOT(g1)), lambda p, m: p.legal(m), lost)
        ob('C10', 'move without promotion not offered', AND(is0, g1, NOT(dead), NOT(g0)), lambda p, m: p.legal(m), lost)
    ob('C13', 'legal board move missing', AND(spec, NOT(g)), lambda p, m: p.legal(m), lost)
    twice(c, job, r, want)
    if 'C14' in want and ksq:
        chk = SP.PP.attacked(ksq, 1 - side)
        ob('C14', 'reply to check missing', AND(chk, spec, NOT(g)), lambda p, m: p.checked(side) and p.legal(m), lost)
        ob('C14', 'move listed in check that is no reply to it', AND(chk, g, NOT(spec)),
           lambda p, m: p.checked(side) and not p.legal(m))


def twice(c, job, r, want):
    """no two pushes of the same move"""
    if 'C13' not in want:
        return
    x = OR(*c.I.dups) if c.I.dups else 0
    seen = 0
    for h in r.g:
        x = OR(x, AND(seen, h))
        seen = OR(seen, h)
    if x:
        x = AND(x, c.pc0)
    report(c, job, 'C13', 'move listed twice', x, None, (['pushed twice by Position::legal_moves'], listed_twice))


def drops(c, job, r, g, ksq, side, want):
    pcs = c.pcs
    base = SP.drop_ok(c.T, pcs, c.hands, side)
    att = SP.after_drop(c.T, pcs).attacked(ksq, 1 - side) if ksq else 0
    spec = AND(base, NOT(att))
    pawn = pcs[mkcode(1, side)]
    push = lambda x: (['pushed by Position::legal_moves'], is_listed)
    lost = (['missing from the list built by Position::legal_moves'], not_listed)
    # the pawn-drop-mate question is answered elsewhere (C12)
    gn = g
    for l in B.support(g):
        if D._desc[l][0] == 'hole' and D._desc[l][1] == 'mate':
            gn = B.cofactor(gn, l, 0)
    front = 0
    k = 24 if side == 0 else 8
    up = D.shift(c.T, 0, -1 if side == 0 else 1)
    z = D.fresh('f')
    front = D.EX(AND(D.eq((z, 0, 0), up), D.pc((z, 0, 0), k)), z)
    keep = opq_kings(c)

    def ob(prop, name, x, confirm, where=None, cover=None):
        if prop in want:
            report(c, job, prop, name, x, confirm, where or push(x), keep, cover=cover)
    mates = [l for l in B.support(g) if D._desc[l][0] == 'hole' and D._desc[l][1] == 'mate']
    gm = g
    for l in mates:
        gm = B.cofactor(gm, l, 1)
    if len(mates) > 1:
        gm = g
    # emitted drops: those emitted when not mate, and those emitted only when mate
    extra = AND(gm, NOT(gn))

    def both(x):
        return [AND(gn, x), AND(extra, x)] if len(mates) < 2 else None
    ob('C08', 'emitted drop leaves the own king attacked', AND(g, base, att), lambda p, m: not p.safe(m), cover=both(AND(base, att)))
    ob('C11', 'emitted drop breaks the drop rules', AND(g, NOT(base)), lambda p, m: p.pseudo(m) != '', cover=both(NOT(base)))
    ob('C11', 'emitted drop does not block the check', AND(g, base, att), lambda p, m: not p.safe(m), cover=both(AND(base, att)))
    ok = lambda p, m: p.legal(m)
    checks = AND(pawn, front)
    # refused because of the answer to the mate question
    refused = []
    for h in r.g:
        for l in B.support(h):
            if l in mates:
                h0, h1 = B.cofactor(h, l, 0), B.cofactor(h, l, 1)
                if h0:
                    x = AND(h0, NOT(h1), NOT(checks))
                    rel = (B.support(h1) - B.support(h0)) | B.support(checks)
                    for a in B.support(x):
                        if a not in rel and D._desc[a][0] in ('ex', 'opq'):
                            x = OR(B.cofactor(x, a, 0), B.cofactor(x, a, 1))
                    refused.append(x)
    for prop in ('C11', 'C13'):
        ob(prop, 'legal drop missing', AND(spec, NOT(OR(gn, checks))), ok, lost, [AND(spec, NOT(gn))])
        ob(prop, 'legal pawn drop in front of the king missing', AND(spec, checks, NOT(gn)), ok, lost, [AND(spec, NOT(gn))])
        ob(prop, 'drop other than a checking pawn refused', AND(spec, NOT(checks), NOT(g)), ok, lost,
           [AND(spec, NOT(gn))] + refused)
    ob('C12', 'pawn drop the opponent can answer is missing', AND(spec, checks, NOT(gn)), ok, lost, [AND(spec, NOT(gn))])
    twice(c, job, r, want)
    if 'C14' in want and ksq:
        chk = SP.PP.attacked(ksq, 1 - side)
        ob('C14', 'blocking drop missing', AND(chk, spec, NOT(gn)), lambda p, m: p.checked(side) and p.legal(m), lost)
        ob('C14', 'drop listed in check that is no reply to it', AND(chk, g, NOT(spec)),
           lambda p, m: p.checked(side) and not p.legal(m), cover=both(AND(chk, NOT(spec))))
