"""What each property's check analyses."""
from concurrent.futures import ThreadPoolExecutor
from run import Task
import moves as M
import play as P
import keys as Y
import sets as Z
import outside as O
import effects as E
import mate as MT
import mirror as MI
from interp import Prog
from models import PROMO

TRUSTED = ['rustc nightly MIR construction', 'driver/ (MIR to JSON)', 'engine/ (abstract interpreter, predicate domain, grounding)',
           'models of shogi_core, arrayvec, once_cell, rand and core library calls (engine/models.py)', 'engine/spec.py (the rules)']
ASSUMPTIONS = ['shogi_core and arrayvec behave as documented (modelled, not analysed)',
               'square-set primitives meet their contract (decided separately by C16)',
               'no integer or square outside the ranges their types allow enters through unsafe code of the caller']

C = lambda f, r: ('C', f, r)
ALL = [C(f, r) for f in range(9) for r in range(9)]
# most different situations first: centre, corners, edges, promotion-zone borders
FIRST = [C(*x) for x in ((4, 4), (0, 0), (8, 8), (4, 8), (4, 0), (0, 8), (8, 0), (0, 4), (8, 4), (4, 6), (4, 2), (2, 5), (6, 3), (1, 7), (7, 1),
                         (5, 5), (3, 3), (6, 7), (2, 2), (1, 1), (7, 7))]
SQUARES = FIRST + [s for s in ALL if s not in FIRST]


def contexts(alternate=True):
    """(side, own king square): every square for both sides, interleaved"""
    r = []
    for i, s in enumerate(SQUARES):
        for side in ((0, 1) if i % 2 == 0 else (1, 0)):
            r.append((side, s))
    return r


def default(sc):
    return Prog(sc.dump())


def own_moves(prop, mvs):
    def tasks(sc, tier, seed):
        p = default(sc)
        ts = []
        for side, k in contexts():
            for mv in mvs:
                ts.append(Task('side=%d king=%d,%d move=%s' % (side, k[1] + 1, k[2] + 1, mv), M.check_moves, p, side, k, mv, {prop}))
        return ts
    return tasks


def c05(sc, tier, seed):
    p = default(sc)
    return [Task('side=%d' % s, Y.check_keys, p, s) for s in (0, 1)]


def c06(sc, tier, seed):
    p = default(sc)
    ts = [Task('side=%d no king' % s, M.check_in_check, p, s, 'none') for s in (0, 1)]
    ts += [Task('side=%d king=%d,%d' % (side, k[1] + 1, k[2] + 1), M.check_in_check, p, side, k) for side, k in contexts()]
    return ts


def opp_moves(fn, mvs, none=True):
    """contexts with the square of the king that is not to move named"""
    def tasks(sc, tier, seed):
        p = default(sc)
        ts = []
        for side, k in contexts():
            for mv in mvs:
                ts.append(Task('side=%d opponent king=%d,%d move=%s' % (side, k[1] + 1, k[2] + 1, mv), fn, p, side, k, mv))
        return ([Task('side=%d no opponent king move=%s' % (side, mv), fn, p, side, 'none', mv) for side in (0, 1) for mv in mvs]
                if none else []) + ts
    return tasks


def board_moves(prop):
    def tasks(sc, tier, seed):
        p = default(sc)
        return [Task('side=%d move=%s' % (side, mv), P.check_board, p, side, mv, {prop}) for side in (0, 1) for mv in ('piece', 'drop')]
    return tasks


def c03(sc, tier, seed):
    p = default(sc)
    ts = []
    for side in (0, 1):
        for mv in ('piece-', 'piece+'):
            kings = ('free', 'KW') if side == 0 else ('KB', 'free')
            n = 'side=%d king anywhere move=%s' % (side, mv)
            kinds = range(1, 15) if mv == 'piece-' else PROMO
            ts.append(Task(n, P.check_state, p, side, kings, mv, limit=400,
                           parts=[Task(n + ' kind=%d' % k, P.check_state, p, side, kings, mv, k + 16 * side, limit=400) for k in kinds]))
    for side in (0, 1):
        for mv in ('piece-', 'piece+', 'drop'):
            ts.append(Task('side=%d no opponent king move=%s' % (side, mv), P.check_state, p, side, ('free', 'none') if side == 0 else ('none', 'free'), mv))
        for mv in ('piece', 'king', 'drop'):
            k = ('C', 4, 4)
            ts.append(Task('side=%d queries move=%s' % (side, mv), P.check_queries, p, side, (k, 'free') if side == 0 else ('free', k), mv))
    for side, k in contexts():
        n = 'side=%d opponent king=%d,%d move=' % (side, k[1] + 1, k[2] + 1)
        ts.append(Task(n + 'piece', P.check_quiet, p, side, k, 'piece'))
        ts.append(Task(n + 'drop', P.check_state, p, side, ('free', k) if side == 0 else (k, 'free'), 'drop'))
    return ts


X86, ARM, WASM = 'x86_64-unknown-linux-gnu', 'aarch64-unknown-linux-gnu', 'wasm32-unknown-unknown'
CONFIGS = [('x86-64 with AVX2, simd', X86, ['-Ctarget-cpu=x86-64-v3'], True), ('x86-64, simd off', X86, [], False),
           ('AArch64 with NEON, simd', ARM, [], True), ('WebAssembly with SIMD, simd', WASM, ['-Ctarget-feature=+simd128'], True),
           ('x86-64 without AVX2, simd', X86, [], True), ('WebAssembly without SIMD, simd', WASM, [], True)]
MORE = [('x86-64 with SSE4.2, simd', X86, ['-Ctarget-cpu=x86-64-v2'], True), ('x86-64 with AVX-512, simd', X86, ['-Ctarget-cpu=x86-64-v4'], True),
        ('x86-64 with AVX only, simd', X86, ['-Ctarget-feature=+avx'], True), ('x86-64 with AVX2, simd off', X86, ['-Ctarget-cpu=x86-64-v3'], False),
        ('AArch64, simd off', ARM, [], False), ('WebAssembly with SIMD, simd off', WASM, ['-Ctarget-feature=+simd128'], False)]


def targets(sc, cs):
    for t in {c[1] for c in cs}:
        sc.core(t)
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(lambda i: sc.target('cfg%d' % i, *cs[i][1:]), range(len(cs))))


def as_prop(prop, fn, *args):
    """the obligations of a context, counted for another property"""
    job = fn(*args)
    job.rows = [(prop,) + tuple(r[1:]) for r in job.rows]
    return job


def aborting(prop, p, kings=None):
    """every call of the interface, for every position and legal move: the operations that can panic or go wrong"""
    ts = []
    for side in (0, 1):
        for mv in ('piece', 'drop'):
            for k in kings or [('free', 'free')]:
                ts.append(Task('do/undo side=%d move=%s kings=%s' % (side, mv, k), P.check_abort_play, p, side, mv, prop, k))
                ts.append(Task('is_check_move side=%d move=%s kings=%s' % (side, mv, k), P.check_abort_test, p, side, mv, prop, k))
    return ts


def listing(prop, p, opp):
    """the king on an unknown square; square by square where that is too coarse"""
    name = 'legal_moves side=%d king=%s other=%s'
    return [Task(name % (side, 'anywhere', opp), P.check_abort_list, p, side, 'KO', opp, prop,
                 parts=[Task(name % (side, '%d,%d' % (k[1] + 1, k[2] + 1), opp), P.check_abort_list, p, side, k, opp, prop)
                        for k in SQUARES]) for side in (0, 1)]


def c12(sc, tier, seed):
    p = default(sc)
    front = lambda side, k: 0 <= k[2] + (1 if side == 0 else -1) <= 8
    refused = lambda s, own, name: Task('side=%d mate question, %s' % (s, name), MT.check_refused, p, s, own,
                                        parts=[Task('side=%d mate question, %s, opponent king=%d,%d' % (s, name, k[1] + 1, k[2] + 1), MT.check_refused, p, s, own, k)
                                               for k in SQUARES if front(s, k)])
    ts = [refused(s, *x) for s in (0, 1) for x in (('KO', 'kings anywhere'), ('none', 'no own king'))]
    for side, k in contexts():
        if front(side, k):
            ts.append(Task('side=%d opponent king=%d,%d' % (side, k[1] + 1, k[2] + 1), MT.check_mate, p, side, k))
    for side, k in contexts():
        ts.append(Task('side=%d own king=%d,%d move=drop' % (side, k[1] + 1, k[2] + 1), M.check_moves, p, side, k, 'drop', {'C12'}))
    return ts


def c15(sc, tier, seed):
    p = default(sc)
    name = lambda q, own, opp, mv: '%s own king=%s other king=%s%s' % (q, own if type(own) is str else '%d,%d' % (own[1] + 1, own[2] + 1),
                                                                        opp if type(opp) is str else '%d,%d' % (opp[1] + 1, opp[2] + 1), ' move=' + mv if mv else '')
    task = lambda q, own, opp, mv, parts=(): Task(name(q, own, opp, mv), MI.check_mirror, p, q, own, opp, mv, parts=list(parts))
    mine = lambda q, mv: [task(q, k, 'free', mv) for k in SQUARES]
    theirs = lambda q, mv, own: [task(q, own, k, mv) for k in SQUARES if q != 'mate' or k[2] < 8]
    ts = [task('in_check', 'KO', x, None, mine('in_check', None)) for x in ('free', 'none')]
    ts += [task('legal_moves', 'KO', x, mv, mine('legal_moves', mv)) for mv in ('king', 'piece') for x in ('free', 'none')]
    ts += [task('is_check_move', own, 'KP', mv, theirs('is_check_move', mv, own)) for mv in ('piece', 'drop', 'king') for own in (('KO',) if mv == 'king' else ('free', 'none'))]
    ts += [task('legal_moves', 'KO', x, 'drop', mine('legal_moves', 'drop')) for x in ('KP', 'none')]
    ts += [task('legal_moves', 'none', x, mv) for mv, x in (('piece', 'free'), ('drop', 'KP'), ('piece', 'none'), ('drop', 'none'))]
    ts += [task('mate', own, 'KP', None, theirs('mate', None, own)) for own in ('free', 'none')]
    return ts


def c20(sc, tier, seed):
    p = default(sc)
    return aborting('C20', p) + [Task('legal_moves side=%d no king' % s, P.check_abort_list, p, s, 'none', 'free', 'C20') for s in (0, 1)] + listing('C20', p, 'free')


def c19(sc, tier, seed):
    p = default(sc)
    ts = aborting('C19', p, [('none', 'none'), ('none', 'free'), ('free', 'none')])
    for side in (0, 1):
        for opp in ('none', 'free'):
            ts.append(Task('legal_moves side=%d no king other=%s' % (side, opp), P.check_abort_list, p, side, 'none', opp, 'C19'))
            ts.append(Task('in_check side=%d no king other=%s' % (side, opp), as_prop, 'C19', M.check_in_check, p, side, 'none', opp))
            for mv in ('piece', 'drop'):
                w = {'C08', 'C09', 'C10', 'C11', 'C13'}
                name = 'moves side=%d no king other=%s move=%s'
                ts.append(Task(name % (side, opp, mv), as_prop, 'C19', M.check_moves, p, side, 'none', mv, w, opp, limit=100,
                               parts=[Task(name % (side, '%d,%d' % (k[1] + 1, k[2] + 1), mv), as_prop, 'C19', M.check_moves, p, side, 'none', mv, w, k)
                                      for k in SQUARES] if opp == 'free' else []))
        for mv in ('piece', 'king', 'drop'):
            ts.append(Task('is_check_move side=%d no opponent king move=%s' % (side, mv), as_prop, 'C19', P.check_is_check, p, side, 'none', mv))
    return ts + listing('C19', p, 'none')


UB = ('misaligned', 'read outside', 'write outside', 'undefined ', 'false assumption', 'unreachable code', 'vector shift', 'nounwind', 'precondition')


def as_ub(path, label, group):
    """the undefined-behaviour obligations met while interpreting an implementation of square sets"""
    job = Z.check(path, label, group)
    n = sum(r[3] for r in job.rows)
    bad = [r for r in job.rows if r[2] == 'undecided' or r[2] == 'violated' and any(u in r[1] for u in UB)]
    job.rows = [('C18',) + tuple(r[1:]) for r in bad] or [('C18', '%s: %s: no undefined operation' % (label, group), 'ok', n, None)]
    return job


def c18(sc, tier, seed):
    path = sc.dump()
    p = Prog(path)
    cs = CONFIGS + (MORE if tier == 'thorough' else [])
    ps = targets(sc, cs)
    ts = [Task('%s: features' % c[0], O.check_features, q, c[0]) for c, q in zip(cs, ps)]
    ts.append(Task('unsafe operations', O.check_unsafe, path))
    ts += [Task('%s: %s' % (c[0], g), as_ub, q, c[0], g) for g in sorted(Z.GROUPS, key=lambda g: g != 'pairs') for c, q in zip(cs, ps)]
    return ts + aborting('C18', p) + listing('C18', p, 'free')


def c16(sc, tier, seed):
    cs = CONFIGS + (MORE if tier == 'thorough' else [])
    ps = targets(sc, cs)
    ts = [Task('%s: %s' % (c[0], g), Z.check, p, c[0], g) for g in sorted(Z.GROUPS, key=lambda g: g != 'pairs') for c, p in zip(cs, ps)]
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda x: sc.expanded(*x), [('plain',), ('simd', ['--features', 'simd'], '-C target-cpu=x86-64-v3')])
    return ts + [Task('code outside the module', O.check_outside, a, b, sc.src, 'x86-64 with AVX2, simd')]


def c17(sc, tier, seed):
    simd = dict(RUSTFLAGS='-C target-cpu=x86-64-v3')
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda x: sc.dump(*x), [('default',), ('simd', ['--features', 'simd'], simd)])
    p = Prog(a)
    return [Task('effects', E.check_effects, a), Task('effects, simd', E.check_effects, b),
            Task('witness crates', E.check_witness, sc.src, sc.dir + '/witness')] + \
        [Task('clone side=%d' % s, P.check_clone, p, s) for s in (0, 1)]


PLAYRULE = ('for each side, with the contents of all squares (kings included), both hands and a move that obeys the rules unknown')
MOVERULE = ('for each side and each square of the mover\'s king, with the contents of all other squares, both hands and the queried move '
            'unknown: the guard under which the abstract interpretation of legal_moves pushes the move is compared with the rule')
PROPS = {
    'C01': dict(tasks=board_moves('C01'), level='proof', rule=PLAYRULE + ', on a position with any number of earlier states: every part of '
                'the value after do_move and undo_move equals what it was before'),
    'C02': dict(tasks=board_moves('C02'), level='proof', rule=PLAYRULE + ': piece_at of any square, hand, side_to_move and ply after do_move '
                'equal what the rules say'),
    'C03': dict(tasks=c03, level='proof', budget=dict(quick=140, thorough=7200), rule=PLAYRULE + ': every part of the position kept after '
                'do_move (board, hands, sets, pins, checking squares, check status) equals that of a fresh set-up of the same board; parts '
                'that tell how the position was reached are read by no query'),
    'C04': dict(tasks=board_moves('C04'), level='proof', rule=PLAYRULE + ': keys and key after do_move equal those of a fresh set-up, '
                'after undo_move those before'),
    'C05': dict(tasks=c05, level='proof',
                rule='the keys of a fresh set-up as sets of random words, each with the predicate under which it is included: key is the exclusive-or '
                'of the pair, the first depends on no hand and the second on no square, the side flips bit 0 alone, and the words of all 2268 pieces '
                'on squares and 76 further pieces in hand are linearly independent'),
    'C06': dict(tasks=c06, level='proof', rule='for each side and king square, with the contents of all other squares unknown: the predicate '
                'computed for in_check by abstract interpretation of Position::new and in_check equals "some enemy piece attacks the king"'),
    'C07': dict(tasks=opp_moves(P.check_is_check, ('piece', 'drop')), level='proof', rule='for each side and each square of the opponent\'s '
                'king, with the contents of all other squares, both hands and the move unknown: the predicate computed for is_check_move '
                'equals "after the move the mover attacks that king", for every move that obeys the rules when the opponent is not in check'),
    'C08': dict(tasks=own_moves('C08', ('piece', 'king', 'drop')), level='proof', rule=MOVERULE + ': no emitted move leaves the own king attacked'),
    'C09': dict(tasks=own_moves('C09', ('piece', 'king')), level='proof', rule=MOVERULE + ': emitted board moves follow the movement of the piece'),
    'C10': dict(tasks=own_moves('C10', ('piece', 'king')), level='proof', rule=MOVERULE + ': promotion offered iff allowed, omitted iff not forced'),
    'C11': dict(tasks=own_moves('C11', ('drop',)), level='proof', rule=MOVERULE + ': drops emitted exactly when the drop rules allow'),
    'C12': dict(tasks=c12, level='proof', budget=dict(quick=150, thorough=7200), rule='for each side and each square of the opponent\'s king, with the pawn '
                'dropped in front of it and the contents of all other squares and both hands unknown: the answer computed for the mate question is "mate" exactly when no '
                'reply (king step, capture of the pawn) is legal, decided reply by reply; legal_moves pushes that drop exactly when the answer is "no mate" and the other rules allow it'),
    'C13': dict(tasks=own_moves('C13', ('piece', 'king', 'drop')), level='proof', rule=MOVERULE + ': every legal move is pushed, and pushed once'),
    'C15': dict(tasks=c15, level='proof', budget=dict(quick=90, thorough=7200), rule='with the contents of all squares (kings included), both hands and the queried '
                'move unknown: the predicate computed for White, carried over to the board rotated by 180 degrees with all colours exchanged, equals the one computed for '
                'Black: check status, checking moves, legal moves and the answer to the mate question'),
    'C16': dict(tasks=c16, level='proof', trusted=['rustc nightly MIR construction', 'driver/ (MIR to JSON)', 'engine/bits.py (bit-precise interpreter, '
                'portable vector operations and three LLVM intrinsics)', 'engine/sets.py (the contracts)'],
                assumptions=['the compiler lowers the portable vector operations of core as specified',
                             'files() is asked about sets with at most one member per file, shifts about sets without members on the rank shifted out '
                             '(own unpromoted pawns: no legal position has others)'],
                rule='for the implementation each target and feature set selects: the bits every operation computes, as predicates of the members of its '
                'input sets (library code followed down to portable vector operations), equal those of the set the operation stands for: algebra, '
                'membership, count, iteration for all sets; sliding for all occupancies along the rays of every square'),
    'C18': dict(tasks=c18, level='proof', budget=dict(quick=90, thorough=7200), trusted=TRUSTED + ['engine/bits.py (bit-precise interpreter)'],
                rule='for every position and legal move: no unchecked construction of a square, unchecked index or unreachable hint is reached with a bad '
                'value; in every implementation of square sets no access outside an object, undefined shift or violated library precondition; no function '
                'calls one that needs CPU features its target lacks'),
    'C19': dict(tasks=c19, level='proof', budget=dict(quick=60, thorough=7200),
                rule='with one or both kings absent and everything else unknown: no operation that can panic is reached in setting up, the queries, playing and '
                'taking back; check status, checking moves and legal moves are those of the rules without the restrictions of the absent king'),
    'C20': dict(tasks=c20, level='proof', budget=dict(quick=90, thorough=7200), assumptions=ASSUMPTIONS + ['games shorter than 65,535 plies'],
                rule='for every position and legal move: the condition under which each assertion, index, unwrap and arithmetic check can fail is unsatisfiable'),
    'C17': dict(tasks=c17, level='proof', trusted=['rustc (type checker, trait solver)', 'driver/ (MIR to JSON)', 'engine/effects.py (the deny-list and the crates '
                'taken as free of hidden inputs: core, alloc, shogi_core, arrayvec, rand with a constant seed, once_cell)', 'engine/ (abstract interpreter) for the clone'],
                assumptions=['shogi_core, arrayvec, rand and once_cell have no hidden inputs where the crate calls them'],
                rule='no function reachable from the public interface calls anything that reads time, environment, randomness, addresses or shared mutable state; '
                'statics are immutable after initialisation; nothing is written through a shared reference; a position owns its parts; witness crates compile '
                'exactly when positions are Send + Sync + Clone + \'static and queries take &self; the value returned by clone equals the original'),
    'C14': dict(tasks=own_moves('C14', ('piece', 'king', 'drop')), level='proof', rule=MOVERULE + ': in check the list is exactly the replies'),
}
