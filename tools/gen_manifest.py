#!/usr/bin/env python3
"""writes MANIFEST.json from the table of checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of MIR over canonical predicates (BDD domain), compared with the rules'
NOTE = ('Decides the property for every content of the other 80 squares and both hands, per (side, own king square) context; thorough covers all '
        '162, quick as many as fit its time budget in a fixed order (its evidence counts both). Trusts MIR construction, the dumper, the '
        'interpreter and its models of shogi_core/arrayvec, and spec.py. Obligations outside the analysable fragment are reported UNDECIDED, never passed over.')
PLAY = ('Decides the property for every content of the board (kings included), both hands and every move that obeys the rules, on positions with any number '
        'of earlier states; both sides. Trusts MIR construction, the dumper, the interpreter and its models of shogi_core/arrayvec, and spec.py. '
        'Obligations outside the analysable fragment are reported UNDECIDED, never passed over.')
CHECKS = {
    'C01': (AI, 'proof', PLAY + ' Equality of the whole value before and after, so every query (C17: queries are functions of that value) answers the same.'),
    'C02': (AI, 'proof', PLAY), 'C04': (AI, 'proof', PLAY),
    'C03': (AI, 'proof', PLAY + ' Every stored part is compared with that of a fresh set-up with the kings anywhere; only "no check status kept after a '
            'move that does give check" needs the square of the attacked king named: quick covers as many of those 324 contexts as fit its budget, thorough all.'),
    'C05': ('abstract interpretation of MIR: keys as exclusive-or of symbolic random words; linear independence over GF(2)', 'proof',
            'Complete for a fresh set-up of any position, both sides; C04 extends it to positions reached by moves. Trusts the model of the random '
            'generator: successive draws of one seeded generator are independent words.'),
    'C06': (AI, 'proof', NOTE + ' Quick covers all 164 contexts.'),
    'C07': (AI, 'proof', NOTE.replace('own king', 'opponent king')), 'C08': (AI, 'proof', NOTE), 'C09': (AI, 'proof', NOTE), 'C10': (AI, 'proof', NOTE), 'C11': (AI, 'proof', NOTE),
    'C16': ('bit-precise abstract interpretation of MIR (decision diagrams per bit) of every target\'s implementation, against set-algebra contracts', 'proof',
            'Every operation of the implementation selected for x86-64 (with and without AVX2, feature on and off), AArch64 and WebAssembly (with and without '
            'SIMD) computes the specified set, for all sets (algebra, membership, count, iteration) and all occupancies along every ray (sliding). The library '
            'code behind the vendor intrinsics is followed to portable vector operations; core is type-checked for each target from rust-src. thorough: six more feature sets.'),
    'C18': ('abstract interpretation of MIR (unchecked operations as obligations); bit-precise interpretation of square sets; target-feature analysis of the call graph', 'proof',
            'All positions, legal moves and target configurations C16 lists. Unsafe code outside the kinds decided is reported UNDECIDED.'),
    'C19': (AI, 'proof', 'Every content of a board lacking one or both kings. Same trust as C08 to C14.'),
    'C20': ('abstract interpretation of MIR: every panic condition as an obligation', 'proof', 'Every position and legal move; legal_moves per square of the '
            'own king. Assumes games shorter than 65,535 plies (the ply counter is 16 bits wide) and at most 593 moves (C21).'),
    'C17': ('effect and ownership analysis over the MIR call graph; compile-time witness crates; abstract interpretation of clone', 'proof',
            'All functions reachable from the public interface, default and AVX2 builds. The crates the analysis stops at (core, alloc, shogi_core, arrayvec, rand, '
            'once_cell) are judged by the names of what is called, not followed.'),
    'C12': (AI + '; mate question decided reply by reply', 'proof', 'Every square of the opponent\'s king, every content of the other squares, both hands, both sides '
            '(quick covers all contexts on an idle 8-core machine). Assumes the opponent is not in check before the drop (no legal position has that). Same trust as C08 to C14.'),
    'C15': ('abstract interpretation of MIR over canonical predicates (BDD domain), once per side; the predicate for White, rotated, compared with the one for Black', 'proof',
            'Every content of the board with the kings on unknown squares or absent, both hands and every move, in 19 contexts, all in quick. Needs no statement of the rules: '
            'only agreement of the two sides. Trusts MIR construction, the dumper, the interpreter and its models of shogi_core/arrayvec.'),
    'C13': (AI, 'proof', NOTE), 'C14': (AI, 'proof', NOTE),
}
NA = {
    'C21': 'the bound 593 on the number of legal moves is a combinatorial maximum over all reachable positions: no sound static argument in reach bounds it (summing per-piece maxima gives far more than 593)',
    'C22': 'a statement about the probability of collisions of 63-bit random values over pairs of positions in play: not a property of the source that a static analysis could decide (the structural part, independent draws per feature, is C05)',
}
PENDING = 'not claimed yet: check under construction'
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[],
         notes='checks/run.py ID [quick|thorough] analyses the source of /repo (dumped as MIR on every run); see DESIGN.md. KNOWN_FINDINGS lists known and fixed findings.')
for p in props:
    if p in CHECKS:
        t, l, n = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 checks/run.py %s quick' % p, thorough_cmd='python3 checks/run.py %s thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=t, level=l, level_note=n))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, PENDING)))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
