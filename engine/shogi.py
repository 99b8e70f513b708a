"""Concrete rules of shogi on explicit boards: used only to validate the witness positions that the
decision procedure reports (are they legal positions, do the rules say what the predicate says)."""
PROMO = {1: 9, 2: 10, 3: 11, 4: 12, 6: 13, 7: 14}
UNPROMO = {v: k for k, v in PROMO.items()}
GOLD = [(0, -1), (0, 1), (-1, 0), (1, 0), (-1, -1), (1, -1)]
STEP = {1: [(0, -1)], 3: [(-1, -2), (1, -2)], 4: [(0, -1), (-1, -1), (1, -1), (-1, 1), (1, 1)], 5: GOLD, 9: GOLD, 10: GOLD,
        11: GOLD, 12: GOLD, 8: [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b],
        13: [(0, -1), (0, 1), (-1, 0), (1, 0)], 14: [(-1, -1), (-1, 1), (1, -1), (1, 1)]}
DIAG = [(-1, -1), (-1, 1), (1, -1), (1, 1)]
ORTH = [(0, -1), (0, 1), (-1, 0), (1, 0)]
SLIDE = {2: [(0, -1)], 6: DIAG, 13: DIAG, 7: ORTH, 14: ORTH}
MAXN = {1: 18, 2: 4, 3: 4, 4: 4, 5: 4, 6: 2, 7: 2, 8: 2}
LET = {1: 'P', 2: 'L', 3: 'N', 4: 'S', 5: 'G', 6: 'B', 7: 'R', 8: 'K', 9: '+P', 10: '+L', 11: '+N', 12: '+S', 13: '+B', 14: '+R'}


def kind(c):
    return c & 15


def color(c):
    return c >> 4


def on(s):
    return 0 <= s[0] <= 8 and 0 <= s[1] <= 8


class Pos:
    """board: {(file,rank): code} without empties; hands: two lists of 7 counts; side 0/1"""

    def __init__(s, board, hands, side):
        s.b, s.h, s.side = dict(board), [list(hands[0]), list(hands[1])], side

    def targets(s, a):
        """squares attacked by the piece on a"""
        c = s.b[a]
        sg = 1 if color(c) == 0 else -1
        for d in STEP.get(kind(c), ()):
            t = (a[0] + sg * d[0], a[1] + sg * d[1])
            if on(t):
                yield t
        for d in SLIDE.get(kind(c), ()):
            t = a
            while True:
                t = (t[0] + sg * d[0], t[1] + sg * d[1])
                if not on(t):
                    break
                yield t
                if t in s.b:
                    break

    def attackers(s, q, side):
        return [a for a, c in s.b.items() if color(c) == side and q in s.targets(a)]

    def king(s, side):
        return next((a for a, c in s.b.items() if c == 8 + 16 * side), None)

    def checked(s, side):
        k = s.king(side)
        return k is not None and bool(s.attackers(k, 1 - side))

    def valid(s):
        """a legal position, as far as the rules of the board tell"""
        n = {}
        for a, c in s.b.items():
            k = kind(c)
            k = UNPROMO.get(k, k)
            n[k] = n.get(k, 0) + 1
            if dead(kind(c), color(c), a):
                return False
        for h in s.h:
            for k, m in enumerate(h):
                n[k + 1] = n.get(k + 1, 0) + m
        if any(m > MAXN[k] for k, m in n.items()):
            return False
        for side in (0, 1):
            if sum(1 for c in s.b.values() if c == 8 + 16 * side) > 1:
                return False
            fs = [a[0] for a, c in s.b.items() if c == 1 + 16 * side]
            if len(fs) != len(set(fs)):
                return False
        if s.checked(1 - s.side):
            return False
        k = s.king(s.side)
        if k:
            at = s.attackers(k, 1 - s.side)
            if len(at) > 2 or (len(at) == 2 and not any(kind(s.b[a]) in SLIDE for a in at)):
                return False
        return True

    def play(s, m):
        p = Pos(s.b, s.h, 1 - s.side)
        if m[0] == 'd':
            _, code, t = m
            p.b[t] = code
            p.h[s.side][kind(code) - 1] -= 1
        else:
            _, f, t, pr = m
            c = p.b.pop(f)
            v = p.b.get(t)
            if v is not None and kind(v) != 8:
                k = kind(v)
                p.h[s.side][UNPROMO.get(k, k) - 1] += 1
            p.b[t] = c - kind(c) + PROMO[kind(c)] if pr else c
        return p

    def pseudo(s, m):
        """'' or what the move violates, king safety and pawn-drop mate apart"""
        sd = s.side
        if m[0] == 'd':
            _, code, t = m
            k = kind(code)
            if s.h[sd][k - 1] == 0 or color(code) != sd:
                return 'hand'
            if t in s.b:
                return 'occupied'
            if dead(k, sd, t):
                return 'dead'
            if k == 1 and any(s.b.get((t[0], r)) == 1 + 16 * sd for r in range(9)):
                return 'nifu'
            return ''
        _, f, t, pr = m
        c = s.b.get(f)
        if c is None or color(c) != sd:
            return 'piece'
        v = s.b.get(t)
        if v is not None and color(v) == sd:
            return 'own'
        if t not in s.targets(f):
            return 'movement'
        if pr:
            if kind(c) not in PROMO or not (zone(f, sd) or zone(t, sd)):
                return 'promotion'
        elif dead(kind(c), sd, t):
            return 'dead'
        return ''

    def safe(s, m):
        return not s.play(m).checked(s.side)

    def moves(s):
        sd = s.side
        for f, c in list(s.b.items()):
            if color(c) == sd:
                for t in s.targets(f):
                    for pr in (False, True):
                        m = ('n', f, t, pr)
                        if not s.pseudo(m):
                            yield m
        for k in range(1, 8):
            if s.h[sd][k - 1]:
                for f in range(9):
                    for r in range(9):
                        m = ('d', k + 16 * sd, (f, r))
                        if not s.pseudo(m):
                            yield m

    def pawn_drop_mate(s, m):
        if m[0] != 'd' or kind(m[1]) != 1:
            return False
        p = s.play(m)
        return p.checked(p.side) and not any(p.safe(x) for x in p.moves())

    def legal(s, m):
        return not s.pseudo(m) and s.safe(m) and not s.pawn_drop_mate(m)

    def sfen(s):
        rows = []
        for r in range(9):
            row, e = '', 0
            for f in range(8, -1, -1):
                c = s.b.get((f, r))
                if c is None:
                    e += 1
                    continue
                if e:
                    row += str(e)
                    e = 0
                l = LET[kind(c)]
                row += l if color(c) == 0 else l.lower()
            if e:
                row += str(e)
            rows.append(row)
        h = ''
        for sd in (0, 1):
            for k in (7, 6, 5, 4, 3, 2, 1):
                n = s.h[sd][k - 1]
                if n:
                    l = LET[k] if sd == 0 else LET[k].lower()
                    h += (str(n) if n > 1 else '') + l
        return '%s %s %s 1' % ('/'.join(rows), 'bw'[s.side], h or '-')


def dead(k, c, t):
    r = t[1] if c == 0 else 8 - t[1]
    return r < {1: 1, 2: 1, 3: 2}.get(k, 0)


def zone(t, c):
    return t[1] <= 2 if c == 0 else t[1] >= 6


def usi(m):
    q = lambda a: '%d%s' % (a[0] + 1, 'abcdefghi'[a[1]])
    if m[0] == 'd':
        return LET[kind(m[1])] + '*' + q(m[2])
    return q(m[1]) + q(m[2]) + ('+' if m[3] else '')
