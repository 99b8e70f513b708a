"""The rules of shogi as predicates over the abstract position: the oracle the code is compared with.
Written from the rules, not from the code: who attacks what, what a legal move is."""
import dom as D
from bdd import AND, OR, NOT, XOR, ITE, IFF, IMP
from models import kind, color, mkcode, PROMO, UNPROMO

PAWN, LANCE, KNIGHT, SILVER, GOLD, BISHOP, ROOK, KING = range(1, 9)
GOLDLIKE = (5, 9, 10, 11, 12)
HORSE, DRAGON = 13, 14
N, S_, E, W, NE, NW, SE, SW = 'N', 'S', 'E', 'W', 'NE', 'NW', 'SE', 'SW'
ORTH, DIAG = (N, S_, E, W), (NE, NW, SE, SW)

# one-step and sliding directions of Black's pieces
STEPS = {PAWN: [(0, -1)], KNIGHT: [(-1, -2), (1, -2)],
         SILVER: [(0, -1), (-1, -1), (1, -1), (-1, 1), (1, 1)],
         KING: [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b],
         HORSE: [(0, -1), (0, 1), (-1, 0), (1, 0)], DRAGON: [(-1, -1), (-1, 1), (1, -1), (1, 1)]}
for _k in GOLDLIKE:
    STEPS[_k] = [(0, -1), (0, 1), (-1, 0), (1, 0), (-1, -1), (1, -1)]
SLIDES = {LANCE: [N], BISHOP: list(DIAG), ROOK: list(ORTH), HORSE: list(DIAG), DRAGON: list(ORTH)}
FLIP = {N: S_, S_: N, E: W, W: E, NE: SW, SW: NE, NW: SE, SE: NW}


def steps(k, c):
    s = STEPS.get(k, [])
    return s if c == 0 else [(-a, -b) for a, b in s]


def slides(k, c):
    s = SLIDES.get(k, [])
    return s if c == 0 else [FLIP[d] for d in s]


class Bd:
    """a board: what stands on a square, given square by square"""

    def __init__(s, at):
        s.at = at       # at(term, code) -> predicate; code 0 = empty

    def occ(s, t):
        return NOT(s.at(t, 0))

    def own(s, t, c):
        return OR(*[s.at(t, x) for x in D.CODES if color(x) == c])

    def clear(s, a, b):
        """no piece strictly between two squares on a line"""
        z = D.fresh('c')
        Z = (z, 0, 0)
        return NOT(D.EX(AND(D.between(a, b, Z), s.occ(Z)), z))

    def reach(s, k, c, a, b, clear=None):
        """a piece of kind k and colour c standing on a can go to (or attacks) b"""
        r = 0
        for df, dr in steps(k, c):
            r = OR(r, D.delta(a, b, df, dr))
        sl = OR(*[D.ray(a, b, d) for d in slides(k, c)])
        if sl:
            r = OR(r, AND(sl, s.clear(a, b) if clear is None else clear))
        return AND(r, D.valid(a), D.valid(b))

    def attackers(s, sq, c, z):
        """the square z holds a piece of colour c that attacks sq"""
        cl = s.clear(z, sq)
        return OR(*[AND(s.at(z, mkcode(k, c)), s.reach(k, c, z, sq, cl)) for k in range(1, 15)])

    def attacked(s, sq, c, kinds=None):
        z = D.fresh('a')
        Z = (z, 0, 0)
        return D.EX(s.attackers(sq, c, Z), z)


PP = Bd(D.pc)


def zone(t, c):
    return OR(*[D.req(t, r) for r in ((0, 1, 2) if c == 0 else (6, 7, 8))])


def dead(k, c, t):
    """a piece of kind k and colour c on t could never move again"""
    last = {PAWN: 1, LANCE: 1, KNIGHT: 2}.get(k, 0)
    return OR(*[D.req(t, (r if c == 0 else 8 - r)) for r in range(last)])


def after_normal(F, T, promo, side):
    """the board after moving F to T"""
    def at(t, x):
        moved = 0
        if x and color(x) == side:
            if kind(x) in UNPROMO:
                moved = OR(moved, AND(promo, D.pc(F, mkcode(UNPROMO[kind(x)], side))))
                moved = OR(moved, AND(NOT(promo), D.pc(F, x)))
            elif kind(x) in PROMO:
                moved = AND(NOT(promo), D.pc(F, x))
            else:
                moved = D.pc(F, x)
        return ITE(D.eq(t, T), moved, ITE(D.eq(t, F), 1 if x == 0 else 0, D.pc(t, x)))
    return Bd(at)


def after_drop(T, pcs):
    def at(t, x):
        return ITE(D.eq(t, T), pcs.get(x, 0), D.pc(t, x))
    return Bd(at)


def pseudo_normal(F, T, promo, side):
    """(movement, promotion) conditions of a board move"""
    mv = 0
    pr = 0
    cl = PP.clear(F, T)
    for k in range(1, 15):
        me = D.pc(F, mkcode(k, side))
        mv = OR(mv, AND(me, PP.reach(k, side, F, T, cl)))
        allowed = OR(zone(F, side), zone(T, side)) if k in PROMO else 0
        pr = OR(pr, AND(me, ITE(promo, allowed, NOT(dead(k, side, T)))))
    return AND(mv, NOT(PP.own(T, side))), pr


def nifu(T, side):
    z = D.fresh('n')
    Z = (z, 0, 0)
    return D.EX(AND(D.diff(T, Z, 0, 0), D.pc(Z, mkcode(PAWN, side))), z)


def drop_ok(T, pcs, hands, side):
    """the drop is legal apart from king safety and the pawn-drop-mate rule"""
    r = 0
    for x, g in pcs.items():
        k = kind(x)
        ok = AND(g, NOT(hands[side].n[k - 1].c[(0, ())]), D.pc(T, 0), NOT(dead(k, side, T)))
        if k == PAWN:
            ok = AND(ok, NOT(nifu(T, side)))
        r = OR(r, ok)
    return r
