"""Analysis contexts: which squares are named, what is assumed of the position, the query move."""
import dom as D
import bdd as B
from bdd import AND, OR, NOT, XOR, ITE
import values as VV
from values import *
from interp import Interp, Prog, St
from models import Models, Board, kind, color, mkcode, PROMO, UNPROMO
from shogi import MAXN


class Ctx:
    """one abstract position and (optionally) one abstract move.

    kings: per side 'none' (no king on the board), 'free' (an ordinary piece, any number of them), a
    constant square ('C', f, r) or a token name
    move:  None | 'piece' | 'king' | 'drop'"""

    def __init__(s, prog, side=0, kings=('KB', 'KW'), move=None, to=None):
        s.prog, s.side, s.kings, s.move = prog, side, kings, move
        named = []
        s.K = {}
        bg = [c for c in D.CODES if c not in (8, 24)]
        for c, code in ((0, 8), (1, 24)):
            k = kings[c]
            if k == 'free':
                bg.append(code)
            elif k != 'none':
                s.K[c] = k if type(k) is tuple else (k, 0, 0)
                named.append((s.K[c], code))
        s.F, s.T = ('F', 0, 0), to or ('T', 0, 0)
        if move == 'king':
            s.F = s.K[side]
        if move == 'piece':
            named.append((s.F, None))
        if move:
            named.append((s.T, None))
        ax = []
        for c in (0, 1):
            if c in s.K and kings[1 - c] == 'free':
                # two kings are never on adjacent squares
                ax.append(lambda t, k=s.K[c], code=24 - 16 * c: NOT(AND(D.pcv(t, code), OR(*[
                    D.delta(k, t, a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if a or b]))))
        D.reset(named, axioms=ax, bgcodes=bg)
        s.I = Interp(prog, Models)
        s.M = s.I.m
        VV._vs.clear()
        VV._hh.clear()
        s.pc = 1
        for i, (t, c) in enumerate(named):
            s.pc = AND(s.pc, D.valid(t))
            if c is None:
                s.pc = AND(s.pc, D.bgvalid(t))
            for u, _ in named[:i]:
                s.pc = AND(s.pc, NOT(D.eq(t, u)))
        D.CARE[0] = s.pc
        for b in range(3):
            D.flag('dp%d' % b)      # the dropped piece decides which hand count matters: order it first
        D.flag('promo')
        s.hands = [s.hand('B'), s.hand('W')]
        s.M.boards['pp'] = Board(side, D.pc, s.hands, 0)

    def hand(s, name):
        hs = []
        for k in range(1, 8):
            bits = [D.flag('h%s%d.%d' % (name, k, b)) for b in range(5)]
            c = {}
            tot = 0
            for n in range(MAXN[k] + 1):
                g = AND(*[bits[b] if n >> b & 1 else NOT(bits[b]) for b in range(5)])
                c[(n, ())] = g
                tot = OR(tot, g)
            s.pc = AND(s.pc, tot) if hasattr(s, 'pc') else tot
            hs.append(VI(8, False, c))
        return VH(hs)

    def start(s, mem=None):
        return St(s.pc, dict(mem or {}))

    def call(s, name, args, st=None, ty=None):
        inst = s.prog.method(ty, name) if ty else s.prog.fn(name)
        if inst is None:
            unsup('function %s not found' % name)
        return s.I.call_inst(inst, args, st or s.start(), None)
