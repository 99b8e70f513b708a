"""From a satisfiable predicate over square contents to a concrete legal position, or nothing."""
import dom as D
import bdd as B
from bdd import AND, OR, NOT
import ground as G
import shogi as S

TRIES = 60


def forall_unknown(y):
    """y whatever the uninterpreted atoms are"""
    for l in sorted(B.support(y)):
        if D._desc[l][0] in ('hole', 'opq', 'ex'):
            y = AND(B.cofactor(y, l, 0), B.cofactor(y, l, 1))
            if y == 0:
                break
    return y


def cheapest(y):
    """the path to 1 that sets the fewest content bits"""
    cost = {1: 0, 0: 1 << 30}
    st = [y]
    while st:
        n = st[-1]
        if n in cost:
            st.pop()
            continue
        a, b = B.lo(n), B.hi(n)
        w = [x for x in (a, b) if x not in cost]
        if w:
            st += w
            continue
        l = B.level(n)
        d = D._desc[l]
        cost[n] = min(cost[a], cost[b] + (1 if d[0] == 'pc' else 0 if d[0] == 'co' else 1))
        st.pop()
    r = {}
    while y > 1:
        a, b = B.lo(y), B.hi(y)
        if cost[a] == cost[y]:
            r[B.level(y)] = 0
            y = a
        else:
            r[B.level(y)] = 1
            y = b
    return r


def squares_in(c, y):
    """squares whose content y mentions: {position: term}"""
    r = {}
    for l in B.support(y):
        d = D._desc[l]
        if d[0] == 'pc':
            r[d[1]] = 1
    return list(r)


def atmost(preds):
    none, one = 1, 0
    for p in preds:
        one = OR(AND(one, NOT(p)), AND(none, p))
        none = AND(none, NOT(p))
    return OR(none, one)


def restrict(c, fix, y):
    """rule out contents that no legal position has"""
    at = {}
    for t in squares_in(c, y):
        q = fix.get(t[0]) if t[0] != 'C' else t
        if q is None:
            return 0
        at[(q[1], q[2])] = t
    for q, t in at.items():
        for k in (1, 2, 3):
            for col in (0, 1):
                if S.dead(k, col, q):
                    y = AND(y, NOT(D.pcv(t, k + 16 * col)))
    if y == 0:
        return 0
    for code in (8, 24):
        if (code >> 4) not in c.K:
            y = AND(y, atmost([D.pcv(t, code) for t in at.values()]))
    for f in range(9):
        for code in (1, 17):
            ts = [t for q, t in sorted(at.items()) if q[0] == f]
            if len(ts) > 1 and y:
                y = AND(y, atmost([D.pcv(t, code) for t in ts]))
    return y


def number(path, names):
    n = 0
    for b, l in enumerate(names):
        if l is not None and path.get(l):
            n |= 1 << b
    return n


def build(c, fix, path):
    board, cared = {}, set()
    for col, k in c.K.items():
        q = fix.get(k[0]) if k[0] != 'C' else k
        board[(q[1], q[2])] = 8 + 16 * col
        cared.add((q[1], q[2]))
    cont = {}
    for l, v in path.items():
        d = D._desc[l]
        if d[0] == 'pc':
            cont.setdefault(d[1], 0)
            if v:
                cont[d[1]] |= 1 << d[2]
    for t, code in cont.items():
        q = fix[t[0]] if t[0] != 'C' else t
        cared.add((q[1], q[2]))
        if code:
            board[(q[1], q[2])] = code
    for q in fix.values():
        cared.add((q[1], q[2]))
    hands = []
    for col, nm in ((0, 'B'), (1, 'W')):
        hands.append([number(path, [D._level.get(('flag', 'h%s%d.%d' % (nm, k, b))) for b in range(5)]) for k in range(1, 8)])
    return S.Pos(board, hands, c.side), cared


def move_of(c, fix, path):
    if not c.move:
        return None
    p = lambda t: (fix[t[0]][1], fix[t[0]][2]) if t[0] != 'C' else (t[1], t[2])
    if c.move == 'drop':
        k = number(path, [D._level.get(('flag', 'dp%d' % b)) for b in range(3)])
        return ('d', k + 16 * c.side, p(c.T))
    pr = c.promo if c.promo in (0, 1) else path.get(D._level.get(('flag', 'promo')))
    return ('n', p(c.F), p(c.T), bool(pr))


def witness(c, fix, y, confirm=None, kings=True):
    """a legal position in which y holds, or None.  confirm(pos, move): do the rules agree"""
    y = forall_unknown(y)
    if y:
        y = restrict(c, fix, y)
    for _ in range(TRIES):
        if y == 0:
            return None
        path = cheapest(y)
        pos, cared = build(c, fix, path)
        mv = move_of(c, fix, path)
        need = [col for col in (0, 1) if pos.king(col) is None and c.kings[col] != 'none'] if kings else []
        got = complete(pos, cared, need)
        if got and (confirm is None or confirm(got, mv)):
            return got, mv, path
        cube = 1
        for l, v in sorted(path.items(), reverse=True):
            d = D._desc[l]
            if d[0] == 'pc' or d[0] == 'flag':
                cube = AND(cube, B.var(l) if v else NOT(B.var(l)))
        y = AND(y, NOT(cube))
    return None


def complete(pos, cared, need):
    if not need:
        return pos if pos.valid() else None
    col = need[0]
    for r in (range(9) if col == 1 else range(8, -1, -1)):
        for f in range(9):
            q = (f, r)
            if q in cared or q in pos.b:
                continue
            p = S.Pos(pos.b, pos.h, pos.side)
            p.b[q] = 8 + 16 * col
            k = p.king(1 - col)
            if k and max(abs(k[0] - f), abs(k[1] - r)) <= 1:
                continue
            z = complete(p, cared | {q}, need[1:])
            if z:
                return z
    return None


def search(c, f, confirm=None, kings=True, keep=(), limit=400, accept=None):
    """('ok', n) f is unsatisfiable; ('violated', witness...) or ('undecided', why)"""
    n = 0
    tried = 0
    first = None
    for fix, y, cnt in G.instances(f, keep=keep):
        n = cnt
        if fix is None:
            break
        first = first or (fix, y)
        tried += 1
        w = witness(c, fix, y, confirm, kings)
        if w:
            return 'violated', n, (fix, y) + w
        if tried >= limit:
            break
    if first is None:
        return 'ok', n, None
    return 'undecided', n, first
