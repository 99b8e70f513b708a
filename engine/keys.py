"""C05: the make-up of the keys of a freshly set-up position.  (C04: every position has the keys of a fresh
set-up.)"""
from moves import *
from play import vdiff, PC
import values as VV

FULL = (1 << 64) - 2


def asvx(v):
    return v if type(v) is VX else VV.tovx(v)


def xor(a, b):
    bits, terms = dict(a.bits), dict(a.terms)
    for k, g in b.bits.items():
        bits[k] = XOR(bits.get(k, 0), g)
    for k, g in b.terms.items():
        terms[k] = XOR(terms.get(k, 0), g)
    return VX(bits, terms)


def sq_name(q):
    return '%d%s' % (q[0] + 1, 'abcdefghi'[q[1]])


def about(f):
    """what a guard is about: 'pieces', 'hands', 'other'"""
    r = set()
    for l in B.support(f):
        d = D._desc[l]
        if d[0] == 'co':
            continue
        if d[0] in ('pc', 'ex'):
            r.add('pieces')
        elif d[0] == 'flag' and str(d[1])[:2] in ('hB', 'hW'):
            r.add('hands')
        else:
            r.add('other: %s' % (d,))
    return r


def index(lin, q):
    n = lin[0]
    for s, k in lin[1]:
        if s != VV.IDXK:
            unsup('draw number %s' % (lin,))
        n += k * (q[0] * 9 + q[1])
    return n


def const(f):
    return f == 0 or f == 1


def check_keys(prog, side):
    job = Job('keys of a fresh set-up side=%d' % side)
    c = setup(prog, side, ('free', 'free'), None)
    PC[0] = c.pc
    ref, st = fresh(c)
    c.M.boards['other'] = Board(1 - side, c.M.boards['pp'].content, c.hands, 0)
    oref, ost = fresh(c, 'other', 'O')
    ask = lambda n, r, s: c.call(n, [r], St(c.pc, dict(s.mem)), ty='Position')[0]
    ks, kk = ask('keys', ref, st), asvx(ask('key', ref, st))
    os_, ok = ask('keys', oref, ost), asvx(ask('key', oref, ost))
    pair = lambda v: [asvx(x) for x in v.f]
    k0, k1 = pair(ks)
    o0, o1 = pair(os_)
    where = ['keys computed by Position::new, ZOBRIST_TABLE']

    def say(ob, bad, detail):
        job.add('C05', ob, 'violated' if bad else 'ok', 1, dict(where=where, what=detail) if bad else None)

    def live(x):
        """the bits and words that are there in some position"""
        return VX({b: g for b, g in x.bits.items() if AND(c.pc, g)}, {t: g for t, g in x.terms.items() if AND(c.pc, g)})

    def unknown(x, ob):
        u = set()
        for g in list(x.bits.values()) + list(x.terms.values()):
            u |= {a for a in about(g) if a.startswith('other')}
        if u:
            job.add('C05', ob, 'undecided', 1, dict(why='depends on %s' % sorted(u)[:3]))
        return bool(u)
    d = live(xor(kk, xor(k0, k1)))
    say('the key is the exclusive-or of the pair', d.bits or d.terms, 'they differ in %s' % str(list(d.terms)[:3] + list(d.bits)[:3]))
    # what each depends on
    for nm, x, ban in (('the first key does not depend on hands', k0, 'hands'), ('the second key does not depend on the board', k1, 'pieces')):
        if not unknown(x, nm):
            bad = [(t, g) for t, g in list(x.terms.items()) + list(x.bits.items()) if depends_on(c, g, ban)]
            say(nm, bad, 'the words %s do' % [t for t, _ in bad[:3]])
    # the side to move
    one = lambda x: set(x.bits) == {0} and AND(c.pc, NOT(x.bits[0])) == 0 and not x.terms
    for nm, a, b, want in (('first key', k0, o0, True), ('second key', k1, o1, False), ('key', kk, ok, True)):
        x = live(xor(a, b))
        bad = not one(x) if want else bool(x.bits or x.terms)
        say('reversing only the side to move changes %s of the %s' % ('exactly the lowest bit' if want else 'nothing', nm), bad,
            'it changes %s' % str(list(x.bits)[:8] + list(x.terms)[:4]))
    low = [t for t in list(kk.terms) if t[1] & 1]
    say('no random word touches the lowest bit', low, 'words %s do' % low[:3])
    thin = sorted({t[1] for t in kk.terms if (t[1] | 1) != (1 << 64) - 1})
    say('random words are used in full', thin, 'masks %s' % [hex(m) for m in thin[:3]])
    features(c, job, kk, say)
    return job.done(c)


def depends_on(c, g, what):
    """g really depends on pieces / hands"""
    if what == 'pieces':
        return 'pieces' in about(g)
    ls = [l for l in B.support(g) if D._desc[l][0] == 'flag']
    lo, hi = AND(c.pc, g), AND(c.pc, NOT(g))
    for l in sorted(B.support(c.pc) | set(ls)):
        if D._desc[l][0] == 'flag':
            lo, hi = OR(B.cofactor(lo, l, 0), B.cofactor(lo, l, 1)), OR(B.cofactor(hi, l, 0), B.cofactor(hi, l, 1))
    return bool(ls) and AND(lo, hi) != 0


def features(c, job, kk, say):
    """the words that appear with each piece on a square and each further piece in hand are independent"""
    feats = {}       # name -> set of draws
    odd = {}
    K = ('K', 0, 0)
    bykey = [(lin, mask, g) for (lin, mask), g in kk.terms.items()]
    boardt = [t for t in bykey if 'pieces' in about(t[2]) or t[0][1]]
    handt = [t for t in bykey if t not in boardt]
    n = 0
    for f in range(9):
        for q in range(9):
            t = D.csq(f, q)
            at = [(index(lin, (f, q)), D.subst(g, 'K', t)) for lin, _, g in boardt]
            at = [(i, g) for i, g in at if g]
            empty = [i for i, g in at if AND(g, D.pcv(t, 0))]
            if empty:
                odd.setdefault('empty square %s' % sq_name((f, q)), empty)
            for code in D.CODES:
                s = set()
                p = D.pcv(t, code)
                for i, g in at:
                    x = AND(g, p)
                    n += 1
                    if x == p:
                        s ^= {i}
                    elif x:
                        odd.setdefault('piece %d on %s' % (code, sq_name((f, q))), []).append(i)
                feats['piece of kind %d of %s on %s' % (kind(code), ('Black', 'White')[color(code)], sq_name((f, q)))] = s
    for col in (0, 1):
        for k in range(1, 8):
            num = c.hands[col].n[k - 1]
            prev = None
            ls = sorted(set().union(*[B.support(g) for g in num.c.values()]))
            for m in range(S.MAXN[k] + 1):
                p = num.c[(m, ())]
                cur = {}
                for lin, _, g in handt:
                    x = given(g, p, ls)
                    if x:
                        cur[lin[0]] = XOR(cur.get(lin[0], 0), x)
                if prev is not None:
                    s = set()
                    nm = 'piece %d of kind %d in the hand of %s' % (m, k, ('Black', 'White')[col])
                    for i in set(cur) | set(prev):
                        n += 1
                        x = XOR(cur.get(i, 0), prev.get(i, 0))
                        if x == 1:
                            s.add(i)
                        elif x and AND(rest(c, ls), x):
                            if AND(rest(c, ls), NOT(x)) == 0:
                                s.add(i)
                            else:
                                odd.setdefault(nm, []).append(i)
                    feats[nm] = s
                prev = cur
    say('the words of a piece depend on nothing else', odd, str(list(odd.items())[:3]))
    # independence over GF(2)
    col = {}
    rows = {}
    bad = []
    for nm, s in feats.items():
        v = 0
        for i in s:
            v |= 1 << col.setdefault(i, len(col))
        while v:
            h = v.bit_length()
            if h not in rows:
                rows[h] = v
                break
            v ^= rows[h]
        if not v:
            bad.append(nm + (': no word' if not s else ': words %s made up of those of other pieces' % sorted(s)[:3]))
    job.add('C05', 'every piece on a square and every further piece in hand has a word of its own', 'violated' if bad else 'ok', len(feats) + n,
            dict(where=['keys computed by Position::new, ZOBRIST_TABLE'], what='; '.join(bad[:4]), number=len(bad)) if bad else None)
    job.stats['features'] = len(feats)
    job.stats['draws'] = len(col)


def given(g, p, ls):
    """g when the bits in ls are those of the cube p"""
    for l in ls:
        v = 0 if AND(p, B.var(l)) == 0 else 1
        g = B.cofactor(g, l, v)
    return g


def rest(c, ls):
    r = c.pc
    for l in ls:
        r = OR(B.cofactor(r, l, 0), B.cofactor(r, l, 1))
    return r
