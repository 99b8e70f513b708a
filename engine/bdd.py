"""Python face of bdd.c (lattice of finite predicates: reduced ordered decision diagrams)."""
import ctypes, os, subprocess, sys, tempfile

_here = os.path.dirname(os.path.abspath(__file__))
_so = os.path.join(_here, "..", "build", "libbdd.so")


def _load():
    src = os.path.join(_here, "bdd.c")
    if not os.path.exists(_so) or os.path.getmtime(_so) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(_so), exist_ok=True)
        tmp = _so + ".%d.tmp" % os.getpid()
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
        os.replace(tmp, _so)
    return ctypes.CDLL(_so)


_l = _load()
_I = ctypes.c_int32


class Overflow(Exception):
    pass


def _f(name, n):
    f = getattr(_l, name)
    f.argtypes = [_I] * n
    f.restype = _I
    return f


_init = _f("bdd_init", 2)
_and, _or, _xor, _not = _f("bdd_and", 2), _f("bdd_or", 2), _f("bdd_xor", 2), _f("bdd_not", 1)
_ite, _ex, _andex, _restr = _f("bdd_ite", 3), _f("bdd_exists", 2), _f("bdd_andex", 3), _f("bdd_restrict", 2)
_var, level, lo, hi = _f("bdd_var", 1), _f("bdd_level", 1), _f("bdd_lo", 1), _f("bdd_hi", 1)
_ovf, nodes = _f("bdd_overflow", 0), _f("bdd_nodes", 0)
_clr = _f("bdd_clear_overflow", 1)
_comp = _l.bdd_compose
_comp.argtypes = [_I, ctypes.POINTER(_I), ctypes.POINTER(_I), ctypes.c_int]
_comp.restype = _I
_sup = _l.bdd_support
_sup.argtypes = [_I, ctypes.POINTER(_I)]
_sup.restype = ctypes.c_int
_lsz = _l.bdd_last_size
_lsz.restype = ctypes.c_long
_supbuf = (_I * (1 << 16))()
F, T = 0, 1
LIMIT = 60_000_000


def init():
    _init(22, LIMIT)


init()


def _chk(r):
    if _ovf():
        _clr(LIMIT)
        raise Overflow("decision diagram limit")
    return r


_constrain = _f("bdd_constrain", 2)


def constrain(f, c):
    return _chk(_constrain(f, c))


_asg = _l.bdd_assign
_asg.argtypes = [ctypes.c_int, ctypes.POINTER(_I), ctypes.POINTER(_I), ctypes.c_int]
_asg.restype = None
cofa = _f("bdd_cofa", 2)


def assign(slot, m):
    n = len(m)
    _asg(slot, (_I * n)(*m.keys()), (_I * n)(*m.values()), n)


def set_limit(n):
    """Bound node creation to n further nodes (raises Overflow)."""
    _clr(min(LIMIT, nodes() + n) if n else LIMIT)


def var(v):
    return _var(v)


def AND(*xs):
    r = 1
    for x in xs:
        if r == 0:
            return 0
        if x == 1:
            continue
        r = x if r == 1 else _and(r, x)
    return _chk(r) if len(xs) else 1


def OR(*xs):
    r = 0
    for x in xs:
        if r == 1:
            return 1
        if x == 0:
            continue
        r = x if r == 0 else _or(r, x)
    return _chk(r) if len(xs) else 0


def XOR(a, b):
    return _chk(_xor(a, b))


def NOT(a):
    if a < 2:
        return 1 - a
    return _chk(_not(a))


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return NOT(XOR(a, b))


def ITE(f, g, h):
    if f == 1:
        return g
    if f == 0 or g == h:
        return h if f == 0 else g
    return _chk(_ite(f, g, h))


def exists(a, cube):
    return _chk(_ex(a, cube))


def andex(a, b, cube):
    return _chk(_andex(a, b, cube))


def restrict(a, c):
    return _chk(_restr(a, c))


def cube(vs):
    r = 1
    for v in sorted(vs, reverse=True):
        r = _and(r, _var(v))
    return r


def compose(a, mp):
    """mp: level -> node"""
    if a < 2 or not mp:
        return a
    n = len(mp)
    ks = (_I * n)(*mp.keys())
    vs = (_I * n)(*mp.values())
    return _chk(_comp(a, ks, vs, n))


_scache = {}


def support(a):
    if a < 2:
        return frozenset()
    r = _scache.get(a)
    if r is None:
        n = _sup(a, _supbuf)
        r = frozenset(_supbuf[:n])
        _scache[a] = r
    return r


def size(a):
    _sup(a, _supbuf)
    return _lsz()


def cofactor(a, v, val):
    return compose(a, {v: 1 if val else 0})


def sat_one(a):
    """one satisfying partial assignment as {level: 0/1} or None"""
    if a == 0:
        return None
    r = {}
    while a > 1:
        if lo(a) != 0:
            r[level(a)] = 0
            a = lo(a)
        else:
            r[level(a)] = 1
            a = hi(a)
    return r
