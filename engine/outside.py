"""Code outside the square-set module must not depend on target or feature flags (C16), and no function may
call another one that needs CPU features its own target does not provide (C18)."""
import difflib, json, os, re
from moves import Job


def strip_module(src, mod):
    """the expanded source without the inline module `mod` (braces inside literals are skipped)"""
    m = re.search(r'(pub(\([a-z]+\))? )?mod %s \{' % mod, src)
    if not m:
        return src
    i, d = m.end(), 1
    tok = re.compile(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'|//[^\n]*|[{}]', re.S)
    for t in tok.finditer(src, m.end()):
        if t.group() == '{':
            d += 1
        elif t.group() == '}':
            d -= 1
            if d == 0:
                return src[:m.start()] + src[t.end():]
    return src


CFG = re.compile(r'cfg(_attr|_if)?\s*!?\s*\(([^)]*\)?)')


def check_outside(a, b, src, label):
    """after macro expansion, code outside the module is the same in both configurations, and for other targets: no
    conditional compilation on target or feature there"""
    j = Job('code outside the module')
    ob = 'code outside the square-set module is the same in every configuration'
    if a is None or b is None:
        j.add('C16', ob, 'undecided', 1, dict(why='the source does not expand'))
        return j
    x, y = strip_module(a, 'bitboard').splitlines(), strip_module(b, 'bitboard').splitlines()
    if x != y:
        d = [l for l in difflib.unified_diff(x, y, n=0, lineterm='')][2:12]
        j.add('C16', ob, 'undecided', 1, dict(why='the default build and %s compile different code' % label, difference=d))
    else:
        j.add('C16', ob, 'ok', len(x), None)
    n, bad = 0, []
    for dp, dn, fs in os.walk(os.path.join(src, 'src')):
        if os.path.basename(dp) == 'bitboard':
            continue
        for f in fs:
            if not f.endswith('.rs') or f == 'bitboard.rs':
                continue
            n += 1
            for k, l in enumerate(open(os.path.join(dp, f)).read().splitlines()):
                l = l.split('//')[0]
                for m in CFG.finditer(l):
                    if re.search(r'target_|feature|panic|unix|windows', m.group(2)) or m.group(1) == '_if':
                        bad.append('%s:%d: %s' % (os.path.relpath(os.path.join(dp, f), src), k + 1, l.strip()))
    if bad:
        j.add('C16', 'no conditional compilation on target or feature outside the square-set module', 'undecided', n, dict(at=bad[:5]))
    else:
        j.add('C16', 'no conditional compilation on target or feature outside the square-set module', 'ok', n, None)
    j.stats['functions'] = []
    return j


def check_features(path, label):
    """every call: the features the callee may use are provided by the target (or the caller has them)"""
    j = Job('CPU features: ' + label)
    d = json.load(open(path))
    insts = {i['id']: i for i in d['insts']}
    have = set(d['features'])
    todo = [i for i in d['insts'] if i['krate'] == d['crate'] and i['body']]
    n, bad, asm = 0, [], []
    for i in todo:
        for blk in i['body']['blocks']:
            t = blk['t']
            if t['k'] == 'asm':
                asm.append((i['name'], t.get('span')))
            if t['k'] != 'call' or t['inst'] is None:
                continue
            c = insts[t['inst']]
            need = set(c.get('tf', ())) - have - set(i.get('tf', ()))
            n += 1
            if need:
                bad.append(dict(caller=i['name'], callee=c['name'], features=sorted(need), at=t.get('span')))
    ob = 'no function calls one that needs CPU features the target (%s) lacks' % label
    if bad:
        j.add('C18', ob, 'violated', n, bad[0])
    else:
        j.add('C18', ob, 'ok', n, None)
    for a in asm:
        j.add('C18', 'no inline assembly', 'undecided', 1, dict(function=a[0], at=a[1]))
    j.stats['functions'] = sorted(i['name'] for i in todo)
    return j


# operations without a check of their own that the abstract interpreter turns into obligations, or that cannot fail
DECIDED = re.compile(r'(shogi_core::Square::from_u8_unchecked|shogi_core::PieceKind::from_u8_unchecked|slice::<impl \[T\]>::get_unchecked(_mut)?|'
                     r'Option::<T>::unwrap_unchecked|hint::unreachable_unchecked|intrinsics::unreachable|::precondition_check|intrinsics::\w+)(::<.*>)?$')


def check_unsafe(path):
    """the operations the compiler does not check, outside the square-set module (that is decided bit by bit), are
    all of a kind the other obligations decide"""
    j = Job('unsafe operations')
    d = json.load(open(path))
    T = {t['id']: t for t in d['types']}
    insts = {i['id']: i for i in d['insts']}
    n, und = 0, []
    for i in d['insts']:
        b = i['body']
        if i['krate'] != d['crate'] or not b or '::bitboard::' in i['name']:
            continue
        n += 1

        def walk(x, at):
            if type(x) is list:
                if len(x) == 2 and type(x[0]) is int and type(x[1]) is list and x[1] and type(x[1][0]) is list and x[1][0][0] == 'deref' and \
                        x[0] < len(b['locals']) and T[b['locals'][x[0]]]['k'] == 'rawptr' and at and '/library/' not in at[0]:
                    und.append(dict(function=i['name'], what='access through a raw pointer', at=at))
                for v in x:
                    walk(v, at)
            elif type(x) is dict:
                for v in x.values():
                    walk(v, at)
        for blk in b['blocks']:
            for x in blk['s']:
                walk(x[1:-1], x[-1])
                if x[0] == '=' and x[2]['k'] == 'cast' and x[2]['ck'] == 'Transmute' and '/library/' not in x[-1][0] and \
                        T[x[2]['t']]['k'] not in ('uint', 'int', 'float', 'rawptr'):
                    und.append(dict(function=i['name'], what='transmute', at=x[-1]))
            t = blk['t']
            if t['k'] == 'asm':
                und.append(dict(function=i['name'], what='inline assembly', at=t.get('span')))
            if t['k'] == 'call' and t['inst'] is not None:
                c = insts[t['inst']]
                if c.get('us') and '/library/' not in (t.get('span') or [''])[0]:
                    n += 1
                    if c['krate'] != d['crate'] and not DECIDED.search(c['path']):
                        und.append(dict(function=i['name'], what='unsafe call of ' + c['name'], at=t.get('span')))
    for s in d['statics']:
        if s['krate'] == d['crate'] and s.get('mut'):
            und.append(dict(static=s['name'], what='mutable static', at=s['span']))
    for m in d['impls']:
        if m['unsafe'] and m['trait'].split('::')[-1] in ('Send', 'Sync'):
            und.append(dict(type=m['self'], what='unsafe impl ' + m['trait']))
    ob = 'unchecked operations are of the kinds decided elsewhere'
    if und:
        for u in und[:10]:
            j.add('C18', ob, 'undecided', 1, u)
    else:
        j.add('C18', ob, 'ok', n, None)
    j.stats['functions'] = []
    return j
