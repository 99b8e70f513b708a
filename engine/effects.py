"""Effects (C17): what the code reachable from the public interface can read or write besides its arguments.

Rules: no shared mutable state, no reads of time, environment, randomness or addresses, no interior mutability
or shared ownership in a position, no write through a shared reference; the compiler decides thread safety
and that queries take a shared reference (witness crates)."""
import json, os, re, subprocess
from moves import Job

PURE = {'core', 'alloc', 'shogi_core', 'arrayvec', 'rand', 'rand_core', 'rand_chacha', 'once_cell', 'cfg_if', 'ppv_lite86'}
DENY = [
    (r'\bsync::atomic::|\batomic::Atomic|intrinsics::atomic_', 'atomic shared state'),
    (r'\bthread_rng\b|\brand::random\b|rngs::(thread::)?ThreadRng|\bOsRng\b|\bfrom_entropy\b|\bfrom_os_rng\b|\bgetrandom\b', 'randomness of the environment'),
    (r'\btime::(Instant|SystemTime|UNIX_EPOCH)|std::time::', 'time'),
    (r'std::env::|\benv::(var|args|vars|current_dir)', 'the environment'),
    (r'std::(fs|net|process)::|std::io::(stdin|Stdin|Read)', 'the file system, network or processes'),
    (r'thread::LocalKey|std::thread::|thread_local', 'thread-local state'),
    (r'RandomState', 'randomly seeded hashing'),
    (r'\b(Mutex|RwLock|Condvar|Once|OnceLock|LazyLock|ReentrantLock)(::|<)', 'shared mutable state'),
    (r'once_cell::(sync|unsync|race)::(OnceCell|OnceBox|OnceNonZeroUsize|OnceBool|OnceRef)\b.*::(set|get_or_init|get_or_try_init|take|get_mut|try_insert)', 'shared mutable state'),
    (r'\bcell::(Cell|RefCell|UnsafeCell|OnceCell)\b', 'interior mutability'),
    (r'\b_?rdtsc|_rdrand|_rdseed', 'time or randomness of the processor'),
]
ALLOW_STD = re.compile(r'^<?(std|core|alloc)::(fmt|io::_e?print|panicking|rt::|hash::|ops::|cmp::|iter::|slice::|option::|result::|mem::|ptr::|string::|vec::|'
                       r'boxed::|num::|array::|convert::|clone::|default::|marker::|collections::(btree|vec_deque|linked_list|binary_heap)|borrow::|any::|char::|str::|ascii::|hint::)')
OWNERS = re.compile(r'^(std|alloc)::(vec::Vec|boxed::Box|string::String|collections::)')
SHARED = re.compile(r'\b(rc::Rc|sync::Arc|rc::Weak|sync::Weak|Cow)\b')
INTERIOR = re.compile(r'\b(UnsafeCell|SyncUnsafeCell)\b')


class Fx:
    def __init__(s, d):
        s.d = d
        s.types = {t['id']: t for t in d['types']}
        s.insts = {i['id']: i for i in d['insts']}
        s.reach()

    def calls(s, i):
        b = i['body']
        if not b:
            return
        for blk in b['blocks']:
            t = blk['t']
            if t['k'] == 'call':
                yield t, (s.insts[t['inst']] if t['inst'] is not None else None)

    def mentioned(s, i):
        """functions named as values (closures, function pointers) in a body"""
        r = []

        def walk(x):
            if type(x) is dict:
                if x.get('k') == 'const':
                    t = s.types[x['ty']]
                    if t.get('inst') is not None:
                        r.append(t['inst'])
                    for p in (x.get('v') or {}).get('ptrs', ()):
                        a = s.d['allocs'][p[1]]
                        if a['k'] == 'fn':
                            r.append(a['inst'])
                        elif a['k'] == 'static':
                            r.append(('static', a['name']))
                for v in x.values():
                    walk(v)
            elif type(x) is list:
                for v in x:
                    walk(v)
        walk(i['body'])
        for t in i['body']['locals']:
            T = s.types[t]
            if T['k'] == 'closure' and T.get('inst') is not None:
                r.append(T['inst'])
        return r

    def reach(s):
        """functions reachable from the public interface, with one caller each"""
        todo = [(r['inst'], None) for r in s.d['roots'] if r.get('inst') is not None and r.get('public')]
        # trait methods of exported types are reachable too
        names = {r['inst'] for r in s.d['roots'] if r.get('inst') is not None and (r.get('reachable') or s.insts[r['inst']]['name'].startswith('<'))}
        todo += [(i, None) for i in names]
        s.seen = {}
        s.statics = set()
        stat = {x['name']: x for x in s.d['statics']}
        while todo:
            n, by = todo.pop()
            if n in s.seen:
                continue
            s.seen[n] = by
            i = s.insts[n]
            for t in (a.get('t') for a in i['args'] if a):
                if t is not None and s.types[t].get('inst') is not None:
                    todo.append((s.types[t]['inst'], n))
            if not i['body']:
                continue
            for t, c in s.calls(i):
                if c:
                    todo.append((c['id'], n))
            for m in s.mentioned(i):
                if type(m) is tuple:
                    if m[1] not in s.statics:
                        s.statics.add(m[1])
                        st = stat.get(m[1])
                        if st and st['inst'] is not None:
                            todo.append((st['inst'], n))
                        for p in ((st or {}).get('alloc') or {}).get('ptrs', ()):
                            a = s.d['allocs'][p[1]]
                            if a['k'] == 'fn':
                                todo.append((a['inst'], n))
                else:
                    todo.append((m, n))

    def path(s, n):
        r = []
        while n is not None and len(r) < 12:
            r.append(s.insts[n]['name'])
            n = s.seen.get(n)
        return r[::-1]

    def tree(s, t, seen=None, path=()):
        """what makes values of this type share state: [(kind, path)]"""
        seen = seen if seen is not None else set()
        if t in seen:
            return []
        seen.add(t)
        T = s.types[t]
        k = T['k']
        if k in ('rawptr', 'fnptr', 'dyn', 'other') :
            return [('a ' + {'rawptr': 'raw pointer', 'fnptr': 'function pointer', 'dyn': 'trait object', 'other': 'type outside the analysis'}[k] + ' ' + T['name'], path)]
        if k == 'ref':
            return [('a reference ' + T['name'], path)]
        r = []
        if k == 'adt':
            p = T['path']
            if INTERIOR.search(p):
                return [('interior mutability: ' + T['name'], path)]
            if SHARED.search(p) and T['krate'] in ('alloc', 'std', 'core'):
                return [('shared ownership: ' + T['name'], path)]
            if p.endswith('PhantomData'):
                return []
            if OWNERS.match(p) or T['krate'] == 'alloc':
                for a in T['args']:
                    if a and a.get('t') is not None:
                        r += s.tree(a['t'], seen, path + (T['name'],))
                return r
            for v in T['variants']:
                for f, ft in v['fields']:
                    r += s.tree(ft, seen, path + ('%s.%s' % (T['name'], f),))
        elif k in ('array', 'slice', 'pat'):
            r += s.tree(T['elem'], seen, path)
        elif k == 'tuple':
            for e in T['elems']:
                r += s.tree(e, seen, path)
        return r


def places(x):
    """the locals named as operands anywhere in a statement's right side or a terminator"""
    if isinstance(x, dict):
        if x.get('k') in ('copy', 'move'):
            yield x['p'][0]
            for e in x['p'][1]:
                if e[0] == 'index':
                    yield e[1]
            return
        if 'p' in x and isinstance(x['p'], list) and x['p'] and isinstance(x['p'][0], int):
            yield x['p'][0]
        for v in x.values():
            yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def only_asserted(b, l):
    """does the value of l reach nothing but the compiler's own pointer checks (assert terminators)?"""
    der = {l}
    ch = True
    while ch:
        ch = False
        for blk in b['blocks']:
            for x in blk['s']:
                if x[0] == '=' and der & set(places(x[2])):
                    if x[1][1] or x[1][0] == 0 or x[2]['k'] not in ('use', 'bin', 'cbin', 'un', 'cast'):
                        return False
                    if x[1][0] not in der:
                        der.add(x[1][0])
                        ch = True
                elif x[0] != '=' and der & set(places(x[1:])):
                    return False
            t = blk['t']
            if t['k'] != 'assert' and der & set(places({k: v for k, v in t.items() if k in ('o', 'args', 'f')})):
                return False
    return True


def tainted(fx, i):
    """writes through memory that was only borrowed shared: [(what, where)]"""
    b = i['body']
    T = fx.types
    shared = set()
    for l in range(1, b['argc'] + 1):
        t = T[b['locals'][l]]
        if t['k'] == 'ref' and not t['mut']:
            shared.add(l)
    out = []
    ch = True

    def src(o):
        return o.get('p', [None])[0] if o['k'] in ('copy', 'move') else None
    while ch:
        ch = False
        for blk in b['blocks']:
            for x in blk['s']:
                if x[0] != '=' or x[1][1]:
                    continue
                d, r = x[1][0], x[2]
                f = None
                if r['k'] in ('use', 'cast'):
                    f = src(r['o'])
                elif r['k'] in ('ref', 'addrof'):
                    p = r['p']
                    f = p[0] if any(e[0] == 'deref' for e in p[1]) else None
                tt = T[b['locals'][d]]
                if f in shared and d not in shared and tt['k'] in ('ref', 'rawptr'):
                    shared.add(d)
                    ch = True
            t = blk['t']
            if t['k'] == 'call' and not t['d'][1]:
                tt = T[b['locals'][t['d'][0]]]
                if tt['k'] in ('rawptr',) and t['d'][0] not in shared and any(src(a) in shared for a in t['args']):
                    shared.add(t['d'][0])
                    ch = True
    for blk in b['blocks']:
        for x in blk['s']:
            if x[0] != '=':
                continue
            d, r = x[1], x[2]
            if d[0] in shared and any(e[0] == 'deref' for e in d[1]) and T[b['locals'][d[0]]]['k'] == 'rawptr':
                out.append(('write through a pointer made from a shared reference', x[-1]))
            if r['k'] == 'cast' and src(r['o']) in shared:
                ty = T[r['t']]
                o = T[b['locals'][src(r['o'])]]
                if ty['k'] in ('rawptr', 'ref') and ty.get('mut') and not o.get('mut'):
                    out.append(('a shared reference is turned into a mutable pointer', x[-1]))
            if r['k'] == 'cast' and ('Expose' in r['ck'] or ('Transmute' in r['ck'] and src(r['o']) is not None and T[b['locals'][src(r['o'])]]['k'] in ('ref', 'rawptr')
                                                             and T[r['t']]['k'] in ('uint', 'int'))):
                if d[1] or not only_asserted(b, d[0]):
                    out.append(('the address of an object is used as a number', x[-1]))
    return out


def benign(fx, i, t, nm):
    """a lazily initialised value whose initialiser captures nothing; shared counters nobody reads"""
    b = i['body']
    if re.search(r'LazyLock|\bLazy\b', nm):
        return True
    if re.search(r'(OnceLock|OnceCell|OnceBox|Once\b).*::(get_or_init|call_once|new)(::<.*>)?$', nm):
        cl = [fx.types[b['locals'][a['p'][0]]] if a['k'] in ('copy', 'move') else fx.types[a['ty']] for a in t['args'][1:]]
        return all(c['k'] == 'fndef' or (c['k'] == 'closure' and c.get('size') == 0) for c in cl)
    if re.search(r'\bAtomic\w*(::<.*>)?::(fetch_\w+|store)$', nm) and not t['d'][1]:
        l = t['d'][0]
        return not any(x[0] == '=' and l in places(x[2]) or x[0] != '=' and l in places(x[1:]) and x[0] not in ('dead', 'live')
                       for blk in b['blocks'] for x in blk['s']) and \
            not any(l in places({k: v for k, v in blk['t'].items() if k in ('o', 'args', 'f', 'c')}) for blk in b['blocks'])
    return False


def check_effects(path):
    d = json.load(open(path))
    fx = Fx(d)
    j = Job('effects')
    n, und = 0, []
    denied, statics, writes = [], [], []
    for k in fx.seen:
        i = fx.insts[k]
        if i['body'] and i['krate'] == d['crate']:
            for w, at in tainted(fx, i):
                writes.append(dict(function=i['name'], what=w, at=at))
            for blk in i['body']['blocks']:
                if blk['t']['k'] == 'asm':
                    und.append(dict(function=i['name'], what='inline assembly', at=blk['t']['span']))
                for x in blk['s']:
                    if x[0] == '=' and x[2]['k'] == 'tls':
                        denied.append(dict(function=i['name'], reads='thread-local state', at=x[-1], path=fx.path(k)))
        if i['krate'] == d['crate']:
            for t, c in fx.calls(i):
                n += 1
                if c is None:
                    f = fx.types[t['fty']]
                    und.append(dict(function=i['name'], what='indirect call of ' + f['name'], at=t['span']))
                    continue
                if c['krate'] == d['crate']:
                    continue
                nm = c['name']
                base = nm.split('<')[0] if not nm.startswith('<') else nm
                hit = next((w for r, w in DENY if re.search(r, nm)), None)
                if hit is None and re.search(r'hash_map::|HashMap|HashSet', nm) and re.search(r'::(iter|keys|values|drain|into_iter|retain|iter_mut)\b', nm):
                    hit = 'the order of a randomly seeded hash table'
                if hit and benign(fx, i, t, nm):
                    hit = None
                elif hit is None and re.search(r'MaybeUninit.*::assume_init|mem::uninitialized', nm) and \
                        'assume_init_into_vec' not in nm and '::bitboard::' not in i['name']:   # there: C16
                    und.append(dict(function=i['name'], what='memory that may be uninitialised: ' + nm, at=t['span']))
                if hit:
                    denied.append(dict(function=i['name'], reads=hit, through=nm, at=t['span'], path=fx.path(k)))
                elif c['krate'] not in PURE and not ALLOW_STD.match(nm):
                    und.append(dict(function=i['name'], what='unknown effects of ' + nm, at=t['span']))
        elif not i['body'] and any(re.search(r, i['name']) for r, _ in DENY[1:2] + DENY[7:8]):
            denied.append(dict(function=i['name'], reads=next(w for r, w in DENY if re.search(r, i['name'])), path=fx.path(k)))
    for st in d['statics']:
        if st['krate'] != d['crate'] or st['name'] not in fx.statics:
            continue
        T = fx.types[st['ty']]
        n += 1
        if st.get('mut'):
            statics.append(dict(static=st['name'], what='mutable static', at=st['span']))
        elif T['k'] == 'adt' and re.search(r'(^|::)(Lazy|LazyLock)$', T['path']) and T['krate'] in ('once_cell', 'std'):
            a = next(x['t'] for x in T['args'] if x and x.get('t') is not None)
            bad = [x for x in fx.tree(a) if 'interior' in x[0]]
            if bad:
                statics.append(dict(static=st['name'], what='the initialised value can change: ' + bad[0][0], at=st['span']))
        elif not st.get('freeze', True) and T['name'].split('<')[0].split('::')[-1] in ('OnceLock', 'OnceCell', 'OnceBox', 'Once') or \
                re.search(r'\bAtomic\w+$|atomic::Atomic<', T['name']):
            pass    # decided where it is used
        elif not st.get('freeze', True):
            statics.append(dict(static=st['name'], what='shared state that can change: ' + T['name'], at=st['span']))

    def row(ob, bad, n):
        j.add('C17', ob, 'violated' if bad else 'ok', n, bad[0] if bad else None)
    row('no read of time, environment, randomness, addresses or shared mutable state', denied, n)
    row('statics are never changed after their initialisation', statics, len(fx.statics))
    row('nothing is written through a shared reference', writes, len(fx.seen))
    pos = [t for t in d['types'] if t['k'] == 'adt' and t['krate'] == d['crate'] and t['name'].split('::')[-1] == 'Position']
    if len(pos) != 1:
        und.append(dict(what='no type Position'))
    else:
        bad = [dict(type='Position', holds=k, at=' > '.join(p)) for k, p in fx.tree(pos[0]['id'])]
        hard = [b for b in bad if b['holds'].startswith(('interior', 'shared'))]
        row('a position owns all of its parts and changes only through a mutable reference', hard, 1)
        und += [dict(what=b['holds'], at=b['at']) for b in bad if b not in hard]
    for u in und[:20]:
        j.add('C17', 'effects are within the fragment the analysis knows', 'undecided', 1, u)
    # derived Clone copies every part
    im = [x for x in d['impls'] if x['trait'].endswith('Clone')]
    manual = [x['self'] for x in im if not x['derived']]
    j.stats['manual_clone'] = manual
    j.stats['functions'] = sorted(fx.insts[k]['name'] for k in fx.seen if fx.insts[k]['krate'] == d['crate'])
    return j


WITNESS = {
    'positions can be sent to and shared between threads': ('E0277', '''
fn ok<T: Send + Sync + Clone + 'static>() {}
pub fn f() { ok::<yasai::Position>() }
'''),
    'queries need only a shared reference': ('E0596|E0308|E0502|E0382|E0505', '''
pub fn f(p: &yasai::Position, m: shogi_core::Move, c: shogi_core::Color, s: shogi_core::Square) {
    let _ = (p.side_to_move(), p.ply(), p.hand(c), p.piece_at(s), p.keys(), p.key(), p.in_check(), p.is_check_move(m), p.legal_moves());
    let _ = (p.in_check(), p.legal_moves());
}
'''),
    'a clone borrows nothing from its original': ('E0597|E0505|E0499|E0502|E0596', '''
pub fn f(p: &mut yasai::Position, m: shogi_core::Move) -> yasai::Position { let q = p.clone(); p.do_move(m); p.undo_move(m); q }
'''),
}


def check_witness(src, work):
    """crates that compile exactly when the property holds"""
    j = Job('compile-time witnesses')
    os.makedirs(work, exist_ok=True)
    for k, (ob, (codes, code)) in enumerate(WITNESS.items()):
        w = os.path.join(work, 'w%d' % k)
        os.makedirs(w + '/src')
        open(w + '/Cargo.toml', 'w').write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                                           'yasai = { path = "%s" }\nshogi_core = "0.1.4"\n[workspace]\n' % src)
        open(w + '/src/lib.rs', 'w').write('#![allow(unused)]\n' + code)
        import shutil
        shutil.copy(os.path.join(src, 'Cargo.lock'), w + '/Cargo.lock')
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'tgt'))
        e.pop('RUSTFLAGS', None)
        r = subprocess.run(['cargo', 'check', '--offline', '--quiet', '--message-format', 'short'], cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            j.add('C17', ob, 'ok', 1, None)
        elif re.search(r'src/lib.rs.*error\[(%s)\]' % codes, r.stdout) and 'error: could not compile `witness`' in r.stdout:
            j.add('C17', ob, 'violated', 1, dict(compiler=[l for l in r.stdout.splitlines() if 'error[' in l][:3]))
        else:
            j.add('C17', ob, 'undecided', 1, dict(compiler=r.stdout[-400:]))
    j.stats['functions'] = []
    return j
