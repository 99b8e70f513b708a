#!/usr/bin/env python3
"""Decide one property of the tree in /repo: python3 checks/run.py C08 [quick|thorough]

Dumps the MIR of the current source (nothing of it is executed), analyses the contexts of the property
in parallel, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING / UNDECIDED lines."""
import hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time, traceback, select

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('YASAI_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, HERE)
CPUS = min(8, os.cpu_count() or 8)
MEM = 7 << 30


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    exe = os.path.join(VERIF, 'driver', 'target', 'release', 'mirdump')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = sh(['cargo', '+nightly', 'build', '--offline', '--release'], cwd=os.path.join(VERIF, 'driver'))
        if r.returncode:
            print(r.stdout[-3000:])
            sys.exit('the MIR dumper does not build')


def copy_source(dst):
    """the current working tree of /repo (without build products)"""
    os.makedirs(dst)
    for n in os.listdir(REPO):
        if n in ('.git', 'target', 'Cargo.lock'):
            continue
        a, b = os.path.join(REPO, n), os.path.join(dst, n)
        if os.path.isdir(a):
            shutil.copytree(a, b, symlinks=True, ignore=shutil.ignore_patterns('target'))
        else:
            shutil.copy2(a, b)
    lock = os.path.join(REPO, 'Cargo.lock')
    shutil.copy2(lock if os.path.exists(lock) else os.path.join(VERIF, 'tools', 'Cargo.lock'), os.path.join(dst, 'Cargo.lock'))


class Scratch:
    def __init__(s):
        s.dir = tempfile.mkdtemp(prefix='yasai-verif-')
        s.src = os.path.join(s.dir, 'src')
        copy_source(s.src)

    def dump(s, name='default', cargo_args=(), env=None, patch=None):
        """MIR of one configuration; returns the path of the JSON dump"""
        src = s.src
        if patch:
            src = os.path.join(s.dir, 'src-' + name)
            shutil.copytree(s.src, src)
            patch(src)
        out = os.path.join(s.dir, name + '.json')
        e = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
            e.pop(k, None)
        e['RUSTFLAGS'] = '-C target-cpu=x86-64'
        e.update(env or {})
        r = sh(['bash', os.path.join(VERIF, 'tools', 'dump.sh'), src, out, os.path.join(s.dir, 'tgt-' + name)] + list(cargo_args), env=e)
        if r.returncode:
            raise RuntimeError('the tree does not compile for analysis (%s):\n%s' % (name, r.stdout[-3000:]))
        return out

    def expanded(s, name, cargo_args=(), flags='-C target-cpu=x86-64'):
        """the source after macro expansion and conditional compilation"""
        e = dict(os.environ)
        for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
            e.pop(k, None)
        e.update(RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(s.dir, 'tgt-' + name))
        r = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--locked', '--lib', '--profile', 'dev'] + list(cargo_args) +
                           ['--', '-Zunpretty=expanded'], cwd=s.src, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        return r.stdout if r.returncode == 0 and 'mod ' in r.stdout else None

    def core(s, target):
        """the core library, type-checked for another target (kept in build/)"""
        r = sh(['bash', os.path.join(VERIF, 'tools', 'target.sh'), '-', '-', '-', target])
        if r.returncode:
            raise RuntimeError('core does not build for %s:\n%s' % (target, r.stdout[-3000:]))

    def target(s, name, target, flags=(), simd=True):
        """MIR of the square-set module compiled for another target"""
        out = os.path.join(s.dir, name + '.json')
        e = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
            e.pop(k, None)
        r = sh(['bash', os.path.join(VERIF, 'tools', 'target.sh'), s.src, out, os.path.join(s.dir, 'tgt-' + name), target] +
               (['--cfg', 'feature="simd"'] if simd else []) + list(flags), env=e)
        return out if r.returncode == 0 else r.stdout[-600:]

    def clean(s):
        shutil.rmtree(s.dir, ignore_errors=True)


class Task:
    """one forked analysis: fn(*args) -> Job-like object with .name, .rows, .stats"""

    def __init__(s, name, fn, *args, limit=240, parts=()):
        """parts: tasks that together decide the same, for when this one is too big"""
        s.name, s.fn, s.args, s.limit, s.parts = name, fn, args, limit, list(parts)


def child(task, w):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    import threading
    threading.stack_size(1 << 29)
    out = {}

    def work():
        from values import Unsupported
        import bdd
        try:
            j = task.fn(*task.args)
            out.update(rows=j.rows, stats=j.stats)
        except Unsupported as e:
            out.update(failed='unsupported: %s' % e, where=str(getattr(e, 'where', '') or ''))
        except bdd.Overflow as e:
            out.update(failed='size limit: %s' % e)
        except MemoryError:
            out.update(failed='memory limit')
        except RecursionError:
            out.update(failed='recursion limit')
        except Exception as e:
            if os.environ.get('DEBUG'):
                traceback.print_exc(limit=-15)
            out.update(failed='analysis error: %s: %s' % (type(e).__name__, str(e)[:300]),
                       where=traceback.format_exc(limit=-3)[-600:])
    t = threading.Thread(target=work)
    t.start()
    t.join()
    with os.fdopen(w, 'wb') as f:
        f.write(json.dumps(out, default=str).encode())
    sys.stdout.flush()
    os._exit(0)


def totuple(x):
    return tuple(totuple(y) for y in x) if type(x) is list else x


def run_tasks(tasks, budget, hard, stop_on_violation=True):
    """run in order, CPUS at a time, starting none after `budget` seconds; results by task name"""
    t0 = time.time()
    todo = list(tasks)
    live = {}
    res = {}
    bad = False
    extra = []
    while live or (extra and time.time() - t0 < hard and not bad) or (todo and not bad):
        now = time.time() - t0
        while len(live) < CPUS and not bad and (extra or todo and now < budget):
            t = (extra or todo).pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                try:
                    child(t, w)
                finally:
                    os._exit(1)
            os.close(w)
            live[r] = [pid, t, time.time(), b'']
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                live[r][3] += b
                continue
            pid, t, ts, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                d = json.loads(buf)
            except ValueError:
                d = dict(failed='the analysis process died (memory limit?)')
            d['wall'] = round(time.time() - ts, 2)
            if t.parts and ('failed' in d or any(x[2] == 'undecided' for x in d['rows']) and not any(x[2] == 'violated' for x in d['rows'])):
                extra += t.parts
                continue
            res[t.name] = d
            # closer looks at what a context could not decide
            prog = t.args[0] if t.args else None
            for fn, args in d.get('stats', {}).get('follow', ()):
                import play
                a = [totuple(x) for x in args]
                extra.append(Task('%s %s' % (fn, a), getattr(play, fn), prog, *a))
            if stop_on_violation and any(x[2] == 'violated' for x in d.get('rows', ())):
                bad = True
        for r in list(live):
            pid, t, ts, buf = live[r]
            if time.time() - ts > t.limit or time.time() - t0 > hard or bad:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                if bad:
                    todo.append(t)
                elif t.parts and time.time() - t0 < hard:
                    extra += t.parts
                else:
                    res[t.name] = dict(failed='time limit', wall=round(time.time() - ts, 2))
        if bad and not live:
            break
    return res, [t.name for t in todo]


def known_findings():
    r = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                r.append(json.loads(l[7:]))
    return r


def is_known(f, prop, task, ob, detail):
    return f.get('property') == prop and f.get('obligation') == ob and all(
        f[k] in json.dumps(detail, default=str) + task for k in ('contains',) if k in f)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    build_driver()
    import bdd
    import props
    P = props.PROPS[prop]
    sc = Scratch()
    try:
        tasks = P['tasks'](sc, tier, seed)
        budget = P.get('budget', {}).get(tier, 50 if tier == 'quick' else 7200)
        res, skipped = run_tasks(tasks, budget, budget + (300 if tier == 'quick' else 1800))
    finally:
        sc.clean()
    viol, known, und, total, ok, inst = [], [], [], 0, 0, 0
    fns, byob = set(), {}
    kf = known_findings()
    for name in sorted(res):
        d = res[name]
        if 'failed' in d:
            und.append((name, 'the whole context', d['failed'] + ' ' + d.get('where', '')))
            total += 1
            continue
        fns |= set(d['stats'].get('functions', ()))
        for p, ob, st, n, det in d['rows']:
            if p != prop:
                continue
            total += 1
            inst += n
            o = byob.setdefault(ob, dict(contexts=0, instances=0))
            o['contexts'] += 1
            o['instances'] += n
            if st == 'ok':
                ok += 1
            elif st == 'violated':
                k = [f for f in kf if is_known(f, prop, name, ob, det)]
                (known if k else viol).append((name, ob, det))
            else:
                und.append((name, ob, json.dumps(det, default=str)[:400]))
    for name, ob, det in known:
        print('KNOWN-FINDING: property=%s %s: %s %s' % (prop, name, ob, json.dumps(det, default=str)[:300]))
    for name, ob, why in und[:20]:
        print('UNDECIDED property=%s %s: %s (%s)' % (prop, name, ob, why[:500]))
    if len(und) > 20:
        print('UNDECIDED property=%s ... %d more' % (prop, len(und) - 20))
    rp = os.path.join(ev, 'replay-%s.json' % prop)
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, 'w') as f:
            json.dump([dict(context=n, obligation=o, detail=d) for n, o, d in viol], f, indent=1, default=str)
        for n, o, d in viol[:5]:
            print('%s: %s' % (n, o))
            print('   ' + json.dumps(d, default=str)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    cov = dict(obligations=total, discharged=ok, checker_cmd='python3 checks/run.py %s %s' % (prop, tier),
               trusted_base=P.get('trusted', props.TRUSTED), undecided=len(und), known_findings=len(known),
               instances_decided=inst, contexts_analysed=len(res), contexts_not_reached_in_budget=len(skipped),
               contexts=sorted(res)[:400], by_obligation=byob, rule=P['rule'],
               functions_analysed=len(fns), functions=sorted(fns)[:200],
               undecided_detail=[list(u) for u in und[:20]],
               explanation=P.get('explanation', P['rule']))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=P['level'], coverage=cov,
                   assumptions=P.get('assumptions', props.ASSUMPTIONS), wall_s=round(time.time() - t0, 1),
                   violations=len(viol)), open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d violated, %d contexts (%d not reached), %.1fs' % (
        prop, tier, total, ok, len(und), len(viol), len(res), len(skipped), time.time() - t0))
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
