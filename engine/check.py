#!/usr/bin/env python3-vt
"""Driver: extracts the IR of the real headers, generates and discharges the obligations of one property."""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import sys
import tempfile
import time
import traceback
import resource
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)

import terms as tm          # noqa: E402
import llir                 # noqa: E402
import symex                # noqa: E402
from prove import Prover, Sampler, angles  # noqa: E402

CLANG = '/usr/bin/clang++-18'
FLAGS = ['-std=c++11', '-include', 'cstdint', '-w', '-ffp-contract=off', '-I', os.path.join(VERIF, 'contracts')]
IRFLAGS = ['-O0', '-fno-threadsafe-statics', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm']


class CheckError(Exception):
    pass


def compile_ir(src, out, defs=()):
    cmd = [CLANG] + FLAGS + ['-I', REPO] + IRFLAGS + list(defs) + [src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('extraction failed: %s\n%s' % (' '.join(cmd), r.stderr[:4000]))


def compile_native(src, out, defs=()):
    cmd = [CLANG] + FLAGS + ['-I', REPO, '-DVC_NATIVE', '-O0', '-g1', '-fsanitize=address,bounds,integer-divide-by-zero',
                             '-fno-sanitize-recover=all'] + list(defs) + \
        [src, os.path.join(VERIF, 'contracts', 'native.cpp'), '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('native build failed: ' + r.stderr[:3000])


def demangle(names):
    names = list(names)
    if not names:
        return {}
    r = subprocess.run(['c++filt'] + names, capture_output=True, text=True) if len(names) < 500 else \
        subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    out = r.stdout.split('\n')
    return dict(zip(names, out))


BASE = {}


def load(ll, reallib=False):
    mod = llir.Module(open(ll).read())
    mod.reallib = reallib
    return mod


def init_globals(mod):
    """run the static constructors once; contracts start from the resulting state"""
    ex = symex.Executor(mod)
    st = symex.State()
    for c in mod.ctor_list():
        n, e = ex.call(c, [], st)
        if n is None:
            raise CheckError('static initialisation does not return')
        st = n[0]
    return ex, st


def kept_state(ex, st0, st):
    """global and static variables whose value changed during the contract"""
    r = []
    for oid, o in st.objs.items():
        if not (isinstance(oid, str) and oid.startswith('g:')) or o.const or 'vc_' in oid:     # vc_: the contracts' own recorders
            continue
        old = st0.objs.get(oid)
        if old is None:
            s = symex.State()
            ex.glob_ptr(s, oid[2:])
            old = s.objs[oid]
        if old.cells != o.cells:
            r.append(oid[2:])
    return sorted(r)


def counting(before, after):
    """a kept variable moved from one constant to another: a counter, further turns may behave differently"""
    for oid, o in after.objs.items():
        if not (isinstance(oid, str) and oid.startswith('g:')) or o.const or 'vc_' in oid:
            continue
        b = before.objs.get(oid)
        if b is None or b.cells == o.cells:
            continue
        for k, c in o.cells.items():
            if b.cells.get(k) != c and getattr(c[1], 'op', None) in ('ic', 'rc'):
                return True
    return False


def run_contract(mod, ex0, st0, name, cfg):
    """executed in a worker process"""
    t0 = time.time()
    res = {'name': name, 'obligations': [], 'status': 'ok', 'functions': {}, 'external': [], 'stats': {},
           'covers': [], 'inputs': []}
    ex = symex.Executor(mod, cfg.get('summaries'))
    ex.nobj = ex0.nobj
    ex.mod = mod
    st = st0.fork()
    try:
        fn = mod.func(name)
        if fn is None:
            raise CheckError('no contract ' + name)
        normal, exc = ex.run(fn.parse(), [], st)
        if normal is not None:
            kept = kept_state(ex, st0, normal[0])
            if kept:
                # the code keeps state between calls: the contract must hold again, for new inputs, from the state left behind
                res['kept_state'] = kept
                for turn in range(cfg.get('turns', 9)):
                    first, before = exc, normal[0].fork()
                    normal, exc = ex.run(fn.parse(), [], normal[0])
                    if first is not None:
                        ex.oblige('exception', first, tm.FALSE, 'no exception escapes the contract')
                    if normal is None or not counting(before, normal[0]) or time.time() - t0 > 8:
                        break
                    res['turns'] = turn + 2
    except (symex.Unsupported, llir.ParseError) as e:
        res['status'] = 'unsupported'
        res['reason'] = str(e)
        res['where'] = '/'.join(ex.stack[-4:])
        res['wall'] = time.time() - t0
        res['inputs'] = [(t.args[0], k) for t, k in ex.inputs]
        return res
    res['functions'] = dict(ex.called)
    res['external'] = sorted(ex.external)
    res['inputs'] = [(t.args[0], k) for t, k in ex.inputs]
    res['steps'] = ex.steps
    if exc is not None:
        ex.oblige('exception', exc, tm.FALSE, 'no exception escapes the contract')
    ends = []
    if normal is not None:
        ends.append(normal[0].pc)
    f32 = all(k in ('f32', 'i32', 'u32', 'u8', 'u64', 'bool', 'i8', 'i16', 'u16', 'i64') for _, k in ex.inputs) and any(
        k == 'f32' for _, k in ex.inputs)
    tol = Fraction(1, 10 ** 6) if f32 else Fraction(1, 10 ** 11)
    pr = Prover(tol=tol, budget=cfg['budget'], z3_ms=cfg['z3_ms'], use_cvc5=True, both=cfg.get('both', False))
    # vacuity: the end of the contract and every cover point must be reachable
    covers = [(pc, m) for pc, m in ex.covers]
    for pc in ends:
        covers.append((pc, 'end of contract'))
    if not ends and exc is None:
        res['covers'].append(('end of contract', 'unreachable'))
    smp = None
    for pc, m in covers:
        ok = None
        if not pc:
            ok = 'trivial'
        else:
            if smp is None:
                smp = Sampler(seed=cfg['seed'])
                smp.solve_assumptions(list(pc), pr)
            try:
                if smp.satisfied(pc) > 0:
                    ok = 'sampled'
            except Exception:
                ok = None
            if ok is None:
                v, mm = pr.prove(list(pc), tm.FALSE)
                ok = 'solver' if v == 'refuted' else ('unreachable' if v == 'proved' else 'unknown')
        res['covers'].append((m, ok))
    failed = 0
    for ob in ex.obligs:
        t1 = time.time()
        entry = {'kind': ob.kind, 'msg': ob.msg, 'where': ob.where}
        if failed >= cfg['maxfail']:
            entry['verdict'] = 'skipped'
            res['obligations'].append(entry)
            continue
        fast = Prover(tol=tol, budget=10, z3_ms=1)
        v, how = quick(pr, ob)
        cands = []
        if v != 'proved':
            try:
                s2 = Sampler(n=cfg['samples'], seed=cfg['seed'])
                s2.solve_assumptions(list(ob.pc), pr)
                cands = s2.candidates(ob.pc, ob.goal, ex.inputs)
                if not cands and any(x.op == 'rfn' and x.args[0] == 'rnd32' for x in tm.subterms([ob.goal])):
                    entry['fine'] = True
                    s2 = Sampler(n=cfg['samples'], seed=cfg['seed'], fine={t for t, k in ex.inputs if k == 'f64'})
                    s2.solve_assumptions(list(ob.pc), pr)
                    cands = s2.candidates(ob.pc, ob.goal, ex.inputs)
            except Exception as e:
                entry['sampler_error'] = repr(e)
            if cands:
                v, how = 'refuted', 'sampling'
            else:
                v, how = pr.prove(list(ob.pc), ob.goal)
                if v == 'unknown' and not failed:
                    # out of time, perhaps on a busy machine: once more with a larger budget
                    again = Prover(tol=tol, budget=3 * cfg['budget'], z3_ms=3 * cfg['z3_ms'], use_cvc5=True)
                    v, how = again.prove(list(ob.pc), ob.goal)
                    pr.solver_s += again.solver_s
                    for k, n in again.stats.items():
                        pr.stats[k] = pr.stats.get(k, 0) + n
                if v == 'refuted':
                    cands = [how]
                    how = 'solver model'
                if v != 'proved':
                    try:
                        s2 = Sampler(n=4 * cfg['samples'], seed=cfg['seed'], edge=angles(list(ob.pc) + [ob.goal]))
                        s2.solve_assumptions(list(ob.pc), pr)
                        more = s2.candidates(ob.pc, ob.goal, ex.inputs)
                    except Exception as e:
                        entry['sampler_error'] = repr(e)
                        more = []
                    cands = more + cands
                    if more:
                        v, how = 'refuted', 'sampling of unusual inputs'
        entry['verdict'] = v
        entry['how'] = how if isinstance(how, str) else str(how)
        entry['t'] = round(time.time() - t1, 3)
        if v != 'proved':
            failed += 1
            entry['cands'] = [[tofloat(c.get(t.args[0], 0)) for t, _ in ex.inputs] for c in cands]
            entry['goal'] = tm.show(ob.goal, 7)[:1500]
            entry['pc'] = [tm.show(c, 6)[:400] for c in ob.pc][:20]
        res['obligations'].append(entry)
    res['stats'] = pr.stats
    res['solver_s'] = pr.solver_s
    res['wall'] = time.time() - t0
    return res


def quick(pr, ob):
    """normal form / case split only"""
    if ob.goal is tm.TRUE:
        pr.stats['trivial'] += 1
        return 'proved', 'trivial'
    try:
        if ob.goal.op == 'eq' and ob.goal.args[0].sort in (tm.REAL, tm.INT):
            pr.ring = pr.__dict__.setdefault('ring0', pr.ring)
            if pr.ring0.close(ob.goal.args[0], ob.goal.args[1], pr.tol):
                pr.stats['normal_form'] += 1
                return 'proved', 'normal_form'
    except Exception:
        pass
    return 'unknown', ''


def tofloat(x):
    if isinstance(x, bool):
        return 1.0 if x else 0.0
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, int):
        return x
    try:
        if isinstance(x, (float,)):
            return float(x)
        return int(x) if float(x) == int(x) and abs(int(x)) > 2 ** 53 else float(x)
    except Exception:
        return 0.0


def worker(conn, mod, ex0, st0, name, cfg):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        r = run_contract(mod, ex0, st0, name, cfg)
    except MemoryError:
        r = {'name': name, 'status': 'unsupported', 'reason': 'memory limit', 'obligations': [], 'inputs': []}
    except CheckError as e:
        r = {'name': name, 'status': 'error', 'reason': str(e), 'obligations': [], 'inputs': []}
    except Exception:
        r = {'name': name, 'status': 'unsupported', 'reason': 'engine: ' + traceback.format_exc()[-1500:],
             'obligations': [], 'inputs': []}
    try:
        conn.send(r)
        conn.close()
    except Exception:
        pass
    os._exit(0)


def run_all(mod, ex0, st0, names, cfg, deadline, answered, jobs=8):
    """fork one process per contract, at most `jobs` at a time; yields (name, result) as they finish"""
    todo = list(names)
    running = []
    out = {}
    ctx = mp.get_context('fork')
    try:
        yield from _run_all(todo, running, out, ctx, mod, ex0, st0, cfg, deadline, answered, jobs)
    finally:
        for p, a, n, t in running:
            p.kill()
            p.join()


def _run_all(todo, running, out, ctx, mod, ex0, st0, cfg, deadline, answered, jobs):
    while todo or running or out:
        while out:
            yield out.popitem()
        if answered():
            yield None, None
        while todo and len(running) < jobs and time.time() < deadline:
            n = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(b, mod, ex0, st0, n, cfg))
            p.start()
            b.close()
            running.append((p, a, n, time.time()))
        if todo and not running:
            for n in todo:
                out[n] = {'name': n, 'status': 'timeout', 'reason': 'check deadline', 'obligations': [], 'inputs': []}
            todo[:] = []
        progressed = False
        for item in list(running):
            p, a, n, t = item
            if a.poll(0):
                try:
                    out[n] = a.recv()
                except EOFError:
                    out[n] = {'name': n, 'status': 'unsupported', 'reason': 'worker died', 'obligations': [],
                              'inputs': []}
                p.join()
                running.remove(item)
                progressed = True
            elif not p.is_alive() and not a.poll(0):
                out[n] = {'name': n, 'status': 'unsupported', 'reason': 'worker died', 'obligations': [], 'inputs': []}
                running.remove(item)
                progressed = True
            elif time.time() - t > cfg['contract_s'] or time.time() > deadline:
                p.kill()
                p.join()
                out[n] = {'name': n, 'status': 'timeout', 'reason': 'contract time limit', 'obligations': [],
                          'inputs': []}
                running.remove(item)
                progressed = True
        if not progressed and running:
            time.sleep(0.01)


class Native:
    def __init__(self, src, tmp, defs):
        self.src, self.tmp, self.defs = src, tmp, defs
        self.exe = None
        self.err = None

    def get(self):
        if self.exe is None and self.err is None:
            exe = os.path.join(self.tmp, 'native')
            try:
                compile_native(self.src, exe, self.defs)
                self.exe = exe
            except CheckError as e:
                self.err = str(e)
        return self.exe

    def replay(self, name, values, fine=False):
        """-> (confirmed, output)"""
        exe = self.get()
        if exe is None:
            return False, self.err
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = subprocess.run([exe, name, 'replay-fine' if fine else 'replay'] + [repr(v) for v in values], capture_output=True, text=True,
                               timeout=60, env=env, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return False, 'timeout'
        bad = r.returncode == 1 or r.returncode == 77 or r.returncode < 0 or 'runtime error' in r.stderr
        return bad, (r.stdout + r.stderr)[:3000]

    def random(self, name, n, seed, own_dir=False, limit=120):
        exe = self.get()
        if exe is None:
            return None, self.err
        cwd = self.tmp
        if own_dir:
            cwd = os.path.join(self.tmp, 'cwd_' + name)
            os.makedirs(cwd, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77')
        try:
            r = subprocess.run([exe, name, 'random', str(n), str(seed)], capture_output=True, text=True, timeout=limit,
                               env=env, cwd=cwd)
        except subprocess.TimeoutExpired:
            return None, 'timeout'
        return r.returncode, (r.stdout + r.stderr)[:3000]


def load_known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)$', ln)
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    limit = 840 if not thorough else 3600
    cfg = {'budget': 40 if not thorough else 240, 'z3_ms': 12000 if not thorough else 60000, 'seed': seed,
           'samples': 600 if not thorough else 4000, 'maxfail': 4, 'contract_s': 420 if not thorough else 1800}
    src = os.path.join(VERIF, 'contracts', prop + '.cpp')
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    code = 2
    try:
        code = check(prop, tier, seed, cfg, src, tmp, rdir, t0, limit, thorough, only)
    except CheckError as e:
        print('ERROR', e)
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def configs(src, thorough):
    """build configurations: the debug configuration of the test build, and (where the contract asks) release"""
    head = open(src).read(4000)
    out = [('debug', [])]
    m = re.search(r'VC-CONFIG-QUICK:(.*)', head)
    if m:
        out += [(x.strip().split('=')[0], x.strip().split('=')[1].split()) for x in m.group(1).split(';') if x.strip()]
    if thorough:
        m = re.search(r'VC-CONFIG-THOROUGH:(.*)', head)
        if m:
            out += [(x.strip().split('=')[0], x.strip().split('=')[1].split()) for x in m.group(1).split(';') if
                    x.strip()]
    return out


def check(prop, tier, seed, cfg, src, tmp, rdir, t0, limit, thorough, only):
    total = {'obligations': 0, 'discharged': 0}
    backends = {}
    funcs = {}
    externals = set()
    contracts = []
    bounded = []
    violations = []
    known_hits = []
    vac = []
    canaries = 0
    errors = []
    lost = []
    searches = 0
    proved = []
    cross = {'contracts': 0, 'inputs': 0, 'disagreements': []}
    solver_s = 0.0
    nfail_known = load_known()
    samples = []
    extract = []
    steps = 0
    by_kind = {}
    # VC-REAL-LIBRARY: std::string etc. are executed from the real libstdc++ bodies instead of being opaque
    reallib = 'VC-REAL-LIBRARY' in open(src).read(4000)
    skipped = []
    standin = stopped = False
    confirmed_at = []
    for cname, defs in configs(src, thorough):
        ll = os.path.join(tmp, cname + '.ll')
        t1 = time.time()
        try:
            compile_ir(src, ll, defs)
        except CheckError as e:
            if cname == 'debug':
                alt = src[:-4] + '_bounded.cpp'
                if not os.path.exists(alt):
                    raise
                # the contracts no longer compile against the tree: bounded stand-ins written against the real library
                print('note: %s' % str(e).split('error:')[-1].split('\n')[0].strip())
                nat = Native(alt, tmp, [])
                if nat.get() is None:
                    raise CheckError(str(e) + nat.err)
                reg = subprocess.run([nat.exe], capture_output=True, text=True).stdout.split()
                with ThreadPoolExecutor(8) as pool:
                    outs = list(pool.map(lambda n: nat.random(n, 2000 if not thorough else 50000, seed, True), reg))
                for n, (rc, out) in zip(reg, outs):
                    bounded.append({'contract': n[4:], 'reason': 'contracts do not compile', 'where': None,
                                    'stand_in': (out or '').strip()[:200]})
                    if rc is None:
                        errors.append('stand-in %s failed: %s' % (n, out))
                    elif rc != 0 or 'held on 0 ' in out:
                        report(violations, nfail_known, known_hits, prop, n[4:], 'bounded stand-in', 'contracts do not compile',
                               out, rc != 0, rdir, {})
                standin = True
                break
            skipped.append(cname)      # an extra configuration that the tree no longer offers
            print('note: configuration %s does not compile, skipped' % cname)
            continue
        extract.append({'config': cname, 'defines': defs, 'clang_s': round(time.time() - t1, 2)})
        mod = load(ll, reallib)
        ex0, st0 = init_globals(mod)
        names = [n for n in mod.funcs if n.startswith('vcp_') or n.startswith('vcx_') or
                 (thorough and n.startswith('vct_'))]
        if only:
            names = [n for n in names if re.search(only, n)]
        if not names:
            raise CheckError('no contracts generated')
        nat = Native(src, tmp, ['-DVC_CFG_' + cname] + defs)
        def answered():
            # a violation with a failing input is enough; the contracts still running get a few more seconds
            if not confirmed_at and any('no-failing' not in v for v in violations):
                confirmed_at.append(time.time())
            if confirmed_at and time.time() > confirmed_at[0] + (8 if not thorough else 120):
                return True
            return bool(violations) and time.time() > t0 + limit * 0.7
        for n, r in run_all(mod, ex0, st0, names, cfg, t0 + limit * 0.85, answered):
            if r is None:
                stopped = True
                break
            tag = n[4:] + ('' if cname == 'debug' else '@' + cname)
            solver_s += r.get('solver_s', 0)
            steps += r.get('steps', 0)
            if r['status'] == 'error':
                raise CheckError(r['reason'])
            if only:
                print('%-40s %-10s %6.2fs obl=%d %s' % (tag, r['status'], r.get('wall', 0), len(r['obligations']),
                                                        r.get('stats', '')))
                for e in r['obligations']:
                    if e['verdict'] != 'proved' or e.get('t', 0) > 3:
                        print('    ', {k: v for k, v in e.items()})
                if r.get('reason'):
                    print('    ', r['reason'], r.get('where'))
                print('    ', [c for c in r.get('covers', []) if c[1] not in ('trivial', 'sampled', 'solver')])
            if n.startswith('vcx_'):
                # canary: a deliberately false contract must fail
                if r['status'] == 'ok' and r['obligations'] and all(e['verdict'] == 'proved' for e in r['obligations']):
                    errors.append('canary %s was accepted' % n)
                elif any(e['verdict'] == 'refuted' for e in r['obligations']):
                    canaries += 1
                else:
                    lost.append('%s: %s' % (n, r.get('reason')))
                continue
            if r['status'] != 'ok':
                # out of the verifier's reach: bounded stand-in on the real code, never counted as proved
                left = t0 + limit * 1.03 - time.time()
                if left < 10:
                    errors.append('contract %s undecided (%s)' % (tag, r['reason']))
                    continue
                rc, out = nat.random(n, 20000 if not thorough else 200000, seed, limit=min(120, left))
                bounded.append({'contract': tag, 'reason': r['reason'], 'where': r.get('where'),
                                'stand_in': (out or '').strip()[:200]})
                if rc is None:
                    errors.append('contract %s undecided (%s) and its stand-in failed: %s' % (tag, r['reason'], out))
                elif rc != 0 or 'held on 0 ' in out:
                    report(violations, nfail_known, known_hits, prop, tag, 'bounded stand-in', r['reason'], out, rc != 0,
                           rdir, {})
                continue
            if not r['obligations']:
                errors.append('contract %s generated no obligation' % tag)
                continue
            for m, ok in r['covers']:
                if ok in ('unreachable', 'unknown'):
                    vac.append((tag, m, ok))
            for k, v in r['functions'].items():
                if not k.startswith('vc'):
                    funcs[k] = funcs.get(k, 0) + v
            externals.update(r['external'])
            nd = 0
            for e in r['obligations']:
                total['obligations'] += 1
                by_kind[e['kind']] = by_kind.get(e['kind'], 0) + 1
                if e['verdict'] == 'proved':
                    total['discharged'] += 1
                    nd += 1
                    backends[e['how']] = backends.get(e['how'], 0) + 1
            contracts.append({'contract': tag, 'obligations': len(r['obligations']), 'discharged': nd,
                              'wall_s': round(r.get('wall', 0), 2)})
            bad = [e for e in r['obligations'] if e['verdict'] in ('refuted', 'unknown')]
            if not bad:
                proved.append((n, tag))
            done = False
            for e in bad:
                if done:
                    break
                conf = False
                outp = ''
                vals = None
                for c in e.get('cands', []):
                    conf, outp = nat.replay(n, c, e.get('fine', False))
                    if conf:
                        vals = c
                        break
                info = {'inputs': r['inputs'], 'values': vals, 'entry': e}
                if conf:
                    done = True
                    report(violations, nfail_known, known_hits, prop, tag, e['msg'], e['how'], outp, True, rdir, info)
            if bad and not done and searches < 12:
                # the solver's models did not replay: look for a failing input on the real code
                searches += 1
                rc, out = nat.random(n, 20000 if not thorough else 500000, seed)
                if rc == 1 or rc == 77 or (rc is not None and rc < 0):
                    done = True
                    e = bad[0]
                    report(violations, nfail_known, known_hits, prop, tag, e['msg'], '%s; failing input found by random '
                           'search' % e['how'], out, True, rdir, {'inputs': r['inputs'], 'values': None, 'entry': e})
            if bad and not done:
                e = bad[0]
                report(violations, nfail_known, known_hits, prop, tag, e['msg'], e['how'], '', False, rdir,
                       {'inputs': r['inputs'], 'values': None, 'entry': e})
        if stopped:
            break
        if thorough and not only:
            # sanity check of the verifier itself: proved contracts are also run on the real code (decides nothing)
            with ThreadPoolExecutor(8) as pool:
                nat.get()
                for (n, tag), (rc, out) in zip(proved, pool.map(lambda x: nat.random(x[0], 20000, seed), proved)):
                    cross['contracts'] += 1
                    m = re.search(r'held on (\d+) of', out or '')
                    cross['inputs'] += int(m.group(1)) if m else 0
                    if rc != 0:
                        cross['disagreements'].append('%s: %s' % (tag, (out or '')[:200]))
            for x in cross['disagreements']:
                print('note: proved contract disagrees with its native run (rounding, or a fault of the verifier): ' + x)
        proved = []
    if errors and not violations:
        raise CheckError('; '.join(errors[:5]))
    contracts.sort(key=lambda c: c['contract'])
    if not canaries and not lost and not only and not violations and not standin:
        raise CheckError('no canary was refuted')
    if lost:
        print('note: canaries undecided: %s' % '; '.join(lost)[:300])
    if vac and not violations:
        raise CheckError('vacuous contracts: %r' % vac[:5])
    if total['obligations'] == 0 and not bounded and not violations:
        raise CheckError('no obligation was generated')
    dm = demangle(funcs.keys())
    def owner(v):
        v = v.replace('operator<<', 'operator_').replace('operator<', 'operator_').replace('operator()', 'operator_').replace('->', '_').replace('operator>', 'operator_').replace('operator-', 'operator_')
        while True:
            w = re.sub(r'<[^<>]*>', '', v)
            if w == v:
                break
            v = w
        v = re.sub(r'\{[^{}]*\}', '', v)
        while v.startswith('decltype'):
            v = v[v.index(')') + 1:].lstrip(') ')
        return v.split('(')[0].split()[-1] if v.split('(')[0].split() else ''
    heads = {v: owner(v) for v in dm.values()}
    real = sorted(v for v in heads if heads[v].startswith('vmml::'))
    helper = sorted(v for v in heads if heads[v].startswith(('std::', '__gnu_cxx::')))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration' if standin else 'proof',
        'coverage': {
            'obligations': total['obligations'], 'discharged': total['discharged'],
            'checker_cmd': 'engine/check.py %s (clang++-18 IR of /repo/vmmlib, normal forms + z3 %s + cvc5)' % (
                prop, __import__('z3').get_version_string()),
            'trusted_base': [
                'clang++-18 -O0 code generation; engine/llir.py, symex.py, poly.py, prove.py (this verifier)',
                'z3, cvc5',
                'floating point treated as exact real arithmetic on finite values',
                'external functions modelled, not verified: ' + (', '.join(sorted(demangle(externals).values()))[:1500] or 'none'),
            ],
            'contracts': contracts, 'contract_count': len(contracts),
            'obligations_by_kind': by_kind, 'discharged_by': backends, 'solver_s': round(solver_s, 2),
            'ir_instructions_executed': steps,
            'functions_under_contract': real, 'functions_under_contract_count': len(real),
            'library_functions_inlined': helper[:400],
            'native_cross_check': cross,
            'skipped_configurations': skipped, 'stopped_early_after_violation': stopped,
            'canaries_refuted': canaries, 'canaries_undecided': lost,
            'bounded': bounded, 'extraction': extract,
            'vacuity': 'every precondition and the end of every contract shown reachable',
        },
        'assumptions': ASSUMPTIONS + (['std::ostream/istream/ofstream/ifstream and the file system behave as contracts/ghost_stream.h says (token sequences; a table of named byte sequences)'] if reallib else []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d obligations, %d discharged %s, %d bounded, %d functions, %.1fs' % (
        prop, len(contracts), total['obligations'], total['discharged'], backends, len(bounded), len(real),
        time.time() - t0))
    for b in bounded:
        print('  bounded (not proved): %s: %s' % (b['contract'], b['reason'].strip().split('\n')[-1]))
    for k in known_hits:
        print(k)
    for v in violations:
        print(v)
    return 1 if violations else 0


ASSUMPTIONS = [
    'float/double arithmetic is exact real arithmetic on finite values: rounding, overflow, NaN and infinities are outside the claim',
    'signed integer arithmetic wraps (two\'s complement)',
    'template arguments (dimensions, element types) are the instances listed under contracts',
    'exception objects, std::string and iostream calls do not modify vmmlib objects',
    'libm functions satisfy: sqrt(x)^2 = x and sqrt(x) >= 0 for x >= 0; sin^2+cos^2 = 1 and the angle sum formulas; tan = sin/cos; cos(acos x) = x, sin(asin x) = x',
]


def report(violations, known, hits, prop, tag, msg, how, out, confirmed, rdir, info):
    for p, c, o, what in known:
        if p == prop and re.fullmatch(c, tag) and o in msg:
            hits.append('KNOWN-FINDING: property=%s %s' % (prop, what))
            return
    safe = re.sub(r'[^\w.@-]', '_', tag)
    path = os.path.join(rdir, '%s-%s.txt' % (prop, safe))
    with open(path, 'w') as f:
        f.write('property: %s\ncontract: %s\nfailed obligation: %s\nhow: %s\n' % (prop, tag, msg, how))
        if info.get('values') is not None:
            f.write('inputs:\n')
            for (n, k), v in zip(info['inputs'], info['values']):
                f.write('  %s (%s) = %r\n' % (n, k, v))
            f.write('replay: native contract with arguments: %s\n' % ' '.join(repr(v) for v in info['values']))
        e = info.get('entry')
        if e:
            f.write('verifier output: verdict=%s %s\n where: %s\n goal: %s\n path: %s\n' % (
                e['verdict'], e.get('how'), e.get('where'), e.get('goal'), e.get('pc')))
            if not confirmed and e.get('cands'):
                f.write('verifier candidate inputs (not confirmed by the native replay): %r\n' % e['cands'][:2])
        f.write('native output:\n%s\n' % out)
    violations.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else
                                                             ' no-failing-input-found'))


if __name__ == '__main__':
    main()
