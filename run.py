#!/usr/bin/env python3
"""Decides one property by bounded model checking of the code in /repo.

usage: run.py PROPERTY [--tier quick|thorough] [--only HARNESS]... [--jobs N]

The harnesses of the property (checks.py) are compiled together with the
current sources of /repo by Kani, and each one is decided by CBMC. Every
counterexample is replayed natively on the real code; only a counterexample that
reproduces is reported as a violation.

exit 0: no violation, exit 1: violation, exit 2: no answer
"""
import argparse, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
HARNESS = os.path.join(VERIF, 'harness')
WORK = os.path.join(VERIF, 'work')
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KANI = '/root/.kani/kani-0.68.0'
CBMC_FLAGS = ['--no-malloc-may-fail', '--no-undefined-shift-check', '--no-signed-overflow-check', '--nan-check',
              '--no-self-loops-to-assumptions', '--no-pointer-primitive-check', '--object-bits', '16',
              '--sat-solver', 'cadical', '--verbosity', '9', '--json-ui']
GB = 1 << 30
MEM_TOTAL = 27.0
ENV = dict(os.environ)
ENV['PATH'] = KANI + '/bin:' + ENV.get('PATH', '')
ENV['CARGO_NET_OFFLINE'] = 'true'
ENV.pop('RUSTFLAGS', None)
ENV['RUST_BACKTRACE'] = '0'

print_lock = threading.Lock()


def log(*a):
    with print_lock:
        print(*a, flush=True)


class NoAnswer(Exception):
    pass


procs = set()
stopping = threading.Event()


def run(cmd, timeout=None, mem=None, cwd=None, out=None, env=None, check=True):
    """Runs a command, the output goes to the file `out` or is returned"""
    if stopping.is_set():
        raise NoAnswer('stopped')

    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (int(mem * GB), int(mem * GB)))
    f = open(out, 'wb') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=cwd, env=env or ENV, preexec_fn=pre)
    procs.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return 'timeout', b''
    finally:
        procs.discard(p)
        if out:
            f.close()
    if check and p.returncode != 0:
        raise NoAnswer('%s: exit %d: %s' % (cmd[0], p.returncode, (o or b'')[-2000:].decode(errors='replace')))
    return p.returncode, o or b''


def kill_all():
    stopping.set()
    for p in list(procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


# ---------------------------------------------------------------- encoding

def codegen(work, harnesses, features, part=''):
    """Compiles the harnesses and /repo to goto programs, returns the metadata per harness"""
    target = os.path.join(work, 'kani' + features + part)
    cmd = ['cargo', 'kani', '--lib', '--only-codegen', '-Z', 'stubbing', '--no-assertion-reach-checks',
           '--target-dir', target]
    if features:
        cmd += ['--features', features]
    for h in harnesses:
        cmd += ['--harness', h]
    cmd += ['--exact']
    logf = os.path.join(work, 'codegen%s%s.log' % (features, part))
    rc, _ = run(cmd, cwd=HARNESS, out=logf, timeout=600, check=False)
    if rc != 0:
        tail = open(logf, errors='replace').read()
        m = re.search(r'^error', tail, re.M)
        i = m.start() if m else max(0, len(tail) - 3000)
        raise NoAnswer('compilation with Kani failed:\n' + tail[i:i + 3000])
    res = {}
    for f in glob.glob(target + '/**/*.kani-metadata.json', recursive=True):
        d = json.load(open(f))
        for h in d['proof_harnesses']:
            res[h['pretty_name']] = h
    for h in harnesses:
        if h not in res:
            raise NoAnswer('harness %s was not compiled' % h)
    return res


def functions_of(meta):
    """Functions of the crate under test that are part of the goto program"""
    f = meta['goto_file'].replace('.symtab.out', '.pretty_name_map.json')
    try:
        names = json.load(open(f)).values()
    except OSError:
        return set()
    res = set()
    for n in names:
        if n and 'triple_arena' in n and '::' in n and not n.startswith('core::') and '{closure' not in n:
            n = re.sub(r'\(.*', '', n)
            if re.match(r'<?(&\S* )?(mut )?triple_arena::', n) or n.startswith('<') and ' as triple_arena::' in n:
                res.add(n)
    return res


def prepare(meta, out):
    m = meta['mangled_name']
    run(['goto-cc', meta['goto_file'], KANI + '/library/kani/kani_lib.c', '-o', out], timeout=300)
    run(['goto-cc', out, '--function', m, '-o', out], timeout=300)
    run(['goto-instrument', '--add-library', '--no-malloc-may-fail', out, out], timeout=300)
    run(['goto-instrument', '--generate-function-body-options', 'assert-false-assume-false',
         '--generate-function-body', '.*', '--drop-unused-functions', out, out], timeout=300)
    run(['goto-instrument', '--ensure-one-backedge-per-target', out, out], timeout=300)


# ---------------------------------------------------------------- solving

def cbmc(goto, unwind, extra, out, timeout, mem):
    cmd = ['cbmc'] + CBMC_FLAGS + ['--unwind', str(unwind)] + extra + [goto]
    rc, _ = run(cmd, out=out, timeout=timeout, mem=mem, check=False)
    if rc == 'timeout':
        raise NoAnswer('solver time limit of %ds reached' % timeout)
    try:
        d = json.load(open(out))
    except ValueError:
        raise NoAnswer('cbmc exit %s without a result (memory limit?): %s' % (rc, open(out, errors='replace').read()[-300:]))
    stats = dict(symex=0.0, solver=0.0, vccs=0, variables=0, clauses=0, queries=0)
    results = None
    status = None
    for m in d:
        t = m.get('messageText', '')
        if t.startswith('Runtime Solver:'):
            stats['solver'] += float(t.split(':')[1].strip().rstrip('s'))
            stats['queries'] += 1
        elif t.startswith('Runtime Symex:'):
            stats['symex'] += float(t.split(':')[1].strip().rstrip('s'))
        elif t.startswith('Generated '):
            x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if x:
                stats['vccs'] = int(x.group(2))
        elif ' variables, ' in t:
            x = re.match(r'(\d+) variables, (\d+) clauses', t)
            if x:
                stats['variables'] = int(x.group(1))
                stats['clauses'] = int(x.group(2))
        if 'result' in m:
            results = m['result']
        if 'cProverStatus' in m:
            status = m['cProverStatus']
    if results is None or status not in ('success', 'failure'):
        msg = ' '.join(m.get('messageText', '') for m in d if m.get('messageType') == 'ERROR')
        raise NoAnswer('cbmc gave no result (exit %s): %s' % (rc, msg[-500:]))
    return results, stats, d


def loop_bounds(goto, spec):
    """--unwindset for the loops in the functions of spec['loops'] = {function name part: (outermost, others)}"""
    want = spec.get('loops')
    if not want:
        return []
    rc, o = run(['cbmc', '--show-loops', '--json-ui', goto], timeout=120)
    loops = {}
    for m in json.loads(o):
        for l in m.get('loops', []):
            loc = l.get('sourceLocation', {})
            loops.setdefault(loc.get('function', ''), []).append((int(l['name'].rsplit('.', 1)[1]), l['name']))
    res = []
    for fn, ls in loops.items():
        for part, (outer, inner) in want.items():
            if part in fn and '{closure' not in fn.split(part)[0]:
                # the back edge of an outer loop is after the ones of its inner loops
                res += ['%s:%d' % (n, outer if k == max(ls)[0] else inner) for k, n in ls]
    return ['--unwindset', ','.join(res)] if res else []


def pclass(r):
    c = r.get('sourceLocation', {}).get('propertyClass')
    if c:
        return c
    parts = r['property'].rsplit('.', 2)
    return parts[-2] if len(parts) == 3 else r['property']


def trace_bytes(results, prop):
    """The values of `nd()` in the order of their use"""
    for r in results:
        if r['property'] != prop or 'trace' not in r:
            continue
        vals = []
        for s in r['trace']:
            if s.get('stepType') != 'assignment':
                continue
            fn = s.get('sourceLocation', {}).get('function', '')
            lhs = s.get('lhs', '')
            if 'any_raw' in fn and 'goto_symex$$return_value' in lhs:
                v = s.get('value', {})
                if 'binary' in v:
                    vals.append(int(v['binary'], 2) & 0xff)
        return vals
    return None


class Outcome:
    def __init__(self, name):
        self.name = name
        self.status = 'error'
        self.detail = ''
        self.stats = {}
        self.properties = 0
        self.covers = []
        self.unwind = None
        self.wall = 0.0
        self.violation = None
        self.functions = set()
        self.witnesses = 0


def solve(name, meta, spec, work, replayer, tier):
    o = Outcome(name)
    t0 = time.time()
    try:
        o.functions = functions_of(meta)
        goto = os.path.join(work, name.replace('::', '_') + '.out')
        prepare(meta, goto)
        unwind = spec.get('unwind', meta['attributes']['unwind_value'] or 4)
        timeout = spec.get('timeout', 600 if tier == 'quick' else 3600)
        mem = spec.get('limit_gb', 14)
        expect_panic = spec.get('expect_panic', False)
        bounds = loop_bounds(goto, spec)
        while True:
            left = timeout - (time.time() - t0)
            if left < 5:
                raise NoAnswer('time limit')
            results, stats, _ = cbmc(goto, unwind, bounds + ['--slice-formula'], goto + '.json', left, mem)
            for k, v in stats.items():
                o.stats[k] = o.stats.get(k, 0) + v if k in ('symex', 'solver', 'queries') else v
            failed = [r for r in results if r['status'] != 'SUCCESS']
            short = [r for r in failed if pclass(r) in ('unwind', 'recursion') and r['status'] == 'FAILURE']
            if short and unwind < spec.get('max_unwind', 4 * unwind if unwind < 20 else unwind + 20):
                # the code loops more often than expected, or does not terminate
                if bounds:
                    log('  %s: unwinding without the bounds per loop' % name)
                    bounds = []
                    continue
                if unwind >= spec.get('unwind', meta['attributes']['unwind_value'] or 4) + 6:
                    break
                unwind += 3
                continue
            break
        o.unwind = unwind
        o.properties = len(results)
        covers = [r for r in results if pclass(r) == 'cover']
        o.covers = [(r['description'], r['status'] == 'FAILURE') for r in covers]
        unknown = [r for r in failed if r['status'] not in ('FAILURE',) and pclass(r) != 'cover']
        bad = [r for r in failed if pclass(r) != 'cover' and r['status'] == 'FAILURE']
        if unknown and not bad:
            raise NoAnswer('undetermined: ' + unknown[0]['property'])
        unsupported = [r for r in bad if pclass(r) in ('unsupported_construct', 'sanity_check', 'missing_function', 'no-body')
                       or 'no body' in r.get('description', '') or 'undefined function' in r.get('description', '')]
        if unsupported:
            raise NoAnswer('unsupported construct reachable: %s' % unsupported[0]['description'])
        if expect_panic:
            # the code must panic before the harness reaches its end marker
            bad = [r for r in bad if 'must panic' in r.get('description', '')]
            if not bad:
                pan = [r for r in failed if pclass(r) == 'assertion']
                if not pan:
                    raise NoAnswer('vacuous: the panic is not reachable')
                o.status = 'ok'
                return o
        # prefer semantic assertions for the report
        order = {'assertion': 0, 'unwind': 3}
        bad.sort(key=lambda r: order.get(pclass(r), 2))
        if bad:
            if replayer is None:
                raise NoAnswer('candidate: ' + bad[0]['description'])
            notes = []
            tried = 0
            for r in bad[:4]:
                if tried >= 3:
                    break
                tried += 1
                left = max(60, timeout - (time.time() - t0))
                res2, st2, _ = cbmc(goto, unwind, bounds + ['--trace', '--property', r['property']], goto + '.trace.json', left, mem)
                o.stats['solver'] += st2['solver']
                o.stats['queries'] += st2['queries']
                vals = trace_bytes(res2, r['property'])
                if os.path.exists(goto + '.trace.json'):
                    os.unlink(goto + '.trace.json')
                if vals is None:
                    notes.append('no trace for ' + r['property'])
                    continue
                how = replayer(name, vals, pclass(r), 'must panic' if expect_panic else '')
                loc = r.get('sourceLocation', {})
                desc = '%s (%s:%s)' % (r['description'], loc.get('file', '?'), loc.get('line', '?'))
                if how:
                    o.status = 'violation'
                    o.violation = dict(harness=name, failed=desc, property=r['property'], bytes=bytes(vals).hex(), reproduced=how,
                                       unwind=unwind)
                    return o
                notes.append('does not reproduce: %s bytes=%s' % (desc, bytes(vals).hex()))
            raise NoAnswer('counterexample not confirmed: ' + '; '.join(notes))
        if not covers or not all(c[1] for c in o.covers):
            raise NoAnswer('vacuous: unreachable ' + ', '.join(c[0] for c in o.covers if not c[1]))
        if spec.get('witness'):
            # validate the encoding: execute the solver's witness natively
            left = max(60, timeout - (time.time() - t0))
            res2, st2, _ = cbmc(goto, unwind, bounds + ['--trace', '--property', covers[0]['property']], goto + '.trace.json', left, mem)
            o.stats['solver'] += st2['solver']
            o.stats['queries'] += st2['queries']
            vals = trace_bytes(res2, covers[0]['property'])
            os.unlink(goto + '.trace.json')
            if vals is not None:
                if not replayer.witness(name, vals, covers[0]['description']):
                    raise NoAnswer('witness of the encoding fails natively: %s' % bytes(vals).hex())
                o.witnesses += 1
        o.status = 'ok'
    except NoAnswer as e:
        o.status = 'error'
        o.detail = str(e)
    except Exception as e:  # a bug in this driver is no answer either
        o.status = 'error'
        o.detail = 'driver: %r' % e
    finally:
        o.wall = time.time() - t0
        for f in glob.glob(os.path.join(work, name.replace('::', '_') + '.out*')):
            os.unlink(f)
    return o


# ---------------------------------------------------------------- native replay

class Replayer:
    """Builds the replay program from the current sources and runs assignments on it"""

    def __init__(self, work, features):
        self.work = work
        self.features = features
        self.lock = threading.Lock()
        self.bins = {}

    def build(self, profile):
        with self.lock:
            if profile not in self.bins:
                t = os.path.join(self.work, 'native' + self.features)
                cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--target-dir', t]
                if self.features:
                    cmd += ['--features', self.features]
                if profile == 'release':
                    cmd += ['--release']
                env = dict(ENV)
                env['RUSTFLAGS'] = '-Awarnings'
                run(cmd, cwd=HARNESS, timeout=600, env=env)
                self.bins[profile] = os.path.join(t, 'debug' if profile == 'dev' else 'release', 'replay')
            return self.bins[profile]

    def run(self, profile, name, vals):
        short = 'harness::' + name
        rc, out = run([self.build(profile), short, bytes(vals).hex()], timeout=20, mem=8, check=False)
        return rc, out.decode(errors='replace')

    def witness(self, name, vals, cover):
        rc, out = self.run('dev', name, vals)
        return rc == 0 and ('COVER ' + cover) in out

    def __call__(self, name, vals, cls, need=''):
        for profile in ('dev', 'release'):
            rc, out = self.run(profile, name, vals)
            if rc in (77, 78):
                return None
            if rc == 'timeout':
                return '%s build: does not terminate' % profile
            if rc != 0 and need in out:
                msg = [l for l in out.splitlines() if 'panicked' in l or 'COVER' not in l and l.strip()]
                return '%s build: exit %s: %s' % (profile, rc, ' / '.join(msg)[:400])
        # undefined behaviour that has no visible effect natively
        short = 'harness::' + name
        t = os.path.join(self.work, 'miri' + self.features)
        env = dict(ENV)
        env['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-ignore-leaks'
        cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '--target-dir', t]
        if self.features:
            cmd += ['--features', self.features]
        cmd += ['--bin', 'replay', '--', short, bytes(vals).hex()]
        with self.lock:
            rc, out = run(cmd, cwd=HARNESS, timeout=300, env=env, check=False)
        out = out.decode(errors='replace')
        if rc not in (0, 77, 78, 'timeout') and 'Undefined Behavior' in out:
            m = re.search(r'error: (Undefined Behavior[^\n]*)', out)
            return 'miri: ' + (m.group(1) if m else 'undefined behavior')
        return None


# ---------------------------------------------------------------- main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--only', action='append')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    pid = args.property
    t0 = time.time()
    prop = checks.PROPERTIES.get(pid)
    if prop is None:
        log('no check for', pid)
        return 2
    specs = checks.harnesses_for(pid, args.tier)
    if args.only:
        specs = {k: v for k, v in specs.items() if any(o in k for o in args.only)}
    names = list(specs)
    os.makedirs(WORK, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=WORK)
    outcomes = []
    signal.signal(signal.SIGTERM, lambda *_: (_ for _ in ()).throw(KeyboardInterrupt()))
    try:
        metas = {}
        repl = {}
        costs = load_costs()
        names.sort(key=lambda n: -costs.get(n, 10))
        # the compilation of a harness takes about half a second, so it is split
        parts = []
        for feat in sorted(set(specs[n].get('features', '') for n in names)):
            hs = [n for n in names if specs[n].get('features', '') == feat]
            k = max(1, min(args.jobs, (len(hs) + 5) // 6))
            parts += [(feat, str(i), hs[i::k]) for i in range(k)]
            repl[feat] = Replayer(work, feat)
        cond = threading.Condition()
        state = dict(mem=0.0, queue=[], parts=len(parts), failed=None)

        def encode(feat, part, hs):
            try:
                ms = codegen(work, hs, feat, part)
                with cond:
                    metas.update({n: ms[n] for n in hs})
                    # longest first
                    state['queue'] = sorted(state['queue'] + hs, key=lambda n: -costs.get(n, 10))
            except NoAnswer as e:
                with cond:
                    state['failed'] = state['failed'] or e
                kill_all()
            finally:
                with cond:
                    state['parts'] -= 1
                    if state['parts'] == 0:
                        log('%s: %d harnesses encoded in %.1fs' % (pid, len(names), time.time() - t0))
                    cond.notify_all()

        def worker():
            while True:
                with cond:
                    while True:
                        if stopping.is_set() or not state['queue'] and not state['parts']:
                            return
                        pick = None
                        for n in state['queue']:
                            need = specs[n].get('mem', 3.0 if n.startswith('ord') else 1.5)
                            if state['mem'] == 0 or state['mem'] + need <= MEM_TOTAL:
                                pick = n
                                break
                        if pick:
                            state['queue'].remove(pick)
                            state['mem'] += need
                            break
                        cond.wait()
                o = solve(pick, metas[pick], specs[pick], work, repl[specs[pick].get('features', '')], args.tier)
                with cond:
                    state['mem'] = max(0.0, state['mem'] - need)
                    if abs(state['mem']) < 1e-6:
                        state['mem'] = 0.0
                    outcomes.append(o)
                    cond.notify_all()
                log('  %-44s %-9s %6.1fs solver %6.1fs unwind %s vccs %s %s' % (
                    o.name, o.status, o.wall, o.stats.get('solver', 0), o.unwind, o.stats.get('vccs', '-'),
                    (o.detail or (o.violation or {}).get('failed', ''))[:1500]))
                if o.status == 'violation' and not os.environ.get('VERIF_KEEP_GOING'):
                    # one confirmed counterexample decides
                    kill_all()
        ts = [threading.Thread(target=encode, args=p) for p in parts]
        ts += [threading.Thread(target=worker) for _ in range(args.jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if state['failed']:
            raise state['failed']
    except NoAnswer as e:
        log('ERROR property=%s %s' % (pid, e))
        return 2
    finally:
        kill_all()
        shutil.rmtree(work, ignore_errors=True)
        try:
            os.rmdir(WORK)
        except OSError:
            pass
    violations = [o for o in outcomes if o.status == 'violation']
    errors = [o for o in outcomes if o.status == 'error' and not (violations and o.detail in ('stopped',) )]
    if violations:
        errors = []
    known = load_known(pid)
    new = []
    for o in violations:
        k = [x for x in known if x['harness'] == o.name and x['failed'] in o.violation['failed']]
        if k:
            log('KNOWN-FINDING: property=%s %s' % (pid, k[0]['what']))
        else:
            new.append(o)
    wall = time.time() - t0
    if not args.no_evidence and not args.only:
        write_evidence(pid, args.tier, prop, specs, outcomes, new, wall)
    for o in new:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%s.txt' % (pid, o.name.replace('::', '-')))
        v = o.violation
        feat = specs[o.name].get('features', '')
        with open(path, 'w') as f:
            f.write('property: %s\nharness: %s\nfailed: %s\nreproduced: %s\nbytes: %s\n\nto replay:\n  cd %s && cargo run --offline%s '
                    '--bin replay --target-dir /tmp/replay-target -- %s %s\n' % (
                        pid, o.name, v['failed'], v['reproduced'], v['bytes'], HARNESS,
                        ' --features ' + feat if feat else '', 'harness::' + o.name, v['bytes']))
        log('counterexample: %s: %s' % (o.name, v['failed']))
        log('reproduced: ' + v['reproduced'])
        log('VIOLATION property=%s replay=%s' % (pid, path))
    if new:
        return 1
    if errors:
        for o in errors:
            log('ERROR property=%s %s: %s' % (pid, o.name, o.detail))
        return 2
    log('%s holds on %d harnesses within their bounds (%.0fs)' % (pid, len(outcomes), wall))
    return 0


def load_costs():
    """Measured seconds, only used to start the long ones first"""
    try:
        return json.load(open(os.path.join(VERIF, 'costs.json')))
    except OSError:
        return {}


def load_known(pid):
    f = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f)).get('findings', []) if x['property'] == pid]


def write_evidence(pid, tier, prop, specs, outcomes, violations, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    fns = set()
    for o in outcomes:
        fns |= o.functions
    ok = [o for o in outcomes if o.status == 'ok']
    cov = dict(
        explanation='Every listed harness compiles the functions of /repo named in functions_encoded to a SAT problem over all values of '
                    'its symbolic inputs and start state, within the stated bounds; the solver showed that no assertion, panic, '
                    'memory safety check or loop bound of the harness can fail.',
        harnesses_decided=len(ok),
        harnesses_total=len(specs),
        functions_encoded=sorted(fns),
        functions_encoded_count=len(fns),
        properties_discharged=sum(o.properties for o in ok),
        verification_conditions=sum(o.stats.get('vccs', 0) for o in ok),
        solver_queries=sum(o.stats.get('queries', 0) for o in outcomes),
        solver_seconds=round(sum(o.stats.get('solver', 0) for o in outcomes), 2),
        symex_seconds=round(sum(o.stats.get('symex', 0) for o in outcomes), 2),
        reachability_witnesses=sum(len([c for c in o.covers if c[1]]) for o in ok),
        witnesses_executed_natively=sum(o.witnesses for o in ok),
        bounds={o.name: dict(unwind=o.unwind, scope=specs[o.name].get('scope', ''), wall_s=round(o.wall, 1),
                             variables=o.stats.get('variables', 0), clauses=o.stats.get('clauses', 0),
                             status=o.status) for o in sorted(outcomes, key=lambda o: o.name)},
        outside=prop.get('outside', ''),
        counterexamples=[o.violation for o in violations],
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              wall_s=round(wall, 1), assumptions=checks.ASSUMPTIONS + prop.get('assumptions', []),
              violations=len(violations))
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        kill_all()
        sys.exit(2)
