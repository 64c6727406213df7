#!/usr/bin/env python3
"""check.py --property Cxx [--tier quick|thorough] [--replay FILE]

Builds the harness against /repo's working tree, model-checks the specification, replays
behaviours generated from it on the real code, and has TLC decide whether the recorded
execution is a behaviour of the specification."""
import argparse, json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
TARGET = os.path.join(VERIF, 'target')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()

class Broken(Exception):
    pass

def env():
    e = dict(os.environ)
    src = f". {HERE}/env.sh >/dev/null 2>&1; env -0"
    r = subprocess.run(['bash', '-c', src], capture_output=True, env=e)
    for kv in r.stdout.decode().split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            e[k] = v
    e['CARGO_TARGET_DIR'] = TARGET
    e.pop('RUSTFLAGS', None)
    e['RUST_BACKTRACE'] = '0'
    e['CONST_RANDOM_SEED'] = '1'
    return e
ENV = None

def say(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)

# ------------------------------------------------------------------- build
LAST_BUILD = ''
def build(bins):
    global LAST_BUILD
    t = time.time()
    cmd = ['cargo', 'build', '--offline', '-q'] + [x for b in bins for x in ('--bin', b)]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        LAST_BUILD = r.stderr
        sys.stderr.write(r.stderr[-6000:])
        raise Broken('the harness does not build against /repo')
    say(f"built {' '.join(bins)} in {time.time() - t:.1f}s")

def build_all(bins, core):
    """builds the harness and the fixed set of generated programs; False if only the latter do not build:
    whether macro calls compile is C12's and C16's business"""
    t = time.time()
    cmd = ['cargo', 'build', '--offline', '-q', '--keep-going'] + [x for b in bins + core for x in ('--bin', b)]
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=ENV, capture_output=True, text=True)
    if r.returncode == 0:
        say(f'built {len(bins + core)} programs in {time.time() - t:.1f}s')
        return True
    build(bins)
    say('the generated collections do not build: ' + r.stderr[:800])
    return False

# --------------------------------------------------------------------- TLC
def tlc(args, cfg, module, extra_env=None, workers=1, timeout=800, heap='2g', tag=None):
    md = os.path.join(OUT, f'md-{tag or module}-{os.getpid()}-{threading.get_ident()}')
    e = dict(ENV)
    e.update(extra_env or {})
    gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
    cmd = ['java', gc, f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={OUT}', '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-config', cfg, '-metadir', md, '-workers', str(workers), '-noGenerateSpecTE'] + args + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return -9, (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
    finally:
        shutil.rmtree(md, ignore_errors=True)

STATS = {'states': 0, 'transitions': 0, 'models': []}

def count(out):
    m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', out.replace(',', '') .replace(' distinct', ', distinct')) if False else None
    g = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if g:
        return int(g.group(1).replace(',', '')), int(g.group(2).replace(',', ''))
    return 0, 0

def model(cfg, module, workers=8, timeout=600, heap='8g', budgeted=False):
    """model-checks one module; a counterexample here is an error of the specification, not of the code"""
    rc, out = tlc([], cfg, module, workers=workers, timeout=timeout, heap=heap, tag=cfg)
    tr, st = count(out)
    if rc == -9 and budgeted:
        g = re.findall(r'([\d,]+) states generated .*?, ([\d,]+) distinct', out)
        if g:
            tr, st = (int(x.replace(',', '')) for x in g[-1])
        STATS['models'].append({'model': cfg, 'states': st, 'transitions': tr, 'complete': False})
    elif rc != 0 or 'No error has been found' not in out:
        sys.stderr.write(out[-4000:])
        raise Broken(f'specification {module} with {cfg} does not check')
    else:
        STATS['models'].append({'model': cfg, 'states': st, 'transitions': tr, 'complete': True})
    STATS['states'] += st
    STATS['transitions'] += tr
    return out

def jlines(out):
    return [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[') or l.startswith('"{')]

_gen = {}
PROGRAM_SETS = ('macroprograms', 'knownbroken', 'emitprograms', 'macrotexts', 'derivetexts', 'emitoptions')
def gen_factory(tier, seed):
    def gen(what, **kw):
        key = (what, tuple(sorted(kw.items())))
        if key in _gen:
            return _gen[key]
        if what in ('seqs', 'reqs', 'pairs') + PROGRAM_SETS:
            cfg = os.path.join(OUT, f'gs-{what}.cfg')
            open(cfg, 'w').write(f'CONSTANTS What = "{what}"\n')
            rc, out = tlc([], cfg, 'GenPrograms' if what in PROGRAM_SETS else 'GenSmall', tag='gs' + what)
            r = jlines(out)
            if not r:
                sys.stderr.write(out[-3000:])
                raise Broken('generator failed')
            _gen[key] = r[0]
        elif what == 'wild':
            kind, num, depth = kw['kind'], kw['num'], kw['depth']
            cfg = os.path.join(OUT, f'gx-{kind}.cfg')
            open(cfg, 'w').write(f'CONSTANTS NK = 8 NH = 3 MaxEn = 9 Depth = {depth} Kind = "{kind}"\nSPECIFICATION GenSpec\nINVARIANTS Dump NoSharing\nCHECK_DEADLOCK FALSE\n')
            rc, out = tlc(['-simulate', f'num={num}', '-depth', str(depth + 1), '-seed', str(seed)], cfg, 'GenWild', tag='gx' + kind)
            r = jlines(out)
            if len(r) < num // 2:
                sys.stderr.write(out[-3000:])
                raise Broken('walk generator failed')
            g = re.search(r'The number of states generated: ([\d,]+)', out)
            n = int(g.group(1).replace(',', '')) if g else 0
            STATS['states'] += n
            STATS['transitions'] += n
            STATS['models'].append({'model': f'GenWild {kind} simulation', 'states': n, 'transitions': n, 'complete': False})
            _gen[key] = r
        elif what == 'walks':
            kind, num, depth = kw['kind'], kw['num'], kw['depth']
            cfg = os.path.join(OUT, f'gw-{kind}.cfg')
            open(cfg, 'w').write(f'CONSTANTS NK = 4 NH = 3 NI = 2 MaxEn = 4 Depth = {depth} Kind = "{kind}"\nSPECIFICATION GenSpec\nINVARIANTS Dump Conservation IterPartition\nCHECK_DEADLOCK FALSE\n')
            rc, out = tlc(['-simulate', f'num={num}', '-depth', str(depth + 1), '-seed', str(seed)], cfg, 'GenFrozen', tag='gw' + kind)
            r = jlines(out)
            if len(r) < num // 2:
                sys.stderr.write(out[-3000:])
                raise Broken('walk generator failed')
            g = re.search(r'The number of states generated: ([\d,]+)', out)
            n = int(g.group(1).replace(',', '')) if g else 0
            STATS['states'] += n
            STATS['transitions'] += n
            STATS['models'].append({'model': f'GenFrozen {kind} simulation', 'states': n, 'transitions': n, 'complete': False})
            _gen[key] = r
        else:
            # a design model that exports instances while being checked
            rc, out = tlc([], kw.get('cfg', what + '.cfg'), what, workers=kw.get('workers', 4), tag=what, timeout=600, heap='6g')
            if rc != 0 or 'No error has been found' not in out:
                sys.stderr.write(out[-3000:])
                raise Broken(f'specification {what} does not check')
            tr, st = count(out)
            STATS['states'] += st
            STATS['transitions'] += tr
            STATS['models'].append({'model': kw.get('cfg', what), 'states': st, 'transitions': tr, 'complete': True})
            _gen[key] = jlines(out)
        return _gen[key]
    return gen

# ------------------------------------------------------- running the code
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # collections held by value may be large
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))

def run_bin(path, plans, outf, timeout):
    """runs the plans, appending events to outf; a crash or a hang becomes an event of its session"""
    i = 0
    restarts = 0
    while i < len(plans):
        data = '\n'.join(json.dumps(p) for p in plans[i:]) + '\n'
        try:
            r = subprocess.run([path], input=data.encode(), capture_output=True, env=ENV, timeout=timeout, preexec_fn=limits)
            rc, raw = r.returncode, r.stdout
            err = r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            rc, raw, err = 4, x.stdout or b'', 'timeout'
        lines = raw.decode(errors='replace').split('\n')
        tail = lines.pop()
        if rc == 0 and not tail:
            outf.write('\n'.join(lines) + '\n' if lines else '')
            return
        if rc == 3:
            raise Broken('harness: ' + err[-500:])
        if rc == -9:
            raise Broken('harness was killed (out of memory?)')
        started = sum(1 for l in lines if l.startswith('{"e":"reset"'))
        if started == 0:
            raise Broken(f'harness failed before the first session (rc {rc}): {err[-500:]}')
        if rc == 101 and 'harness' in err:
            raise Broken('harness: ' + err[-500:])
        outf.write('\n'.join(lines) + '\n')
        outf.write(json.dumps({"e": "crash", "rc": rc, "err": err[-300:]}) + '\n')
        i += started
        restarts += 1
        if restarts > 3:
            return

def validate(trace, tag, spec='FrozenTrace'):
    """TLC decides; returns (accepted, number of lines, index of the first rejected line or None)"""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return True, 0, None, 0, 0
    rc, out = tlc([], spec + '.cfg', spec, extra_env={'TRACE': trace}, tag=tag, heap='3500m')
    tr, st = count(out)
    if f'<<"ACCEPTED", {n}>>' in out and rc == 0:
        return True, n, None, st, tr
    m = re.search(r'<<"REJECTED", (\d+), (\d+)>>', out)
    if m:
        return False, n, int(m.group(1)) - 1, st, tr
    # an invariant or action property of the specification was violated by the trace
    m = re.findall(r'^/\\ l = (\d+)', out, re.M)
    if m and ('is violated' in out):
        return False, n, max(int(m[-1]) - 2, 0), st, tr
    # TLC could not even evaluate a line (malformed result)
    m = re.search(r'depth|The error occurred', out)
    d = re.findall(r'^/\\ l = (\d+)', out, re.M)
    if d:
        return False, n, int(d[-1]) - 1, st, tr
    sys.stderr.write(out[-4000:])
    raise Broken('TLC did not give an answer')

def replay_file(prop, bin, plan, event):
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{plan.get('s', 'x')}.json".replace('/', '_'))
    json.dump({'property': prop, 'bin': bin, 'plan': plan, 'rejected_event': event}, open(p, 'w'))
    return p

def conformance(prop, jobs, paths, shards=8, timeout=400):
    """jobs: list of (bin, plan).  Returns violations [(bin, plan, event)] and counters."""
    os.makedirs(OUT, exist_ok=True)
    # balance by rough cost
    def cost(j):
        u = j[1].get('uni')
        c, size = 30, u['n'] if isinstance(u, dict) else 0
        for o in j[1]['ops']:
            if o[0] in ('scan', 'bump', 'sopscan', 'rt', 'eq', 'rel', 'clone', 'all', 'bslim', 'bseg', 'set', 'dis'):
                c += size // 40
            c += 3 + sum(len(x) for x in o if isinstance(x, list)) // 8
            if o[0] == 'bseg':
                c += 400
        return c
    loads = [0] * shards
    parts = [[] for _ in range(shards)]
    for j in sorted(jobs, key=cost, reverse=True):
        k = loads.index(min(loads))
        loads[k] += cost(j)
        parts[k].append(j)
    index = {p['s']: (b, p) for b, p in jobs}
    viol, tot = [], {'events': 0, 'sessions': len(jobs), 'tlc_states': 0, 'tlc_trans': 0}
    samples = []
    lock = threading.Lock()
    def one(k):
        trace = os.path.join(OUT, f'{prop}-{os.getpid()}-{k}.ndjson')
        bybin = {}
        for b, p in parts[k]:
            bybin.setdefault(b, []).append(p)
        with open(trace, 'w') as f:
            for p in bybin.pop('@compile', []):
                # what the compiler or the emitter answered
                f.write(json.dumps({'e': 'reset', 's': p['s']}, separators=(',', ':')) + '\n')
                f.write(''.join(json.dumps(e) + '\n' for e in p['events']))
            for b, ps in bybin.items():
                run_bin(paths[b], ps, f, timeout)
        first = True
        while True:
            ok, n, bad, st, tr = validate(trace, f'{prop}-{k}')
            with lock:
                tot['tlc_states'] += st
                tot['tlc_trans'] += tr
                if first:
                    tot['events'] += n
                    if n and len(samples) < 3:
                        with open(trace) as f:
                            samples.append([json.loads(next(f)) for _ in range(min(n, 6))])
            first = False
            if ok:
                break
            lines = open(trace).read().split('\n')
            s = None
            for l in reversed(lines[:bad + 1]):
                if l.startswith('{"e":"reset"'):
                    s = json.loads(l)['s']
                    break
            b, p = index[s]
            with lock:
                viol.append((b, p, json.loads(lines[bad])))
                if len(viol) >= 3:
                    break
            # go on behind the rejected session
            nxt = bad + 1
            while nxt < len(lines) and not lines[nxt].startswith('{"e":"reset"'):
                nxt += 1
            open(trace, 'w').write('\n'.join(lines[nxt:]))
            break
        os.remove(trace)
    with ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(one, k) for k in range(shards) if parts[k]]:
            f.result()
    return viol, tot, samples

def main():
    global ENV
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    ENV = env()
    os.makedirs(OUT, exist_ok=True)
    import props
    try:
        rc = props.run(sys.modules['__main__'], a)
    except Broken as x:
        print('ERROR', x, flush=True)
        rc = 2
    sys.exit(rc)

if __name__ == '__main__':
    main()
