"""C18: sessions with keys that keep no laws, on an instrumented build of the code.

Walks generated from Wild (GenWild) plus an enumeration of modes are run under the address sanitizer with
the standard library's unsafe-precondition checks, and a part of them under Miri (tree borrows); what they
report is validated against Wild.  An execution that ends in undefined behaviour is an event no action of
Wild explains."""
import json, os, random, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

REPS = ["fz", "hm8", "hm16", "hm64", "scan", "inl3", "inl5", "eytz", "ine3", "ine5", "ord", "sca", "dense", "sparse", "bt", "str",
        "sfz", "sord", "ssca", "sstr", "ildense", "ilsparse", "ilcoll", "ilnocoll", "ilstr"]
MAPS, SETS = [*range(16), *range(20, 25)], list(range(16, 20))
DECLARED = range(20, 25)               # by macros, with the ten entries written there
FIXED = {5: 3, 6: 5, 8: 3, 9: 5}         # arrays of fixed size: entries they take
SCALAR, ORDER, HASHED = {11, 12, 13, 18}, {7, 8, 9, 10, 14, 17}, {0, 1, 2, 3, 15, 16, 19}
MODE, FUSE, B, C, D, GET, IDX, GKV, HAS, PUT, DIS, ALL, BUMP, TAKE, LEN, EQ, REL, OP, LIVE, STEPS, DFUSE = range(21)

def text(n, rep, shape, seed, ops):
    return f'{n} {rep} {shape} {seed}' + ''.join('|' + ' '.join(map(str, o)) for o in ops)

def observe(rep, h, keys, rng, fine=True):
    ops = []
    kinds = [GET, GKV, HAS] + ([IDX] if rep not in SETS else [])
    for k in keys:
        o = rng.choice(kinds)
        ops.append([o, h, k + (1000 * rng.randint(1, 2) if fine and o != IDX and rng.random() < .3 else 0)])
    if rep not in SETS:
        for _ in range(3):
            ops.append([PUT, h, rng.choice(keys)])
        for _ in range(4):
            q = [rng.choice(keys) for _ in range(rng.choice([2, 2, 3, 4]))]
            if rng.random() < .5:
                q = [k + 1000 * rng.randint(1, 3) for k in q]
            ops.append([DIS, h] + q)
        # the same key twice, equal and as different keys equivalent to it
        k = rng.choice(keys)
        ops += [[DIS, h, k, k], [DIS, h, k + 1000, k + 2000], [DIS, h, 1000 + k, rng.choice(keys) + 1000, k + 3000]]
        ops.append([BUMP, h, rng.choice([0, 2])])
    ops.append([ALL, h, rng.choice([0, 1])])
    return ops

def modes(rep, tier):
    """which laws to break, in the order eq, ord, hash, index"""
    e, o, h, i = [0], [0], [0], [0]
    if rep in DECLARED:
        e = range(5)
        h, i = (range(7), [0]) if rep == 24 else ([0], range(9))
    elif rep in SCALAR:
        i = range(9)
        o = range(7)
        e = [0, 2]
    elif rep in ORDER:
        o = range(7)
        e = [0, 2, 3]
    elif rep in (15, 19):
        h = range(7)
    else:
        e = range(5)
        h = range(7) if rep in HASHED else [0]
    return [(a, b, c, d) for a in e for b in o for c in h for d in i]

def some(rng, ms, tier):
    """each single law broken, and a sample of the combinations"""
    one = [m for m in ms if sum(x != 0 for x in m) <= 1]
    more = [m for m in ms if sum(x != 0 for x in m) > 1]
    return one + (more if tier == 'thorough' else rng.sample(more, min(len(more), 10)))

def sessions(tier, seed, gen):
    """(text, class) where class is 'n' for native only and 'm' for Miri as well"""
    rng = random.Random(seed)
    thorough = tier == 'thorough'
    out = []
    def add(rep, ops, miri):
        out.append((rep, rng.choice([0, 1, 2, 3, 4]), rng.randrange(1, 1 << 30), ops, miri))
    # every law broken in every way, while building and from then on
    for rep in range(25):
        ms = some(rng, modes(rep, tier), tier)
        lawful = (0, 0, 0, 0)
        for j, m in enumerate(ms):
            for sz in ([FIXED[rep]] if rep in FIXED else [10] if rep in DECLARED else rng.sample([0, 1, 2, 3, 5, 8, 13, 40], 4) if not thorough else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 20, 33, 40, 70, 130, 254]):
                small = sz <= 5
                ks = list(range(sz)) if rng.random() < .6 or rep in FIXED else [rng.randrange(sz + 1) for _ in range(sz)]
                rng.shuffle(ks)
                probe = sorted(set(rng.sample(range(sz + 2), min(sz + 2, 8)) + [0, sz, sz + 1]))
                for when in ('both', 'build', 'after') if thorough else (rng.choice(('both', 'both', 'build', 'after')),):
                    ops = [[MODE, *(m if when != 'after' else lawful)], [B, 1, rng.randint(0, 1)] + ks, [LEN, 1]]
                    ops += [[MODE, *(m if when != 'build' else lawful)]] + observe(rep, 1, probe, rng)
                    ops += [[C, 1, 2], [EQ, 1, 2]]
                    if rep in SETS:
                        ops += [[B, 3, 0] + [k + 1 for k in ks]] + [[OP, a, b, o] for o in range(8) for a, b in ((1, 3), (3, 1))] + [[REL, 1, 3, r] for r in range(3)] + [[EQ, 1, 3]] + [[STEPS, a, b, o, rng.choice([0, 1, 2, 3, 5])] for o in range(4) for a, b in ((1, 3), (3, 1), (1, 1))]
                    ops += [[LIVE], [TAKE, 2, rng.randint(0, sz), rng.choice([0, 1] if rep in SETS else [0, 1, 2])], [D, 1], [LIVE]]
                    add(rep, ops, small and rng.random() < (.02 if not thorough else .15))
    # a panic in every place: n calls into key code go well, the next does not
    for rep in range(25):
        m = modes(rep, tier)
        for sz in ([FIXED[rep]] if rep in FIXED else [10] if rep in DECLARED else [1, 2, 3, 5, 9] if not thorough else [1, 2, 3, 4, 5, 7, 9, 17]):
            ks = [k % max(1, sz - 1) for k in range(sz)] if rep not in FIXED and sz > 2 else list(range(sz))
            for n in list(range(1, 14)) + [18, 25, 33, 47, 60] + ([75, 90, 120, 160, 220] if thorough else []):
                ops = [[MODE, *rng.choice(m)]] if rng.random() < .5 else []
                ops += [[FUSE, n], [B, 1, rng.randint(0, 1)] + ks, [LIVE], [MODE, 0, 0, 0, 0], [B, 2, 0] + ks, [FUSE, n], [C, 2, 3], [LIVE]]
                for o in ([GET, 2, 0], [GKV, 2, 1000], [PUT, 2, 1]) if rep not in SETS else ([GET, 2, 0], [HAS, 2, 1]):
                    ops += [[FUSE, rng.randint(1, 4)], o]
                if rep not in SETS:
                    ops += [[FUSE, n], [DIS, 2, 0, 1 % sz, 2 % sz], [FUSE, rng.randint(1, 9)], [DIS, 2, 1000, 1001], [ALL, 2, 0], [FUSE, n], [EQ, 2, 3]]
                else:
                    ops += [[FUSE, n], [OP, 2, 3, rng.randrange(8)], [FUSE, n], [OP, 3, 2, rng.randrange(8)], [FUSE, n], [REL, 2, 3, rng.randrange(3)], [STEPS, 2, 3, rng.randrange(4), n], [STEPS, 3, 2, rng.randrange(4), n % 7]]
                ops += [[D, 2], [LIVE], [TAKE, 3, 1, 0], [LIVE]]
                add(rep, ops, sz <= 3 and rng.random() < (.05 if not thorough else .3))
    # the same for what happens when something is destroyed
    for rep in range(25):
        m = modes(rep, tier)
        for sz in ([FIXED[rep]] if rep in FIXED else [10] if rep in DECLARED else [2, 4, 8]):
            ks = [k % max(1, sz - sz // 3) for k in range(sz)] if rep not in FIXED else list(range(sz))
            for n in range(1, 9 if not thorough else 30):
                ops = [[MODE, *rng.choice(m)]] if rng.random() < .3 else []
                ops += [[DFUSE, n], [B, 1, rng.randint(0, 1)] + ks, [LIVE], [MODE, 0, 0, 0, 0], [B, 2, 0] + ks, [C, 2, 3], [C, 2, 4], [C, 2, 5], [DFUSE, n], [D, 3], [LIVE]]
                ops += [[DFUSE, n], [TAKE, 4, rng.randint(0, 3), rng.choice([0, 1] if rep in SETS else [0, 1, 2])], [LIVE]]
                if rep in SETS:
                    ops += [[DFUSE, n], [OP, 2, 5, rng.randrange(4, 8)], [LIVE]]
                ops += [[ALL, 2, 0], [D, 2], [D, 5], [LIVE]]
                add(rep, ops, rng.random() < .03)
    # random walks of the specification
    num = 400 if not thorough else 4000
    for kind, reps in (('map', MAPS), ('set', SETS)):
        for w, log in enumerate(gen('wild', kind=kind, num=num, depth=30)):
            for rep in rng.sample(reps, 2 if kind == 'map' else 1):
                ops = [list(o) for o in log]
                if rep in FIXED:
                    for o in ops:
                        if o[0] == B:
                            o[3:] = rng.sample(range(9), FIXED[rep])
                add(rep, ops, rng.random() < (.08 if not thorough else .2))
    # many entries: every width of the tables' indices, with all keys in few buckets
    for rep in (0, 1, 2, 3, 7, 10, 11, 12, 13, 15, 16):
        for sz in (200, 255, 256, 257, 600) + ((3000, 70000) if thorough else ()):
            for m in ((0, 0, 0, 0), (2, 0, 3, 0), (0, 0, 2, 0), (0, 5, 0, 6), (4, 6, 6, 6), (0, 0, 1, 0))[:3 if sz > 1000 else 6]:
                if sz > 1000 and (rep in (2, 16) or m[2] == 3):
                    continue
                ks = list(range(sz))
                ops = [[MODE, *m], [B, 1, 0] + ks] + observe(rep, 1, [0, 1, sz // 2, sz - 1, sz, sz + 1, 254, 255, 256], rng) + [[LEN, 1], [LIVE], [D, 1], [LIVE]]
                ops = [o for o in ops if o[0] != ALL and o[0] != BUMP]
                add(rep, ops, False)
    return out

def run_one(cmd, env, texts, timeout, miri):
    """texts: [(number, line)]; returns event lines, number of sessions finished, and what went wrong"""
    lines, i, odd = [], 0, []
    restarts = 0
    while i < len(texts):
        data = '\n'.join(t for _, t in texts[i:]) + '\n'
        try:
            r = subprocess.run(cmd, input=data.encode(), capture_output=True, env=env, timeout=timeout)
            rc, raw, err = r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
        except subprocess.TimeoutExpired as x:
            rc, raw, err = None, (x.stdout or b'').decode(errors='replace'), ''
        ls = [l for l in raw.split('\n')[:-1] if l.startswith('{"e":')]
        starts = [k for k, l in enumerate(ls) if l.startswith('{"e":"reset"')]
        if rc == 0:
            return lines + ls, len(texts), odd
        if rc is None or rc == 3 or 'harness' in err or rc == -9 or not starts or 'unsupported operation' in err or 'resource exhaustion' in err:
            # no verdict on what was running: keep what was finished before
            odd.append('time' if rc is None else (err[-400:] or f'rc {rc}'))
            done = starts[-1] if starts else 0
            return lines + ls[:done], i + max(0, len(starts) - 1), odd
        # the run ended in the middle of its last session
        k = err.find('Undefined Behavior')
        k = err.find('ERROR: AddressSanitizer') if k < 0 else k
        lines += ls[:starts[-1] + 1] + [json.dumps({'e': 'crash', 'rc': rc, 'err': err[max(k, 0):max(k, 0) + 400] if k >= 0 else err[-400:]})]
        i += len(starts)
        restarts += 1
        if restarts >= 2:
            break
    return lines, i, odd

def prepare(D):
    """builds the instrumented programs; Miri is optional"""
    wd = os.path.join(D.VERIF, 'wild')
    env = dict(D.ENV)
    env['CARGO_TARGET_DIR'] = os.path.join(D.TARGET, 'asan')
    env['RUSTFLAGS'] = '-Zsanitizer=address'
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-q', '--target', 'x86_64-unknown-linux-gnu'], cwd=wd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        import sys
        sys.stderr.write(r.stderr[-4000:])
        raise D.Broken('the harness does not build against /repo')
    env['ASAN_OPTIONS'] = 'detect_leaks=0:hard_rss_limit_mb=3000:abort_on_error=0:exitcode=23:allocator_may_return_null=0'
    env['RUST_BACKTRACE'] = '0'
    native = [os.path.join(env['CARGO_TARGET_DIR'], 'x86_64-unknown-linux-gnu/debug/wild')], env
    menv = {k: v for k, v in D.ENV.items() if k != 'RUSTC_WRAPPER'}
    menv['CARGO_TARGET_DIR'] = os.path.join(D.TARGET, 'miri')
    menv['MIRIFLAGS'] = '-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks'
    menv['RUST_BACKTRACE'] = '0'
    mcmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--manifest-path', os.path.join(wd, 'Cargo.toml')]
    r = subprocess.run(mcmd, input=b'0 0 0 1|2 1 0 1 2\n', env=menv, capture_output=True)
    if r.returncode != 0 or b'"build"' not in r.stdout:
        D.say('Miri is not usable here: ' + r.stderr.decode(errors='replace')[-300:])
        return native, None
    return native, (mcmd, menv)

def run(D, a, ses, native, miri, budget, shards=8):
    """executes the sessions; returns violations and counters"""
    names = {str(n): t for n, t, _ in ses}
    tot = {'events': 0, 'sessions': 0, 'tlc_states': 0, 'tlc_trans': 0, 'miri_sessions': 0}
    viol, samples, lock = [], [], threading.Lock()
    def one(k, mir):
        part = [(n, t) for n, t, m in ses if n % shards == k and (m if mir else m != 2)]
        if not part:
            return
        if mir:
            # as much as fits in the time given
            part.sort(key=lambda x: (x[0] * 7919) % 1009)
            seen = {}
            def turn(x):
                r = x[1].split()[1]
                seen[r] = seen.get(r, 0) + 1
                return seen[r]
            part = [x for _, x in sorted([(turn(x), x) for x in part], key=lambda y: y[0])]
        cmd, env = miri if mir else native
        lines, done, odd = run_one(cmd, env, part, budget if mir else 300, mir)
        for o in odd:
            if o != 'time':
                raise D.Broken('harness: ' + o)
            if not mir:
                raise D.Broken('a session takes too long')
        trace = os.path.join(D.OUT, f'C18-{os.getpid()}-{k}-{int(mir)}.ndjson')
        open(trace, 'w').write('\n'.join(lines) + ('\n' if lines else ''))
        ok, n, bad, st, tr = D.validate(trace, f'C18-{k}-{int(mir)}', 'WildTrace')
        with lock:
            tot['events'] += n
            tot['sessions'] += done
            tot['tlc_states'] += st
            tot['tlc_trans'] += tr
            if mir:
                tot['miri_sessions'] += done
            if len(samples) < 3 and lines:
                samples.append([json.loads(x) for x in lines[:6]])
            if not ok:
                if not any(x.startswith('{"e":"reset"') for x in lines[:bad + 1]):
                    raise D.Broken(f'no session for line {bad} of {n} in {trace}')
                s = next(json.loads(x)['s'] for x in reversed(lines[:bad + 1]) if x.startswith('{"e":"reset"'))
                viol.append((int(s), names[s], mir, json.loads(lines[bad])))
        os.remove(trace)
    jobs = [(k, False) for k in range(shards)] + ([(k, True) for k in range(shards)] if miri else [])
    with ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(one, *j) for j in jobs]:
            f.result()
    return viol, tot, samples

def main(D, a, model_checks):
    import time
    t0 = time.time()
    prop, tier, seed = a.property, a.tier, int(a.seed)
    errs, box = [], []
    if a.replay:
        r = json.load(open(a.replay))
        ses = [(int(r['plan']['text'].split()[0]), r['plan']['text'], 2 if r['plan']['miri'] else 0)]
        native, miri = prepare(D)
    else:
        def models():
            try:
                model_checks()
                box.append(sessions(tier, seed, D.gen_factory(tier, seed)))
            except BaseException as x:
                errs.append(x)
        th = threading.Thread(target=models)
        th.start()
        native, miri = prepare(D)
        th.join()
        if errs:
            raise errs[0]
        ses = [(n, text(n, *s[:4]), int(s[4])) for n, s in enumerate(box[0])]
        D.say(f'{len(ses)} sessions, {sum(1 for s in ses if s[2])} of them also under Miri')
    viol, tot, samples = run(D, a, ses, native, miri, 30 if tier == 'quick' else 600)
    D.say(f'validated {tot["events"]} events of {tot["sessions"]} executions, {tot["miri_sessions"]} of them under Miri')
    for n, t, mir, e in viol[:3]:
        f = D.replay_file(prop, 'wild', {'s': f'C18-{n}', 'text': t, 'miri': mir}, e)
        print(f'rejected: {json.dumps(e)[:600]} in session {n} ({REPS[int(t.split()[1])]}{", Miri" if mir else ""})')
        print(f'VIOLATION property={prop} replay={f}', flush=True)
    if not a.replay:
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': D.STATS['states'] + tot['tlc_states'], 'transitions': D.STATS['transitions'] + tot['tlc_trans'],
                           'traces_validated_against_impl': tot['sessions'], 'samples': samples, 'models': D.STATS['models'],
                           'events_validated': tot['events'], 'executions_under_miri': tot['miri_sessions'], 'miri_available': bool(miri)},
              'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
        os.makedirs(os.path.join(D.VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(D.VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    return 1 if viol else 0
