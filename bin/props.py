"""Per property: what is built, which models are checked, which plans are replayed."""
import json, os, re, subprocess, threading, time
import plans, progs, wild

BOTH = [('MCFrozenMap.cfg', 'MCFrozen'), ('MCFrozenSet.cfg', 'MCFrozen')]
MAP, SET = BOTH[:1], BOTH[1:]
ORD = [('MCFrozenOrder.cfg', 'MCFrozen')]
# thorough: larger bounds, each explored as far as the time given to it reaches
DEEPER = {'MCFrozenMap.cfg': 'MCFrozenMapL.cfg', 'MCFrozenSet.cfg': 'MCFrozenSetL.cfg', 'MCFrozenOrder.cfg': 'MCFrozenOrderL.cfg'}
MODEL = {'C01': MAP, 'C02': MAP, 'C03': MAP, 'C04': MAP, 'C05': MAP, 'C06': BOTH + ORD, 'C07': MAP, 'C08': MAP, 'C09': SET + [('MCSetIter.cfg', 'MCSetIter')], 'C10': BOTH,
         'C11': MAP, 'C12': [], 'C13': [], 'C14': [], 'C15': BOTH, 'C16': MAP, 'C17': BOTH,
         'C18': [('MCWildMap.cfg', 'MCWild'), ('MCWildSet.cfg', 'MCWild')]}

def listed(D, prop, what):
    """the line of the known-findings file for this finding, if it is listed"""
    for l in open(os.path.join(D.VERIF, 'known-findings.txt')):
        if l.startswith('known: ') and f'property={prop} ' in l and what in l:
            return l.split(f'property={prop} ', 1)[1].strip()
    return None

def known_finding(D, prop, plan, e):
    """C12: equal keys computed at run time, in a declaration small or ordered enough for an array of fixed size"""
    if prop == 'C12' and plan.get('known') and e.get('e') == 'build' and e.get('p') and 'length mismatch' in e.get('msg', ''):
        return listed(D, prop, 'macro-equal-computed-keys')
    return None

def build_api(D, prop):
    """the harness uses every trait implementation that C17 promises; one that is gone while the library
    itself compiles is a violation of C17"""
    try:
        ok = D.build_all(plans.BINS, [] if prop in ('C14', 'C16') else plans.CORE)
        plans.USE_CORE = plans.USE_CORE and ok
    except D.Broken as x:
        if prop != 'C17':
            raise
        codes = set(re.findall(r'^error\[(E\d+)\]', D.LAST_BUILD, re.M))
        r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd='/repo', env=D.ENV, capture_output=True)
        if not codes or codes - {'E0277', 'E0599', 'E0308', 'E0282', 'E0283'} or r.returncode != 0:
            raise
        f = os.path.join(D.OUT, 'replay', 'C17-build.json')
        os.makedirs(os.path.dirname(f), exist_ok=True)
        json.dump({'property': prop, 'bin': '@build', 'plan': {}, 'errors': D.LAST_BUILD[-8000:]}, open(f, 'w'))
        print(D.LAST_BUILD[:1500])
        print(f'VIOLATION property={prop} replay={f}', flush=True)
        return False
    return True

def run(D, a):
    prop, tier, seed = a.property, a.tier, int(a.seed)
    t0 = time.time()
    errs = []
    if prop == 'C18':
        return wild.main(D, a, lambda: [D.model(cfg, mod, workers=4) for cfg, mod in MODEL[prop]])
    if a.replay:
        r = json.load(open(a.replay))
        if r['bin'] == '@build':
            return 0 if build_api(D, prop) else 1
        if 'prog' in r['plan']:
            D.build(['h_front'])
            jobs, paths = progs.replay(D, r)
        else:
            jobs = [(r['bin'], r['plan'])]
            D.build([r['bin']])
    else:
        # the models are checked while the harness is being built
        def models():
            try:
                for cfg, mod in MODEL.get(prop, []):
                    D.model(cfg, mod, workers=4)
                    if tier == 'thorough' and cfg in DEEPER:
                        D.model(DEEPER[cfg], mod, workers=4, timeout=600, budgeted=True)
            except BaseException as x:
                errs.append(x)
        th = threading.Thread(target=models)
        th.start()
        def planning():
            try:
                gen = D.gen_factory(tier, seed)
                box.append(list(plans.PLANS[prop](prop, tier, seed, gen)))
            except BaseException as x:
                errs.append(x)
        box = []
        if prop in ('C12', 'C13'):
            gen = D.gen_factory(tier, seed)
            D.build(['h_front'])
            jobs, paths = progs.prepare(D, prop, tier, seed, gen)
            th.join()
        else:
            tp = threading.Thread(target=planning)
            tp.start()
            if not build_api(D, prop):
                return 1
            tp.join()
            if not plans.USE_CORE:
                box.clear()
                planning()      # without the generated collections
            th.join()
            jobs = box[0] if box else []
        if errs:
            raise errs[0]
        D.say(f'{len(jobs)} sessions, {sum(len(p["ops"]) for _, p in jobs)} calls')
    if 'paths' not in locals():
        paths = {b: os.path.join(D.TARGET, 'debug', b) for b, _ in jobs}
    known = [j for j in jobs if j[1].get('known')]
    viol, tot, samples = D.conformance(prop, [j for j in jobs if not j[1].get('known')], paths)
    seen = set()
    if known:
        # each on its own, so that nothing hides behind a listed finding
        kv, kt, _ = D.conformance(prop + 'k', known, paths, shards=len(known))
        for k in kt:
            tot[k] += kt[k]
        for b, p, e in kv:
            l = known_finding(D, prop, p, e)
            if l is None:
                viol.append((b, p, e))
            elif l not in seen:
                seen.add(l)
                print(f'KNOWN-FINDING: property={prop} {l}', flush=True)
    D.say(f'validated {tot["events"]} events of {tot["sessions"]} sessions')
    for b, p, e in viol[:3]:
        f = D.replay_file(prop, b, p, e)
        print(f'rejected: {json.dumps(e)[:600]} in session {p["s"]} ({p.get("tag")})')
        print(f'VIOLATION property={prop} replay={f}', flush=True)
    if not a.replay:
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
              'coverage': {'states': D.STATS['states'] + tot['tlc_states'], 'transitions': D.STATS['transitions'] + tot['tlc_trans'],
                           'traces_validated_against_impl': tot['sessions'], 'samples': samples,
                           'models': D.STATS['models'], 'events_validated': tot['events']},
              'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
        os.makedirs(os.path.join(D.VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(D.VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1)
    return 1 if viol else 0
