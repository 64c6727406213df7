"""Plans: which calls are made on which concrete collections.  Expected results are NOT computed
here; the specification judges the recorded results."""
import random
from uni import *

BINS = ['h_hash', 'h_ord', 'h_scalar', 'h_string', 'h_front']
CORE = ['core_i32', 'core_u64', 'core_str', 'core_string', 'core_tk', 'core_enum']
USE_CORE = True       # off when the macros do not compile their core programs (C12's business)
MQ = ['inh', 'alt', 'tr', 'dyn', 'talt']
KVQ = ['inh', 'alt', 'tr', 'talt']
CONS = ['for', 'fold', 'each', 'collect', 'nth', 'try', 'peek', 'reduce']
def closing(rng, ident, *more):
    """one of the ways to be done with an iterator"""
    return rng.choice([['rest', ident, rng.choice(CONS)]] * 3 + [['cnt', ident], ['close', ident], ['last', ident], ['last', ident], *more])


class Sess:
    n = 0
    def __init__(s, p, ops=None):
        s.p, s.ops = p, ops if ops is not None else []
        s.val = 0
    def add(s, *op):
        f = getattr(s.p, 'fixed', {})
        if f and op[0] == 'build' and op[3] in f:
            # contents decided at compile time: those, or a general-purpose collection instead
            op = list(op)
            if {e[0] for e in op[5]} == {e[0] for e in f[op[3]]}:
                op[5] = f[op[3]]
            else:
                op[3] = 'fz'
        s.ops.append(list(op))
        return s
    def fresh(s, n=1):
        s.val += n
        return s.val - n + 1
    def out(s, prop):
        Sess.n += 1
        return s.p.bin, {"s": f"{prop}-{Sess.n}", "k": s.p.k, "uni": s.p.uni, "bh": s.p.bh, "tag": s.p.tag, "ops": s.ops}

def entries(s, kind, ids):
    if kind == 'set':
        return [[i, 0] for i in ids]
    v = s.fresh(len(ids))
    return [[i, v + j] for j, i in enumerate(ids)]

def build(s, h, kind, ty, ids, route='new'):
    en = entries(s, kind, ids)
    if ty in ('hm8', 'hm16', 'hm64', 'hms', 'hms8', 'dense', 'hm', 'ln') or ty[:3] in ('lr:', 'rr:'):
        s.add('blim', h, kind, ty, route, en, {'hm8': 255, 'hms8': 255, 'hm16': 65535}.get(ty, 2000000000), ty == 'dense')
    else:
        s.add('build', h, kind, ty, route, en)

def queries(s, h, kind, p, rng, limit=140, vias=MQ):
    q = p.all()
    if len(q) > limit:
        q = rng.sample(p.present, min(len(p.present), limit // 2)) + rng.sample(p.absent, min(len(p.absent), limit // 2))
    q = rng.sample(q, len(q))
    for v in vias:
        s.add('has', h, v, q)
        s.add('get', h, v, q)
        if kind == 'map':
            s.add('getmut', h, v, q)
    if kind == 'map':
        for v in [x for x in KVQ if x in vias]:
            s.add('gkv', h, v, q)
        for v in ('inh', 'alt'):
            for k in rng.sample(p.present, min(3, len(p.present))) + rng.sample(p.absent, min(3, len(p.absent))):
                s.add('idx', h, v, k)
    for v in ('inh', 'tr', 'dyn'):
        s.add('len', h, v)

def light_obs(s, h, kind, rng, q):
    s.add('get', h, rng.choice(MQ), q)
    s.add('has', h, rng.choice(MQ), q)
    if kind == 'map':
        s.add('gkv', h, rng.choice(KVQ), q)
        s.add('all', h, rng.choice(['kv', 'k', 'v']), f"{rng.choice(['inh', 'tr'])}/{rng.choice(CONS)}")
    else:
        s.add('all', h, 'k', f"{rng.choice(['inh', 'tr', 'intoref'])}/{rng.choice(CONS)}")
    s.add('len', h, rng.choice(['inh', 'tr', 'dyn']))

# ------------------------------------------------------------ profile sets
SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17]

def lookup_profiles(prop, tier, rng):
    deep = tier == 'thorough'
    if prop == 'C01':
        out = hash_profiles(SMALL + [31, 33], BHS, ['Tk'], rng)
        out += hash_profiles(list(range(0, 24)) + [31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300], ['good', 'ident', 'low2', 'high8'], ['u64', 'String'], rng)
        out += hash_profiles([64, 127, 128, 129, 255, 256, 999, 1000, 1001], ['good', 'const0', 'shift56'], ['Tk'], rng)
        if deep:
            out += hash_profiles(list(range(0, 140)) + [200, 250, 253, 256, 257, 500, 2000], BHS, ['Tk'], rng)
            out += hash_profiles(list(range(0, 140, 3)) + [600, 1500], BHS, ['u64', 'String'], rng)
        return out
    if prop == 'C02':
        out = ord_profiles(list(range(0, 137)) + [199, 200, 255, 256, 257, 300, 511, 512, 513, 1000], ['i32'], rng)
        out += ord_profiles(list(range(0, 70)) + [100, 127, 128, 129, 255, 300], ['Tk'], rng)
        out += ord_profiles(list(range(0, 36)) + [63, 64, 65, 100, 200], ['String'], rng)
        if deep:
            out += ord_profiles(list(range(41, 300, 2)) + [511, 512, 513, 1000, 1023, 1024, 1025], ['i32', 'String', 'Tk'], rng)
        return out
    if prop == 'C03':
        return scalar_profiles(INTS + list(ENUMS), rng, deep)
    if prop == 'C04':
        out = string_profiles(rng, deep, ('good',))
        out += string_profiles(rng, deep, ('const0', 'low2', 'ident'), only=lambda t: t.endswith(('3', '9', '20')) or not t[-1].isdigit())
        return out

def with_core(out):
    return out + (core_profiles() if USE_CORE else [])

def all_profiles(tier, rng, small=True):
    """a compact cover of every representation, for the properties that are not about lookups"""
    deep = tier == 'thorough'
    out = hash_profiles([0, 1, 2, 3, 4, 7, 12, 33, 130], ['good'], ['u64', 'String', 'Tk'], rng)
    out += hash_profiles([3, 9, 20], ['const0', 'low2', 'high8'], ['Tk'], rng)
    out += ord_profiles([0, 1, 2, 3, 4, 5, 8, 15, 17, 33, 64], ['i32', 'String', 'Tk'], rng)
    sel = {'empty', 'max', 'dense-lo', 'dense-hi', 'dense-zero', 'sparse-lo', 'sparse-hi', 'extremes', 'general', 'dense-big', 'sparse-gap10'}
    out += scalar_profiles(['u64', 'i8', 'i32'] + list(ENUMS), rng, False, lambda t: t in sel)
    out += scalar_profiles([t for t in INTS if t not in ('u64', 'i8', 'i32')], rng, False, lambda t: t in {'dense-hi', 'extremes', 'sparse-lo'})
    out += string_profiles(rng, False, ('good',), only=lambda t: t in {'empty', 'just-empty', 'one', 'left4', 'right4', 'leftmix9', 'rightmix9', 'middle20', 'length6', 'uni9', 'withempty9', 'escapes', 'left50', 'big130'})
    if deep:
        out += hash_profiles([5, 6, 8, 10, 16, 17, 40, 64, 127, 128, 129, 255, 300, 1000], BHS[:6], ['u64', 'String', 'Tk'], rng)
        out += ord_profiles([6, 7, 9, 10, 11, 12, 16, 31, 32, 63, 65, 127, 128, 129, 255, 300], ['i32', 'String', 'Tk'], rng)
        out += scalar_profiles(INTS, rng, True)
        out += string_profiles(rng, True, ('good', 'low2'))
    return with_core(out)

def foreign(p, kind):
    if p.bin == 'h_hash':
        return ['std', 'hb']
    if p.bin == 'h_ord':
        return ['std']
    if p.fixed and (p.maps if kind == 'map' else p.sets):
        return ['fz']
    return []

# ------------------------------------------------------------ C01..C04 lookups
def plan_lookup(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    # the macros choose the representation from the keys, so a generated collection may be of any family
    ofkind = {'C01': lambda c: c['d']['fam'] == 'hash' or c['d']['keys'] == 'lit', 'C02': lambda c: c['d']['fam'] == 'ordered',
              'C03': lambda c: c['d']['fam'] == 'scalar' or c['d']['ty'] == 'int', 'C04': lambda c: c['d']['fam'] == 'string' or c['d']['ty'] == 'ref'}[prop]
    for p in lookup_profiles(prop, tier, rng) + (core_profiles(ofkind) if USE_CORE else []):
        for kind, tys in (('map', p.maps), ('set', p.sets)):
            for ty in tys:
                s = Sess(p)
                ids = rng.sample(p.present, len(p.present))
                build(s, 1, kind, ty, ids)
                queries(s, 1, kind, p, rng)
                yield s.out(prop)
    yield from plan_instances(prop, tier, rng, gen)
    yield from plan_big(prop, tier, rng)

def probe(s, h, kind, q, rng, vias=2):
    for v in rng.sample(MQ, vias):
        s.add('has', h, v, q)
        s.add('get', h, v, q)
    if kind == 'map':
        s.add('gkv', h, rng.choice(KVQ), q)
        s.add('getmut', h, rng.choice(MQ), q)
        s.add('idx', h, 'inh', rng.choice(q))
    s.add('all', h, 'kv' if kind == 'map' else 'k', 'inh')

def plan_instances(prop, tier, rng, gen):
    """the bounded instances on which spec/MCHash, MCScalar and MCStrings are checked exhaustively"""
    if prop == 'C02':
        gen('MCOrder')           # its instances, every size, are among the profiles
    elif prop == 'C01':
        scale = [lambda c: c, lambda c: c << 32, lambda c: c << 56, lambda c: c * 16, lambda c: 2 ** 64 - 1 - c, lambda c: c * 0x0101010101010101, lambda c: [0, 1, 2 ** 31, 2 ** 63, 2 ** 64 - 1][c], lambda c: [0, 8, 24, 4, 1][c]]
        for it in gen('MCHash'):
            for rep in range(8 if tier == 'thorough' else 1):
                f = rng.choice(scale)
                n, bh = it['np'], [f(c) for c in it['code']]
                kind = rng.choice(['map', 'map', 'set'])
                p = Prof('h_hash', 'Tk', [str(i) for i in range(len(bh))], list(range(n)), list(range(n, len(bh))), [], [], bh, f"hash instance np={n} codes={it['code']}")
                for ty in rng.sample(['fz', 'fzd', 'hm8', 'hm16', 'hm64', 'scan'], 2) if kind == 'map' else ['fz']:
                    s = Sess(p)
                    build(s, 1, kind, ty, rng.sample(p.present, n))
                    probe(s, 1, kind, rng.sample(p.all(), len(p.all())), rng)
                    yield s.out(prop)
    elif prop == 'C03':
        ts = INTS + ['E9']
        for j, it in enumerate(gen('MCScalar')):
            for w, at in enumerate(('lo', 'zero', 'hi')):
                for rep in range(len(ts) if tier == 'thorough' else 2):
                    t = ts[(j + 7 * w + rep) % len(ts)] if tier == 'thorough' else rng.choice(ts)
                    if t == 'E9':
                        a, univ = {'lo': 0, 'zero': 1, 'hi': 2}[at], range(9)
                    else:
                        lo, hi = bounds(t)
                        a = {'lo': lo, 'zero': rng.choice([-3, 0]), 'hi': hi - 6}[at]
                        if a < lo:
                            a = 0
                        univ = set(range(a - 2, a + 9)) | {lo, hi, lo + 1, hi - 1, 0, 1, a + 256, a - 256, a + 6 + 2 ** 16, a + 2 ** 32, a - 2 ** 32, a + 64}
                        univ = sorted(x for x in univ if legal(t, x))
                    ks = [a + x for x in it['ks'] if a + x in univ]
                    ty = ['fz'] + (['hms', 'sparse'] if t in ('u64', 'i8', 'i32', 'E9') else [])
                    p = mk('h_scalar', t, univ, ks, ty, ['fz'], 'good', f'scalar instance {t} {ks}')
                    for kind, ty in (('map', rng.choice(p.maps)), ('set', 'fz')):
                        s = Sess(p)
                        build(s, 1, kind, ty, rng.sample(p.present, len(p.present)))
                        probe(s, 1, kind, rng.sample(p.all(), len(p.all())), rng)
                        yield s.out(prop)
    elif prop == 'C04':
        import itertools
        for it in gen('MCStrings'):
            for rep in range(6 if tier == 'thorough' else 1):
                al = rng.choice(['ab', 'ab', '01', 'aA', ' a', '\0a', 'éê', 'a😀', 'яж'])
                word = lambda q: ''.join(al[c - 1] for c in q)
                univ = [word(q) for n in range(4) for q in itertools.product((1, 2), repeat=n)]
                ks = [word(q) for q in it['ks']]
                p = mk('h_string', 'str', univ + [al[0] * 4, al * 3, 'zz', 'z' * 7], ks, ['fz', 'fzd'], ['fz', 'fzd'], rng.choice(['good', 'good', 'low2', 'const0', 'ident']), f"string instance {ks} {it['how']}")
                kind = rng.choice(['map', 'map', 'set'])
                for ty in ('fz', 'fzd'):
                    s = Sess(p)
                    build(s, 1, kind, ty, rng.sample(p.present, len(p.present)))
                    probe(s, 1, kind, rng.sample(p.all(), len(p.all())), rng)
                    yield s.out(prop)

def plan_big(prop, tier, rng):
    """collections around the 8- and 16-bit magnitudes, described by segments"""
    sizes = {'quick': [1000, 5000, 65535, 65536], 'thorough': [1000, 4096, 65534, 65535, 65536, 65537, 70000, 131072]}[tier]
    for n in sizes:
        q = sorted({0, 1, 2, n - 1, n, n + 1, 2 * n - 2, 2 * n - 1, 2 * n, n // 2, 254, 255, 256, 257, 65534 % n, 65535 % n} | set(rng.randrange(2 * n) for _ in range(40)))
        spec = {'C01': [('h_hash', 'u64', {"n": 2 * n + 2, "f": "lin", "a": 1, "b": 7}, ['fz', 'hm64'], ['fz']),
                        ('h_hash', 'u64', {"n": 2 * n + 2, "f": "lin", "a": 4096, "b": 0}, ['fzd'], [])],
                'C02': [('h_ord', 'i32', {"n": 2 * n + 2, "f": "lin", "a": 3, "b": -100000}, ['fz'], ['fz'])],
                'C03': [('h_scalar', 'u32', {"n": 2 * n + 2, "f": "lin", "a": 1, "b": 5}, ['fz'], ['fz']),
                        ('h_scalar', 'i64', {"n": 2 * n + 2, "f": "lin", "a": 1000003, "b": -77}, ['fz'], [])],
                'C04': [('h_string', 'str', {"n": 2 * n + 2, "f": "str", "pre": "k", "suf": "z", "w": 7}, ['fz', 'fzd'], ['fzd'])]}[prop]
        for bin, k, uni, maps, sets in spec:
            for kind, tys in (('map', maps), ('set', sets)):
                for ty in tys:
                    if n == 65535 and tier == 'quick' and (kind == 'set' or ty != tys[0]):
                        continue
                    p = Prof(bin, k, uni, [], [], [], [], 'good', f'big n={n}')
                    s = Sess(p)
                    # even ids are present; the odd ones in between are absent
                    s.add('bseg', 1, kind, ty, 'new', [[0, n, 2, 1 if kind == 'map' else 0]] if kind == 'map' else [[0, n, 2, 0]])
                    for v in MQ:
                        s.add('has', 1, v, q)
                        if kind == 'map':
                            s.add('get', 1, v, q)
                    if kind == 'map':
                        s.add('gkv', 1, 'inh', q)
                    s.add('len', 1, 'inh')
                    s.add('scan', 1, rng.choice(['inh', 'alt', 'tr', 'dyn', 'talt']) + '/get', 2 * n + 2)
                    s.add('scan', 1, 'inh/' + rng.choice(['has', 'gkv', 'getmut'] if kind == 'map' else ['has']), 2 * n + 2)
                    s.add('scan', 1, rng.choice(['inh', 'tr']) + '/enum', 2 * n + 2)
                    yield s.out(prop)

# ------------------------------------------------------------ C05 duplicates
def routes_for(p, kind, ty, tier):
    if ty in ('std', 'hb', 'inl') or p.fixed:
        return []
    if ty in ('fz', 'fzd'):
        r = ['new', 'iter', 'filter', 'array']
        if p.bin == 'h_string' and ty == 'fz' and kind == 'map':
            pass
        else:
            r += ['json', 'reader', 'typed', 'nohint', 'badhint', 'bin', 'cbor']
        if kind == 'set':
            r += ['map']
        return r
    return ['new']

def plan_C05(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    seqs = gen('seqs')            # every sequence of <= 5 of 3 keys, from the specification
    base = [p for p in all_profiles(tier, rng) if not p.fixed]
    small = {}
    for p in base:
        if len(p.present) >= 3 and len(p.present) <= 20:
            small.setdefault((p.bin, p.k), []).append(p)
    for (bin, k), ps in small.items():
        reps = ps if tier == 'thorough' else ps[:3]
        for pi, p in enumerate(reps):
            for kind, tys in (('map', p.maps), ('set', p.sets)):
                for ty in tys:
                    if ty == 'inl':
                        continue
                    rts = routes_for(p, kind, ty, tier)
                    for ri, r in enumerate(rts):
                        s = Sess(p)
                        sub = seqs if (ri == 0 and pi == 0 and bin != 'h_scalar') else rng.sample(seqs, 60 if tier == 'thorough' else 14)
                        ks = rng.sample(p.present, 3)
                        h = 0
                        for q in sub:
                            if ty == 'dense':
                                ks = sorted(p.present)[:3]
                            h += 1
                            build(s, h, kind, ty, [ks[x - 1] for x in q], r)
                            s.add('get', h, 'inh', ks)
                            s.add('len', h, 'inh')
                            s.add('all', h, 'kv' if kind == 'map' else 'k', 'inh')
                            s.add('drop', h)
                        yield s.out(prop)
    # larger inputs: shadowed entries near and far, enough of them for every sorting strategy
    for p in base:
        n = len(p.present)
        if n == 0:
            continue
        for kind, tys in (('map', p.maps), ('set', p.sets)):
            for ty in tys:
                if ty == 'inl':
                    continue
                rts = routes_for(p, kind, ty, tier)
                for pat in (['double', 'rev', 'shuffle', 'one', 'triple'] if tier == 'thorough' else [rng.choice(['double', 'rev', 'one']), 'shuffle']):
                    ids = list(p.present)
                    rng.shuffle(ids)
                    if pat == 'double':
                        ids = [i for i in ids for _ in (0, 1)]
                    elif pat == 'rev':
                        ids = ids + ids[::-1]
                    elif pat == 'shuffle':
                        ids = ids * 3
                        rng.shuffle(ids)
                    elif pat == 'one':
                        ids = ids + [ids[0]] * (25 if ids else 0)
                        rng.shuffle(ids)
                    else:
                        ids = ids + ids[: n // 2] + ids
                    for r in (rts if tier == 'thorough' else rng.sample(rts, min(2, len(rts)))):
                        s = Sess(p)
                        build(s, 1, kind, ty, ids, r)
                        q = (p.present + p.absent)[:150]
                        s.add('get', 1, rng.choice(MQ), q)
                        s.add('len', 1, 'inh')
                        s.add('all', 1, 'kv' if kind == 'map' else 'k', 'inh')
                        yield s.out(prop)
    # all keys equal / long runs
    for p in base:
        if p.present and len(p.present) <= 4:
            for kind, tys in (('map', p.maps), ('set', p.sets)):
                for ty in tys:
                    if ty == 'inl':
                        continue
                    s = Sess(p)
                    build(s, 1, kind, ty, [p.present[j % len(p.present)] for j in range(300)], 'new')
                    s.add('get', 1, 'inh', p.all())
                    s.add('all', 1, 'kv' if kind == 'map' else 'k', 'inh')
                    yield s.out(prop)

# ------------------------------------------------------------ walks generated from the spec
def walk(p, kind, log, rng, livek):
    """turns one walk of GenFrozen into calls on concrete collections of profile p"""
    s = Sess(p)
    ids = rng.sample(p.present, min(4, len(p.present)))
    while len(ids) < 4:
        cand = [x for x in p.absent if x not in ids]
        if len(cand) < 2:
            return None
        ids.append(rng.choice(cand))
    rest = [x for x in p.all() if x not in ids]
    if not rest:
        return None
    ids.append(rng.choice(rest))
    ty, own, ends = {}, {}, set()
    tys = [t for t in (p.maps if kind == 'map' else p.sets) if t not in ('inl', 'dense', 'sparse')]
    for op in log:
        o = op[0]
        if o == 'build':
            en = [[ids[k], v] for k, v in op[3]]
            cands = tys + foreign(p, kind)
            dist = len({e[0] for e in en}) == len(en)
            if 'inl' in (p.maps if kind == 'map' else p.sets) and dist and len(en) in INL:
                cands = cands + ['inl', 'inl']
            t = rng.choice(cands)
            ty[op[1]] = t
            rts = routes_for(p, kind, t, 'quick') or ['new']
            r = rng.choice(rts)
            if t in ('hm8', 'hm16', 'hm64', 'hms', 'hms8', 'hm', 'ln') or t[:3] in ('lr:', 'rr:'):
                s.add('blim', op[1], kind, t, 'new', en, 200, False)
            else:
                s.add('build', op[1], kind, t, r, p.fixed.get(t, en))
        elif o == 'clone':
            ty[op[2]] = ty[op[1]]
            s.add('clone', op[1], op[2])
        elif o == 'drop':
            s.add('drop', op[1])
        elif o == 'obs':
            light_obs(s, op[1], kind, rng, [ids[k] for k in op[2]])
            if rng.random() < .3:
                s.add('all', op[1], 'kv' if kind == 'map' else 'k', rng.choice(['dbg', 'json']))
        elif o == 'set':
            s.add('set', op[1], rng.choice(MQ), ids[op[2]], op[3])
        elif o == 'dis':
            q = [ids[k] for k in op[2]]
            if ty[op[1]] in ('std', 'hb') and p.bin == 'h_hash' and len(set(q)) != len(q):
                continue
            vias = ['inh', 'alt', 'tr'] + (['unsafe', 'unsafetr'] if len(set(q)) == len(q) else [])
            s.add('dis', op[1], rng.choice(vias), q, op[3])
        elif o == 'eq':
            if ty[op[1]] not in ('std', 'hb'):
                s.add('eq', op[1], op[2], 'dyn')
            if ty[op[1]] == ty[op[2]]:
                s.add('eq', op[1], op[2], 'same')
        elif o == 'rel':
            for r in ('sub', 'sup', 'dis'):
                s.add('rel', r, op[1], op[2], rng.choice(['same', 'dyn']))
        elif o == 'sop':
            s.add('sop', op[1], op[2], op[3], rng.choice(['same', 'dyn', 'operator']))
        elif o == 'open':
            via = rng.choice(['inh', 'tr', 'intoref'] if op[4] != 'own' else ['inh', 'tr'])
            if op[4] == 'own':
                own[op[1]] = op[3]
            if rng.random() < .5:
                s.add('all', op[2], 'k', 'inh/for')
            s.add('open', op[1], op[2], op[3], op[4], via)
        elif o == 'openop':
            s.add('openop', op[1], op[2], op[3], op[4], rng.choice(['same', 'dyn']))
        elif o in ('next', 'nth', 'size', 'idbg'):
            s.add(*op)
        elif o == 'icl':
            s.add('icl', op[1], op[2])
        elif o in ('rest', 'cnt', 'close', 'last'):
            own.pop(op[1], None)
            s.add(*([o, op[1], rng.choice(CONS)] if o == 'rest' else [o, op[1]]))
        elif o == 'live':
            w = ''
            if 'k' not in own.values() and kind == 'map':
                w += 'v'
            if 'v' not in own.values() and livek:
                w += 'k'
            if w:
                s.add('live', w)
    return s

def walks(prop, tier, rng, gen, kinds, per=1, profs=None):
    num = {'quick': 150, 'thorough': 3000}[tier] * per
    depth = {'quick': 30, 'thorough': 45}[tier]
    profs = profs or all_profiles(tier, rng)
    for kind in kinds:
        pool = {}
        for p in profs:
            if len(p.all()) >= 5 and len(p.present) <= 40 and (p.maps if kind == 'map' else p.sets):
                pool.setdefault((p.bin, p.k), []).append(p)
        keys = sorted(pool)
        for j, log in enumerate(gen('walks', kind=kind, num=num, depth=depth)):
            # each walk is replayed on a few different families
            for x in range(3):
                p = rng.choice(pool[keys[(3 * j + x) % len(keys)]])
                if x == 0 and j % 2 and any(q[1] == 'Tk' for q in keys):
                    p = rng.choice(pool[rng.choice([q for q in keys if q[1] == 'Tk'])])
                s = walk(p, kind, log, rng, p.k == 'Tk')
                if s:
                    yield s.out(prop)

# ------------------------------------------------------------ C06 iteration
def iter_plan(s, h, n, w, src, via, rng, ident, clone=True):
    """walks one iterator step by step with the sizes checked at every point"""
    s.add('open', ident, h, w, src, via)
    steps = list(range(n + 1)) if n <= 12 else sorted({0, 1, 2, n // 2, n - 1, n})
    at = 0
    cut = rng.choice(steps)
    for st in steps:
        while at < st:
            s.add('next', ident, -1)
            at += 1
        s.add('size', ident)
        if st == cut:
            s.add('idbg', ident)
            if clone:
                s.add('icl', ident, ident + 1)
                s.add('size', ident + 1)
                s.add('next', ident + 1, -1)
                s.add(*closing(rng, ident + 1))
    s.add('next', ident, -1)
    s.add('next', ident, -1)
    s.add('size', ident)
    s.add(*closing(rng, ident))

def partial_plan(s, h, n, w, src, via, how, rng, ident):
    s.add('open', ident, h, w, src, via)
    for _ in range(rng.randint(0, min(n, 6))):
        s.add('next', ident, -1)
    if how in ('cnt', 'last'):
        s.add(how, ident)
    else:
        s.add('rest', ident, how)

def skip_plan(s, h, n, w, src, via, rng, ident):
    """jumps through one iterator; the sizes are checked after every jump"""
    s.add('open', ident, h, w, src, via)
    at = 0
    for _ in range(4):
        j = rng.choice([0, 1, 2, max(0, n - at - 2), max(0, n - at - 1), max(0, n - at), n - at + 3])
        s.add('nth', ident, j)
        s.add('size', ident)
        at = min(n, at + j + 1)
        if rng.random() < .3:
            s.add('next', ident, -1)
            at = min(n, at + 1)
    s.add(*closing(rng, ident, ['next', ident, -1]))
    s.add('close', ident)

def plan_C06(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    profs = all_profiles(tier, rng)
    for p in profs:
        n = len(p.present)
        for kind, tys in (('map', p.maps), ('set', p.sets)):
            for ty in tys:
                if ty[:3] in ('lr:', 'rr:') and rng.random() < .6:
                    continue
                s = Sess(p)
                ids = rng.sample(p.present, n)
                build(s, 1, kind, ty, ids)
                s.add('get', 1, 'inh', p.all()[:150])
                ident = 1
                if rng.random() < .75:              # from here on the order is known
                    s.add('all', 1, 'k', rng.choice(['inh', 'tr']) + '/for')
                if kind == 'map':
                    combos = [(w, 'ref', v) for w in ('kv', 'k', 'v') for v in ('inh', 'tr')] + [('kv', 'ref', 'intoref')]
                    combos += [(w, 'mut', v) for w in ('kv', 'v') for v in ('inh', 'tr')] + [('kv', 'mut', 'intoref')]
                    own = [(w, 'own', v) for w in ('kv', 'k', 'v') for v in ('inh', 'tr')]
                else:
                    combos = [('k', 'ref', v) for v in ('inh', 'tr', 'intoref')]
                    own = [('k', 'own', v) for v in ('inh', 'tr')]
                for w, src, via in combos:
                    iter_plan(s, 1, n, w, src, via, rng, ident)
                    skip_plan(s, 1, n, w, src, via, rng, ident)
                    partial_plan(s, 1, n, w, src, via, rng.choice(CONS + ['cnt', 'last', 'last']), rng, ident)
                for how in ['dbg', 'inh/fold', 'tr/collect', 'inh/nth', 'tr/try', 'inh/reduce', 'inh/each']:
                    for w in (('kv', 'k', 'v') if kind == 'map' and how != 'dbg' else ('kv',) if kind == 'map' else ('k',)):
                        s.add('all', 1, w, how)
                for w, src, via in own:
                    s.add('clone', 1, 2)
                    s.add('all', 2, 'k', 'inh/for')
                    iter_plan(s, 2, n, w, src, via, rng, ident, clone=False)
                    s.add('clone', 1, 2)
                    skip_plan(s, 2, n, w, src, via, rng, ident)
                    s.add('clone', 1, 2)
                    s.add('all', 2, 'k', 'inh/for')
                    partial_plan(s, 2, n, w, src, via, rng.choice(CONS + ['cnt', 'last', 'last']), rng, ident)
                s.add('len', 1, 'inh')
                yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map', 'set'])

# ------------------------------------------------------------ C07 mutation
def plan_C07(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    for p in all_profiles(tier, rng):
        n = len(p.present)
        for ty in p.maps:
            if ty[:3] in ('lr:', 'rr:') and rng.random() < .6:
                continue
            s = Sess(p)
            build(s, 1, 'map', ty, rng.sample(p.present, n))
            q = (rng.sample(p.present, min(n, 60)) + p.absent[:30])
            def look(h):
                s.add('get', h, rng.choice(MQ), q)
                s.add('all', h, rng.choice(['kv', 'v']), rng.choice(['inh', 'tr', 'dbg']))
            s.add('clone', 1, 2)
            for via in MQ:
                for k in rng.sample(p.present, min(3, n)) + rng.sample(p.absent, min(1, len(p.absent))):
                    s.add('set', 1, via, k, s.fresh())
                look(1)
            look(2)
            for via in ('inh', 'alt', 'tr', 'unsafe', 'unsafetr'):
                ks = rng.sample(p.all(), min(len(p.all()), rng.randint(0, 4)))
                s.add('dis', 1, via, ks, [s.fresh() for _ in ks])
                look(1)
            for w in ('kv', 'v'):
                for via in ('inh', 'tr') + (('intoref',) if w == 'kv' else ()):
                    s.add('open', 1, 2, w, 'mut', via)
                    for _ in range(min(n + 1, rng.choice([2, 6, 40]))):
                        s.add('next', 1, s.fresh())
                    s.add('close', 1)
                    look(2)
            look(1)
            s.add('clone', 2, 3)
            for k in rng.sample(p.present, min(2, n)):
                s.add('set', 2, 'inh', k, s.fresh())
                s.add('set', 3, 'tr', k, s.fresh())
            for h in (1, 2, 3):
                look(h)
                s.add('len', h, 'inh')
                s.add('has', h, rng.choice(MQ), q)
            s.add('eq', 1, 2, 'same')
            s.add('eq', 2, 3, 'same')
            s.add('drop', 1)
            look(2)
            look(3)
            yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map'], 2)

# ------------------------------------------------------------ C08 disjoint
def plan_C08(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    reqs = gen('reqs')          # every request array of <= 4 of 5 keys, 3 of them present
    profs = [p for p in all_profiles(tier, rng)]
    seen = {}
    for p in profs:
        n = len(p.present)
        if n < 1 or len(p.all()) < 5:
            continue
        for ty in p.maps + (foreign(p, 'map')):
            own = not (ty in ('std', 'hb') and p.bin == 'h_hash')
            key = (p.bin, p.k, ty[:2])
            seen[key] = seen.get(key, 0) + 1
            full = seen[key] == 1 and (p.bin != 'h_scalar' or p.k in ('u64', 'E9'))
            sub = reqs if full or tier == 'thorough' else rng.sample(reqs, 60)
            s = Sess(p)
            build(s, 1, 'map', ty, rng.sample(p.present, n))
            pre = rng.sample(p.present, min(3, n))
            ks = pre + rng.sample([x for x in p.all() if x not in pre], 5 - len(pre))
            vias = ['inh', 'alt', 'tr']
            cnt = 0
            for q in sub:
                q = [ks[x] for x in q]
                dist = len(set(q)) == len(q)
                if not own and not dist:
                    continue
                via = rng.choice(vias + (['unsafe', 'unsafetr'] if dist else []))
                s.add('dis', 1, via, q, [s.fresh() if rng.random() < .8 else -1 for _ in q])
                cnt += 1
                if cnt % 10 == 0 or not dist:
                    s.add('get', 1, 'inh', ks)
            s.add('all', 1, 'kv', 'inh')
            # longer arrays, one repetition at every pair of positions
            if own:
                for m in (5, 6, 7, 8):
                    base = rng.sample(p.all(), m) if len(p.all()) >= m else None
                    if not base:
                        continue
                    s.add('dis', 1, rng.choice(vias), base, [s.fresh() for _ in base])
                    pairs = [(x, y) for x in range(m) for y in range(x + 1, m)]
                    for x, y in (pairs if full else rng.sample(pairs, 4)):
                        q = list(base)
                        q[y] = q[x]
                        s.add('dis', 1, rng.choice(vias), q, [s.fresh() for _ in q])
                    s.add('all', 1, 'kv', 'inh')
            yield s.out(prop)
        # maps whose values take no space: there is nothing to tell two values apart by
        small = rng.sample(p.present, min(n, 200))
        for ty in ('fz', 'hm8', 'scan', 'inl', 'eyt', 'dense', 'sparse'):
            if p.bin not in BINS or ty not in (*p.maps, 'fz') or (ty == 'inl' and n < 4) or (ty == 'dense' and n > 200):
                continue
            en = rng.sample(p.present, 4) if ty == 'inl' else small + ([] if ty == 'inl' else rng.choices(small, k=rng.choice([0, 3])))
            key = (p.bin, p.k, 'zero', ty)
            seen[key] = seen.get(key, 0) + 1
            s = Sess(p)
            pre = rng.sample(en, min(3, len(en)))
            ks = list(dict.fromkeys(pre + p.all()))[:5]
            for q in (reqs if seen[key] == 1 and p.k in ('u64', 'i32', 'str', 'E9') else rng.sample(reqs, 12)):
                s.add('zmap', {'ty': ty, 'en': en, 'q': [ks[x] for x in q]})
            yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map'])

# ------------------------------------------------------------ C09, C10 pairs of sets / maps
OPS = ['union', 'inter', 'diff', 'sym']

def op_walk(s, op, h, g, how, n, rng, ident=1):
    s.add('openop', ident, op, h, g, how)
    cut = rng.randint(0, n + 1)
    for st in range(n + 2):
        s.add('size', ident)
        if st == cut:
            s.add('idbg', ident)
            s.add('icl', ident, ident + 1)
            s.add('size', ident + 1)
            s.add(*closing(rng, ident + 1))
        s.add('next', ident, -1)
    s.add('size', ident)
    s.add('close', ident)

def set_pool(p, rng, foreign_too=True):
    t = [x for x in p.sets if x != 'inl']
    return t + (foreign(p, 'set') if foreign_too else [])

def plan_C09(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    pairs = gen('pairs')
    profs = [p for p in all_profiles(tier, rng) if len(p.all()) >= 2]
    groups = {}
    for p in profs:
        if not p.fixed:
            groups.setdefault((p.bin, p.k), []).append(p)
    for (bin, k), ps in sorted(groups.items()):
        big = [p for p in ps if len(p.all()) >= 4]
        for rep, p in enumerate((big or ps)[: 8 if tier == 'thorough' else 2]):
            ids = rng.sample(p.all(), min(4, len(p.all())))
            pool = set_pool(p, rng)
            for a, b in (pairs if rep == 0 or tier == 'thorough' else rng.sample(pairs, 60)):
                A = [ids[x] for x in a if x < len(ids)]
                B = [ids[x] for x in b if x < len(ids)]
                s = Sess(p)
                ta, tb = rng.choice(pool), rng.choice(pool)
                if 'inl' in p.sets or bin in ('h_hash', 'h_ord'):
                    ta, tb = rng.choice([ta, 'inl']), rng.choice([tb, 'inl'])
                s.add('build', 1, 'set', ta, 'new', [[x, 0] for x in A])
                s.add('build', 2, 'set', tb, 'new', [[x, 0] for x in B])
                for op in OPS:
                    op_walk(s, op, 1, 2, rng.choice(['same', 'dyn']), len(set(A) | set(B)), rng)
                    s.add('sop', op, 1, 2, 'operator')
                    s.add('sop', op, 1, 2, 'dyn')
                yield s.out(prop)
    # larger sets of very different sizes and overlaps
    for p in profs:
        ids = p.all()
        if len(ids) < 6:
            continue
        if p.fixed and not p.sets:
            continue
        for _ in range(6 if tier == 'thorough' else 2):
            s = Sess(p)
            pool = set_pool(p, rng)
            na = rng.choice([0, 1, 2, len(ids) // 2, len(ids) - 1])
            nb = rng.choice([0, 1, len(ids) // 3, len(ids)])
            A = rng.sample(ids, na)
            B = rng.sample(ids, nb) if rng.random() < .6 else A[: na // 2] + [x for x in ids if x not in A][:nb]
            ta, tb = rng.choice(pool), rng.choice(pool)
            if p.fixed:
                A, ta, tb = p.present, p.sets[0], 'fz'
                B = rng.sample(A, rng.randint(0, len(A))) + rng.sample(p.absent, rng.randint(0, min(len(p.absent), 20)))
            if rng.random() < .3:
                A, B, ta, tb = B, A, tb, ta
            s.add('build', 1, 'set', ta, 'new', [[x, 0] for x in A])
            s.add('build', 2, 'set', tb, 'new', [[x, 0] for x in B])
            for op in OPS:
                if len(A) + len(B) < 40:
                    op_walk(s, op, 1, 2, rng.choice(['same', 'dyn']), len(set(A) | set(B)), rng)
                for how in ('operator', 'dyn', 'same'):
                    s.add('sop', op, 1, 2, how)
                s.add('openop', 1, op, 1, 2, 'dyn')
                for _ in range(rng.randint(0, 5)):
                    s.add('next', 1, -1)
                    s.add('size', 1)
                s.add(*closing(rng, 1))
                s.add('close', 1)
            s.add('sop', rng.choice(OPS), 1, 1, 'dyn')
            yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['set'], 2)

def plan_C10(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    pairs = gen('pairs')
    profs = [p for p in all_profiles(tier, rng)]
    groups = {}
    for p in profs:
        if not p.fixed:
            groups.setdefault((p.bin, p.k), []).append(p)
    # every pair of subsets of four elements
    for (bin, k), ps in sorted(groups.items()):
        big = [p for p in ps if len(p.all()) >= 4]
        for rep, p in enumerate((big or ps)[: 6 if tier == 'thorough' else 2]):
            ids = rng.sample(p.all(), min(4, len(p.all())))
            inl = bin in ('h_hash', 'h_ord')
            for a, b in (pairs if rep == 0 else rng.sample(pairs, 60)):
                A = list(dict.fromkeys(ids[x] for x in a if x < len(ids)))
                B = list(dict.fromkeys(ids[x] for x in b if x < len(ids)))
                s = Sess(p)
                pool = set_pool(p, rng) + (['inl'] if inl else [])
                s.add('build', 1, 'set', rng.choice(pool), 'new', [[x, 0] for x in A])
                s.add('build', 2, 'set', rng.choice(pool), 'new', [[x, 0] for x in rng.sample(B, len(B))])
                for h, g in ((1, 2), (2, 1), (1, 1), (2, 2)):
                    for how in ('same', 'dyn'):
                        s.add('eq', h, g, how)
                        for r in ('sub', 'sup', 'dis'):
                            s.add('rel', r, h, g, how)
                # maps over the same keys: values agree except possibly on one key
                m = [t for t in p.maps if t not in ('inl', 'dense', 'sparse')] + foreign(p, 'map') + (['inl'] if inl else [])
                d = rng.choice(ids)
                va = {x: 100 + x for x in ids}
                vb = {x: 100 + x if (x != d or rng.random() < .5) else 7 for x in ids}
                def mb(h, ks, vals):
                    t = rng.choice(m)
                    en = [[x, vals[x]] for x in ks]
                    if t in ('hm8', 'hm16', 'hm64', 'hms', 'hms8', 'hm', 'ln') or t[:3] in ('lr:', 'rr:'):
                        s.add('blim', h, 'map', t, 'new', en, 250, False)
                    else:
                        s.add('build', h, 'map', t, 'new', en)
                mb(3, A, va)
                mb(4, rng.sample(B, len(B)), vb)
                for h, g in ((3, 4), (4, 3), (3, 3), (4, 4)):
                    for how in ('same', 'dyn'):
                        s.add('eq', h, g, how)
                yield s.out(prop)
    # the collections themselves at every size: equal, one value different, one key different, one missing
    for p in profs:
        n = len(p.present)
        for kind, tys in (('map', p.maps), ('set', p.sets)):
            tys = [t for t in tys if t != 'dense']
            for ty in tys:
                s = Sess(p)
                lo, hi = (min(p.present), max(p.present)) if p.present else (0, -1)
                dflt = dict(map(tuple, p.fixed.get(ty, [])))
                def mk2(h, t, ids, vals=None):
                    en = [[x, 0 if kind == 'set' else (vals or {}).get(x, dflt.get(x, 1000 + x))] for x in ids]
                    if t in p.fixed and vals:
                        t = 'fz'
                    if t == 'inl' and len(en) not in INL:
                        t = 'fz'
                    if t == 'sparse' and not all(lo <= x <= hi for x in ids):
                        t = 'fz'
                    if t in ('hm8', 'hm16', 'hm64', 'hms', 'hms8', 'hm', 'ln') or t[:3] in ('lr:', 'rr:'):
                        s.add('blim', h, kind, t, 'new', en, 255 if t in ('hm8', 'hms8') else 2000000000, False)
                    else:
                        s.add('build', h, kind, t, 'new', en)
                mk2(1, ty, rng.sample(p.present, n))
                variants = [(p.present, None)]
                if n:
                    x = rng.choice(p.present)
                    variants.append((p.present, {x: 7}))
                    variants.append(([y for y in p.present if y != x], None))
                    if p.absent:
                        variants.append(([y for y in p.present if y != x] + [rng.choice(p.absent)], None))
                        variants.append((p.present + [rng.choice(p.absent)], None))
                h = 1
                cand = tys + foreign(p, kind)
                for ids, vals in variants:
                    for t in {ty, rng.choice(cand)}:
                        h += 1
                        mk2(h, t, rng.sample(ids, len(ids)), vals)
                        for x, y in ((1, h), (h, 1)):
                            for how in ('same', 'dyn'):
                                s.add('eq', x, y, how)
                                if kind == 'set':
                                    for r in ('sub', 'sup', 'dis'):
                                        s.add('rel', r, x, y, how)
                if kind == 'map' and n:
                    s.add('clone', 1, 90)
                    s.add('eq', 1, 90, 'same')
                    x = rng.choice(p.present)
                    s.add('set', 90, 'inh', x, 3)
                    s.add('eq', 1, 90, 'same')
                    s.add('eq', 90, 1, 'dyn')
                    s.add('set', 1, 'inh', x, 3)
                    s.add('eq', 1, 90, 'same')
                yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map', 'set'])

# ------------------------------------------------------------ C11 serde
def plan_C11(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    for p in all_profiles(tier, rng):
        n = len(p.present)
        for kind, tys in (('map', p.maps), ('set', p.sets)):
            for ty in tys:
                s = Sess(p)
                build(s, 1, kind, ty, rng.sample(p.present, n))
                w = 'kv' if kind == 'map' else 'k'
                s.add('all', 1, w, 'json')
                if p.bin == 'h_string' and kind == 'set' and ty == 'fz':
                    pass    # not serializable with a custom hasher
                else:
                    for t in ('fz', 'fzd'):
                        if p.bin in ('h_ord', 'h_scalar') and t == 'fzd':
                            continue
                        if p.bin == 'h_string' and kind == 'map' and t == 'fz' or p.fixed and (t == 'fzd' or p.k == 'ref'):
                            continue
                        fmts = rng.sample(['json', 'bin', 'cbor'], 3)
                        for fmt in fmts[:2] + (fmts[2:] if tier == 'thorough' or n < 30 else []):
                            s.add('rt', 1, 5, t, fmt)
                            s.add('eq', 5, 1, 'dyn')
                            s.add('eq', 1, 5, 'dyn')
                            s.add('get', 5, 'inh', p.all()[:100])
                            s.add('len', 5, 'inh')
                            s.add('all', 5, w, 'json')
                            s.add('drop', 5)
                            if fmt != 'json' and not (kind == 'map' and p.bin == 'h_string' and t == 'fz'):
                                for cut in {1, 2, 8, 9, *rng.sample(range(1, 60), 3)}:
                                    s.add('cut', 1, t, fmt, cut)
                        s.add('cut', 1, t, 'bin', -1)
                if ty in ('fz', 'fzd') and not (p.bin == 'h_string' and ty == 'fz' and kind == 'map'):
                    for r in ('json', 'jsonesc', 'reader', 'readeresc', 'typed', 'nohint', 'badhint', 'hugehint', 'bin', 'cbor'):
                        ids = rng.sample(p.present, n)
                        if rng.random() < .5 and n:
                            ids += [rng.choice(ids) for _ in range(rng.choice([1, 3, 25]))]
                        build(s, 2, kind, ty, ids, r)
                        s.add('get', 2, 'inh', p.all()[:100])
                        s.add('all', 2, w, 'inh')
                        s.add('all', 2, w, 'json')
                        s.add('drop', 2)
                yield s.out(prop)
    # malformed documents
    good = {'h_hash': {'u64': '1', 'Tk': '1', 'String': '"a"'}, 'h_ord': {'i32': '1', 'String': '"a"', 'Tk': '1'}, 'h_scalar': {'i8': '1', 'u64': '1', 'NonZeroU8': '1', 'E5': '"Apple"'}, 'h_string': {'str': '"a"'}}
    for bin, kts in good.items():
        for k, lit in kts.items():
            p = Prof(bin, k, ['"0"', '1', '2'] if k == 'str' else ['1', '2', '3'], [0], [], [], [], 'good', 'malformed')
            if k in ('String', 'str'):
                p.uni = ['a', 'b']
            if k == 'E5':
                p.uni = ['0', '1']
            s = Sess(p)
            q = lit if lit[0] == '"' else f'"{lit}"'
            mgood = ['{}', f'{{{q}:5}}', f' {{ {q} : 5 , {q}:6 }} ']
            mbad = ['', '[]', 'null', '5', '"x"', '{', f'{{{q}}}', f'{{{q}:}}', f'{{{q}:"x"}}', f'{{{q}:5', f'{{{q}:5,}}', f'{{{q}:null}}', '[1]', f'{{{q}:5}} trailing', f'{{{q}:1e400}}', 'true', '[[1,2]]', f'{{{q}:5,{q}:"x"}}']
            sgood = ['[]', f'[{lit}]', f'[{lit},{lit}]']
            sbad = ['', '{}', 'null', '5', '[', f'[{lit}', f'[{lit},]', '[null]', '[[]]', f'[{lit}] x', f'{{{q}:5}}', 'true', f'[{lit},null]', '[{}]']
            if k not in ('String', 'str'):
                mbad += ['{"zzz":5}', '{"":5}']
                sbad += ['["zzz"]', '[1.5]', '[true]']
            else:
                sbad += ['[1]', '[true]', '["\\ud800"]']
                mbad += ['{"\\ud800":1}', '{"a\\x":1}']
            if k == 'i8':
                mbad += ['{"200":1}']
                sbad += ['[200]', '[-129]']
            if k == 'NonZeroU8':
                sbad += ['[0]', '[256]', '[-1]']
                mbad += ['{"0":1}']
            for ty, g, b in (('map', mgood, mbad), ('set', sgood, sbad)):
                for t in g:
                    s.add('parse', ty, t, True)
                for t in b:
                    s.add('parse', ty, t, False)
            yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map'])

# ------------------------------------------------------------ C14 scalar index
def plan_C14(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    yield from plan_derive_texts(prop, tier, rng, gen)
    deep = tier == 'thorough'
    for t in INTS:
        lo, hi = bounds(t)
        vals = set()
        if BITS[NZ.get(t, t)] == 8:
            vals |= set(range(lo, hi + 1))
        pts = [lo, hi, 0, 1, -1] + [2 ** i for i in range(64)] + [-2 ** i for i in range(64)] + [(lo + hi) // 2]
        pts += [rng.randint(lo, hi) for _ in range(2000 if deep else 100)]
        for x in pts:
            vals |= {x - 2, x - 1, x, x + 1, x + 2}
        if BITS[NZ.get(t, t)] == 16:
            vals |= set(range(lo, hi + 1, 1 if deep else 97)) | set(range(-300, 300)) | set(range(lo, lo + 300)) | set(range(hi - 300, hi + 1))
        vals = sorted(x for x in vals if legal(t, x))
        succ = [b == a + 1 or (t in NZ and False) for a, b in zip(vals, vals[1:])]
        # index 0 is not promised for integers
        p = Prof('h_scalar', t, [str(v) for v in vals], [], [], [], [], 'good', f'index {t}')
        s = Sess(p)
        for c in range(0, len(vals), 400):
            s.add('sidx', list(range(c, min(len(vals), c + 401))), succ[c:c + 400], False)
        yield s.out(prop)
    for t, n in ENUMS.items():
        p = Prof('h_scalar', t, [str(v) for v in range(n)], [], [], [], [], 'good', f'index {t}')
        s = Sess(p)
        s.add('sidx', list(range(n)), [True] * (n - 1), True)
        yield s.out(prop)

# ------------------------------------------------------------ C15 ownership
def plan_C15(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    profs = all_profiles(tier, rng)
    for p in profs:
        n = len(p.present)
        tk = p.k == 'Tk'
        for kind, tys in (('map', p.maps + foreign(p, 'map')), ('set', p.sets)):
            if kind == 'set' and not tk:
                continue
            for ty in tys:
                if ty[:3] in ('lr:', 'rr:') and rng.random() < .7:
                    continue
                both = ('v' if kind == 'map' else '') + ('k' if tk else '')
                s = Sess(p)
                ids = rng.sample(p.present, n)
                if ty != 'inl' and n:
                    ids += [rng.choice(ids) for _ in range(rng.choice([0, 1, 5, 30]))]
                r = rng.choice(routes_for(p, kind, ty, tier) or ['new']) if ty not in ('std', 'hb') else 'new'
                build(s, 1, kind, ty, ids, r)
                s.add('live', both)
                s.add('clone', 1, 2)
                s.add('live', both)
                if kind == 'map' and n:
                    s.add('set', 1, 'inh', rng.choice(p.present), s.fresh())
                    ks = rng.sample(p.all(), min(len(p.all()), 3))
                    s.add('dis', 1, 'inh', ks, [s.fresh() for _ in ks])
                    s.add('open', 1, 1, 'kv', 'mut', 'inh')
                    for _ in range(min(n, 4)):
                        s.add('next', 1, s.fresh())
                    s.add('close', 1)
                    s.add('live', both)
                for w, via in ([('kv', 'inh'), ('k', 'inh'), ('v', 'inh'), ('kv', 'tr'), ('k', 'tr'), ('v', 'tr')] if kind == 'map' else [('k', 'inh'), ('k', 'tr')]):
                    for how in ('close', 'rest', 'cnt', 'all'):
                        s.add('clone', 1, 3)
                        s.add('open', 1, 3, w, 'own', via)
                        lv = both if w == 'kv' or kind == 'set' else ('v' if w == 'v' else ('k' if tk else ''))
                        for _ in range({'close': min(n, rng.randint(0, 3)), 'all': n}.get(how, min(n, rng.randint(0, 3)))):
                            s.add('next', 1, -1)
                            if lv:
                                s.add('live', lv)
                        s.add(*(['rest', 1, rng.choice(CONS)] if how == 'rest' else ['cnt', 1] if how == 'cnt' else ['close', 1]))
                        s.add('live', both)
                if kind == 'set' and ty not in ('std', 'hb'):
                    for op in OPS:
                        s.add('sop', op, 1, 2, 'operator')
                        s.add('live', both)
                s.add('drop', 1)
                s.add('live', both)
                s.add('get', 2, 'inh', p.all()[:50])
                s.add('drop', 2)
                s.add('live', both)
                yield s.out(prop)
    # refused constructions own nothing afterwards
    for k in ('Tk', 'u64'):
        for n in (255, 256, 257, 300):
            p = hash_profiles([n], ['good'], [k], rng)[0]
            s = Sess(p)
            en = entries(s, 'map', p.present + p.present[:20])
            s.add('blim', 1, 'map', 'hm8', 'new', en, 255, False)
            s.add('live', 'vk' if k == 'Tk' else 'v')
            yield s.out(prop)
    for ks in ([0, 2], [0, 1, 2], [5], [1, 2, 4, 5], [0, 8]):
        p = Prof('h_scalar', 'i32', [str(v) for v in range(-3, 7)], ks, [], [], [], 'good', 'dense refusal')
        s = Sess(p)
        s.add('blim', 1, 'map', 'dense', 'new', entries(s, 'map', ks + ks), 1000, True)
        s.add('live', 'v')
        yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map', 'set'], 2, [p for p in profs if p.k == 'Tk'])
    yield from walks(prop, tier, rng, gen, ['map'], 1, [p for p in profs if p.k != 'Tk'])

# ------------------------------------------------------------ texts for the build-time front ends
def key_text(c, j, rng, big):
    """source text of one key of the given class (distinct j: distinct keys)"""
    suf = ['i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize']
    if c in suf:
        return rng.choice([f'{j + 1}{c}', f'{j + 1}_{c}', f'0x{j + 1:x}{c}'])
    return {'int': rng.choice([str(j + 1), f'0b1{j:b}', f'1_{j}', str(2 ** 31 - 1 - j if big else 100 + j)]),
            'over': str(rng.choice([2 ** 31 + j, 2 ** 32 + j, 2 ** 63 - 1 - j])),
            'float': rng.choice([f'{j}.5', f'{j}.5f32', f'{j}e3', f'{j}f64']), 'char': f"'{chr(97 + j)}'", 'bool': rng.choice(['true', 'false']),
            'byte': f"b'{chr(97 + j)}'", 'bytestr': f'b"x{j}"', 'badsuffix': f'{j}' + rng.choice(['u7', 'i128', 'u128', 'foo', 'q']),
            'str': rng.choice([f'"s{j}"', f'r"s{j}"', f'"\\u{{e9}}{j}"']),
            'expr': rng.choice([f'f({j})', f'K{j}', f'a::B{j}', f'(x{j})', f'-{j + 1}', f'y.z{j}', f'"a{j}".to_string()'])}[c]

def macro_text(d, rng):
    fm, kind = d['form'], d['kind']
    val = '' if kind == 'set' else ': ' + rng.choice(['1', '"v"', 'g(2)', 'V::W'])
    if fm == 'novalue':       # a map entry without a value, a set entry with one
        val = '' if kind == 'map' else ': 1'
    big = set(d['ks']) <= {'int', 'str', 'expr'}
    ks = [key_text(c, j, rng, big) for j, c in enumerate(d['ks'])]
    items = [k + val for k in ks]
    if fm == 'extravalue':
        items = [i + (': 7' if kind == 'map' else ' 7') for i in items]
    body = '{ ' + ', '.join(items) + (',' if items and rng.random() < .3 else '') + ' }'
    ty = rng.choice(['T', '&\'static str', 'a::b::C', 'u8', 'Vec<u8>'])
    gen = f'<{ty}, V>' if kind == 'map' else f'<{ty}>'
    return {'short': body, 'let': f'let m: M{gen}, {body}', 'letmut': f'let mut m: M{gen}, {body}', 'static': f'static M: M{gen}, {body}',
            'pubstatic': f'pub static M: M{gen}, {body}', 'cratestatic': rng.choice(['pub(crate)', 'pub(super)', 'pub(in a::b)']) + f' static M: M{gen}, {body}',
            'publet': f'pub let m: M{gen}, {body}', 'pubshort': f'pub {body}', 'staticmut': f'static mut M: M{gen}, {body}', 'nobrace': f'let m: M{gen}, ' + body[1:-1],
            'notype': f'let m: M, {body}' if rng.random() < .5 else f'let m, {body}', 'notarget': f'let {body}', 'trailing': f'let m: M{gen}, {body} x',
            'novalue': f'let m: M{gen}, {body}', 'extravalue': f'let m: M{gen}, {body}'}[fm]

def plan_macro_texts(prop, tier, rng, gen):
    ds = gen('macrotexts')
    ds = ds if tier == 'thorough' else [d for d in ds if len(d['ks']) <= 1] + rng.sample([d for d in ds if 1 < len(d['ks']) <= 3], 4200) + rng.sample([d for d in ds if len(d['ks']) > 3], 2000)
    for c in range(0, len(ds), 500):
        s = Sess(Prof('h_front', 'macro', [], [], [], [], [], 'good', 'macro texts'))
        for d in ds[c:c + 500]:
            s.add('macro', {'fn': f"fz_{d['fam']}_{d['kind']}", 'text': macro_text(d, rng), 'fam': d['fam'], 'kind': d['kind'], 'form': d['form'], 'ks': d['ks']})
        yield s.out(prop)

def plan_derive_texts(prop, tier, rng, gen):
    def variant(c, j):
        n = f'V{j}'
        return {'unit': n, 'tuple': rng.choice([f'{n}(u8)', f'{n}()', f'{n}(u8, T)']), 'struct': rng.choice([f'{n} {{ x: u8 }}', f'{n} {{}}']), 'disc': f'{n} = {rng.choice([j, 7 + j, -1 - j])}'}[c]
    ds = gen('derivetexts')
    s = Sess(Prof('h_front', 'derive', [], [], [], [], [], 'good', 'derive texts'))
    for rep in range(6 if tier == 'thorough' else 3):
        for d in ds:
            if d['item'] == 'enum':
                vs = [variant(c, j) for j, c in enumerate(d['vs'])]
                t = rng.choice(['', 'pub ', 'pub(crate) ', '#[repr(u8)] ']) + 'enum E { ' + ', '.join(vs) + (',' if vs and rng.random() < .4 else '') + ' }'
            else:
                t = {'struct': 'struct S { a: u8, b: u16 }', 'tuplestruct': 'struct S(u8);', 'unitstruct': 'struct S;', 'union': 'union U { a: u8, b: i8 }'}[d['item']]
            s.add('derive', {'item': d['item'], 'vs': d['vs'], 'text': t})
    for n in (2, 3, 127, 128, 255, 256, 257, 600):
        s.add('derive', {'item': 'enum', 'vs': ['unit'] * n, 'text': 'enum E { ' + ', '.join(f'V{j}' for j in range(n)) + ' }'})
        s.add('derive', {'item': 'enum', 'vs': ['unit'] * (n - 1) + ['tuple'], 'text': 'enum E { ' + ', '.join(f'V{j}' for j in range(n - 1)) + ', W(u8) }'})
    yield s.out(prop)

def plan_emit_options(prop, tier, rng, gen):
    s = Sess(Prof('h_front', 'emit', [], [], [], [], [], 'good', 'emitter options'))
    for d in gen('emitoptions'):
        for kind in ('map', 'set'):
            for n in (0, 1, 2, 5, 20):
                kt, tk = ("&'static str", 'str') if d['fam'] == 'string' else ('u16', 'u16')
                ks = [f'k{j}' for j in range(n)] if tk == 'str' else [str(3 * j) for j in range(n)]
                if n and rng.random() < .3:
                    ks.append(ks[0])
                q = lambda k: f'"{k}"' if tk == 'str' else k
                e = {'fam': d['fam'], 'kind': kind, 'kt': kt, 'tk': tk, 'ck': rng.random() < .5, 'cv': rng.random() < .5, 'static': d['static'], 'mutable': d['mutable'],
                     'hassym': d['symbol'], 'hasali': d['alias'], 'en': [[k, q(k), f'Tv::new({j})'] for j, k in enumerate(ks)]}
                if d['symbol']:
                    e['sym'] = 'SYM'
                if d['alias']:
                    e['ali'] = 'Ali'
                if rng.random() < .5:
                    e['vis'] = rng.choice(['pub', 'pub(crate)'])
                s.add('emitopt', e)
    yield s.out(prop)

# ------------------------------------------------------------ C16 limits
def plan_C16(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    yield from plan_macro_texts(prop, tier, rng, gen)
    yield from plan_emit_options(prop, tier, rng, gen)
    yield from plan_derive_texts(prop, tier, rng, gen)
    for k in ('Tk', 'u64', 'String'):
        for n in ([0, 1, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512] if tier == 'quick' else list(range(0, 20)) + list(range(120, 136)) + list(range(245, 270)) + [511, 512, 513, 1000]):
            for bh in ('good', 'const0'):
                for p in hash_profiles([n], [bh], [k], rng):
                    for dup in (0, 40):
                        s = Sess(p)
                        ids = p.present + [rng.choice(p.present) for _ in range(dup if n else 0)]
                        rng.shuffle(ids)
                        s.add('blim', 1, 'map', 'hm8', 'new', entries(s, 'map', ids), 255, False)
                        s.add('get', 1, 'inh', p.all()[:120])
                        s.add('len', 1, 'inh')
                        s.add('all', 1, 'kv', 'inh')
                        yield s.out(prop)
    # 16-bit magnitude
    for n in (65534, 65535, 65536) if tier == 'quick' else (65530, 65534, 65535, 65536, 65537, 65540, 66000):
        p = Prof('h_hash', 'u64', {"n": n, "f": "lin", "a": 3, "b": 1}, [], [], [], [], 'good', f'hm16 n={n}')
        s = Sess(p)
        s.add('bslim', 1, 'map', 'hm16', 'new', [[0, n, 1, 1]], 65535)
        s.add('get', 1, 'inh', [0, 1, 2, n // 2, n - 1, 65533, 32768])
        s.add('len', 1, 'inh')
        yield s.out(prop)
    for n in (254, 255, 256):
        p = Prof('h_scalar', 'u64', {"n": n, "f": "lin", "a": 5, "b": 1}, [], [], [], [], 'good', f'hms8 n={n}')
        s = Sess(p)
        s.add('bslim', 1, 'map', 'hms8', 'new', [[0, n, 1, 1]], 255)
        s.add('get', 1, 'inh', list(range(0, n, 9)))
        yield s.out(prop)
    # dense lookup: exactly the contiguous key sets, anywhere in the range
    for t in ('u64', 'i8', 'i32', 'E9'):
        if t == 'E9':
            bases = [0]
        else:
            lo, hi = bounds(t)
            bases = [lo, hi - 8, -4 if lo < 0 else 0]
        for b in bases:
            uni = [str(b + j) for j in range(9)]
            subs = [m for m in range(512)] if tier == 'thorough' or t == 'i8' else rng.sample(range(512), 120) + [0, 1, 256, 511, 255, 510, 257, 3, 384]
            s = Sess(Prof('h_scalar', t, uni, [], [], [], [], 'good', f'dense {t} base {b}'))
            for m in subs:
                ids = [j for j in range(9) if m >> j & 1]
                rng.shuffle(ids)
                if ids and rng.random() < .3:
                    ids = ids + [rng.choice(ids)]
                s.add('blim', 1, 'map', 'dense', 'new', entries(s, 'map', ids), 2000000000, True)
                s.add('get', 1, 'inh', list(range(9)))
                s.add('drop', 1)
            yield s.out(prop)
        if t not in ENUMS:
            # two keys as far apart as the type allows
            lo, hi = bounds(t)
            s = Sess(Prof('h_scalar', t, [str(x) for x in (lo, lo + 1, hi - 1, hi)], [], [], [], [], 'good', f'dense {t} extremes'))
            for ids in ([0, 3], [0, 1, 3], [0, 2], [0, 2, 3], [0, 1, 2, 3]):
                # ids 1 and 2 are not neighbours: say so by an id that is never used in between
                u = {0: 0, 1: 1, 2: 3, 3: 4}
                s.p.uni = [str(x) for x in (lo, lo + 1, lo + 2, hi - 1, hi)]
                s.add('blim', 1, 'map', 'dense', 'new', entries(s, 'map', [u[i] for i in ids]), 2000000000, True)
                s.add('get', 1, 'inh', [0, 1, 2, 3, 4])
                s.add('drop', 1)
            yield s.out(prop)

# ------------------------------------------------------------ C17 traits
def plan_C17(prop, tier, seed, gen):
    rng = random.Random(f"{seed}-{prop}")
    for p in all_profiles(tier, rng):
        n = len(p.present)
        for kind, tys in (('map', p.maps + foreign(p, 'map')), ('set', p.sets + foreign(p, 'set'))):
            for ty in tys:
                if ty[:3] in ('lr:', 'rr:') and rng.random() < .6:
                    continue
                s = Sess(p)
                build(s, 1, kind, ty, rng.sample(p.present, n))
                queries(s, 1, kind, p, rng, 60, ['inh', 'tr', 'dyn', 'talt'])
                for w in (('kv', 'k', 'v') if kind == 'map' else ('k',)):
                    for v in ('inh', 'tr'):
                        s.add('all', 1, w, f'{v}/{rng.choice(CONS)}')
                if kind == 'map':
                    for via in ('inh', 'tr', 'dyn', 'talt'):
                        for k in rng.sample(p.present, min(1, n)) + rng.sample(p.absent, min(1, len(p.absent))):
                            s.add('set', 1, via, k, s.fresh())
                    for via in ('inh', 'tr', 'unsafe', 'unsafetr'):
                        for m in (0, 1, 2, 3, 5):
                            if len(p.all()) >= m:
                                ks = rng.sample(p.all(), m)
                                s.add('dis', 1, via, ks, [s.fresh() for _ in ks])
                    if not (ty in ('std', 'hb') and p.bin == 'h_hash') and p.present:
                        x = rng.choice(p.present)
                        s.add('dis', 1, 'tr', [x, x], [1, 2])
                    for w in ('kv', 'v'):
                        s.add('open', 1, 1, w, 'mut', 'tr')
                        for _ in range(min(n, 3)):
                            s.add('next', 1, s.fresh())
                            s.add('size', 1)
                        s.add('close', 1)
                    s.add('all', 1, 'kv', 'tr')
                    for w in ('kv', 'k', 'v'):
                        s.add('clone', 1, 2)
                        s.add('open', 1, 2, w, 'own', 'tr')
                        s.add('next', 1, -1)
                        s.add('size', 1)
                        s.add('rest', 1, rng.choice(CONS))
                else:
                    s.add('clone', 1, 2)
                    for r in ('sub', 'sup', 'dis'):
                        s.add('rel', r, 1, 2, 'same')
                    s.add('open', 1, 2, 'k', 'own', 'tr')
                    s.add('next', 1, -1)
                    s.add('rest', 1, rng.choice(CONS))
                yield s.out(prop)
    s = Sess(Prof('h_hash', 'u64', ['1'], [], [], [], [], 'good', 'length trait'))
    for n in (0, 1, 2, 3, 10, 255, 256, 1000, 70000):
        s.add('lenof', n)
    yield s.out(prop)
    yield from walks(prop, tier, rng, gen, ['map', 'set'])

# ------------------------------------------------------------ every property at scale
def lin(n, a, b):
    return {"n": n, "f": "lin", "a": a, "b": b}

def scale_families(rng, n):
    """(harness, key type, universe of 2n+2 keys, map types, set types): one per internal family"""
    N = 2 * n + 2
    f = [('h_hash', 'u64', lin(N, rng.choice([1, 4096, 2 ** 20]), 7), ['fz', 'fzd', 'hm16', 'hm64'], ['fz', 'fzd']),
         ('h_hash', 'Tk', lin(N, 1, 0), ['fz', 'fzd', 'hm16', 'hm64'], ['fz', 'fzd']),
         ('h_ord', 'i32', lin(N, 3, -100000), ['fz', 'eyt'], ['fz']),
         ('h_ord', 'Tk', lin(N, 1, 0), ['fz', 'eyt'], ['fz']),
         ('h_scalar', 'u32', lin(N, 1, 5), ['fz'], ['fz']),
         ('h_scalar', 'i64', lin(N, 1000003, -77), ['fz'], ['fz']),
         ('h_scalar', 'u64', lin(N, 1, 2 ** 40), ['fz', 'hms', 'sparse'] if n <= 1500 else ['fz', 'hms'], ['fz']),
         ('h_string', 'str', {"n": N, "f": "str", "pre": rng.choice(["k", "", "long common prefix "]), "suf": rng.choice(["z", ""]), "w": 7}, ['fz', 'fzd', 'hm'], ['fz', 'fzd'])]
    return [x for x in f if not ('hm16' in x[3] and n > 65535 and x[3].remove('hm16'))]

def plan_scale(prop, tier, rng):
    kinds = {'C07': ['map'], 'C08': ['map'], 'C09': ['set']}.get(prop, ['map', 'set'])
    deep = tier == 'thorough'
    for n, huge in [(300, 0), (1000, 0), (5000, 0), (70000, 1)] + ([(257, 0), (2048, 0), (4097, 0), (65535, 1), (65536, 1)] if deep else []):
        fams = scale_families(rng, n)
        if huge and prop in ('C05', 'C15'):      # many duplicates: deduplication of raw indices is slow
            fams = [f for f in fams if f[0] in ('h_ord', 'h_string')]
        for bin, k, uni, maps, sets in fams if deep or not huge and n < 5000 else rng.sample(fams, 4 if n == 5000 else 1):
            for kind in kinds if deep else [rng.choice(kinds)]:
                for ty in (maps if kind == 'map' else sets) if deep else [rng.choice(maps if kind == 'map' else sets)]:
                    if bin == 'h_string' and ty == 'fz' and prop == 'C11':
                        ty = 'fzd'
                    p = Prof(bin, k, uni, [], [], [], [], 'good', f'{prop} at scale n={n} {ty}')
                    for s in scale_session(prop, p, kind, ty, n, huge, rng):
                        yield s.out(prop)

LIM = {'hm16': 65535, 'hm64': 2000000000, 'hms': 2000000000, 'hm': 2000000000}
def scale_session(prop, p, kind, ty, n, huge, rng):
    N = 2 * n + 2
    one = lambda a, m, st, v: [a, m, st, v if kind == 'map' else 0]
    def mkb(s, h, t, sg, r='new', kd=None):
        if t in LIM:
            s.add('bslim', h, kd or kind, t, 'new', sg, LIM[t])
        else:
            s.add('bseg', h, kd or kind, t, r, sg)
    base = [one(0, n, 2, 1)]                                # the even keys; odd ones are absent
    pick = lambda m: [2 * j for j in sorted({0, 1, n - 1, n - 2, n // 2, 127, 128, 255, 256} | {rng.randrange(n) for _ in range(m)}) if j < n]
    gone = lambda m: [2 * rng.randrange(n) + 1 for _ in range(m)] + [2 * n, 2 * n + 1]
    w = 'kv' if kind == 'map' else 'k'
    def scans(s, h, m=2):
        for what in rng.sample(['get', 'gkv', 'getmut', 'has'] if kind == 'map' else ['get', 'has'], min(m, 2)):
            s.add('scan', h, rng.choice(KVQ if what == 'gkv' else MQ) + '/' + what, N)
        s.add('scan', h, rng.choice(['inh', 'tr']) + '/enum:' + rng.choice(CONS), N)
    s = Sess(p)
    if prop == 'C05':
        rts = [r for r in routes_for(p, kind, ty, 'quick') if r != 'array'] or ['new']
        segs = [[one(0, n, 2, 1), one(0, n, 2, n + 1)], [one(0, n, 2, 1), one(0, n // 2, 2, n + 1), one(2 * (n // 3), n // 4, 2, 3 * n)],
                [one(0, max(10, n // 7), 2, 10 * j + 1) for j in range(n // max(10, n // 7))] + [one(2 * (n // 2), n // 4, 2, 5 * n)],
                [one(2 * (n - 1), 1, 2, 7)] + base]
        for j, sg in enumerate(rng.sample(segs, 2 if huge else 4)):
            for r in rng.sample(rts, min(len(rts), 2)):
                mkb(s, 1, ty, sg, r)
                s.add('len', 1, 'inh')
                scans(s, 1, 1)
                s.add('drop', 1)
        yield s
    elif prop == 'C06':
        mkb(s, 1, ty, base)
        s.add('all', 1, 'k', 'inh/for')
        combos = [('kv', 'ref', 'intoref'), ('kv', 'mut', 'intoref')] + [(x, src, v) for x in ('kv', 'k', 'v') for src in ('ref', 'mut', 'own') for v in ('inh', 'tr') if (x, src) != ('k', 'mut')]
        if kind == 'set':
            combos = [('k', 'ref', v) for v in ('inh', 'tr', 'intoref')] + [('k', 'own', v) for v in ('inh', 'tr')]
        for x, src, v in rng.sample(combos, 3 if huge else min(len(combos), 7)):
            g = 1
            if src == 'own':
                s.add('clone', 1, 2)
                g = 2
                s.add('all', 2, 'k', 'tr/for')
            s.add('open', 1, g, x, src, v)
            at = 0
            for _ in range(5):
                j = rng.choice([0, 1, n // 5, n // 3, 254, 255, 256])
                s.add('nth', 1, j)
                s.add('size', 1)
                s.add('next', 1, -1)
                if src == 'ref' and not huge:
                    s.add('icl', 1, 2)
                    s.add(*closing(rng, 2))
            s.add(*(closing(rng, 1) if not huge else rng.choice([['cnt', 1], ['last', 1], ['close', 1]])))
            s.add('close', 1)
        if not huge:
            for x in ((w, 'k', 'v') if kind == 'map' else 'k'):
                s.add('all', 1, x, 'tr/' + rng.choice(CONS))
            s.add('all', 1, w, 'dbg')
        scans(s, 1, 1)
        yield s
    elif prop == 'C07':
        mkb(s, 1, ty, base)
        s.add('clone', 1, 2)
        for k in pick(4):
            s.add('set', 1, rng.choice(MQ), k, 4 * n + k)
        for k in gone(2):
            s.add('set', 1, rng.choice(MQ), k, 5)
        scans(s, 1, 1)
        for x, v in rng.sample([('kv', 'inh'), ('kv', 'tr'), ('kv', 'intoref'), ('v', 'inh'), ('v', 'tr')], 2 if huge else 5):
            s.add('bump', 2, x, v, rng.randint(1, 9))
            scans(s, 2, 1)
        ks = rng.sample(pick(5), 4)
        s.add('dis', 2, rng.choice(['inh', 'alt', 'tr', 'unsafe', 'unsafetr']), ks, [9 * n + x for x in range(4)])
        scans(s, 1, 1)
        scans(s, 2, 1)
        s.add('eq', 1, 2, 'same')
        yield s
    elif prop == 'C08':
        mkb(s, 1, ty, base)
        for m in [0, 1, 2, 3, 5, 8, 9, 16, 33]:
            for rep in range(3):
                ks = rng.sample(sorted(set(pick(40) + gone(6))), m)
                if rep == 2 and m > 1:
                    x, y = rng.choice([(0, m - 1), (m - 2, m - 1), (0, 1), tuple(sorted(rng.sample(range(m), 2)))])
                    ks[y] = ks[x]
                v = rng.choice(['inh', 'tr'] + (['alt'] if m < 9 else []) + (['unsafe', 'unsafetr'] if m < 9 and rep != 2 else []))
                s.add('dis', 1, v, ks, [s.fresh() + 4 * n for _ in ks])
                s.add('get', 1, 'inh', ks)
        scans(s, 1)
        yield s
    elif prop == 'C09':
        pool = [ty] * 2 + [t for t in foreign(p, 'set')]
        sizes = [(n, n), (n, 0), (n, 1), (n, n // 2), (n // 30, n), (n, 300), (256, n), (n, 255)]
        for na, nb in rng.sample(sizes, 1 if huge else 4):
            off = rng.choice([0, 2 * (na // 2), 2 * (na // 2) + 1, 2 * na, 2 * max(0, na - 1)])
            A = [[0, na, 2, 0]] if na else []
            B = ([[off % (N // 3), min(nb, (N - off % (N // 3)) // 2), 2, 0]] if nb else []) + ([[1, 2, 2, 0]] if rng.random() < .5 else [])
            ta, tb = rng.choice(pool), rng.choice(pool)
            if ta in ('std', 'hb'):
                ta = ty
            mkb(s, 1, ta, A)
            mkb(s, 2, tb, B)
            for op in OPS:
                for h, g in ((1, 2), (2, 1)):
                    if h == 2 and tb in ('std', 'hb'):
                        continue
                    for how in ('operator', 'dyn/' + rng.choice(CONS), 'same'):
                        s.add('sopscan', op, h, g, how)
                if huge:
                    continue
                s.add('openop', 1, op, 1, 2, rng.choice(['same', 'dyn']))
                for _ in range(6):
                    s.add('size', 1)
                    s.add('next', 1, -1)
                s.add('icl', 1, 2)
                s.add('cnt', 2)
                s.add('close', 1)
            s.add('drop', 1)
            s.add('drop', 2)
        yield s
    elif prop == 'C10':
        same = lambda: base if rng.random() < .5 else [one(n - n % 2, n - (n - n % 2) // 2, 2, 1 + (n - n % 2) // 2), one(0, n // 2 + 1, 2, 1)]
        x = 2 * rng.choice([0, n - 1, n // 2, rng.randrange(n)])
        var = [same(), base + [one(x, 1, 1, 7 * n)], [one(0, n - 1, 2, 1)], [one(2, n - 1, 2, 2)], base + [one(x + 1, 1, 1, 3)],
               [one(0, n - 1, 2, 1), one(2 * n - 1, 1, 1, n)], [one(1, n, 2, 1)], []]
        mkb(s, 1, ty, base)
        cand = [ty] + foreign(p, kind)
        for sg in rng.sample(var[1:], 2 if huge else 7) + [var[0]]:
            t = rng.choice(cand)
            mkb(s, 2, t, sg)
            for h, g in ((1, 2), (2, 1)):
                if h == 2 and t in ('std', 'hb'):
                    continue
                for how in ('same', 'dyn'):
                    s.add('eq', h, g, how)
                    if kind == 'set':
                        for r in ('sub', 'sup', 'dis'):
                            s.add('rel', r, h, g, how)
            s.add('drop', 2)
        s.add('clone', 1, 2)
        s.add('eq', 1, 2, 'same')
        if kind == 'map':
            s.add('set', 2, 'inh', x, 2)
            s.add('eq', 1, 2, 'same')
            s.add('eq', 2, 1, 'dyn')
        yield s
    elif prop == 'C11':
        rts = ['json', 'jsonesc', 'reader', 'readeresc', 'typed', 'nohint', 'badhint', 'hugehint', 'bin', 'cbor'] if ty in ('fz', 'fzd') else ['new']
        for r in rng.sample(rts, min(len(rts), 2 if huge else 4)):
            mkb(s, 1, ty, base + rng.choice([[], [one(0, n // 2, 2, 2 * n)], [one(2 * (n // 2), n // 3, 2, 3 * n)]]), r)
            scans(s, 1, 1)
            if not huge:
                s.add('all', 1, w, 'json')
            t = 'fzd' if p.bin in ('h_hash', 'h_string') else 'fz'
            s.add('rt', 1, 2, t, rng.choice(['json', 'bin', 'cbor']))
            s.add('len', 2, 'inh')
            scans(s, 2, 1)
            s.add('eq', 1, 2, 'dyn')
            s.add('drop', 1)
            s.add('drop', 2)
        yield s
    elif prop == 'C15':
        both = ('v' if kind == 'map' else '') + ('k' if p.k == 'Tk' else '')
        if not both:
            return
        rts = [r for r in routes_for(p, kind, ty, 'quick') if r != 'array'] or ['new']
        mkb(s, 1, ty, base + [one(0, n // 2, 2, 2 * n)], rng.choice(rts))
        s.add('live', both)
        for x, v in rng.sample([(x, v) for x in (('kv', 'k', 'v') if kind == 'map' else ('k',)) for v in ('inh', 'tr')], 2 if huge or kind == 'set' else 4):
            s.add('clone', 1, 2)
            s.add('live', both)
            lv = both if x == 'kv' or kind == 'set' else ('v' if x == 'v' else ('k' if p.k == 'Tk' else ''))
            if not huge:
                s.add('all', 2, 'k', v + '/for')
            s.add('open', 1, 2, x, 'own', v)
            for j in rng.sample([0, 1, n // 4, n // 3, 255], 3):
                s.add('nth', 1, j)
                if lv:
                    s.add('live', lv)
            s.add(*rng.choice([['close', 1], ['cnt', 1], ['last', 1]] + ([] if huge else [['rest', 1, rng.choice(CONS)]])))
            s.add('close', 1)
            s.add('live', both)
        if kind == 'map':
            s.add('bump', 1, 'kv', 'inh', 3)
            s.add('bump', 1, 'v', 'tr', 3)
            s.add('live', both)
        s.add('drop', 1)
        s.add('live', both)
        yield s
    elif prop == 'C17':
        mkb(s, 1, ty, base)
        for v in ('tr', 'dyn', 'talt'):
            for what in (['get', 'getmut', 'has'] + (['gkv'] if v != 'dyn' else []) if kind == 'map' else ['get', 'has']):
                s.add('scan', 1, f'{v}/{what}', N)
            if v != 'talt':
                s.add('len', 1, v)
        for c in rng.sample(CONS, 2):
            s.add('scan', 1, 'tr/enum:' + c, N)
        if kind == 'map':
            s.add('bump', 1, 'kv', 'tr', 2)
            s.add('bump', 1, 'v', 'tr', 3)
            s.add('dis', 1, 'tr', pick(3)[:4], [1, 2, 3, 4])
            scans(s, 1, 1)
        yield s

def with_scale(f):
    def g(prop, tier, seed, gen):
        yield from f(prop, tier, seed, gen)
        yield from plan_scale(prop, tier, random.Random(f"{seed}-{prop}-scale"))
    return g

PLANS = {'C01': plan_lookup, 'C02': plan_lookup, 'C03': plan_lookup, 'C04': plan_lookup, 'C05': plan_C05, 'C06': plan_C06,
         'C07': plan_C07, 'C08': plan_C08, 'C09': plan_C09, 'C10': plan_C10, 'C11': plan_C11, 'C14': plan_C14, 'C15': plan_C15,
         'C16': plan_C16, 'C17': plan_C17}
for _p in ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C15', 'C17'):
    PLANS[_p] = with_scale(PLANS[_p])
