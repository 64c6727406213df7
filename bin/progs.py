"""Generated programs: realises descriptors exported by spec/GenPrograms.tla as Rust source that uses
the fz_* macros or code printed by the emitter, and plans that observe the resulting collections."""
import hashlib, json, os, random, re, subprocess, time
from uni import *
import plans

INT_TYPES = list(BITS)

# ------------------------------------------------------------- concrete keys
def rust_str(s, rng):
    if rng.random() < .15 and '"' not in s and '\\' not in s and '\n' not in s and '\r' not in s and '\0' not in s:
        return f'r#"{s}"#'
    o = '"'
    for c in s:
        if c in '"\\':
            o += '\\' + c
        elif c == '\n':
            o += '\\n'
        elif c == '\t':
            o += '\\t'
        elif c == '\0':
            o += '\\0'
        elif ord(c) < 32 or c in '\u2028\u2029\x7f' or (ord(c) > 126 and rng.random() < .3):
            o += '\\u{%x}' % ord(c)
        else:
            o += c
    return o + '"'

def int_keys(t, n, pat, rng, nonneg):
    lo, hi = bounds(t)
    if nonneg:
        lo = max(lo, 0)
    room = hi - lo + 1
    if n > room - (1 if t in NZ else 0):
        return None
    if n == 0:
        return []
    ok = lambda xs: [x for x in xs if legal(t, x) and lo <= x <= hi]
    if pat == 'dense':
        for _ in range(20):
            s = rng.choice([lo, hi - n + 1, max(lo, min(0, hi - n + 1)), max(lo, min(1, hi - n + 1)), max(lo, min(-n // 2, hi - n + 1)), rng.randint(lo, hi - n + 1)])
            ks = ok(range(s, s + n))
            if len(ks) == n:
                return ks
    if pat == 'sparse':
        for _ in range(20):
            span = min(room, rng.randint(n + 1, max(n + 2, 10 * n - 1)))
            if span <= n:
                break
            s = rng.choice([lo, hi - span + 1, rng.randint(lo, hi - span + 1), max(lo, min(0, hi - span + 1))])
            c = ok(range(s, s + span))
            if len(c) > n >= 2 and legal(t, s) and legal(t, s + span - 1):
                m = rng.sample([x for x in c if x not in (s, s + span - 1)], n - 2)
                return sorted(m + [s, s + span - 1])
    if pat == 'perfect':      # distinct modulo the number of keys
        m = (room - 2) // max(n, 1)
        if m >= 2:
            for _ in range(20):
                c = ok({lo + (1 if t in NZ and lo == 0 else 0) + i + n * rng.randint(0, m - 1) for i in range(n)})
                if len(c) == n and c[-1] - c[0] + 1 > 10 * n:
                    return c
    if pat == 'nocoll':       # distinct modulo a power of two above the number of keys
        w = 1 << max(1, (n - 1).bit_length())
        w *= rng.choice([1, 1, 2])
        m = (room - w - 2) // w
        if m >= 2:
            for _ in range(20):
                rs = rng.sample(range(w), n)
                c = ok({lo + r + w * rng.randint(0, m - 1) for r in rs})
                if len(c) == n and c[-1] - c[0] + 1 > 10 * n:
                    return c
    if pat == 'hole' and n < room:
        s = rng.choice([lo, max(lo, 0), hi - n, rng.randint(lo, hi - n)])
        h = s + rng.randint(1, max(1, n - 1))
        c = ok(x for x in range(s, s + n + 1) if x != h)
        if len(c) >= n:
            return c[:n]
    if pat in ('span256', 'span257'):     # a sparse lookup table just within or just beyond 8-bit indices
        w = int(pat[4:]) - rng.choice([0, 0, 1])
        if w <= room and 2 <= n < w and w < 10 * n:
            s = rng.choice([lo, max(lo, 0), hi - w + 1])
            c = ok([s, s + w - 1] + rng.sample(range(s + 1, s + w - 1), n - 2))
            if len(c) == n:
                return c
    if pat == 'gap':          # one far outlier: just inside or outside the sparse range
        s = rng.randint(lo, max(lo, hi - 12 * n - 2)) if hi - lo > 12 * n + 2 else lo
        last = s + rng.choice([10 * n - 2, 10 * n - 1, 10 * n, 10 * n + 1])
        c = ok(list(range(s, s + n - 1)) + [last])
        if len(set(c)) == n:
            return sorted(set(c))
    # general / extremes
    ks = set(ok([lo, hi])) if pat == 'extremes' and n >= 2 else set()
    i = 0
    while len(ks) < n:
        i += 1
        x = rng.randint(lo, hi) if i < 50 * n + 100 else lo + (i - 50 * n - 100)
        if legal(t, x):
            ks.add(x)
    return sorted(ks)[:n] if len(ks) > n else sorted(ks)

STR_PATS = ['left', 'right', 'leftmix', 'rightmix', 'middle', 'length', 'general', 'uni', 'withempty', 'escapes']
def str_keys(n, pat, rng):
    w = 4
    if pat == 'left':
        return [f"{i:0{w}d}-common" for i in range(n)]
    if pat == 'right':
        return [f"common-{i:0{w}d}" for i in range(n)]
    if pat == 'leftmix':
        return [f"{i:0{w}d}" + 'z' * (i % 6) for i in range(n)]
    if pat == 'rightmix':
        return ['z' * (i % 6) + f"{i:0{w}d}" for i in range(n)]
    if pat == 'middle':
        return [f"pre{i:0{w}d}post" for i in range(n)]
    if pat == 'length' and n <= 70:
        return ['a' * (i + rng.randint(0, 0)) for i in range(1, n + 1)]
    if pat == 'uni':
        return [f"ключ{i}é😀{'ß' * (i % 3)}" for i in range(n)]
    if pat == 'withempty':
        return ([''] + [f"w{i}" for i in range(n - 1)])[:n]
    if pat == 'escapes':
        base = ['"', '\\', '\n', '\t', '\u2028', '/', '\u0001', 'a"b', "'", '\0', '{}', '#', '\\n', '0', ' ']
        return (base + [f'\t{i}' for i in range(n)])[:n]
    out = set()
    while len(out) < n:
        out.add(''.join(rng.choice('abcdefgh') for _ in range(rng.randint(2, 12))))
    return sorted(out)

def int_lit(v, t, suffix, rng):
    r = rng.random()
    if r < .15:
        s = hex(v)
    elif r < .2:
        s = bin(v)
    elif r < .25:
        s = oct(v)
    elif r < .45 and v > 999:
        s = f'{v:_}'
    else:
        s = str(v)
    return s + (rng.choice(['', '_']) + t if suffix else '')

def int_expr(v, t, rng):
    """an expression of type t with value v that is no literal"""
    if t in NZ:
        return f'{t}::new({v}).unwrap()'
    lo, hi = bounds(t)
    lit = f'{v}{t}' if v >= 0 else (f'{t}::MIN' if v == lo else f'-{-v}{t}')
    c = [f'x({lit})', f'({lit})', f'x({lit}).min({t}::MAX)', f'{lit} | x(0{t})' if v >= 0 else f'({lit}) | 0', f'core::convert::identity({lit})']
    if v == hi:
        c.append(f'{t}::MAX')
    if v == lo:
        c.append(f'{t}::MIN')
    if v < 0:
        c.append(lit)
    return rng.choice(c)

ENUM_V = {'E1': ['Only'], 'E2': ['No', 'Yes'], 'E5': 'Zebra Apple Mango Cherry Banana'.split(), 'E9': list('IHGFEDCBA'),
          'E300': [f'V{(i * 7) % 300}' for i in range(300)]}

def e300():
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/src/common/e300.rs')).read()
    ENUM_V['E300'] = re.findall(r'\bV\d+\b', src)
e300()

class Program:
    """one generated program: its descriptor, its entries and its source"""
    pass

def realise(pid, d, api, rng, pat=None, ktype=None, maxlits=None):
    """None if this descriptor has no realisation with these parameters (e.g. too few keys in the type)"""
    n = d['n']
    P = Program()
    P.id, P.d, P.api = pid, d, api
    distinct = n if not d['dup'] else max(1, n - rng.randint(1, max(1, n // 3)))
    form, kind, ty = d['form'], d['kind'], d['ty']
    static = form in ('static', 'pubstatic')
    P.ck = P.cv = True
    if api == 'emit':
        if ty in ('box', 'own'):
            P.ck = False
        if not static or rng.random() < .3:
            P.ck, P.cv = P.ck and rng.random() < .7, rng.random() < .7
    # keys: (text for the universe, literal text, expression text, build-time text)
    tk = None
    if ty == 'int':
        cands = INT_TYPES + (list(NZ) if d['keys'] == 'expr' or api == 'emit' else [])
        t = ktype or rng.choice(cands)
        if api == 'macro' and d['keys'] == 'lit' and not ktype and rng.random() < .3:
            t = 'i32'
        unsuff = t == 'i32' and rng.random() < .6 and d['keys'] == 'lit'
        ks = int_keys(t, distinct, pat or rng.choice(['dense', 'sparse', 'gap', 'general', 'extremes']), rng, d['keys'] != 'expr' and api == 'macro')
        if ks is None:
            return None
        K, tk = t, t
        lits = {}
        some = rng.randrange(max(1, len(ks)))
        for i, v in enumerate(ks):
            suf = True
            if api == 'macro':
                if d['keys'] == 'lit':
                    suf = not unsuff and (i == some or rng.random() < .7)
                else:
                    suf = rng.random() < .5
            lits[v] = (int_lit(v, t, suf, rng) if v >= 0 and t not in NZ else None, int_expr(v, t, rng))
        if unsuff and any(v > 2 ** 31 - 1 for v in ks):
            return None
        univ = lambda v: str(v)
        absent = scalar_absent(t, ks, rng)
    elif ty == 'enum':
        c = [e for e in ENUM_V if len(ENUM_V[e]) >= max(1, distinct)]
        if not c:
            return None
        E = ktype if ktype in c else rng.choice(c)
        m = len(ENUM_V[E])
        ks = sorted(rng.sample(range(m), distinct))
        if pat == 'dense' or rng.random() < .3:
            s = rng.randint(0, m - distinct)
            ks = list(range(s, s + distinct))
        K, tk = E, E
        lits = {v: (None, f'{E}::{ENUM_V[E][v]}') for v in ks}
        absent = [v for v in range(m) if v not in set(ks)]
    else:
        own = rng.choice(['String', 'Tk']) if ty == 'own' and api == 'macro' else 'String'
        if ty == 'own' and own == 'Tk':
            ks = sorted(rng.sample(range(3 * distinct + 4), distinct))
            K = 'Tk'
            lits = {v: (None, f'Tk::new({v})') for v in ks}
            m = (max(ks) if ks else 0) + 5
            absent = [v for v in range(m) if v not in set(ks)]
        else:
            p = pat or rng.choice(STR_PATS)
            ks = str_keys(distinct, p, rng)
            if len(set(ks)) != distinct:
                return None
            K = {'ref': "&'static str", 'box': 'Box<str>', 'own': 'String'}[ty]
            tk = 'str'
            lits = {}
            for v in ks:
                l = rust_str(v, rng)
                e = {'ref': f'x({l})', 'box': rng.choice([f'Box::<str>::from({l})', f'x::<Box<str>>({l}.into())']), 'own': rng.choice([f'{l}.to_string()', f'String::from({l})'])}[ty]
                if ty == 'box' and d['keys'] == 'mixed':
                    e = f'x({l})'
                lits[v] = (l, e)
            absent = string_absent(ks, rng)[:60]
    if K == 'Tk':
        uvals = list(range(m))
        uni_of = {v: v for v in uvals}
    else:
        uvals = list(dict.fromkeys(list(ks) + list(absent)))
        if ty in ('int', 'enum'):
            uvals = sorted(uvals)
        uni_of = {v: i for i, v in enumerate(uvals)}
    P.K = K
    P.uni = [str(v) for v in uvals]
    seq = list(ks)
    rng.shuffle(seq)
    while len(seq) < n:
        seq.insert(rng.randint(0, len(seq)), rng.choice(ks))
    vals = list(range(1, n + 1))
    P.en = [[uni_of[v], (vals[j] if kind == 'map' else 0)] for j, v in enumerate(seq)]
    P.present = [uni_of[v] for v in ks]
    P.absent = [i for i, v in enumerate(uvals) if v not in set(ks)]
    # how each entry's key is written
    texts = []
    lead = rng.randrange(n) if n else 0
    for j, v in enumerate(seq):
        l, e = lits[v]
        if api == 'emit':
            if ty in ('int',):
                texts.append(f'{v}{K}' if v >= 0 and K not in NZ else const_int(v, K))
            elif ty == 'ref':
                texts.append(l)
            else:
                texts.append(e)
        elif d['keys'] == 'lit':
            texts.append(l)
        elif d['keys'] == 'expr':
            texts.append(e)
        else:
            # at least one of each
            lit = (j == lead) or (j != (lead + 1) % n and rng.random() < .5)
            texts.append(l if lit else e)
    tv = 'Tv::konst' if static else 'Tv::new'
    vt = [f'{tv}({vals[j]})' if rng.random() < .8 or static else f'x({tv}({vals[j]}))' for j in range(n)]
    M = 'map' if kind == 'map' else 'set'
    Kt = K
    ret = f'Box<dyn {"MapObj" if kind == "map" else "SetObj"}<{K}>>'
    gen = f'<{K}, Tv>' if kind == 'map' else f'<{K}>'
    P.fn = f'p{pid}'
    if api == 'macro':
        body = ', '.join(f'{k}: {v}' if kind == 'map' else k for k, v in zip(texts, vt)) + (',' if n and rng.random() < .3 else '')
        mac = f'fz_{d["fam"]}_{kind}!'
        if form == 'short':
            P.src = f'pub fn {P.fn}() -> {ret} {{ {M}::<{K}, _>({mac}({{ {body} }})) }}'
        elif form in ('let', 'letmut'):
            mut = 'mut ' if form == 'letmut' else ''
            use = 'fn touch<T>(_: &mut T) {} touch(&mut m);' if mut else ''
            P.src = f'pub fn {P.fn}() -> {ret} {{ {mac}(let {mut}m: A{pid}{gen}, {{ {body} }}); {use} let m: A{pid} = m; {M}::<{K}, _>(m) }}'
        elif form == 'static':
            P.src = f'pub fn {P.fn}() -> {ret} {{ {mac}(static M: A{pid}{gen}, {{ {body} }}); let m: A{pid} = M.clone(); {M}::<{K}, _>(m) }}'
        else:
            vis = rng.choice(['pub', 'pub(crate)', 'pub(super)'])
            P.src = f'mod q{pid} {{ use super::*; {mac}({vis} static M: A{pid}{gen}, {{ {body} }}); }}\npub fn {P.fn}() -> {ret} {{ let m: q{pid}::A{pid} = q{pid}::M.clone(); {M}::<{K}, _>(m) }}'
    else:
        P.req = {'id': pid, 'fam': d['fam'], 'kind': kind, 'kt': K, 'tk': tk, 'ck': P.ck, 'cv': P.cv, 'static': static, 'mutable': form == 'letmut'}
        if form != 'expr':
            P.req['sym'] = 'm' if not static else 'M'
            if rng.random() < .7:
                P.req['ali'] = f'A{pid}'
        if form == 'pubstatic':
            P.req['vis'] = rng.choice(['pub', 'pub(crate)'])
        bt = [P.uni[e[0]] for e in P.en]
        P.req['en'] = [[b, k, v] for b, k, v in zip(bt, texts, vt)]
        P.src = None
    return P

def finish(P, code):
    """wraps emitted code into the program's function"""
    pid, form, kind, K = P.id, P.d['form'], P.d['kind'], P.K
    M = 'map' if kind == 'map' else 'set'
    ret = f'Box<dyn {"MapObj" if kind == "map" else "SetObj"}<{K}>>'
    ali = P.req.get('ali')
    ty_ = f': {ali}' if ali else ''
    if form == 'expr':
        P.src = f'pub fn {P.fn}() -> {ret} {{ {M}::<{K}, _>({code}) }}'
    elif form in ('let', 'letmut'):
        use = 'fn touch<T>(_: &mut T) {} touch(&mut m);' if form == 'letmut' else ''
        P.src = f'pub fn {P.fn}() -> {ret} {{ {code} {use} let m{ty_} = m; {M}::<{K}, _>(m) }}'
    elif form == 'static':
        P.src = f'pub fn {P.fn}() -> {ret} {{ {code} let m{ty_} = M.clone(); {M}::<{K}, _>(m) }}'
    else:
        q = f': q{pid}::{ali}' if ali else ''
        P.src = f'mod q{pid} {{ use super::*; {code} }}\npub fn {P.fn}() -> {ret} {{ let m{q} = q{pid}::M.clone(); {M}::<{K}, _>(m) }}'

def const_int(v, t):
    if t in NZ:
        return f'{t}::new({v}).unwrap()'
    lo, _ = bounds(t)
    return f'{t}::MIN' if v == lo else f'-{-v}{t}'

# ----------------------------------------------------------------- large ones
# the representations and magnitudes of 65535, 65536 … literal entries
BIG = [('hash', 'nocoll'), ('hash', 'coll'), ('scalar', 'sparse'), ('scalar', 'dense'), ('string', 'string'), ('ordered', 'nocoll')]
def big(pid, api, fam, pat, kind, n, rng):
    P = Program()
    P.id, P.api, P.fn = pid, api, f'p{pid}'
    P.d = {'fam': fam, 'kind': kind, 'form': 'static', 'keys': 'lit', 'ty': 'int' if pat != 'string' else 'ref', 'n': n, 'dup': False}
    P.ck = P.cv = True
    st, a = {'nocoll': (3, 5), 'coll': (2, 8), 'sparse': (3, 1), 'dense': (1, 1), 'string': (2, 1)}[pat]
    P.off = rng.choice([2, 5])
    P.N = P.off + st * n + 7
    b = 0 if pat == 'string' else rng.choice([-3, 0, -(a * (P.N // 2)), 1000003])
    P.step = st
    if pat == 'string':
        P.K, P.uni = "&'static str", {'n': P.N, 'f': 'str', 'pre': 'ab', 'suf': rng.choice(['', 'z']), 'w': 6}
        text = lambda k: json.dumps(f"ab{k:06d}{P.uni['suf']}")
        bt = lambda k: f"ab{k:06d}{P.uni['suf']}"
    else:
        P.K, P.uni = 'i32', {'n': P.N, 'f': 'lin', 'a': a, 'b': b}
        text = bt = lambda k: str(a * k + b)
    v0 = 1 if kind == 'map' else 0
    val0 = lambda k: f'Tv{{v:{1 + (k - P.off) // st},s:usize::MAX}}'
    ids = [P.off + st * j for j in range(n)]
    rng.shuffle(ids)
    if api == 'macro':
        val = lambda k: f': {val0(k)}' if kind == 'map' else ''
        body = ', '.join(text(k) + val(k) for k in ids)
        gen = f'<{P.K}, Tv>' if kind == 'map' else f'<{P.K}>'
        ret = f'Box<dyn {"MapObj" if kind == "map" else "SetObj"}<{P.K}>>'
        P.src = f'pub fn {P.fn}() -> {ret} {{ fz_{fam}_{kind}!(static M: A{pid}{gen}, {{ {body} }}); let m: A{pid} = M.clone(); {kind}::<{P.K}, _>(m) }}'
    else:
        P.src = None
        P.req = {'id': pid, 'fam': fam, 'kind': kind, 'kt': P.K, 'tk': 'i32' if pat != 'string' else 'str', 'ck': True, 'cv': True, 'static': True, 'mutable': False, 'sym': 'M', 'ali': f'A{pid}'}
        P.req['en'] = [[bt(k), text(k), val0(k) if kind == 'map' else ''] for k in ids]
    P.segs = [[P.off, n, st, v0]]
    return P

def bigs(api, tier, rng):
    ns = [65535, 65536, 65537, 70000]
    # a map of that size takes rustc 7 GB and two minutes (values with destructors), a set 20 s
    if tier == 'thorough':
        c = [(f, p, 'set', n) for f, p in BIG for n in rng.sample(ns, 2)] + [(*rng.choice(BIG), 'map', rng.choice(ns))]
    else:
        c = [(f, p, 'set', n) for (f, p), n in zip(rng.sample(BIG, 3), rng.sample(ns[:3], 3))]
    return [big(80000 + j, api, f, p, k, n, rng) for j, (f, p, k, n) in enumerate(c)]

def plan_big(P, bin, prop, rng):
    kind, n, st, N = P.d['kind'], P.d['n'], P.step, P.N
    pr = plans.Prof(bin, tag_of(P.K), P.uni, [], [], [], [], 'good', f"{P.api} {json.dumps(P.d)}")
    s = plans.Sess(pr)
    def scans(h, whats):
        for what in whats:
            s.add('scan', h, rng.choice(plans.KVQ if what == 'gkv' else plans.MQ) + '/' + what, N)
        s.add('scan', h, rng.choice(['inh', 'tr']) + '/enum:' + rng.choice(plans.CONS), N)
    s.add('bseg', 1, kind, P.fn, 'new', P.segs)
    s.add('len', 1, 'inh')
    scans(1, ['get', 'has'])
    s.add('bseg', 2, kind, 'fz', 'new', P.segs)
    s.add('eq', 1, 2, 'dyn')
    s.add('drop', 2)
    if kind == 'map':
        scans(1, ['gkv', 'getmut'])
        s.add('bump', 1, rng.choice(['kv', 'v']), 'inh', 3)
        some = [P.off, P.off + st * (n - 1), 0]
        s.add('dis', 1, 'inh', some, [9 * n + x for x in range(3)])
        scans(1, ['get'])
    s.add('drop', 1)
    b, p = s.out(prop)
    p['prog'] = {'big': [P.id, P.api, P.d['fam']], 'id': P.id, 'api': P.api, 'd': P.d, 'K': P.K, 'src': P.src if P.api == 'macro' else None, 'req': getattr(P, 'req', None)}
    return b, p

# ----------------------------------------------------------------- packages
HEAD = '''// generated by bin/progs.py
#![allow(warnings)]
#[path = "{H}/key.rs"]
mod key;
#[path = "{H}/enums.rs"]
mod enums;
#[path = "{H}/obj.rs"]
mod obj;
#[path = "{H}/prelude.rs"]
mod prelude;
#[path = "{H}/prog.rs"]
mod prog;
#[path = "{H}/run.rs"]
mod run;
#[path = "{H}/ser.rs"]
mod ser;
#[path = "{H}/track.rs"]
mod track;
use enums::*;
use frozen_collections::{{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set}};
use prog::*;
use std::num::*;
'''
def tag_of(K):
    return {"&'static str": 'ref', 'Box<str>': 'box'}.get(K, K)

def views(K):
    if K in BITS or K in NZ or K in ENUM_V:
        return f'prog_scalar!({K});'
    if K == 'Box<str>':
        return 'prog_boxstr!();'
    if K == 'String':
        return 'prog_views!(String, str, |a| a.as_str());'
    if K == 'Tk':
        return 'prog_views!(Tk, Eqv<Tk>, |a| Eqv::of(a));'
    return "prog_views!(&'static str, str, |a| *a);"

def source(progs, H):
    """text of one binary and the line on which each program starts"""
    out = HEAD.format(H=H).split('\n')
    ks = sorted({p.K for p in progs})
    for K in ks:
        out.append(views(K))
    at = []
    for p in progs:
        at.append((len(out) + 1, p))
        out += p.src.split('\n')
    at.append((len(out) + 1, None))
    for K in ks:
        me = [p for p in progs if p.K == K]
        m = ', '.join(f'"{p.fn}" => {p.fn}' for p in me if p.d['kind'] == 'map')
        s = ', '.join(f'"{p.fn}" => {p.fn}' for p in me if p.d['kind'] == 'set')
        fz, fzs = ('FzStringMap::<Box<str>, Tv>::new', 'FzStringSet::<Box<str>>::new') if K == 'Box<str>' else (f'FzHashMap::<{K}, Tv>::new', f'FzHashSet::<{K}>::new')
        de = '' if K[0] == '&' else f', de: ({fz[:-5]}, {fzs[:-5]})'
        out.append(f'prog_fam!(F{tag_of(K)}, {K}, fz: {fz}, fzs: {fzs}, maps: [{m}], sets: [{s}]{de});')
    arms = ' '.join(f'"{tag_of(K)}" => run::session::<{K}>(&F{tag_of(K)}, p, out),' for K in ks)
    out.append(f'fn main() {{ run::main(|p, out| match p["k"].as_str().unwrap() {{ {arms} k => panic!("harness: key {{k}}") }}); }}')
    return '\n'.join(out) + '\n', at

def weight(p):
    return 12 + p.d['n'] // 40 if p.d['n'] < 10000 else 150

def partition(progs, bins):
    """programs of one key type stay together as far as balance allows"""
    groups = {}
    for p in progs:
        groups.setdefault(p.K, []).append(p)
    parts = [[] for _ in range(bins)]
    load = [0] * bins
    total = sum(weight(p) for p in progs) + 25 * len(groups)
    cap = total / bins
    for K, ps in sorted(groups.items(), key=lambda g: (-sum(map(weight, g[1])), g[0])):
        i = 0
        while i < len(ps):
            k = load.index(min(load))
            load[k] += 25
            took = 0
            while i < len(ps) and (took == 0 or load[k] + weight(ps[i]) <= cap * 1.02):
                load[k] += weight(ps[i])
                parts[k].append(ps[i])
                i += 1
                took += 1
    return [p for p in parts if p]

# ------------------------------------------------------------- selection
INT_PATS = ['dense', 'sparse', 'gap', 'general', 'extremes', 'perfect', 'nocoll', 'hole', 'span256', 'span257']
# sizes and contents on the boundaries between the emitted representations and magnitudes; always included
EDGES = [(n, p) for p, ns in (('perfect', (4, 8, 16, 64)), ('nocoll', (7, 64, 257, 300)), ('sparse', (254, 255, 256, 257)), ('general', (255, 256, 257)), ('dense', (256, 257)),
                             ('span256', (64, 130)), ('span257', (64, 130)), ('hole', (17, 300))) for n in ns]
def edges(descs, api, rng):
    out = []
    c = [d for d in descs if d['ty'] == 'int' and d['keys'] == 'lit' and treat(d, api) == 'scalar' and not d['dup'] and d['form'] in ('short', 'let', 'letmut', 'expr')]
    for n, pat in EDGES:
        for kind in ('map', 'set'):
            x = [d for d in c if d['n'] == n and d['kind'] == kind]
            if x:
                out.append((rng.choice(x), pat, rng.choice(['u32', 'i32', 'u64', 'i64', 'i16', 'u16', 'usize', 'isize'])))
    return out

def treat(d, api):
    if api == 'macro' and d['keys'] != 'expr':
        return 'scalar' if d['ty'] == 'int' else 'string'
    return d['fam']

def select(descs, api, count, rng):
    """descriptors with realisation parameters, chosen so that as many pairs of features as possible occur"""
    seen, out = {}, []
    def feats(d, pat, kt):
        t = treat(d, api)
        return [('s', d['fam'], d['kind'], d['keys'], d['ty']), ('f', t, d['form'], d['keys']), ('n', t, d['keys'] == 'lit', d['kind'], d['n']), ('fn', d['form'], d['n']), ('p', pat, d['keys'] == 'lit', d['n']),
                ('pk', pat, d['kind'], t), ('kt', kt), ('ktk', kt, t, d['kind']), ('ktp', kt, pat), ('d', d['dup'], t, d['n']), ('dk', d['dup'], d['kind'], d['keys'], t)]
    for _ in range(count):
        best = None
        for _ in range(60):
            d = rng.choice(descs)
            if d['ty'] == 'int':
                pat = rng.choice(INT_PATS)
                kt = rng.choice(INT_TYPES + (list(NZ) if d['keys'] == 'expr' or api == 'emit' else []))
            elif d['ty'] == 'enum':
                pat, kt = rng.choice(['dense', 'general']), rng.choice(list(ENUM_V))
                if len(ENUM_V[kt]) < d['n'] // 2:
                    continue
            else:
                pat, kt = rng.choice(STR_PATS), None
            f = feats(d, pat, kt)
            g = sum(1 / (1 + seen.get(x, 0)) ** 2 for x in f) - d['n'] / 300
            if best is None or g > best[0]:
                best = (g, d, pat, kt, f)
        _, d, pat, kt, f = best
        for x in f:
            seen[x] = seen.get(x, 0) + 1
        out.append((d, pat, kt))
    return out

def realise_all(sel, api, rng):
    out = []
    for i, (d, pat, kt) in enumerate(sel):
        P = realise(i, d, api, rng, pat, kt) or realise(i, d, api, rng)
        if P:
            out.append(P)
    return out

# ----------------------------------------------------------------- building
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

def emit_all(D, progs, h_front):
    """runs the real emitter; returns the programs it refused, with its message"""
    req = [p for p in progs if p.api == 'emit' and p.src is None]
    if not req:
        return []
    data = '\n'.join(json.dumps(p.req) for p in req) + '\n'
    r = subprocess.run([h_front, 'emit'], input=data.encode(), capture_output=True, env=D.ENV, timeout=300)
    got = {}
    for l in r.stdout.decode().split('\n')[:-1]:
        o = json.loads(l)
        got[o['id']] = o
    bad = []
    for p in req:
        o = got.get(p.id)
        if o is None:
            bad.append((p, f'the emitter ended with {r.returncode}: {r.stderr.decode()[-300:]}'))
        elif 'code' in o:
            finish(p, o['code'])
        else:
            bad.append((p, f'emitter: {o["err"]}'))
    return bad

def package(D, name, progs, bins):
    """builds the programs; returns ({program id: binary}, [(program, error)])"""
    d = os.path.join(D.OUT, f'prog-{name}')
    src = os.path.join(d, 'src', 'bin')
    os.makedirs(src, exist_ok=True)
    for f in os.listdir(src):
        os.remove(os.path.join(src, f))
    hc = open(os.path.join(VERIF, 'harness', 'Cargo.toml')).read()
    deps = hc[hc.index('[dependencies]'):]
    deps = deps.split('\n[', 1)[0] if '\n[' in deps else deps
    prof = 'debug = 0\nincremental = false\n'
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write(f'[package]\nname = "prog-{name}"\nversion = "0.1.0"\nedition = "2024"\n[workspace]\n[features]\ndefault = ["light"]\nlight = []\n{deps}\n{profiles(hc)}')
    lock = open(os.path.join(VERIF, 'harness', 'Cargo.lock')).read()
    open(os.path.join(d, 'Cargo.lock'), 'w').write(lock.replace('name = "fzharness"', f'name = "prog-{name}"'))
    H = os.path.join(VERIF, 'harness', 'src', 'common')
    parts = partition(progs, bins)
    todo = {i: list(ps) for i, ps in enumerate(parts)}
    failed = []
    where = {}
    for rnd in range(5):
        tables = {}
        for i, ps in todo.items():
            text, at = source(ps, H)
            tables[f'{name}_{i}.rs'] = (i, at)
            p = os.path.join(src, f'{name}_{i}.rs')
            if not os.path.exists(p) or open(p).read() != text:
                open(p, 'w').write(text)
        e = dict(D.ENV)
        e['CONST_RANDOM_SEED'] = '1'
        r = subprocess.run(['cargo', 'build', '--offline', '--keep-going', '-q', '--message-format=json'], cwd=d, env=e, capture_output=True, text=True, timeout=850)
        bad = {}
        other = []
        for l in r.stdout.split('\n'):
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
                continue
            hit = False
            def spans(s):
                yield s
                if s.get('expansion'):
                    yield from spans(s['expansion']['span'])
            for top in m['message']['spans']:
                for s in spans(top):
                    b = os.path.basename(s['file_name'])
                    if b in tables and '/bin/' in s['file_name']:
                        i, at = tables[b]
                        for (l0, p), (l1, _) in zip(at, at[1:]):
                            if l0 <= s['line_start'] < l1:
                                bad.setdefault(id(p), (i, p, m['message']['message']))
                                hit = True
            if not hit and not m['message']['message'].startswith('aborting'):
                other.append(m['message'].get('rendered') or m['message']['message'])
        if r.returncode == 0:
            break
        if not bad:
            raise D.Broken('the generated programs do not build: ' + '\n'.join(other)[:3000] + r.stderr[-1500:])
        for i, p, msg in bad.values():
            todo[i].remove(p)
            failed.append((p, msg))
        for i in [i for i, ps in todo.items() if not ps]:
            del todo[i]
            os.remove(os.path.join(src, f'{name}_{i}.rs'))
        if not todo:
            break
    else:
        raise D.Broken('the generated programs do not build')
    for i, ps in todo.items():
        for p in ps:
            where[p.id] = f'{name}_{i}'
    return where, failed

def profiles(hc):
    m = re.findall(r'^\[profile\.[^\]]*\][^\[]*', hc, re.M)
    return ''.join(m)

def info(p):
    return {'id': p.id, 'api': p.api, 'd': p.d, 'K': p.K, 'src': p.src if p.api == 'macro' else None, 'req': getattr(p, 'req', None)}

def of_info(i):
    P = Program()
    P.id, P.api, P.d, P.K, P.src, P.req, P.fn = i['id'], i['api'], i['d'], i['K'], i['src'], i['req'], f"p{i['id']}"
    return P

# -------------------------------------------------------------------- plans
def plan_prog(P, bin, prop, rng):
    """observes one generated collection in every way, next to a general-purpose one of the same key type"""
    kind = P.d['kind']
    pr = plans.Prof(bin, tag_of(P.K), P.uni, P.present, P.absent, [], [], 'good', f"{P.api} {json.dumps(P.d)}")
    s = plans.Sess(pr)
    n = len(P.present)
    w = 'kv' if kind == 'map' else 'k'
    s.add('build', 1, kind, P.fn, 'new', P.en)
    plans.queries(s, 1, kind, pr, rng, 90)
    if n > 30 and kind == 'map':
        s.add('gkv', 1, rng.choice(plans.KVQ), P.present)
        s.add('getmut', 1, rng.choice(plans.MQ), P.present)
    if n > 30:
        s.add('get', 1, rng.choice(plans.MQ), P.present + P.absent)
        s.add('has', 1, rng.choice(plans.MQ), P.present + P.absent)
    for how in rng.sample(['inh/for', 'inh/fold', 'tr/collect', 'inh/nth', 'tr/last', 'inh/each', 'intoref/for', 'dbg', 'json'], 4):
        s.add('all', 1, w, how)
    plans.iter_plan(s, 1, n, w, 'ref', rng.choice(['inh', 'tr']), rng, 1)
    # the same contents in a general-purpose collection
    last = {}
    for k, v in P.en:
        last[k] = v
    ids = rng.sample(list(last), len(last))
    s.add('build', 2, kind, 'fz', 'new', [[k, last[k]] for k in ids])
    for a, b in ((1, 2), (2, 1)):
        s.add('eq', a, b, 'dyn')
    s.add('clone', 1, 3)
    s.add('eq', 1, 3, 'same')
    if kind == 'map':
        x = rng.choice(P.present) if P.present else None
        if x is not None:
            s.add('set', 3, rng.choice(plans.MQ), x, 1000003)
            s.add('eq', 1, 3, 'same')
            s.add('eq', 2, 3, 'dyn')
            s.add('get', 3, 'inh', P.present[:60])
        m = min(3, len(pr.all()))
        ks = rng.sample(pr.all(), m)
        s.add('dis', 3, rng.choice(['inh', 'alt', 'tr', 'unsafe']), ks, [2000001 + j for j in range(m)])
        if x is not None:
            s.add('dis', 3, 'inh', [x, x], [1, 2])
        s.add('all', 3, 'kv', 'inh')
        s.add('open', 1, 3, 'kv', 'mut', 'inh')
        for _ in range(min(n, 3)):
            s.add('next', 1, s.fresh() + 3000000)
        s.add('close', 1)
        s.add('all', 3, 'v', 'tr')
    else:
        B = rng.sample(pr.all(), rng.randint(0, min(len(pr.all()), 12)))
        s.add('build', 4, 'set', 'fz', 'new', [[b, 0] for b in B])
        for op in plans.OPS:
            s.add('sop', op, 1, 4, 'dyn')
            s.add('sop', op, 4, 1, 'dyn')
            s.add('sop', op, 1, 3, 'operator')
        for r in ('sub', 'sup', 'dis'):
            s.add('rel', r, 1, 4, 'dyn')
            s.add('rel', r, 4, 1, 'dyn')
            s.add('rel', r, 1, 2, 'dyn')
    s.add('open', 1, 3, w, 'own', rng.choice(['inh', 'tr']))
    for _ in range(min(n, 2)):
        s.add('next', 1, -1)
    s.add('size', 1)
    s.add('rest', 1, rng.choice(plans.CONS))
    b, p = s.out(prop)
    p['prog'] = info(P)
    return b, p

def compile_event(P, ok, msg=''):
    return {'e': 'program', 'id': P.id, 'api': P.api, 'd': P.d, 'ok': ok, 'msg': msg[:300]}

def prepare(D, prop, tier, seed, gen):
    """jobs and binaries for C12 / C13"""
    api = 'macro' if prop == 'C12' else 'emit'
    rng = random.Random(f'{seed}-{prop}')
    descs = gen('macroprograms' if api == 'macro' else 'emitprograms')
    count = {'quick': 240, 'thorough': 1600}[tier]
    sel = edges(descs, api, rng)
    sel += select(descs, api, count - len(sel), rng)
    progs = realise_all(sel, api, rng)
    known = []
    if api == 'macro':
        kb = gen('knownbroken')
        for d, pat, kt in select(kb, api, 8, rng):
            P = realise(90000 + len(known), d, api, rng, pat, kt) or realise(90000 + len(known), d, api, rng)
            if P:
                known.append(P)
    progs += bigs(api, tier, rng)
    paths = {}
    jobs = []
    failed = emit_all(D, progs, os.path.join(D.TARGET, 'debug', 'h_front')) if api == 'emit' else []
    bad = {id(p) for p, _ in failed}
    progs = [p for p in progs if id(p) not in bad]
    where, cf = package(D, prop, progs + known, 8)
    failed += cf
    msg = {id(p): m for p, m in failed}
    plans.Sess.n += 1
    for p in [p for p, _ in failed] + [p for p in progs + known if p.id in where]:
        plans.Sess.n += 1
        jobs.append(('@compile', {'s': f'{prop}-{plans.Sess.n}', 'tag': f'compiling {api} {json.dumps(p.d)}', 'ops': [], 'prog': info(p), 'events': [compile_event(p, id(p) not in msg, msg.get(id(p), ''))]}))
        if id(p) in msg:
            continue
        b, plan = (plan_big if hasattr(p, 'segs') else plan_prog)(p, where[p.id], prop, rng)
        if p.id >= 90000:
            plan['known'] = True
        paths[b] = os.path.join(D.TARGET, 'debug', b)
        jobs.append((b, plan))
    return jobs, paths

def replay(D, r):
    """rebuilds one program from the present tree and runs its plan"""
    P = of_info(r['plan']['prog'])
    failed = emit_all(D, [P], os.path.join(D.TARGET, 'debug', 'h_front')) if P.api == 'emit' else []
    where = {}
    if not failed:
        where, failed = package(D, 'replay', [P], 1)
    msg = failed[0][1] if failed else ''
    jobs = [('@compile', {'s': 'replay-c', 'tag': 'compiling', 'ops': [], 'prog': r['plan']['prog'], 'events': [compile_event(P, not failed, msg)]})]
    paths = {}
    if not failed and r['bin'] != '@compile':
        b = where[P.id]
        paths[b] = os.path.join(D.TARGET, 'debug', b)
        jobs.append((b, r['plan']))
    return jobs, paths
