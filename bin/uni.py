"""Universes: concrete keys behind the specification's integer keys, and the profiles
(collection type x key type x universe x content) that reach every internal representation."""
import json, os, random, re

BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}
NZ = {'NonZero' + t[0].upper() + t[1:]: t for t in BITS}
INTS = list(BITS) + list(NZ)
ENUMS = {'E1': 1, 'E2': 2, 'E5': 5, 'E9': 9, 'E300': 300}

def bounds(t):
    b = NZ.get(t, t)
    n = BITS[b]
    return (0, 2 ** n - 1) if b[0] == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)

def legal(t, x):
    lo, hi = bounds(t)
    return lo <= x <= hi and not (t in NZ and x == 0)

class Prof:
    """One way to hold keys: which harness, key type, universe, hash function, which ids are
    present, which are absent, and which collection types can hold them."""
    def __init__(s, bin, k, uni, present, absent, maps, sets, bh='good', tag='', light=False):
        s.bin, s.k, s.uni, s.present, s.absent = bin, k, uni, list(present), list(absent)
        s.maps, s.sets, s.bh, s.tag, s.light = maps, sets, bh, tag, light
        s.fixed = {}         # collections whose contents are fixed at compile time
    def all(s):
        return s.present + s.absent

def mk(bin, k, values, present, maps, sets, bh='good', tag=''):
    """values: concrete keys (present ones among them)"""
    vals = list(dict.fromkeys(values))
    ps = set(present)
    pid = [i for i, v in enumerate(vals) if v in ps]
    aid = [i for i, v in enumerate(vals) if v not in ps]
    return Prof(bin, k, [str(v) for v in vals], pid, aid, maps, sets, bh, tag)

# ------------------------------------------------------------------ hash
HASH_MAPS = ['fz', 'fzd', 'hm8', 'hm16', 'hm64', 'scan']
HASH_SETS = ['fz', 'fzd']
INL = [0, 1, 2, 3, 4, 7]

def hash_types(n, k):
    m = [t for t in HASH_MAPS if not (t == 'hm8' and n > 250) and not (t == 'scan' and n > 64)]
    st = list(HASH_SETS)
    if n in INL:
        m.append('inl')
        st.append('inl')
    return m, st

BHS = ['good', 'ident', 'const0', 'const7', 'const18446744073709551615', 'low1', 'low2', 'low3', 'high2', 'high8', 'shift32', 'shift56', 'shift4']

def hash_profiles(sizes, bhs, kts, rng):
    out = []
    j = 0
    for n in sizes:
        for bh in bhs:
            for k in kts:
                j += 1
                m, st = hash_types(n, k)
                na = min(n + 6, 40)
                if k == 'u64':
                    step = [1, 3, 8, 256, 65536, 2 ** 33][j % 6]
                    base = [0, 1, 2 ** 40][j % 3]
                    vals = [base + step * i for i in range(n + na)]
                    if j % 4 == 0:
                        vals = [(v * 0x9E3779B97F4A7C15) % 2 ** 64 for v in vals]
                elif k == 'String':
                    vals = [f"k{i}" if j % 2 else f"{i * 7919:06d}-{'x' * (i % 5)}" for i in range(n + na)]
                else:
                    vals = list(range(n + na))
                pres = rng.sample(vals, n) if j % 2 else vals[:n]
                out.append(mk('h_hash', k, vals, pres, m, st, bh, f'hash n={n} bh={bh}'))
    return out

# ------------------------------------------------------------------ ordered
ORD_INL_M = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17]
ORD_INL_S = [0, 1, 2, 3, 4, 5, 7, 8]

def ord_profiles(sizes, kts, rng):
    out = []
    for j, n in enumerate(sizes):
        for k in kts:
            m, st = ['fz', 'eyt'], ['fz']
            if n in ORD_INL_M:
                m.append('inl')
            if n in ORD_INL_S:
                st.append('inl')
            if k == 'i32':
                # every gap is probed: odd numbers are present, even ones absent
                vals = [v for v in range(-n - 1, n + 2)] + [-2 ** 31, 2 ** 31 - 1]
                pres = [v for v in range(-n + 1, n, 2)]
                if j % 3 == 0 and n >= 2:
                    pres[0], pres[-1] = -2 ** 31, 2 ** 31 - 1
            elif k == 'String':
                vals = [f"{v:05d}" for v in range(2 * n + 2)] + ['', '~']
                pres = [f"{v:05d}" for v in range(1, 2 * n + 1, 2)]
            else:
                vals = list(range(2 * n + 1))
                pres = list(range(1, 2 * n + 1, 2))
            out.append(mk('h_ord', k, vals, pres, m, st, 'good', f'ordered n={n}'))
    return out

# ------------------------------------------------------------------ scalar
def scalar_contents(t, rng, deep):
    """(tag, sorted key values) reaching dense, sparse and hashed representations anywhere in the range"""
    lo, hi = bounds(t)
    ok = lambda xs: sorted({x for x in xs if legal(t, x)})
    mid = (lo + hi) // 2
    c = [('empty', []), ('min', ok([lo, lo + 1])[:1]), ('max', ok([hi]))]
    for tag, a in (('lo', lo), ('mid', mid), ('zero', 0), ('hi', hi - 8), ('one', 1)):
        c.append((f'dense-{tag}', ok(range(a, a + 9))))
    c.append(('dense-big', ok(range(max(lo, -60), max(lo, -60) + 140))))
    if t in NZ:
        c.append(('around-zero', ok(range(-3, 5))))
    for tag, a in (('lo', lo), ('mid', mid), ('hi', hi - 60)):
        c.append((f'sparse-{tag}', ok([a, a + 1, a + 2, a + 5, a + 9, a + 21, a + 40, a + 60])))
    c.append(('sparse-gap10', ok([mid + 10 * i for i in range(9)])))
    c.append(('sparse-127', ok([mid - 63, mid - 1, mid + 64])))
    c.append(('sparse-128', ok([mid - 64, mid - 1, mid + 64])))
    c.append(('extremes', ok([lo, hi, 1, 2, lo + 1, hi - 1])))
    c.append(('minmax', ok([lo, lo + 1, hi])))
    c.append(('general', ok([lo + (hi - lo) * i // 12 for i in range(13)])))
    c.append(('clusters', ok([lo, lo + 1, lo + 3, mid, mid + 2, hi - 3, hi - 1, hi])))
    c.append(('pow2', ok([2 ** i for i in range(0, 64, 3)] + [-2 ** i for i in range(0, 64, 5)])))
    # one hole, and sizes and spans around the 8-bit magnitude
    for n in (9, 41, 140, 300):
        if n + 4 < hi - lo:
            for tag, a in (('lo', lo), ('zero', 0), ('hi', hi - n), ('mid', mid - n // 2)):
                if a + n <= hi:
                    h = a + rng.choice([1, 2, n // 2, n - 2, n - 1, rng.randint(1, n - 1)])
                    c.append((f'hole{n}-{tag}', ok(x for x in range(a, a + n + 1) if x != h)))
    for n in (254, 255, 256, 257):
        if n + 4 < hi - lo:
            a = rng.choice([lo, 0, 1, hi - n, mid - n // 2])
            a = min(a, hi - n)
            c.append((f'dense{n}', ok(range(a, a + n))))
            m = rng.randint(30, n - 2)
            c.append((f'span{n}', ok([a, a + n - 1] + rng.sample(range(a + 1, a + n - 1), m))))
            b = rng.choice([4, 8, 16, 32])
            c.append((f'mod{n}', ok(lo + 3 + i + 1024 * b * rng.randint(0, 40) for i in range(n)) if hi - lo > 10 ** 7 else []))
    for n in (8, 16, 64):
        c.append((f'perfect{n}', ok(lo + 5 + i + n * rng.randint(0, min(9 * n, (hi - lo - 5) // n - 1)) for i in range(n)) if hi - lo > 10 * n else []))
    if deep:
        for r in range(6):
            c.append((f'rnd{r}', ok([rng.randint(lo, hi) for _ in range(rng.randint(1, 60))])))
            a = rng.randint(lo, max(lo, hi - 200))
            c.append((f'rndsp{r}', ok([a + rng.randint(0, 150) for _ in range(rng.randint(1, 40))])))
    return c

def scalar_absent(t, ks, rng):
    lo, hi = bounds(t)
    c = {lo, hi, lo + 1, hi - 1, 0, 1, -1, (lo + hi) // 2}
    for k in ks[:40] + ks[-3:]:
        c |= {k - 1, k + 1}
        if BITS[NZ.get(t, t)] > 16:
            c |= {k + 2 ** 16, k - 2 ** 16, k ^ (1 << 31)}
        if BITS[NZ.get(t, t)] > 32:
            c |= {k + 2 ** 32, k - 2 ** 32, k ^ (1 << 63)}
        if BITS[NZ.get(t, t)] > 8:
            c |= {k + 256, k - 256, k + 1024, k - 4096}
        c |= {k + 8, k - 16, k + 64}
    present = set(ks)
    if len(ks) > 1 and ks[-1] - ks[0] < 4 * len(ks) + 1000:      # holes
        h = [x for x in range(ks[0], ks[-1]) if x not in present]
        c |= set(h if len(h) < 6 else rng.sample(h, 6))
        must = set(h[:3])
    else:
        must = set()
    c = sorted(x for x in c if legal(t, x) and x not in present)
    if len(c) > 60:
        c = c[:10] + c[-10:] + rng.sample(c[10:-10], 40)
        c = sorted(set(c) | {x for x in must if legal(t, x)})
    return c

def contiguous(ks):
    return not ks or len(ks) - 1 == ks[-1] - ks[0]

def scalar_profiles(types, rng, deep=False, only=None):
    out = []
    for t in types:
        if t in ENUMS:
            n = ENUMS[t]
            subs = [('all', range(n)), ('empty', []), ('first', [0]), ('last', [n - 1]), ('odd', range(1, n, 2)), ('ends', sorted({0, n - 1})), ('run', range(n // 3, max(n // 3, n - n // 4)))]
            if n > 150:
                subs += [('sparse10', range(0, n, 10)), ('sparse11', range(0, n, 11)), ('two', [3, 131]), ('three', [3, 20, 250])]
            seen = set()
            for tag, ks in subs:
                ks = list(ks)
                if tuple(ks) in seen:
                    continue
                seen.add(tuple(ks))
                m = ['fz']
                if t == 'E9':
                    m += ['sparse', 'hms', 'hms8'] + (['dense'] if contiguous(ks) else [])
                out.append(mk('h_scalar', t, list(range(n)), ks, m, ['fz'], 'good', f'enum {t} {tag}'))
            continue
        extra = re.compile(r'^(hole|dense2|span|mod2|perfect)')
        for tag, ks in scalar_contents(t, rng, deep):
            if only and not only(tag):
                continue
            if extra.match(tag) and not deep and not only and (not ks or rng.random() > (.55 if t in ('u64', 'i32', 'i8', 'u16') else .2)):
                continue
            m = ['fz']
            if t in ('u64', 'i8', 'i32'):
                m += ['hms']
                if len(ks) < 250:
                    m += ['hms8']
                if contiguous(ks):
                    m += ['dense']
                if not ks or ks[-1] - ks[0] < 5000:
                    m += ['sparse']
            out.append(mk('h_scalar', t, sorted(set(ks) | set(scalar_absent(t, ks, rng))), ks, m, ['fz'], 'good', f'scalar {t} {tag}'))
    return out

# ------------------------------------------------------------------ strings
def string_contents(rng, deep):
    c = [('empty', []), ('just-empty', ['']), ('one', ['solo']), ('one-char', ['a', 'b', 'c', 'd'])]
    for n in (2, 3, 4, 6, 9, 20, 50):
        c += [
            (f'left{n}', [f"{i:03d}-common" for i in range(n)]),
            (f'right{n}', [f"common-{i:03d}" for i in range(n)]),
            (f'leftmix{n}', [f"{i:03d}" + 'z' * (i % 6) for i in range(n)]),
            (f'rightmix{n}', ['z' * (i % 6) + f"{i:03d}" for i in range(n)]),
            (f'middle{n}', [f"pre{i:03d}post" for i in range(n)]),
            (f'length{n}', ['a' * i for i in range(n)]),
            (f'lengthne{n}', ['b' * (i + 1) for i in range(n)]),
            (f'uni{n}', [f"ключ{i}é😀{'ß' * (i % 3)}" for i in range(n)]),
            (f'withempty{n}', [''] + [f"w{i}" for i in range(n)]),
            (f'short{n}', ['q'] + [f"long-{i:04d}-key" for i in range(n)]),
        ]
    c += [('binaryish', [''.join('ab'[(i >> j) & 1] for j in range(6)) for i in range(64)]),
          ('anagrams', ['abcd', 'abdc', 'acbd', 'acdb', 'adbc', 'adcb', 'bacd', 'dcba']),
          ('nested', ['a', 'ab', 'abc', 'abcd', 'abcde', 'abcdef']),
          ('nestedr', ['f', 'ef', 'def', 'cdef', 'bcdef', 'abcdef']),
          ('zeros', ['\0', '\0\0', '\0\0\0', 'a\0', '\0a']),
          ('blanks', [' a', ' b', '  c', ' a ', 'a ', 'A', 'a', 'b', '\ta']),
          ('blankright', [f"{' ' * (i % 3)}key {i:03d}" for i in range(12)]),
          ('blankleft', [f"{i:03d} key{' ' * (i % 3)}" for i in range(12)]),
          ('cases', [w for i in range(8) for w in (f"Word{i}", f"word{i}", f"WORD{i}")]),
          ('unileft', [f"{c}-ключ" for c in 'абвгдежзик']),
          ('uniright', [f"ключ-{c}" for c in 'абвгдежзик']),
          ('unimid', [f"é{i}" + 'ж' * (i % 4) + f"{i:02d}😀" for i in range(20)]),
          ('escapes', ['"', '\\', '\n', '\t', '\u2028', '/', '\u0001', 'a"b', "'"]),
          ('big130', [f"{i * 7:05d}/{'y' * (i % 9)}" for i in range(130)]),
          ('big300', [f"item{i:04d}" for i in range(300)])]
    if deep:
        for r in range(30):
            n = rng.randint(1, 80)
            al = rng.choice(['ab', 'abc', '01', 'abcdefgh', 'aé', 'xyz😀'])
            c.append((f'rnd{r}', sorted({''.join(rng.choice(al) for _ in range(rng.randint(0, rng.choice([3, 6, 12, 40])))) for _ in range(n)})))
    return c

def string_absent(ks, rng):
    c = {'', 'a', 'zz', 'common', 'q' * 40}
    for k in ks[:30] + ks[-2:]:
        c |= {k + 'x', 'x' + k, k[:-1], k[1:], k[:len(k) // 2], k[len(k) // 2:], k + k, k[::-1]}
        if k:
            m = len(k) // 2
            c |= {k[:m] + '#' + k[m + 1:], '#' + k[1:], k[:-1] + '#', k[:m] + k[m:].swapcase()}
    alike = set()
    for k in ks[:8] + ks[-2:]:
        alike |= {' ' + k, k + ' ', '\t' + k, k + '\n', '\0' + k, k + '\0', k.strip(), k.upper(), k.lower(), k.swapcase(), '\ufeff' + k, k.replace('-', '_'), '"' + k + '"'}
    alike = sorted(x for x in alike if x not in set(ks))
    c = sorted(x for x in c if x not in set(ks))
    if len(c) > 80:
        c = ['', 'a', 'zz', 'q' * 40] + rng.sample(c, 76)
    c += rng.sample(alike, min(len(alike), 45))
    return [x for x in dict.fromkeys(c) if x not in set(ks)]

def string_profiles(rng, deep=False, bhs=('good',), only=None):
    out = []
    for tag, ks in string_contents(rng, deep):
        if only and not only(tag):
            continue
        for bh in bhs:
            n = len(ks)
            ml = min((len(k.encode()) for k in ks), default=0)
            m = ['fz', 'fzd', 'hm', 'ln']
            if ml >= 1:
                m += ['lr:0:1', 'rr:0:1', f'lr:{ml // 2}:{ml}', f'rr:{ml // 2}:{ml}', f'lr:0:{ml}', f'rr:0:{ml}']
            ks2 = list(ks)
            rng.shuffle(ks2)
            out.append(mk('h_string', 'str', ks2 + string_absent(ks, rng), ks, m, ['fz', 'fzd'], bh, f'string {tag} bh={bh}'))
    return out

# ------------------------------------------------------------------ generated collections
_core = None
def core_profiles(want=None):
    """the fixed collections of core/ (see mkcore.py): what the macros emit, one per representation and kind"""
    global _core
    if _core is None:
        _core = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'core.json')))
    out = []
    for c in _core:
        if want and not want(c):
            continue
        kind = c['d']['kind']
        p = Prof(c['bin'], c['k'], c['uni'], c['present'], c['absent'], [c['ty']] if kind == 'map' else [], [c['ty']] if kind == 'set' else [], 'good', f"generated {c['ty']} {json.dumps(c['d'])}")
        p.fixed = {c['ty']: c['en']}
        out.append(p)
    return out
