#!/usr/bin/env python3
"""Writes the fixed core of generated programs (harness/src/bin/core_*.rs): one collection per emitted representation,
kind and key type, whose objects take part in the checks of C01..C11, C15 and C17.  The programs are macro
calls, so what they expand to is always decided by the tree under test.  Run by hand; the output is committed."""
import json, os, random, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import progs
VERIF = os.path.dirname(HERE)
CORE = os.path.join(VERIF, 'harness')

# (fam, keys, ty, pattern, key type, sizes)
LIST = [
    # literal integers: dense, sparse, collision-free and colliding tables, whatever the macro is called
    ('scalar', 'lit', 'int', 'dense', 'i32', [1, 5, 40]), ('scalar', 'lit', 'int', 'sparse', 'i32', [4, 33]), ('scalar', 'lit', 'int', 'perfect', 'i32', [8]),
    ('hash', 'lit', 'int', 'nocoll', 'i32', [7]), ('hash', 'lit', 'int', 'general', 'u64', [0, 2, 9, 130]), ('ordered', 'lit', 'int', 'general', 'u64', [3, 17]),
    ('scalar', 'lit', 'int', 'dense', 'u64', [300]), ('scalar', 'lit', 'int', 'span257', 'u64', [64]), ('scalar', 'lit', 'int', 'span256', 'u64', [64]), ('scalar', 'lit', 'int', 'nocoll', 'u64', [33, 300]),
    # literal strings
    ('string', 'lit', 'ref', 'left', 'ref', [5, 33]), ('string', 'lit', 'ref', 'right', 'ref', [9]), ('hash', 'lit', 'ref', 'rightmix', 'ref', [16]), ('ordered', 'lit', 'ref', 'length', 'ref', [8]),
    ('string', 'lit', 'ref', 'uni', 'ref', [7]), ('string', 'lit', 'ref', 'withempty', 'ref', [4]), ('string', 'lit', 'ref', 'general', 'ref', [1, 130]), ('string', 'lit', 'ref', 'middle', 'ref', [17]),
    ('string', 'lit', 'ref', 'leftmix', 'ref', [64]),
    # expressions
    ('hash', 'expr', 'own', 'general', 'String', [2, 4]), ('ordered', 'expr', 'own', 'general', 'String', [2, 7, 33]), ('ordered', 'expr', 'own', None, 'Tk', [2, 5, 17]), ('hash', 'expr', 'own', None, 'Tk', [0, 2, 3, 9]),
    ('scalar', 'expr', 'enum', 'general', 'E9', [7]), ('scalar', 'expr', 'enum', 'general', 'E5', [2, 5]), ('ordered', 'expr', 'enum', 'general', 'E9', [5]),
    ('string', 'expr', 'box', 'left', 'box', [5]), ('string', 'expr', 'box', 'general', 'box', [2, 16]),
]

def main():
    rng = random.Random('core')
    out = []
    for fam, keys, ty, pat, kt, sizes in LIST:
        for n in sizes:
            for kind in ('map', 'set'):
                d = {'fam': fam, 'kind': kind, 'form': rng.choice(['short', 'let', 'letmut'] if ty != 'ref' and ty != 'int' else ['short', 'let', 'letmut', 'static']), 'keys': keys, 'ty': ty, 'n': n, 'dup': False}
                if n == 0 or ty == 'own':
                    d['form'] = 'let' if n == 0 else d['form']
                for t in range(400):
                    P = progs.realise(len(out), d, 'macro', rng, pat, kt if ty in ('int', 'enum') else None)
                    if P and (ty != 'own' or P.K == kt):
                        break
                else:
                    raise SystemExit(f'no realisation of {d}')
                out.append(P)
    parts = {}
    for p in out:
        g = {'i32': 'i32', 'u64': 'u64', "&'static str": 'str', 'String': 'string', 'Tk': 'tk', 'E9': 'enum', 'E5': 'enum', 'Box<str>': 'enum'}[p.K]
        parts.setdefault(g, []).append(p)
    desc = []
    for g, ps in parts.items():
        text, _ = progs.source(ps, '../common')
        open(os.path.join(CORE, 'src', 'bin', f'core_{g}.rs'), 'w').write(text.replace('by bin/progs.py', 'by bin/mkcore.py'))
        for p in ps:
            desc.append({'bin': f'core_{g}', 'k': progs.tag_of(p.K), 'uni': p.uni, 'present': p.present, 'absent': p.absent, 'ty': p.fn, 'en': p.en, 'd': p.d})
    open(os.path.join(HERE, 'core.json'), 'w').write('[\n' + ',\n'.join(json.dumps(x, separators=(',', ':')) for x in desc) + '\n]\n')
    print(len(out), 'programs', {g: len(p) for g, p in parts.items()})
main()
