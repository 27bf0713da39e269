"""R02, R03, R04: reading values, operations on them, and typed access, through reflection (spec/View.tla, spec/Ops.tla, spec/Pair.tla)."""
from lib import *
import lib

MODE = {'R02': ('walk', 'View', 3), 'R03': ('ops', 'Ops', 2), 'R04': ('pair', 'Pair', 0)}

def run(prop):
    fv = build()
    r = Result(prop)
    mode, mod, deep = MODE[prop]
    types = all_types()
    if prop == 'R04':
        g = Tlc('PairGen', {'All': lib.TIER == 'thorough'}).run()
        gen, lines = [g], sorted(g.lines, key=lambda l: json.loads(l)['sh'])
    else: gen, lines = generate(mod + 'Gen', {'Types': types, 'Deep': deep}, (60000 if lib.TIER == 'thorough' else 6000), 900 + (prop == 'R03'))
    r.tlc(*gen)
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines):
    mode, mod, _ = MODE[prop]
    given = lines
    if prop == 'R04':  # every case needs a value of every type
        vs = Tlc('CanonGen', {}).run().lines[0]
        given = [l[:-1] + ',' + vs[1:] for l in lines]
        r.count(pairs_of_types=sum(len(json.loads(l)['few']) for l in lines))
    diffs, outs = replay(fv, mode, given, outputs=True)
    r.count(cases_replayed=len(lines), types=len({json.loads(l)['sh'] for l in lines}))
    for i, kind, msg in diffs:
        ty = type_name(json.loads(lines[i])['sh'])
        r.violation(f'[{kind}] {msg}: {show(lines[i])}', {'property': prop, 'mode': mode, 'case': json.loads(lines[i]), 'difference': [kind, msg]}, key=f'{kind}:{ty}')
    t, verdicts = judged(mod + 'Judge', lines, outs)
    r.tlc(t)
    r.count(outcomes_judged=len(verdicts))
    for i, v in sorted(verdicts, key=lambda x: x[0]):
        ty = type_name(json.loads(lines[i])['sh'])
        for w in v['wrong']:
            r.violation(f'wrong about {ty}: {w}: {show(lines[i])}', {'property': prop, 'mode': mode, 'case': json.loads(lines[i]), 'wrong': w, 'outcome': outs[i]}, key=f"{w.replace(' ', '-')}:{ty}")
