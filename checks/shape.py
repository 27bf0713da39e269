"""R01: the descriptions of all types of the universe, against spec/Shape.tla."""
from lib import *
import lib

def run(prop):
    r = Result(prop)
    try: fv = build()
    except DeclarationError as e:
        # the description of these types is not even to be had
        r.violation(str(e), {'property': prop, 'mode': 'shape', 'error': str(e)})
        r.sample('no type: they do not compile')
        return r.finish()
    g = Tlc('ShapeGen', {}).run()
    r.tlc(g)
    lines = sorted(g.lines, key=lambda l: json.loads(l)['sh'])
    for l in (lines[0], lines[200], lines[-1]): r.sample(type_name(json.loads(l)['sh']))
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines):
    diffs, outs = replay(fv, 'shape', lines, outputs=True)
    r.count(types_described=len(lines))
    for i, kind, msg in diffs: r.violation(f'[{kind}] {msg}: {show(lines[i])}', {'property': prop, 'mode': 'shape', 'case': json.loads(lines[i]), 'difference': [kind, msg]})
    t, verdicts = judged('ShapeJudge', lines, outs)
    r.tlc(t)
    r.count(descriptions_judged=len(verdicts))
    for i, v in sorted(verdicts, key=lambda x: x[0]):
        ty = type_name(json.loads(lines[i])['sh'])
        for w in v['wrong']:
            r.violation(f'the description of {ty} is wrong about: {w}', {'property': prop, 'mode': 'shape', 'case': json.loads(lines[i]), 'wrong': w, 'outcome': outs[i]}, key=f"{w.replace(' ', '-')}:{ty}")
