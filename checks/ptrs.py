"""R05: reference-counted pointers through their shapes (spec/Ptr.tla): all short sequences of operations, random long ones, replayed."""
from lib import *
import lib

TYPES = {'u8', 'u128', 'unit', 'String', 'Tk', 'P2', 'En', 'LyA', 'Vec<Tk>', 'Option<Tk>', '[Tk;2]', 'HashMap<String,Tk>', 'Arc<Tk>', 'Weak<Tk>'}

def run(prop):
    fv = build()
    r = Result(prop)
    deep = lib.TIER == 'thorough'
    # the machine itself: counts are right, values are dropped once, in every state
    r.tlc(Tlc('PtrMC', {'N': 5 if deep else 4, 'MaxCells': 4 if deep else 3}, invariants=('CountsHold', 'OnceHolds', 'KeptHolds')).run())
    base = {'Deep': 2, 'N': 4}
    runs = [Tlc('PtrGen', {'Types': TYPES, 'N': 4, 'Steps': 4, 'All': True}, heap='8g'),
            Tlc('PtrGen', {'Types': {'P2'}, 'N': 3, 'Steps': 7 if deep else 5, 'All': True}, heap='8g')]
    parallel(runs[:1]); parallel(runs[1:])
    g, walks = generate('PtrGen', {'Types': TYPES, 'N': 6, 'Steps': 50, 'All': False}, 40000 if deep else 4000, 905)
    r.tlc(*runs, *g)
    lines = [l for t in runs for l in t.lines] + walks
    for l in (runs[0].lines[0], runs[1].lines[len(runs[1].lines) // 2], walks[0]): r.sample(l[:1500])
    r.count(sequences_replayed=len(lines), operations_replayed=sum(l.count('"o":') for l in lines), all_short_sequences=len(lines) - len(walks))
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines):
    for i, kind, msg in replay(fv, 'rc', lines):
        ty = type_name(json.loads(lines[i])['sh'])
        r.violation(f'[{kind}] {msg}: {[(o["o"], o["i"]) for o in json.loads(lines[i])["h"]]}', {'property': prop, 'mode': 'rc', 'case': json.loads(lines[i]), 'difference': [kind, msg]}, key=f'{kind}:{ty}')
