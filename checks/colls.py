"""R06: lists, maps and options through their shapes (spec/Coll.tla): all short sequences of operations, random long ones, replayed."""
from lib import *
import lib

SMALL = {'Vec<Tk>', 'Option<Tk>', 'Option<Option<Tk>>', 'HashMap<u8,Tk>', 'HashMap<String,Tk>', 'BTreeMap<u8,Tk>', 'Vec<u8>', 'Vec<Option<Tk>>'}

def run(prop):
    fv = build()
    r = Result(prop)
    deep = lib.TIER == 'thorough'
    t = Tlc('CollGen', {'Types': SMALL, 'N': 2, 'Steps': 5 if deep else 4, 'All': True}, invariants=('ApartHolds', 'KeysHold'), heap='8g').run()
    g, walks = generate('CollGen', {'Types': set(), 'N': 3, 'Steps': 40, 'All': False}, 60000 if deep else 6000, 906)
    r.tlc(t, *g)
    lines = t.lines + walks
    for l in (t.lines[0], t.lines[len(t.lines) // 2], walks[0]): r.sample(l[:1500])
    r.count(sequences_replayed=len(lines), operations_replayed=sum(l.count('"o":') for l in lines), all_short_sequences=len(t.lines))
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines):
    for i, kind, msg in replay(fv, 'coll', lines):
        c = json.loads(lines[i])
        r.violation(f'[{kind}] {msg}: {[(o["o"], o["i"]) for o in c["h"]]}', {'property': prop, 'mode': 'coll', 'case': c, 'difference': [kind, msg]}, key=f'{kind}:{type_name(c["sh"])}')
