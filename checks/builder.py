"""W01-W06: the incremental builder against spec/Builder.tla."""
from lib import *
import lib

SMALL = ['P2', 'Mix', 'Tup', 'Un', 'En', 'EnC', 'En16', 'Tk', 'Vec<Tk>', 'Vec<Un>', 'Vec<u8>', 'Option<P2>', 'Option<Un>', 'Option<Option<Tk>>', 'Option<Tk>',
         'HashMap<u8,Tk>', 'HashMap<String,Tk>', 'BTreeMap<u8,Tk>', '(Tk,u8)', '[Tk;2]', 'Arc<Tk>', 'DefS', 'Gen<Tk>', 'Gen<u8>', 'Option<NoTr>', 'Vec<NoTr>', 'Units']
BIG = ['Nest', 'Deep', 'HasEn', 'Rec', 'Maps', 'Opts', 'HasNoTr', 'Arr', 'Vec<P2>', 'Vec<En>', 'Vec<Vec<Tk>>', 'Vec<Option<Tk>>', 'Option<En>',
       'HashMap<u8,Vec<Tk>>', 'HashMap<KeyS,Tk>', 'HashMap<u8,P2>', 'BTreeMap<String,P2>', 'HashMap<u8,Option<Tk>>', 'HashMap<u8,En>', 'Vec<HashMap<u8,Tk>>', 'Option<Vec<Tk>>']
INV = ['Inv', 'Inv2', 'Inv3', 'HasInv', 'Vec<HasInv>']
# positions inside positions
NESTED = ['HasEn', 'Deep', 'Nest', 'Opts', 'Maps', 'Rec', 'Option<En>', 'Vec<En>', 'HashMap<u8,P2>']
WIDE = ['W63', 'W64']
ALL = SMALL + BIG + INV
# every other type there is (structs of more than 64 fields make the builder panic)
RANDOM = sorted(all_types() - set(ALL) - {'W100'})
PLAIN = sorted(set(RANDOM) & plain_types())

# which differences each property is about
KINDS = {
    'W01': {'mem', 'crash', 'hang', 'panic'},
    'W02': {'complete', 'crash', 'hang', 'panic'},
    'W03': {'value', 'crash', 'hang', 'panic'},
    'W04': {'accept', 'access', 'crash', 'hang', 'panic'},
    'W05': {'report', 'crash', 'hang', 'panic'},
    'W06': {'complete', 'mem', 'value', 'crash', 'hang', 'panic'},
}
# (roots, steps) explored exhaustively; (roots, steps) of which all accepted sequences are explored; (roots, longest, refused %, behaviours) walked at random
PLAN = {
    'W01': dict(acc=[(PLAIN, 2), (ALL, 4), (NESTED, 5)], ex=[(['Option<Tk>', 'En'], 4), (['Vec<Tk>', 'HashMap<u8,Tk>', 'P2'], 3)], walk=[(ALL, 40, 1, 6000), (RANDOM, 60, 1, 2500)], fan=5),
    'W02': dict(acc=[(PLAIN, 2), (ALL, 4), (NESTED, 5)], ex=[(['P2', 'En'], 4), (['Nest', 'HasEn', 'Opts', 'Units'], 3)], walk=[(ALL, 40, 0, 5500), (RANDOM, 60, 0, 2500)], omit=[(WIDE, 'up'), (['W64'], 'down')]),
    'W03': dict(acc=[(PLAIN, 2), (ALL, 4), (NESTED, 5)], ex=[(['HashMap<u8,Tk>', 'Option<Option<Tk>>', 'Vec<Tk>'], 4)], walk=[(ALL, 40, 0, 6000), (RANDOM, 60, 0, 2500)]),
    'W04': dict(acc=[(PLAIN, 2), (ALL, 4)], ex=[(ALL, 2), (['Option<Tk>', 'En', 'HashMap<u8,Tk>'], 3)], walk=[(ALL, 40, 0, 5000), (RANDOM, 60, 0, 2500)], fan=15),
    'W05': dict(acc=[(PLAIN, 2), (ALL, 4), (NESTED, 6)], ex=[(['Deep', 'HasEn', 'Vec<P2>', 'Option<P2>'], 3)], walk=[(ALL, 40, 0, 6000), (RANDOM, 60, 0, 2500), (WIDE, 60, 0, 24)], fan=5),
    'W06': dict(acc=[(INV, 6)], ex=[(['Inv'], 4), (INV, 3)], walk=[(INV, 50, 1, 6000)]),
}
THOROUGH = {
    'W01': dict(acc=[(PLAIN, 3), (ALL, 5), (NESTED, 7)], ex=[(['Option<Tk>', 'En'], 5), (ALL, 3)], walk=[(ALL, 60, 1, 60000), (RANDOM, 80, 1, 30000), (BIG, 80, 0, 30000)], fan=5),
    'W02': dict(acc=[(PLAIN, 3), (ALL, 5), (NESTED, 7)], ex=[(['P2', 'En'], 5), (ALL, 3)], walk=[(ALL, 60, 0, 80000), (RANDOM, 80, 0, 30000), (WIDE, 140, 0, 400)], omit=[(WIDE, 'up'), (WIDE, 'down')]),
    'W03': dict(acc=[(PLAIN, 3), (ALL, 5), (NESTED, 7)], ex=[(['HashMap<u8,Tk>', 'Option<Option<Tk>>', 'Vec<Tk>'], 5), (ALL, 3)], walk=[(ALL, 60, 0, 80000), (RANDOM, 80, 0, 30000)]),
    'W04': dict(acc=[(PLAIN, 3), (ALL, 5)], ex=[(ALL, 3), (['Option<Tk>', 'En', 'HashMap<u8,Tk>'], 4)], walk=[(ALL, 60, 4, 60000), (RANDOM, 80, 4, 30000)], fan=15),
    'W05': dict(acc=[(PLAIN, 3), (ALL, 6), (NESTED, 7)], ex=[(['Deep', 'HasEn', 'Vec<P2>', 'Option<P2>'], 4), (ALL, 3)], walk=[(ALL, 60, 0, 80000), (RANDOM, 80, 0, 30000), (WIDE, 80, 0, 200)], fan=5),
    'W06': dict(acc=[(INV, 8)], ex=[(['Inv'], 5), (INV, 4)], walk=[(INV, 60, 1, 60000)]),
}
INVARIANTS = ['Conserved', 'Clean', 'BuiltIsWhole', 'FramesTyped', 'Emit']

def run(prop):
    fv = build()
    r = Result(prop)
    plan = (THOROUGH if lib.TIER == 'thorough' else PLAN)[prop]
    salt = SEED * 1000 + int(prop[1:])
    lines = []
    for roots, steps in plan['ex']:
        t = Tlc('BuilderGen', {'Roots': set(roots), 'MaxSteps': steps, 'RejectPct': 100, 'Rich': True, 'FanPct': 0, 'Omit': 'no'}, INVARIANTS, timeout=3000).run()
        r.tlc(t); lines += t.lines
    for roots, steps in plan['acc']:
        t = Tlc('BuilderGen', {'Roots': set(roots), 'MaxSteps': steps, 'RejectPct': 200, 'Rich': False, 'FanPct': 0, 'Omit': 'no'}, INVARIANTS, timeout=3000).run()
        r.tlc(t); lines += t.lines
    fan = plan.get('fan', 0)
    for roots, order in plan.get('omit', []):
        t = Tlc('BuilderGen', {'Roots': set(roots), 'MaxSteps': 1000, 'RejectPct': 0, 'Rich': True, 'FanPct': 0, 'Omit': order}, INVARIANTS, timeout=3000).run()
        r.tlc(t); lines += t.lines
    for roots, steps, rej, num in plan['walk']:
        t = Tlc('BuilderGen', {'Roots': set(roots), 'MaxSteps': steps, 'RejectPct': rej, 'Rich': True, 'FanPct': fan, 'Omit': 'no'}, INVARIANTS,
                simulate=max(1, num // JOBS), depth=steps + 5, seed=salt, timeout=3000).run()
        r.tlc(t); lines += t.lines
    for l in (lines[0], lines[len(lines) // 2], lines[-1]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines):
    diffs = replay(fv, 'builder', lines)
    r.count(traces_validated_against_impl=len(lines), steps_replayed=sum(l.count('"o":') for l in lines))
    for i, kind, msg in diffs:
        if kind in KINDS[prop]:
            r.violation(f'[{kind}] {msg}', {'property': prop, 'mode': 'builder', 'case': json.loads(lines[i]), 'difference': [kind, msg]})
