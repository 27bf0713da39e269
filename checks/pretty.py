"""P01, P02: the pretty printer against spec/Pretty.tla."""
from lib import *
import lib

SECRET = ['Sec', 'SecT', 'SecE', 'SecN', 'SecAll', 'Vec<Sec>', 'Option<SecE>', '(Sec,SecE)', 'Vec<SecN>', 'HashMap<String,Sec>', 'Vec<Option<Sec>>', '[SecE;2]', 'Arc<Sec>'] + declared('Rg', lambda u: '"sens": true' in json.dumps(u))
OTHER = ['Doc', 'DocE', 'DocT', 'Vec<DocE>', 'Bytes', 'Vec<u8>', 'Vec<Vec<u8>>', 'Zst', 'Nest', 'HasEn', 'En', 'EnC', 'Opts', 'Arr', 'Rec', 'Node', 'Vec<Node>', 'Gen<u8>', 'Gen<Tk>', 'Ints', 'Flts', 'NzI',
         'Person', 'Ren', 'Outer', 'JOut', 'Cfg', 'TomlE', 'Shp', 'Vec<Option<i64>>', 'Option<Option<u8>>', 'HashMap<u8,En>', 'Maps', 'unit', 'char', 'f64', 'u128', 'String', 'Un', 'Tup', 'W63', 'MpX', 'Vec<HashMap<u8,Tk>>', 'SecE', 'SecN'] + declared('Rg') + declared('Rt')
# what PhantomData is called is up to the compiler; the descriptions of the others are wrong about what is sensitive (a known finding of R01)
UNNAMED = {'PhU8', 'PhNo', 'Ph', 'CommaArb', 'CommaRen'}
KINDS = {'P01': {'leak', 'shown', 'panic', 'crash', 'hang', 'ways'}, 'P02': {'shown', 'layout', 'color', 'panic', 'crash', 'hang', 'ways', 'value', 'mem'}}

def run(prop):
    fv = build()
    r = Result(prop)
    gen, lines = generate('PrettyGen', {'Types': set(SECRET if prop == 'P01' else OTHER), 'Deep': 3}, (40000 if lib.TIER == 'thorough' else 4500), 700 + (prop == 'P02'))
    r.tlc(*gen)
    if prop == 'P02':
        gen, more = generate('PrettyGen', {'Types': all_types() - UNNAMED, 'Deep': 3}, (40000 if lib.TIER == 'thorough' else 2500), 702)
        r.tlc(*gen); lines += more
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'pretty', 'PrettyJudge', KINDS[prop])
