"""J01-J05: JSON against spec/JsonDoc.tla."""
from lib import *
import lib

NUMS = ['Ints', 'Flts', 'NzU', 'NzI', 'Vec<f64>', 'Option<f32>', 'Vec<Option<i64>>', 'u64', 'i64', 'f64', 'f32', 'u8', 'i16']
TEXTS = ['String', 'Vec<String>', 'Person', 'Option<String>', 'Ren', 'char']
NESTED = ['Node', 'Outer', 'Vec<Person>', 'Option<Option<u8>>', 'Option<Vec<Option<bool>>>', 'Vec<bool>', 'InvJ', 'MpN']
RULES = ['Ren', 'DfF', 'DfW', 'Deny', 'DenyD', 'Outer', 'Person', 'InvJ', 'Flat', 'NsD', 'DnS', 'DwN', 'DfN']
RANDOM = declared('Rj')
READ = sorted(set(NUMS + TEXTS + NESTED + RULES + RANDOM))
WRITE = [t for t in READ if t != 'char']
OUT = ['JOut', 'Shp', 'Vec<Shp>', 'HashMap<String,Shp>', 'HashMap<String,String>', 'BTreeMap<u8,Vec<u8>>', 'HashMap<bool,i8>', 'BTreeMap<char,u8>', 'MpS', 'Cfg', 'TomlM', 'Wrap'] + declared('Rt')
# types that are not read, or hold things whose release is watched: only how reading ends matters
HOSTILE = ['P2', 'Nest', 'Vec<Tk>', 'Option<Tk>', 'En', 'HasEn', 'Maps', 'HashMap<String,Tk>', 'Vec<P2>', 'Arr', 'Shp', 'JOut', 'Wrap', 'Tup', 'unit', 'Opts'] + declared('Rg')

BASIC = {'crash', 'hang', 'panic', 'ways', 'mem'}
KINDS = {p: BASIC | {'value', 'accept', 'refuse', 'denotes', 'back'} for p in ('J01', 'J02', 'J03', 'J04', 'J05')}
# (mode, types, depth of values, cases)
PLAN = {
    'J01': [('write', WRITE + OUT, 3, 5000)],
    'J02': [('valid', NUMS, 3, 3500), ('valid', TEXTS, 3, 2000), ('valid', NESTED, 4, 2000), ('valid', RANDOM, 3, 2500)],
    'J03': [('write', WRITE, 4, 5000)],
    'J04': [('garbled', READ, 3, 8000), ('garbled', HOSTILE, 2, 4000)],
    'J05': [('fields', RULES, 3, 6000), ('fields', RANDOM, 3, 4000)],
}

# exhaustively: edits of one byte of these documents, and sequences of tokens (quick, thorough)
EX = {'J04': ([('bytes', ['Flat', 'list', 'float', 'int', 'text', 'utf8', 'unknown'], 'some'), ('tokens', ['Flat'], 4)],
              [('bytes', ['Flat', 'list', 'float', 'int', 'text', 'utf8', 'unknown'], 'all'), ('tokens', ['Flat', 'Vec<bool>'], 5), ('tokens', ['Vec<Flat>', 'Option<Vec<Option<bool>>>'], 4)])}

def deep_cases():
    """nesting far deeper than any stack: sh, and the pieces the document is made of"""
    def c(ty, pre, open_, mid, close, post, n):
        b = lambda s: list(s.encode())
        return {'k': 'deep', 'ty': ty, 'n': n, 'pre': b(pre), 'open': b(open_), 'mid': b(mid), 'close': b(close), 'post': b(post), 'small': b(pre + open_ * 3 + mid + close * 3 + post)}
    N = 20000
    r = []
    for o, m, cl in (('[', '', ']'), ('{"a":', '1', '}'), ('[{"x":', 'null', '}]'), ('[', '1', ''), ('{"a":', '', ''), ('[', '"', ']')):
        r.append(c("Flat", "{\"k\":\"a\",\"zz\":", o, m, cl, ",\"v\":3}", 200000 if cl and m != "\"" else N))
        for ty in ('Vec<bool>', 'Flat', 'Option<Vec<Option<bool>>>', 'Ints', 'String'): r.append(c(ty, '', o, m, cl, '', N))
    r.append(c('Node', '', '{"v":1,"kids":[', '', ']}', '', 300))
    r.append(c('Node', '', '{"v":1,"kids":[', '{"v":2,"kids":[]}', ']}', '', 300))
    r.append(c('Node', '', '{"v":1,"kids":[', '{"v":2}', ']}', '', 300))
    r.append(c('Node', '', '{"kids":[', '{"v":2,"kids":[]}', '],"v":-7}', ' ', 300))
    r.append(c('Vec<Vec<Tk>>', '', '[', '', ']', '', N))
    r.append(c('Node', '', '{"v":1,"kids":[', '', '', '', 1500))
    return r

def run(prop):
    fv = build()
    r = Result(prop)
    thorough = lib.TIER == 'thorough'
    lines = []
    salt = int(prop[1:]) * 10
    for mode, types, depth, num in PLAN[prop]:
        salt += 1
        gen, l = generate('JsonGen', {'Mode': mode, 'Types': set(types), 'Deep': depth}, num * (12 if thorough else 1), salt)
        r.tlc(*gen)
        if mode == 'write':
            l = [x[:-1] + ',"back":' + ('true' if prop == 'J03' else 'false') + '}' for x in l]
        lines += l
    for mode, what, size in EX[prop][thorough] if prop in EX else []:
        x = Tlc('JsonEx', {'Mode': mode, 'Docs': set(what) if mode == 'bytes' else set(), 'Types': set(what) if mode == 'tokens' else set(),
                           'Alphabet': size if mode == 'bytes' else 'some', 'Longest': size if mode == 'tokens' else 1}, ['Emit'], timeout=3000).run()
        r.tlc(x); lines += x.lines
    if prop == 'J04': lines += [json.dumps({**c, 'sh': index(c['ty'])}) for c in deep_cases()]
    for l in (lines[0], lines[len(lines) // 2], lines[-1]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'json', 'JsonJudge', KINDS[prop])
