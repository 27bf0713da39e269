"""T01, T02: TOML against spec/Toml.tla."""
from lib import *
import lib

READ = ['Cfg', 'TomlE', 'TomlM', 'TomlO', 'Person', 'Ints', 'Flts', 'Node', 'Flat', 'MpX', 'CfgO', 'Mode', 'Shp', 'HashMap<String,String>', 'HashMap<String,Shp>', 'InvJ', 'Outer', 'Tv', 'Mix', 'FormU', 'Opts'] + declared('Rt')
RULES = ['Ren', 'DfF', 'DfW', 'Deny', 'DenyD', 'NsD']
# types that are not read, or hold things whose release is watched: only how reading ends matters
HOSTILE = ['P2', 'Nest', 'Vec<Tk>', 'Option<Tk>', 'En', 'HasEn', 'Maps', 'HashMap<String,Tk>', 'Vec<P2>', 'Arr', 'JOut', 'Wrap', 'Tup', 'unit', 'NzU', 'char', 'u8', 'String', 'Vec<u8>', 'Inv2', 'Deep', 'HashMap<bool,i8>'] + declared('Rg')

BASIC = {'crash', 'hang', 'panic', 'ways', 'mem'}
KINDS = {p: BASIC | {'value', 'accept', 'refuse'} for p in ('T01', 'T02')}
PLAN = {
    'T01': [('valid', READ, 3, 7500), ('valid', ['Ints', 'Flts', 'TomlM', 'Cfg'], 4, 3000)],
    'T02': [('misfit', READ, 3, 7500), ('garbled', READ + RULES, 3, 3000), ('garbled', HOSTILE, 2, 2000), ('misfit', HOSTILE, 2, 2500)],
}

def deep_cases():
    """nesting far deeper than any stack"""
    def c(ty, pre, open_, mid, close, post, n):
        b = lambda s: list(s.encode())
        return {'k': 'deep', 'sh': index(ty), 'n': n, 'pre': b(pre), 'open': b(open_), 'mid': b(mid), 'close': b(close), 'post': b(post), 'small': b(pre + open_ * 3 + mid + close * 3 + post), 'd': {'j': 'open'}}
    r = []
    for n in (60, 5000):
        for ty in ('Person', 'Node', 'Cfg', 'HashMap<String,String>', 'Flat', 'TomlE'):
            for o, m, cl in (('[', '', ']'), ('{a=', '1', '}'), ('[{x=', '[]', '}]'), ('[', '1', ''), ('{a=', '', ''), ('{kids=[', '', ']}')):
                r.append(c(ty, 'kids=', o, m, cl, '', n))
            r.append(c(ty, '', 'a.', 'a=1', '', '', n))
            r.append(c(ty, '[', 'a.', 'a]', '', '', n))
            r.append(c(ty, '[[', 'a.', 'a]]', '', '', n))
            r.append(c(ty, '', '[kids]\n', '', '', '', n))
            r.append(c(ty, '', '[[kids]]\n', 'v=1', '', '', n))
    for n in (20, 40): r.append(c('Node', '', 'v=1\nkids=[{', 'v=2', '}]', '', n))
    for n in (3, 10, 25): r.append(c('Node', 'v=1\nkids=[', '{v=1,kids=[', '', ']}', ']', n))
    return r

def run(prop):
    fv = build()
    r = Result(prop)
    thorough = lib.TIER == 'thorough'
    lines = []
    salt = int(prop[1:]) * 10 + 300
    for mode, types, depth, num in PLAN[prop]:
        salt += 1
        gen, l = generate('TomlGen', {'Mode': mode, 'Types': set(types), 'Deep': depth}, num * (12 if thorough else 1), salt)
        r.tlc(*gen)
        lines += l
    if prop == 'T02': lines += [json.dumps(c) for c in deep_cases()]
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'toml', 'TomlJudge', KINDS[prop])
