"""Y01: YAML against spec/Yaml.tla."""
from lib import *
import lib

READ = ['Ym', 'YmI', 'Flat', 'Form', 'FormU', 'FormV', 'u64', 'String', 'Mp0'] + declared('Ru')
# types that are not read (all or in part), or hold things whose release is watched
OTHER = ['P2', 'Nest', 'Vec<Tk>', 'Option<Tk>', 'En', 'HasEn', 'Maps', 'HashMap<String,Tk>', 'Arr', 'JOut', 'Wrap', 'Tup', 'unit', 'NzU', 'char', 'u8', 'Vec<u8>', 'Inv2', 'Deep', 'Cfg', 'CfgO',
         'Person', 'Node', 'MpL', 'MpN', 'MpT', 'Ren', 'DfF', 'Deny', 'Option<String>', 'HashMap<String,String>', 'Vec<Flat>', 'Mix', 'Ints', 'bool', 'i64', 'f64', 'u32']

KINDS = {'Y01': {'crash', 'hang', 'panic', 'ways', 'mem', 'value', 'accept', 'refuse'}}
PLAN = [('valid', READ, 3, 6000), ('misfit', READ, 3, 5000), ('garbled', READ, 3, 3000), ('misfit', OTHER, 2, 2500), ('garbled', OTHER, 2, 1500)]

def deep_cases():
    """nesting far deeper than any stack would take if every level were visited, and documents that are not there"""
    b = lambda s: list(s.encode())
    def c(ty, pre, open_, mid, close, post, n):
        return {'k': 'deep', 'sh': index(ty), 'n': n, 'pre': b(pre), 'open': b(open_), 'mid': b(mid), 'close': b(close), 'post': b(post), 'small': b(pre + open_ * 3 + mid + close * 3 + post), 'd': {'j': 'open'}}
    r = []
    for ty in ('Ym', 'Flat', 'FormU', 'u64', 'Node'):
        for o, m, cl in (('[', '', ']'), ('{a: ', '1', '}'), ('[{x: ', '[]', '}]'), ('[', '1', ''), ('{a: ', '', ''), ('- ', '1', ''), ('? ', '1', ''), ('- - ', 'a: 1', '')):
            r.append(c(ty, '', o, m, cl, '\n', 100))
    for s in ('', '\n', '---\n', '---\n---\n', '...\n', '#', '%', '%YAML 1.2\n', '&a', '*a', '!', '!!str', '!!int x', '!!int', '- \n-', '? a', ': 1', '|', '>', '|9', '"', "'", '{', '[', 'k: *a\nv: 1', 'k: &a x\nv: *a', '\ufeffk: a\nv: 1\n', '\t', 'k: a\n\tv: 1', '@', '`', 'k: a: b'):
        for ty in ('Flat', 'u64', 'String', 'P2'):
            r.append({'k': 'read', 'sh': index(ty), 'b': b(s), 'd': {'j': 'open'}})
    return r

def run(prop):
    fv = build()
    r = Result(prop)
    lines = []
    for salt, (mode, types, depth, num) in enumerate(PLAN):
        gen, l = generate('YamlGen', {'Mode': mode, 'Types': set(types), 'Deep': depth}, num * (12 if lib.TIER == 'thorough' else 1), 400 + salt)
        r.tlc(*gen)
        lines += l
    lines += [json.dumps(c) for c in deep_cases()]
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'yaml', 'YamlJudge', KINDS[prop])
