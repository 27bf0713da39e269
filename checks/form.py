"""U01: url-encoded forms against spec/Form.tla."""
from lib import *
import lib

READ = ['Form', 'FormU', 'FormV', 'Flat', 'YmI', 'Ym'] + declared('Ru')
# types that are not read (all or in part), or hold things whose release is watched
OTHER = ['P2', 'Nest', 'Vec<Tk>', 'Option<Tk>', 'En', 'HasEn', 'Maps', 'Arr', 'JOut', 'Wrap', 'Tup', 'unit', 'u64', 'String', 'Vec<u8>', 'Inv2', 'Deep', 'Cfg', 'CfgO', 'Person', 'MpL', 'MpN', 'MpT',
         'Ren', 'DfF', 'Deny', 'Option<String>', 'HashMap<String,String>', 'Mix', 'Ints', 'Mp0', 'MpX']

KINDS = {'U01': {'crash', 'hang', 'panic', 'ways', 'mem', 'value', 'accept', 'refuse'}}
PLAN = [('valid', READ, 3, 6000), ('misfit', READ, 3, 5000), ('garbled', READ, 3, 4000), ('misfit', OTHER, 2, 2500), ('garbled', OTHER, 2, 1500)]

def deep_cases():
    """brackets nested far deeper than any stack"""
    b = lambda s: list(s.encode())
    def c(ty, pre, open_, mid, close, post, n):
        return {'k': 'deep', 'sh': index(ty), 'n': n, 'pre': b(pre), 'open': b(open_), 'mid': b(mid), 'close': b(close), 'post': b(post), 'small': b(pre + open_ * 3 + mid + close * 3 + post)}
    r = []
    for ty in ('Form', 'Flat', 'FormU', 'P2'):
        for pre in ('', 'k', 'user', 'zz', 'k=a&v=1&user'):
            for o, m, cl in (('[a]', '=1', ''), ('[', '', ']'), ('[user]', '', ''), ('[more]', '[z]', ''), ('[]', '', '=')): r.append(c(ty, pre, o, m, cl, '', 60000))
        r.append(c(ty, '', 'k=a&v=1&', '', '', '', 20000))
    return r

def run(prop):
    fv = build()
    r = Result(prop)
    thorough = lib.TIER == 'thorough'
    lines = []
    for salt, (mode, types, depth, num) in enumerate(PLAN):
        gen, l = generate('FormGen', {'Mode': mode, 'Types': set(types), 'Deep': depth}, num * (12 if thorough else 1), 500 + salt)
        r.tlc(*gen)
        lines += l
    x = Tlc('FormEx', {'Docs': {'flat', 'twice', 'nest', 'deep'}, 'Longest': 6 if thorough else 5}, ['Emit'], timeout=3000).run()
    r.tlc(x); lines += x.lines
    lines += [json.dumps(c) for c in deep_cases()]
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'url', 'FormJudge', KINDS[prop])
