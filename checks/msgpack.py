"""M01-M03: MessagePack against spec/MsgPack.tla."""
from lib import *
import lib

READ = ['MpS', 'MpN', 'MpI', 'MpL', 'MpX', 'Mp0', 'MpT', 'Mp15', 'Mp16', 'Wrap', 'FormU', 'InvJ', 'Mix', 'Flat', 'YmI', 'CfgO',
        'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'String', 'bool'] + declared('Rm')
WIDE = ['W63', 'W64']
SMALL = ['MpS', 'MpN', 'MpL', 'MpX', 'FormU', 'InvJ', 'Mix', 'u8', 'i8', 'i64', 'u64', 'String', 'bool'] + declared('Rm')
# types that are not read, or hold things whose release is watched: only how reading ends matters
HOSTILE = ['P2', 'Nest', 'Vec<Tk>', 'Option<Tk>', 'En', 'HasEn', 'Maps', 'Deep', 'Arr', 'Shp', 'JOut', 'Person', 'Ren', 'DfF', 'Deny', 'Flts', 'Ints', 'NzU', 'char', 'unit', 'Vec<u8>', 'Option<String>', 'HashMap<String,String>', 'Inv2', 'Tup'] + declared('Rg')

BASIC = {'crash', 'hang', 'panic', 'ways', 'mem'}
KINDS = {p: BASIC | {'value', 'accept', 'refuse', 'denotes', 'back'} for p in ('M01', 'M02', 'M03')}
# (mode, types, depth of values, cases)
PLAN = {
    'M01': [('write', READ, 3, 5000), ('write', WIDE, 3, 60)],
    'M02': [('valid', READ, 3, 5000), ('fields', SMALL, 3, 2500), ('valid', WIDE, 3, 40), ('write', READ, 3, 2500)],
    'M03': [('garbled', READ, 3, 8000), ('fields', READ, 3, 3000), ('garbled', HOSTILE, 2, 3500)],
}
EX = {'M03': (['small', 'nested', 'edge', 'skip'], ['small', 'nested', 'edge', 'skip', 'long'])}

def big_cases():
    """texts at the bounds of the lengths the encodings have"""
    r = []
    for n in (65534, 65535, 65536, 65537, 70000):
        r.append({'k': 'write', 'sh': index('String'), 'v': {'t': 'str', 'c': [97] * n}, 'back': True})
        s = [97] * n
        r += [{'k': 'read', 'sh': index('String'), 'b': h + s} for h in ([218, n // 256 % 256, n % 256], [219, 0, n // 65536, n // 256 % 256, n % 256], [217, n % 256])]
        # ... that is skipped
        r.append({'k': 'read', 'sh': index('Flat'), 'b': [131, 161, 107, 160, 161, 122, 219, 0, n // 65536, n // 256 % 256, n % 256] + s + [161, 118, 5]})
        r.append({'k': 'read', 'sh': index('Flat'), 'b': [131, 161, 107, 160, 161, 122, 198, 0, n // 65536, n // 256 % 256, n % 256] + s + [161, 118, 5]})
    return r

def deep_cases():
    """values nested far deeper than any stack, to be skipped, and lengths nothing could have"""
    def c(ty, pre, open_, mid, close, post, n):
        return {'k': 'deep', 'sh': index(ty), 'n': n, 'pre': pre, 'open': open_, 'mid': mid, 'close': close, 'post': post, 'small': pre + open_ * 3 + mid + close * 3 + post}
    r = []
    head, tail = [131, 161, 107, 161, 97, 161, 122], [161, 118, 7]   # {"k": "a", "z": ..., "v": 7}
    for open_, mid, close in (([145], [192], []), ([129, 161, 97], [1], []), ([129], [2], [3]), ([146, 1], [5], []), ([146], [144], [161, 98]), ([222, 0, 1, 192], [128], []), ([221, 0, 0, 0, 1], [195], [])):
        r.append(c('Flat', head, open_, mid, close, tail, 200000))
        r.append(c('Flat', head, open_, [], [], [], 200000))
        r += [c(ty, [], open_, mid, close, [], 20000) for ty in ('Flat', 'String', 'u8', 'MpN', 'Vec<u8>')]
    big = [255, 255, 255, 255]
    for ty in ('String', 'Flat', 'MpN', 'Vec<u8>', 'HashMap<String,String>', 'Nest'):
        for p in (198, 201, 219, 221, 223):
            for n in (big, [127, 255, 255, 255], [128, 0, 0, 0], [16, 0, 0, 0], [0, 255, 255, 255]):
                r.append({'k': 'read', 'sh': index(ty), 'b': [p] + n + [161, 97]})
                r.append({'k': 'read', 'sh': index(ty), 'b': head + [p] + n + [161, 97] + tail})
    return r

def run(prop):
    fv = build()
    r = Result(prop)
    thorough = lib.TIER == 'thorough'
    lines = []
    salt = int(prop[1:]) * 10 + 200
    for mode, types, depth, num in PLAN[prop]:
        salt += 1
        gen, l = generate('MsgGen', {'Mode': mode, 'Types': set(types), 'Deep': depth}, num * (12 if thorough else 1), salt)
        r.tlc(*gen)
        if mode == 'write':
            l = [x[:-1] + ',"back":' + ('true' if prop == 'M02' else 'false') + '}' for x in l]
        lines += l
    if prop in EX:
        x = Tlc('MsgEx', {'Docs': set(EX[prop][thorough]), 'Longest': 3 if thorough else 2}, ['Emit'], timeout=3000).run()
        r.tlc(x); lines += x.lines
        lines += [json.dumps(c) for c in deep_cases()]
    if prop in ('M01', 'M02'): lines += [json.dumps(c) for c in big_cases() if prop == 'M02' or c['k'] == 'write']
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'msgpack', 'MsgJudge', KINDS[prop])
