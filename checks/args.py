"""A01: command-line arguments against spec/Args.tla."""
from lib import *
import lib

READ = ['Args', 'Args1', 'Args2', 'Args3', 'Args4', 'Args5', 'Args6']
RANDOM = declared('Ra')
# 'panic' is how arguments are refused
KINDS = {'A01': {'crash', 'hang', 'value', 'accept', 'refuse'}}

def run(prop):
    fv = build()
    r = Result(prop)
    thorough = lib.TIER == 'thorough'
    lines = []
    for salt, (mode, num) in enumerate([('valid', 6500), ('misfit', 8500)]):
        gen, l = generate('ArgsGen', {'Mode': mode, 'Types': set(READ + RANDOM), 'Deep': 2}, num * (12 if thorough else 1), 600 + salt)
        r.tlc(*gen)
        lines += l
    for types, longest in (((['Args5'], 6), (READ, 4)) if thorough else ((['Args5', 'Args1'], 4), (READ, 3))):
        x = Tlc('ArgsEx', {'Types': set(types), 'Longest': longest}, ['Same_', 'InOrder', 'Emit'], timeout=3000).run()
        r.tlc(x); lines += x.lines
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'args', 'ArgsJudge', KINDS[prop])
