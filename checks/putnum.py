"""W07: floats put into numeric positions, against spec/PutNum.tla."""
from lib import *
import lib

TYPES = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'NonZeroU8', 'NonZeroU16', 'NonZeroU32', 'NonZeroU64', 'NonZeroUsize',
         'NonZeroI8', 'NonZeroI16', 'NonZeroI32', 'NonZeroI64', 'NonZeroIsize', 'f32', 'f64']
OTHER = ['unit', 'bool', 'char', 'String', 'Tk', 'Option<u8>', 'Vec<u8>', 'Ints', 'Un', 'Wrap', 'HashMap<u8,En>']
KINDS = {'W07': {'can', 'refuse', 'value', 'panic', 'crash', 'hang', 'mem'}}

def run(prop):
    fv = build()
    r = Result(prop)
    thorough = lib.TIER == 'thorough'
    ks = set(range(0, 132)) | {1000, 1023} if thorough else {0, 1, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 100, 126, 127, 128, 129, 1000}
    ps = set(range(1, 53)) if thorough else {1, 2, 7, 8, 15, 16, 23, 24, 25, 31, 32, 33, 51, 52}
    x = Tlc('PutNumGen', {'Types': set(TYPES), 'Ks': ks, 'Ps': ps}, timeout=3000).run()
    y = Tlc('PutNumGen', {'Types': set(OTHER), 'Ks': {0, 8}, 'Ps': {1, 2}}).run()
    r.tlc(x, y)
    lines = x.lines + y.lines
    for l in (lines[0], lines[len(lines) // 2], lines[len(lines) // 3]): r.sample(l[:1500])
    judge(r, prop, fv, lines)
    return r.finish()

def judge(r, prop, fv, lines): judge_docs(r, prop, fv, lines, 'num', 'PutNumJudge', KINDS[prop])
