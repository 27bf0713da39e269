"""What the checks share: building the harness from /repo, running TLC, replaying cases, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JOBS = min(8, os.cpu_count() or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()

class CheckError(Exception):
    """the check itself could not give an answer"""
class DeclarationError(CheckError):
    """the declared types do not compile, through no fault of the harness"""

def log(*a): print(f'[{time.time() - T0:6.1f}s]', *a, flush=True)

def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.86.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), RUSTC_WRAPPER='', RUST_BACKTRACE='0')
    e['PATH'] = '/root/.cargo/bin:' + e['PATH']
    for k in ('RUSTFLAGS', 'CARGO_PROFILE_DEV_DEBUG', 'CARGO_BUILD_TARGET'): e.pop(k, None)
    return e

def declares(s):
    """whether a place is in the declaration of a type, or what the derive macro makes of it"""
    while s.get('expansion'):
        e = s['expansion']
        if e['macro_decl_name'].split('::')[-1] in ('ops!', 'native!', 'offs!'): return False
        s = e['span']
    return s['file_name'] == 'src/types.rs'
def build():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--message-format=json'], cwd=os.path.join(VERIF, 'harness'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if r.returncode != 0:
        errs, ours = [], False
        for l in r.stdout.splitlines():
            try: m = json.loads(l)['message']
            except (ValueError, KeyError): continue
            if m['level'] != 'error' or not m['spans']: continue
            errs.append(m['rendered'])
            if not all(declares(s) for s in m['spans'] if s['is_primary']): ours = True
        print('\n'.join(errs)[:6000] or r.stderr[-6000:])
        if errs and not ours: raise DeclarationError('the types of the universe do not compile: ' + errs[0])
        raise CheckError('the harness does not build')
    log('built the harness from /repo')
    return os.path.join(BUILD, 'target/debug/fv')

def tla(x):
    """a TLA+ constant"""
    if isinstance(x, bool): return 'TRUE' if x else 'FALSE'
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return '"' + x + '"'
    if isinstance(x, (set, frozenset)): return '{' + ', '.join(sorted(tla(y) for y in x)) + '}'
    if isinstance(x, (list, tuple)): return '<<' + ', '.join(tla(y) for y in x) + '>>'
    raise TypeError(x)

class Scratch:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    def path(self, *p): return os.path.join(self.dir, *p)
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
S = Scratch()

class Tlc:
    """One run of TLC. `out` collects the JSON values the specification printed."""
    runs = 0
    def __init__(self, module, constants, invariants=(), init='Init', next='Next', simulate=None, depth=100, workers=JOBS, timeout=600,
                 seed=None, coverage=False, post=None, extra_cfg='', heap='8g'):
        Tlc.runs += 1
        d = S.path(f'tlc{Tlc.runs}')
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), d)
        cfg = 'CONSTANTS\n' + ''.join(f'  {k} = {v if k == "Null" else tla(v)}\n' for k, v in {'Null': 'Null', **constants}.items() if not (k == 'Null' and v is None))
        cfg += f'INIT {init}\nNEXT {next}\nCHECK_DEADLOCK FALSE\n' + extra_cfg
        if invariants: cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
        if post: cfg += f'POSTCONDITION {post}\n'
        open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
        self.dir, self.module, self.timeout = d, module, timeout
        self.cmd = ['java', f'-Xmx{heap}', '-XX:+UseParallelGC', '-Xss64m', '-cp', CLASSPATH, 'tlc2.TLC', '-workers', str(workers), '-config', 'run.cfg']
        if simulate: self.cmd += ['-simulate', f'num={simulate}', '-depth', str(depth)]
        self.cmd += ['-seed', str(SEED if seed is None else seed)]
        if coverage: self.cmd += ['-coverage', '1']
        self.cmd += [module + '.tla']
        self.simulate = simulate
    def run(self):
        out = os.path.join(self.dir, 'out.txt')
        t = time.time()
        with open(out, 'w') as f:
            try: rc = subprocess.run(self.cmd, cwd=self.dir, stdout=f, stderr=subprocess.STDOUT, timeout=self.timeout).returncode
            except subprocess.TimeoutExpired: raise CheckError(f'TLC on {self.module} took more than {self.timeout}s')
        self.wall = time.time() - t
        self.lines, self.text, seen = [], [], set()
        for l in open(out):
            if l.startswith('"'):
                if l not in seen:
                    seen.add(l); self.lines.append(json.loads(l))
            else: self.text.append(l.rstrip('\n')[:1500])
        os.remove(out)
        t = '\n'.join(self.text)
        self.states = self.distinct = self.traces = 0
        if (m := re.search(r'(\d+) states generated, (\d+) distinct', t)): self.states, self.distinct = int(m[1]), int(m[2])
        if (m := re.findall(r'(\d+) states checked, (\d+) traces', t)): self.states, self.traces = int(m[-1][0]), int(m[-1][1])
        if (m := re.search(r'The number of states generated: (\d+)', t)): self.states = int(m[1])
        self.error = rc != 0 or 'Error:' in t
        if self.error:
            i = t.find('Error:')
            print(t[max(0, i - 200):i + 4000])
            raise CheckError(f'TLC found the specification {self.module} in error (rc {rc})')
        log(f'TLC {self.module}: {self.states} states, {self.distinct} distinct, {len(self.lines)} lines, {self.wall:.1f}s')
        return self
    def cases(self): return self.lines

CLASSPATH = ':'.join(p for p in ['/opt/veriftools/tla/tla2tools.jar', *sorted(
    os.path.join('/opt/veriftools/tla', f) for f in (os.listdir('/opt/veriftools/tla') if os.path.isdir('/opt/veriftools/tla') else []) if f.endswith('.jar') and f != 'tla2tools.jar')])

def parallel(runs):
    with ThreadPoolExecutor(max_workers=len(runs) or 1) as ex: return list(ex.map(lambda r: r.run(), runs))

def replay(fv, mode, cases, jobs=JOBS, args=(), outputs=False):
    """Runs the cases (JSON texts) on the real code. Returns [(case number, kind, message)], and with
    `outputs` what the harness printed for each case. A process that dies counts against its case."""
    n = len(cases)
    jobs = max(1, min(jobs, n // 20 + 1))
    diffs, outs, done = [], [None] * n if outputs else None, 0
    replay.n = getattr(replay, 'n', 0) + 1
    rid = replay.n
    def shard(k):
        mine = list(range(k, n, jobs))
        f = S.path(f'cases{rid}-{k}'); prog = S.path(f'prog{rid}-{k}')
        with open(f, 'w') as h: h.writelines(cases[i] + '\n' for i in mine)
        res, out, skip, crashes = [], [], 0, 0
        while skip < len(mine):
            with open(S.path(f'err{rid}-{k}'), 'w') as eh:
                p = subprocess.Popen([fv, mode, f, prog, str(skip), *args], stdout=subprocess.PIPE, stderr=eh, text=True, errors='replace')
                o, _ = p.communicate()
            for l in o.splitlines():
                if not l.startswith('{'): continue
                try: j = json.loads(l)
                except ValueError: continue
                if 'diffs' in j: res += [(mine[j['case']], c, m) for c, m in j['diffs']]
                else: out.append((mine[j['case']], j))
            if p.returncode == 0: skip = len(mine); break
            txt = open(prog).read().strip() if os.path.exists(prog) else ''
            if not txt: raise CheckError('the harness did not start: ' + open(S.path(f'err{rid}-{k}')).read()[-1500:])
            at = int(txt)
            err = open(S.path(f'err{rid}-{k}')).read()[-300:].strip().replace('\n', ' | ')
            # (101: a panic where the harness does not expect one)
            why = 'does not terminate' if p.returncode == 78 else f'the process dies (code {p.returncode}) {err}'
            res.append((mine[at], 'hang' if p.returncode == 78 else 'crash', why))
            crashes += 1
            skip = at + 1
            if crashes >= 3: break
        return res, out, skip
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        for res, out, _ in ex.map(shard, range(jobs)):
            diffs += res
            if outputs:
                for i, j in out: outs[i] = j
    log(f'replayed {n} cases ({mode}): {len(diffs)} differences')
    return (sorted(diffs), outs) if outputs else sorted(diffs)

def generate(module, constants, total, salt=0, procs=JOBS, timeout=1500):
    """`total` cases of the generating specification `module`: one a step of its single behaviour, from several processes"""
    per = -(-total // procs)
    runs = [Tlc(module, constants, simulate=1, depth=per + 1, workers=1, seed=SEED * 1000003 + salt * 101 + k, timeout=timeout, heap='2g') for k in range(procs)]
    parallel(runs)
    return runs, [l for r in runs for l in r.lines]

def judged(module, cases, outs, chains=32, timeout=1500):
    """asks the specification `module` about the outcomes; [(case number, its verdict)]"""
    idx = [i for i in range(len(cases)) if outs[i] is not None]
    t = Tlc(module, {'Chains': chains}, timeout=timeout, heap='8g')
    with open(os.path.join(t.dir, 'outcomes.ndjson'), 'w') as f:
        for i in idx: f.write('{"c":' + cases[i] + ',"o":' + json.dumps(outs[i]) + '}\n')
    t.run()
    v = [json.loads(l) for l in t.lines]
    if len(v) != len(idx): raise CheckError(f'{module} judged {len(v)} of {len(idx)} outcomes')
    return t, [(idx[x['i'] - 1], x) for x in v]

UNIVERSE = None
def declared(prefix, where=lambda u: True):
    """the types declared under names with that prefix (Rg, Rj, ...: those declared at random)"""
    return [u['ty'] for u in json.load(open(os.path.join(VERIF, 'harness/universe.json'))) if re.fullmatch(prefix + r'\d\d', u['ty']) and where(u)]
def index(ty):
    """the specification's number of a type"""
    global UNIVERSE
    if UNIVERSE is None: UNIVERSE = {u['ty']: i + 1 for i, u in enumerate(json.load(open(os.path.join(VERIF, 'harness/universe.json'))))}
    return UNIVERSE[ty]
def all_types():
    index("u8")
    return set(UNIVERSE)
def plain_types():
    """the types all names in which are ASCII (TLC garbles others when it searches breadth first)"""
    u = json.load(open(os.path.join(VERIF, 'harness/universe.json')))
    def names(e): return [e.get('name', '')] + [f['n'] for f in e.get('fields', [])] + [x for v in e.get('variants', []) for x in [v['n']] + [f['n'] for f in v['fields']]]
    def parts(e): return [e[k] for k in ('t', 'kt', 'vt') if k in e] + [f['sh'] for f in e.get('fields', [])] + [f['sh'] for v in e.get('variants', []) for f in v['fields']]
    odd = {i for i, e in enumerate(u, 1) if not all(n.isascii() for n in names(e))}
    while (more := {i for i, e in enumerate(u, 1) if i not in odd and any(p in odd for p in parts(e))}): odd |= more
    return {e['ty'] for i, e in enumerate(u, 1) if i not in odd}
def type_name(i):
    index('u8')
    return next(t for t, j in UNIVERSE.items() if j == i)
def show(line):
    """a case or an outcome, readable"""
    j = json.loads(line)
    def txt(b):
        c = b[:400]
        return (''.join(map(chr, c)) if any(x > 255 for x in c) else bytes(c).decode('utf8', 'backslashreplace')) + ('...' if len(b) > 400 else '')
    s = f'{type_name(j["sh"])} ' if 'sh' in j else ''
    for k in ('b', 't', 't2', 'small'):
        if k in j: s += f'{k}={txt(j[k])!r} '
    rest = {k: v for k, v in j.items() if k in ('v', 'r', 'n')}
    return (s + (json.dumps(rest) if rest else ''))[:1200]

def known():
    """the known findings: [(property, pattern)]"""
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            if (m := re.match(r'finding: property=(\w+) match=(\S+) (.*)', l)): r.append((m[1], m[2], m[3].strip()))
    return r

class Result:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.viol, self.cov, self.samples, self.assume = [], {}, [], []
        self.found = set()
    def count(self, **kw):
        for k, v in kw.items(): self.cov[k] = self.cov.get(k, 0) + v
    def tlc(self, *runs):
        for r in runs:
            # a walk of n states takes n - 1 transitions
            self.count(states=r.distinct or r.states, transitions=max(0, r.states - max(1, r.traces)), simulated_traces=r.traces)
    def sample(self, *s):
        for x in s:
            if len(self.samples) < 8: self.samples.append(x)
    def violation(self, message, replay, key=''):
        for p, pat, what in known():
            if p == self.prop and pat == key:
                self.found.add(what); return
        self.viol.append((message, replay))
    def finish(self):
        os.makedirs(os.path.join(BUILD, 'replays'), exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        shown = []
        for what in sorted(self.found): print(f'KNOWN-FINDING: property={self.prop} {what}')
        for i, (m, rp) in enumerate(self.viol[:int(os.environ.get("VERIF_SHOW", 5))]):
            path = os.path.join(BUILD, 'replays', f'{self.prop}-{i + 1}.json')
            json.dump(rp, open(path, 'w'), indent=1)
            print(f'VIOLATION property={self.prop} replay={path}')
            print('  ', m[:1500])
            shown.append({'what': m[:500], 'replay': path})
        cov = dict(self.cov)
        cov['samples'] = self.samples or ['-']
        json.dump({'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - T0, 1),
                   'assumptions': self.assume, 'violations': len(self.viol)},
                  open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w'), indent=1)
        log(f'{self.prop}: {len(self.viol)} violations; {({k: v for k, v in cov.items() if k != "samples"})}')
        return 1 if self.viol else 0

def judge_docs(r, prop, fv, lines, mode, module, kinds):
    """runs cases with documents on the code, and asks the specification about what came out"""
    diffs, outs = replay(fv, mode, lines, outputs=True)
    r.count(cases_run_on_the_code=len(lines))
    for i, kind, msg in diffs:
        if kind in kinds:
            r.violation(f'[{kind}] {msg}: {show(lines[i])}', {'property': prop, 'mode': mode, 'case': json.loads(lines[i]), 'difference': [kind, msg]})
    t, verdicts = judged(module, lines, outs)
    r.tlc(t)
    r.count(outcomes_judged=len(verdicts))
    for s in ('ok', 'no', 'may', 'any'):
        if (k := sum(v['s'] == s for _, v in verdicts)): r.cov['specified_' + {'ok': 'value', 'no': 'refusal', 'may': 'value_or_refusal', 'any': 'open'}[s]] = k
    for i, v in sorted(verdicts, key=lambda x: x[0]):
        if not v['ok'] and v['kind'] in kinds:
            r.violation(f'[{v["kind"]}] {show(lines[i])} gave {show(json.dumps(outs[i]))}', {'property': prop, 'mode': mode, 'case': json.loads(lines[i]), 'outcome': outs[i], 'verdict': v})
