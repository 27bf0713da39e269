#!/usr/bin/env python3
"""The universe of types the specifications and the harness talk about.

One declaration of every type, from which this script writes
  harness/src/types.rs    the Rust declarations (`#[derive(Facet)]`), native constructors and readers
  spec/Universe.tla       the same types as the specification sees them
  harness/universe.json   the same, for the drivers
The specification's view is written from the declarations below, never from what the code under test
reports about them.
"""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')

INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']
NZ = {'NonZeroU8': 'u8', 'NonZeroU16': 'u16', 'NonZeroU32': 'u32', 'NonZeroU64': 'u64', 'NonZeroUsize': 'usize',
      'NonZeroI8': 'i8', 'NonZeroI16': 'i16', 'NonZeroI32': 'i32', 'NonZeroI64': 'i64', 'NonZeroIsize': 'isize',
      'NonZeroU128': 'u128', 'NonZeroI128': 'i128'}
TEXTS = {'Str': '&str', 'CowStr': "Cow<'_, str>", 'PathBuf': 'PathBuf', 'PathRef': 'Path'}       # aliases are declared in u.rs
NETS = {'Ipv4Addr': 'Ipv4Addr', 'Ipv6Addr': 'Ipv6Addr', 'IpAddr': 'IpAddr', 'SocketAddr': 'SocketAddr'}
PHANTOMS = ['PhU8', 'PhNo']
SCALARS = ['unit', 'bool', 'f32', 'f64', 'char', 'String', 'Tk'] + INTS + list(NZ)[:10]
SCALARS2 = list(NZ)[10:] + list(TEXTS) + list(NETS) + PHANTOMS

NAMED = {}      # name -> declaration
ROOTS = []      # extra root type expressions

def F(decl, rename=None, lit=None, doc=(), src=(), arb=(), vis='pub ', opaque=False, sensitive=False, default=None, facet=None):
    """a field, with everything spelled out: lit is the source of the new name, src are lines of source put before the field"""
    f = field(decl)
    f.update(vis=vis, opaque=opaque, src=list(src), doc=list(doc), arb=list(arb), sensitive=sensitive)
    f['facet'] = list(arb)
    if rename is not None: f['rename'] = rename; f['facet'].append('rename = ' + (lit or '"%s"' % rename))
    if sensitive: f['facet'].append('sensitive')
    if opaque: f['facet'].append('opaque')
    if default is not None: f['default'] = default; f['facet'].append('default' + (f' = "{default}"' if default else ''))
    if facet is not None: f['facet'] = list(facet)
    return f
def unraw(n): return n[2:] if n.startswith('r#') else n
def field(spec):
    """'name: Type | attr; attr' -> dict"""
    if isinstance(spec, dict): return spec
    decl, _, attrs = spec.partition('|')
    name, _, ty = decl.partition(':')
    f = {'n': unraw(name.strip()), 'id': name.strip(), 'ty': ty.strip(), 'rename': None, 'default': None, 'sensitive': False, 'opaque': False, 'doc': [], 'facet': [], 'arb': [], 'src': [], 'vis': 'pub '}
    for a in [a.strip() for a in attrs.split(';') if a.strip()]:
        if a.startswith('doc='): f['doc'].append(a[4:])
        elif a.startswith('rename='): f['rename'] = a[7:]; f['facet'].append(f'rename = "{a[7:]}"')
        elif a == 'default': f['default'] = ''; f['facet'].append('default')
        elif a.startswith('default='): f['default'] = a[8:]; f['facet'].append(f'default = "{a[8:]}"')
        elif a == 'sensitive': f['sensitive'] = True; f['facet'].append('sensitive')
        else: f['arb'].append(a); f['facet'].append(a)
    return f

def generics_of(g):
    """"'a, T: A + B, const N: usize" -> [(kind, name, bounds)]"""
    out = []
    for x in split_args(g or ''):
        n, _, b = x.partition(':')
        n, b = n.strip(), b.strip()
        out.append(('const', n[6:].strip(), b) if n.startswith('const ') else ('life' if n.startswith("'") else 'type', n, b))
    return out
def split_args(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c in '<([': depth += 1
        if c in '>)]': depth -= 1
        if c == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def common(name, derive, attrs, doc, extra, generics, where, repr, src, vis='pub '):
    return {'name': unraw(name), 'id': name, 'derive': derive, 'attrs': list(attrs), 'doc': list(doc), 'extra': extra,
            'generics': generics_of(generics), 'gsrc': generics, 'where': where, 'repr': repr, 'src': list(src), 'vis': vis}
DERIVE = 'Clone, Debug, PartialEq'
def struct(name, *fields, derive=DERIVE, attrs=(), doc=(), extra='', generics=None, where='', repr=None, src=(), vis='pub '):
    NAMED[unraw(name)] = {'k': 'struct', 'sk': 'struct', 'fields': [field(f) for f in fields], **common(name, derive, attrs, doc, extra, generics, where, repr, src, vis)}
def tstruct(name, *tys, derive=DERIVE, attrs=(), doc=(), extra='', generics=None, where='', repr=None, src=()):
    NAMED[unraw(name)] = {'k': 'struct', 'sk': 'tuplestruct', 'fields': [t if isinstance(t, dict) else field(f'{i}: {t}') for i, t in enumerate(tys)],
                          **common(name, derive, attrs, doc, extra, generics, where, repr, src)}
def ustruct(name, derive=DERIVE, attrs=(), doc=(), src=()):
    NAMED[unraw(name)] = {'k': 'struct', 'sk': 'unit', 'fields': [], **common(name, derive, attrs, doc, '', None, '', None, src)}
def V(name, *fields, disc=None, lit=None, kind=None, doc=(), src=()):
    if kind is None:
        kind = 'unit' if not fields else ('struct' if isinstance(fields[0], dict) or ':' in fields[0] else 'tuple')
    fs = [field(f) if kind == 'struct' or isinstance(f, dict) else field(f'_{i}: {f}') for i, f in enumerate(fields)]
    return {'n': unraw(name), 'id': name, 'kind': kind, 'fields': fs, 'disc': disc, 'lit': lit or (None if disc is None else str(disc)), 'doc': list(doc), 'src': list(src)}
def enum(name, repr, *variants, derive=DERIVE, doc=(), attrs=(), extra='', generics=None, where='', src=(), rsrc=None):
    """repr: what is to be reported; rsrc: how it is written"""
    NAMED[unraw(name)] = {'k': 'enum', 'variants': list(variants), 'rsrc': rsrc, **common(name, derive, attrs, doc, extra, generics, where, repr, src)}

exec(open(os.path.join(HERE, 'types_decl.py')).read())

# ------------------------------------------------------------------ type expressions
SH = []         # the shape table (1-based in TLA+)
IDX = {}

def canon(t):
    t = re.sub(r'\s+', '', t)
    t = t.replace("&'staticstr", 'Str').replace("Cow<'static,str>", 'CowStr').replace("&'staticstd::path::Path", 'PathRef')
    while (i := t.find("&'static[")) >= 0:
        j, depth = i + 8, 0
        while True:
            depth += (t[j] == '[') - (t[j] == ']')
            j += 1
            if depth == 0: break
        t = t[:i] + 'Slice<' + t[i + 9:j - 1] + '>' + t[j:]
    return t

def subst(t, params, args):
    for (k, n, _), a in zip(params, args):
        t = re.sub((re.escape(n) if k == 'life' else r'\b%s' % n) + r'\b', a, t)
    return t

def shape(t):
    t = canon(t)
    if t == '()': t = 'unit'
    if t in IDX: return IDX[t]
    i = len(SH) + 1
    IDX[t] = i
    e = {'ty': t, 'rust': t if t != 'unit' else '()'}
    SH.append(e)
    if t in SCALARS or t in SCALARS2:
        e.update(k='scalar', s=t)
    elif (m := re.fullmatch(r'Vec<(.*)>', t)):
        e.update(k='list', t=shape(m[1]))
    elif (m := re.fullmatch(r'Option<(.*)>', t)):
        e.update(k='option', t=shape(m[1]))
    elif (m := re.fullmatch(r'(HashMap|BTreeMap)<(.*)>', t)):
        a, b, *hs = split_args(m[2])
        e.update(k='map', mk=m[1], kt=shape(a), vt=shape(b), hs=hs[0] if hs else 'RandomState')
    elif (m := re.fullmatch(r'\[(.*);(\d+)\]', t)):
        e.update(k='array', t=shape(m[1]), n=int(m[2]))
    elif (m := re.fullmatch(r'Arc<(.*)>', t)):
        e.update(k='arc', t=shape(m[1]))
    elif (m := re.fullmatch(r'Weak<(.*)>', t)):
        e.update(k='weak', t=shape(m[1]))
    elif (m := re.fullmatch(r'Slice<(.*)>', t)):
        e.update(k='slice', t=shape(m[1]))
    elif (m := re.fullmatch(r'Opaque<(.*)>', t)):
        e.update(k='opaque')
    elif t.startswith('('):
        tys = split_args(t[1:-1])
        e.update(k='struct', sk='tuple', name=t, fields=[{'n': str(j), 'sh': shape(x), 'attrs': field('x: x')} for j, x in enumerate(tys)],
                 attrs=[], doc=[], decl=None)
        if len(tys) == 1: e['rust'] = f'({tys[0]},)'
    else:
        m = re.fullmatch(r'(\w+)(?:<(.*)>)?', t)
        d = NAMED[m[1]]
        e['decl'] = m[1]
        if d['id'] != d['name']: e['rust'] = t.replace(d['name'], d['id'], 1)
        sub = (lambda x: x) if not d['generics'] else (lambda x: subst(x, d['generics'], split_args(m[2])))
        def flds(fs): return [{'n': f['n'], 'sh': shape(('Opaque<%s>' if f['opaque'] else '%s') % sub(f['ty'])), 'attrs': f} for f in fs]
        if d['generics']: e['tp'] = [(n, shape(a)) for (k, n, _), a in zip(d['generics'], split_args(m[2])) if k == 'type']
        e.update(k=d['k'], name=m[1], attrs=d['attrs'], doc=d['doc'])
        if d['k'] == 'struct':
            e.update(sk=d['sk'], fields=flds(d['fields']))
        else:
            disc, vs = 0, []
            for v in d['variants']:
                if v['disc'] is not None: disc = v['disc']
                vs.append({'n': v['n'], 'kind': v['kind'], 'disc': disc, 'fields': flds(v['fields']), 'doc': v['doc']})
                disc += 1
            e.update(repr=d['repr'], variants=vs)
    return i

for s in SCALARS: shape(s)
for n, d in NAMED.items():
    if not d['generics']: shape(n)
for r in ROOTS: shape(r)
for s in SCALARS2: shape(s)

def derives(t):
    m = re.match(r'\w+', t)
    return NAMED[m[0]]['derive'] if m and m[0] in NAMED else None

# which traits does a type have? (the oracle for what the erased operations must offer)
def has(i, trait, seen=()):
    e = SH[i - 1]
    if i in seen: return True
    seen = seen + (i,)
    k = e['k']
    if k == 'scalar':
        s = e['s']
        if s in PHANTOMS: return trait not in ('Display', 'FromStr')
        if trait in ('Clone', 'Debug', 'PartialEq', 'PartialOrd'): return True
        if trait in ('Eq', 'Ord', 'Hash'): return s not in ('f32', 'f64')
        if trait == 'Default': return s not in NZ and s not in NETS and s != 'PathRef'
        if trait == 'Display': return s not in ('unit', 'PathBuf', 'PathRef')
        if trait == 'FromStr': return s not in ('unit', 'Str', 'PathRef', 'CowStr')
        if trait == 'Copy': return s not in ('String', 'Tk', 'CowStr', 'PathBuf')
    if k == 'list': return {'Default': True, 'Display': False, 'FromStr': False, 'Copy': False}.get(trait, None) if trait in ('Default', 'Display', 'FromStr', 'Copy') else has(e['t'], trait, seen)
    if k == 'option': return {'Default': True, 'Display': False, 'FromStr': False}[trait] if trait in ('Default', 'Display', 'FromStr') else has(e['t'], trait, seen)
    if k == 'map':
        if trait in ('Display', 'FromStr', 'Copy'): return False
        if trait == 'Default': return True
        if e['mk'] == 'HashMap' and trait in ('PartialOrd', 'Ord', 'Hash'): return False
        return has(e['kt'], trait, seen) and has(e['vt'], trait, seen)
    if k == 'array':
        if trait in ('Display', 'FromStr'): return False
        return has(e['t'], trait, seen)
    if k == 'slice':
        if trait in ('Clone', 'Copy', 'Default'): return True
        return trait not in ('Display', 'FromStr') and has(e['t'], trait, seen)
    if k == 'weak': return trait in ('Clone', 'Debug', 'Default')
    if k == 'opaque': return trait == 'Clone'
    if k == 'arc': return trait == 'Clone'      # the only one that holds whatever the pointee is
    d = e.get('decl')
    if d is None:
        if trait in ('Display', 'FromStr'): return False
        return all(has(f['sh'], trait, seen) for f in e['fields'])
    # implemented for all arguments only if the declaration says so
    # (in the list of parameters, or in a where clause)
    where = dict((a.strip(), b) for a, _, b in (w.partition(':') for w in split_args(NAMED[d]['where'] or '')))
    if any(k == 'type' and trait not in [x.strip() for x in (b + '+' + where.get(n, '')).split('+')] for k, n, b in NAMED[d]['generics']): return False
    if any(k == 'const' for k, n, b in NAMED[d]['generics']) and trait == 'Default': return False
    ok = trait in [x.strip() for x in NAMED[d]['derive'].split(',')]
    return ok or re.search(r'\bimpl (\w+::)*%s for' % trait, NAMED[d]['extra']) is not None
TRAITS = ['Clone', 'Debug', 'Default', 'PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash', 'Display', 'FromStr', 'Copy']
for i, e in enumerate(SH, 1):
    e['traits'] = [t for t in TRAITS if has(i, t)]

# ------------------------------------------------------------------ universe.json
def jfield(f):
    a = f['attrs']
    return {'n': f['n'], 'sh': f['sh'], 'rename': a['rename'] or '', 'def': 'none' if a['default'] is None else ('own' if a['default'] == '' else 'fn'),
            'deffn': a['default'] or '', 'sens': a['sensitive'], 'doc': a['doc'], 'arb': a['arb'], 'facet': a['facet']}
def jshape(e):
    o = {'ty': e['ty'], 'rust': e['rust'], 'k': e['k'], 'traits': e['traits']}
    for key in ('s', 't', 'kt', 'vt', 'n', 'mk', 'name', 'sk', 'repr'):
        if key in e: o[key] = e[key]
    if 'fields' in e: o['fields'] = [jfield(f) for f in e['fields']]
    if 'variants' in e:
        o['variants'] = [{'n': v['n'], 'kind': v['kind'], 'disc': v['disc'], 'doc': v['doc'], 'fields': [jfield(f) for f in v['fields']]} for v in e['variants']]
    if 'attrs' in e: o['attrs'] = e['attrs']; o['doc'] = e['doc']
    return o
U = [jshape(e) for e in SH]
json.dump(U, open(os.path.join(ROOT, 'harness/universe.json'), 'w'), indent=0)

# ------------------------------------------------------------------ Universe.tla
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def tla(x):
    if isinstance(x, bool): return 'TRUE' if x else 'FALSE'
    if isinstance(x, int): return str(x)
    if isinstance(x, str): return q(x)
    if isinstance(x, list): return '<<' + ', '.join(tla(y) for y in x) + '>>'
    if isinstance(x, dict): return '[' + ', '.join(f'{k} |-> {tla(v)}' for k, v in x.items()) + ']'
    raise TypeError(x)
def tfield(f):
    a = f['attrs']
    return {'n': f['n'], 'sh': f['sh'], 'key': cps(f['n'] if a['rename'] is None else a['rename']), 'dn': cps(f['n']), 'def': 'none' if a['default'] is None else ('own' if a['default'] == '' else a['default']),
            'sens': a['sensitive'], 'doc': [cps(l) for l in a['doc']], 'ren': a['rename'] is not None, 'arb': [cps(x.replace(' ', '')) for x in a['arb']], 'pos': 'positional' in a['arb'], 'long': 'named' in a['arb'],
            'short': next((x.split('=')[1].strip().strip('"') for x in a['arb'] if x.startswith('short')), '')}
def cps(s): return [ord(c) for c in s]
SIZES = {t: (8 if t[1:] == 'size' else int(t[1:]) // 8) for t in INTS}
SIZES.update({n: SIZES[t] for n, t in NZ.items()})
SIZES.update({'bool': 1, 'char': 4, 'f32': 4, 'f64': 8, 'Str': 16, 'PathRef': 16})
def type_name(i):
    """the type's name, as Rust spells it, except that the arguments of smart pointers and generic declared types are left out"""
    e = SH[i - 1]
    k = e['k']
    if k == 'scalar':
        s = e['s']
        if s == 'unit': return '()'
        if s in NZ: return f'core::num::NonZero<{NZ[s]}>'
        return TEXTS.get(s) or NETS.get(s) or ('PhantomData' if s in PHANTOMS else s)
    if k == 'list': return f"Vec<{type_name(e['t'])}>"
    if k == 'option': return f"Option<{type_name(e['t'])}>"
    if k == 'map': return f"{e['mk']}<{type_name(e['kt'])}, {type_name(e['vt'])}>"
    if k == 'array': return f"[{type_name(e['t'])}; {e['n']}]"
    if k == 'slice': return f"&[{type_name(e['t'])}]"
    if k in ('arc', 'opaque'): return 'Arc'
    if k == 'weak': return 'Weak'
    if 'decl' in e and e['decl']: return e['decl']
    return '(' + ', '.join(type_name(f['sh']) for f in e['fields']) + (',)' if len(e['fields']) == 1 else ')')
def tshape(e):
    o = {'k': e['k'], 'ty': e['ty'], 'traits': Raw('{' + ', '.join(q(t) for t in e['traits']) + '}')}
    for key in ('s', 't', 'kt', 'vt', 'n', 'sk', 'repr', 'mk'):
        if key in e: o[key] = e[key]
    if 'name' in e: o['name'] = e['name']
    if 'fields' in e: o['f'] = [tfield(f) for f in e['fields']]
    if 'variants' in e: o['vs'] = [{'n': v['n'], 'key': cps(v['n']), 'kind': v['kind'], 'disc': [int(x) for x in str(v['disc'])], 'doc': [cps(l) for l in v['doc']], 'f': [tfield(f) for f in v['fields']]} for v in e['variants']]
    if e.get('decl'):
        d = NAMED[e['decl']]
        how = ' '.join(d.get('rsrc') or []) if e['k'] == 'enum' and d.get('rsrc') else d['repr'] or ''
        o['clay'] = re.search(r'\bC\b', how) is not None
        o['transparent'] = 'transparent' in how
        o['al'] = int(m[1]) if (m := re.search(r'align\((\d+)\)', how)) else 1
    if 'attrs' in e:
        o['arb'] = [cps(a.replace(' ', '')) for a in e['attrs'] if a not in ('deny_unknown_fields', 'default') and not a.startswith('invariants')]
        o['deny'] = 'deny_unknown_fields' in e['attrs']
        o['dflt'] = 'default' in e['attrs']
        o['inv'] = [a.split('=')[1].strip().strip('"') for a in e['attrs'] if a.startswith('invariants')]
        o['doc'] = [cps(l) for l in e['doc']]
    else: o['doc'] = []
    o['tn'] = cps(type_name(IDX[e['ty']]))
    o['sz'] = SIZES.get(e.get('s'), 0)
    tp = e.get('tp', [])
    if 'mk' in e: tp = [('K', e['kt']), ('V', e['vt'])] + ([('S', IDX.get(e['hs'], 0))] if e['mk'] == 'HashMap' else [])
    elif 't' in e: tp = [('T', e['t'])]
    o['tp'] = [{'n': n, 'sh': i} for n, i in tp]
    return o
class Raw(str): pass
_tla = tla
def tla(x):
    if isinstance(x, Raw): return str(x)
    if isinstance(x, list): return '<<' + ', '.join(tla(y) for y in x) + '>>'
    if isinstance(x, dict): return '[' + ', '.join(f'{k} |-> {tla(v)}' for k, v in x.items()) + ']'
    return _tla(x)
with open(os.path.join(ROOT, 'spec/Universe.tla'), 'w') as f:
    f.write('------------------------------ MODULE Universe ------------------------------\n')
    f.write('(* The types the specifications talk about. Written by tools/universe.py from the\n   declarations in tools/types_decl.py; do not edit. A shape is an index into Shapes. *)\n')
    f.write('Shapes == <<\n' + ',\n'.join(f'  (* {i:3} *) ' + tla(tshape(e)) for i, e in enumerate(SH, 1)) + '\n>>\n')
    f.write('ShapeOf == [\n' + ',\n'.join(f'  {q(t)} |-> {i}' for t, i in []) + ']\n' if False else '')
    f.write('\nShIdx(ty) == CHOOSE i \\in DOMAIN Shapes : Shapes[i].ty = ty\n')
    f.write('=' * 77 + '\n')

# ------------------------------------------------------------------ types.rs
R = ['// Written by tools/universe.py from tools/types_decl.py; do not edit.',
     '#![allow(dead_code, clippy::all)]', 'use crate::u::*;', 'use crate::tk::Tk;', 'use facet::Facet;', 'use serde_json::{Value as J, json};',
     'use std::collections::{HashMap, BTreeMap};', 'use std::sync::{Arc, Weak};', 'use std::num::*;', 'use std::borrow::Cow;', 'use std::fmt::Debug;', 'use std::net::*;', 'use std::path::PathBuf;', 'use std::marker::PhantomData;', '']
def rdoc(lines, ind=''):
    return [f'{ind}///{l}' for l in lines]
def rinline(f): return ' '.join(f['src']) + ' ' * bool(f['src']) + ''.join('#[doc = %s] ' % json.dumps(l, ensure_ascii=False) for l in f['doc'] if not f['src']) + ''.join(f'#[facet({a})] ' for a in f['facet'])
def rattrs(f, ind):
    return ([ind + x for x in f['src']] if f['src'] else rdoc(f['doc'], ind)) + [f'{ind}#[facet({a})]' for a in f['facet']]
for n, d in NAMED.items():
    n = d['id']
    g = f"<{d['gsrc']}>" if d['generics'] else ''
    use = '<' + ', '.join("'static" if k == 'life' else x for k, x, b in d['generics']) + '>' if d['generics'] else ''
    R += d['src'] or rdoc(d['doc'])
    R.append(f"#[derive(Facet, {d['derive']})]" if d['derive'] else '#[derive(Facet)]')
    for a in d['attrs']: R.append(f'#[facet({a})]')
    w = f" where {d['where']}" if d['where'] else ''
    if d['k'] == 'struct':
        if d['repr']: R.append(f"#[repr({d['repr']})]")
        if d['sk'] == 'struct':
            R.append(f"{d['vis']}struct {n}{g}{w} {{")
            for f in d['fields']: R += rattrs(f, '    ') + [f"    {f['vis']}{f['id']}: {f['ty']},"]
            R.append('}')
        elif d['sk'] == 'tuplestruct':
            R.append(f'pub struct {n}{g}(' + ', '.join(rinline(f) + f['vis'] + f['ty'] for f in d['fields']) + f'){w};')
        else: R.append(f'pub struct {n};')
    else:
        R += d['rsrc'] or [f"#[repr({d['repr']})]"]
        R.append(f'pub enum {n}{g}{w} {{')
        for v in d['variants']:
            R += v['src'] or rdoc(v['doc'], '    ')
            dd = f" = {v['lit']}" if v['disc'] is not None else ''
            if v['kind'] == 'unit': R.append(f"    {v['id']}{dd},")
            elif v['kind'] == 'tuple':
                R.append(f"    {v['id']}(" + ', '.join(rinline(f) + f['ty'] for f in v['fields']) + f'){dd},')
            else:
                R.append(f"    {v['id']} {{")
                for f in v['fields']: R += rattrs(f, '        ') + [f"        {f['id']}: {f['ty']},"]
                R.append(f'    }}{dd},')
        R.append('}')
    if d['extra']: R.append(d['extra'])
    bound = ''
    if d['generics']:
        bound = '<' + ', '.join((f'const {x}: {b}' if k == 'const' else f"{x}: U{' + ' if b else ''}{b}") for k, x, b in d['generics'] if k != 'life') + '>'
    wu = w.replace("'a", "'static")
    N = n + ('::' + use if use else '')
    R.append(f'impl{bound} U for {n}{use}{wu} {{')
    R.append('    fn make(j: &J) -> Self {')
    if d['k'] == 'struct':
        R.append('        let f = &j["f"];' if d['fields'] else '        let _ = j;')
        if d['sk'] == 'struct': R.append(f'        {n} {{ ' + ', '.join(f"{f['id']}: U::make(&f[{i}])" for i, f in enumerate(d['fields'])) + ' }')
        elif d['sk'] == 'tuplestruct': R.append(f'        {n}(' + ', '.join(f"U::make(&f[{i}])" for i, f in enumerate(d['fields'])) + ')')
        else: R.append(f'        {n}')
    else:
        R.append('        let f = &j["f"]; let _ = f;')
        R.append('        match j["i"].as_u64().unwrap() {')
        for vi, v in enumerate(d['variants'], 1):
            if v['kind'] == 'unit': R.append(f"            {vi} => {n}::{v['id']},")
            elif v['kind'] == 'tuple': R.append(f"            {vi} => {n}::{v['id']}(" + ', '.join(f'U::make(&f[{i}])' for i in range(len(v['fields']))) + '),')
            else: R.append(f"            {vi} => {n}::{v['id']} {{ " + ', '.join(f"{f['id']}: U::make(&f[{i}])" for i, f in enumerate(v['fields'])) + ' },')
        R.append('            _ => unreachable!(),\n        }')
    R.append('    }\n    fn show(&self) -> J {')
    if d['k'] == 'struct':
        R.append('        json!({"t": "st", "f": [' + ', '.join(f"self.{f['id']}.show()" for f in d['fields']) + ']})')
    else:
        R.append('        match self {')
        for vi, v in enumerate(d['variants'], 1):
            if v['kind'] == 'unit': R.append(f"            {n}::{v['id']} => json!({{\"t\": \"en\", \"i\": {vi}, \"f\": []}}),")
            elif v['kind'] == 'tuple':
                b = [f'a{i}' for i in range(len(v['fields']))]
                R.append(f"            {n}::{v['id']}({', '.join(b)}) => json!({{\"t\": \"en\", \"i\": {vi}, \"f\": [" + ', '.join(x + '.show()' for x in b) + ']}),')
            else:
                b = [f['id'] for f in v['fields']]
                R.append(f"            {n}::{v['id']} {{ {', '.join(b)} }} => json!({{\"t\": \"en\", \"i\": {vi}, \"f\": [" + ', '.join(x + '.show()' for x in b) + ']}),')
        R.append('        }')
    R.append('    }\n}')
    # native layout
    if d['k'] == 'struct':
        R.append(f"impl{bound} Layouts for {n}{use}{wu} {{ fn offsets() -> Option<Vec<usize>> {{ Some(vec![" +
                 ', '.join(f"core::mem::offset_of!({n}{use}, {f['id']})" for f in d['fields']) + ']) } }')
    R.append('')
def rust_traits(e): return e['traits']
R.append('pub fn registry() -> Vec<TypeOps> {\n    vec![')
for i, e in enumerate(SH, 1):
    caps = []
    R.append(f"        crate::ops!({e['rust']}, " + ('own' if e.get('decl') and e['k'] == 'struct' else 'no') + ''.join(f", {t}" for t in e['traits']) + '),')
R.append('    ]\n}')
open(os.path.join(ROOT, 'harness/src/types.rs'), 'w').write('\n'.join(R) + '\n')
print(len(SH), 'shapes')
