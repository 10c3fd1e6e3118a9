"""One definition per mutator function: every emitted definition is instantiated with concrete builtin types
allowed by its partition; equal signatures must come with equal definitions."""
import itertools
import clangmodel as M
import emit
import gencheck as G
from engine import T, Term, getdom

POOL = {'bool': ['bool'], 'sint': ['int', 'long'], 'uint': ['unsigned int', 'unsigned long'],
        'float': ['float', 'double'], 'enum': [], 'bitint': []}


def result_fixed(g, key):
    """comparisons, logical operators and ! have a fixed result type."""
    if not (isinstance(key, Term) and key.f == 'ty'):
        return None
    n = key.a[0]
    cf = g.config
    if cf.is_bin(n) and cf.opdom(n) <= M.bos(M.G_REL + M.G_LOG):
        return ['bool'] if g.cxx else ['int']
    if cf.is_un(n) and cf.opdom(n) <= M.uos(['LNot']):
        return ['bool'] if g.cxx else ['int']
    return None


def type_atom(x):
    if isinstance(x, Term) and x.f in ('tname', 'tstring') and isinstance(x.a[0], Term):
        return x
    if isinstance(x, Term) and x.f == 'replace':
        return type_atom(x.a[0])
    return None


def spell(x, env):
    if isinstance(x, str):
        return x
    if isinstance(x, Term) and x.f in ('tname', 'tstring'):
        return env.get(x, repr(x))
    if isinstance(x, Term) and x.f == 'replace':
        s = spell(x.a[0], env)
        return s.replace(chr(int(x.a[1])), chr(int(x.a[2]))) if isinstance(x.a[1], int) else s.replace(x.a[1], x.a[2])
    return '<%r>' % (x,)


def spell_type(ty, env):
    b = ty.base
    if ty.fn is not None:
        s = 'std::function<%s()>' % spell_type(ty.fn, env)
    elif isinstance(b, tuple):
        s = ' '.join(b)
    else:
        s = spell(b, env)
    return ' '.join(sorted(ty.quals) + [s]) + ty.suf


def collect(g, info, tag):
    """adds (tag, cxx, opt, name, params, text, line) for every instantiation."""
    out = info['collect_set'] = info.get('collect_set') or {}
    for e in g.ins:
        try:
            defs = emit.parse_definitions(e[1])
        except emit.Malformed:
            continue
        atoms = {}
        for x in e[1].p:
            a = type_atom(x)
            if a is not None:
                k = g.tkey(a)
                fixed = result_fixed(g, k)
                dom = tuple(sorted(getdom(T('tc', k)))) if isinstance(k, Term) else ()
                atoms[a] = (k, tuple(fixed) if fixed else tuple(n for c in dom for n in POOL.get(c, [])))
        sig = (e[1], tuple(sorted(((repr(a), repr(k), d) for a, (k, d) in atoms.items()))), tag)
        if sig in out:
            continue
        out[sig] = 1
        keys = {}
        for a, (k, d) in atoms.items():
            if k in keys:
                keys[k] = tuple(x for x in keys[k] if x in d)
            else:
                keys[k] = d
        ks = list(keys)
        for combo in itertools.product(*[keys[k] for k in ks]):
            kv = dict(zip(ks, combo))
            env = {a: kv[k] for a, (k, _) in atoms.items()}
            text = ''.join(spell(x, env) for x in e[1].p)
            # compare what is defined, not white space or comments
            norm = ' '.join(t for t in tok_text(text))
            for d in defs:
                name = spell(d.name, env) if not isinstance(d.name, tuple) else ''.join(spell(x, env) for x in d.name)
                params = tuple(spell_type(t, env) for t, _ in d.params)
                info['collect'].append((tag, name, params, norm, e[-1]))


def tok_text(s):
    import re
    return re.findall(r'[A-Za-z_0-9]+|\S', re.sub(r'/\*.*?\*/', ' ', s, flags=re.S))


def decide(collected):
    """[(line, msg)] for clashes."""
    table = {}
    names = {}
    out = {}
    for tag, name, params, text, line in collected:
        cxx = tag[0]
        key = (tag, name, params) if cxx else (tag, name)
        old = table.setdefault(key, (text, line, params))
        if old[0] != text:
            what = 'in tracking mode ' if tag[2] == 'track' else ''
            out[(line, '%stwo different definitions of %s%s can be emitted (the other at line %s)' %
                 (what, name, '(%s)' % ', '.join(params) if cxx else '', old[1]))] = 1
        if cxx:
            names.setdefault((tag, name), {})[params] = line
    for (tag, name), ps in names.items():
        if len(ps) < 2:
            continue
        for a, b in itertools.combinations(sorted(ps), 2):
            if len(a) != len(b):
                continue
            bad = None
            for x, y in zip(a, b):
                fx, fy = x.startswith('std::function'), y.startswith('std::function')
                if fx != fy:
                    bad = None
                    break
                if fx and x != y:
                    bad = (x, y)
                elif x != y and x.replace('&', '') == y.replace('&', ''):
                    bad = (x, y)
            if bad:
                out[(ps[b], 'a call of %s is ambiguous between parameters %s and %s' % (name, bad[0], bad[1]))] = 1
    return sorted(out, key=str), len(table)
