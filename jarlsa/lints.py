"""What each rule function reports: its diagnostics (name, range, fix), on every path of its summary."""
from .core import load, rel
from .term import subterms, leaves, show, Unknown, mk, ctor, T, assume, atoms, rewrite, B
from . import term as TM
from .ev import Ev

RS = 'jarl-core/src/rule_set.rs'
_memo = {}


def registry_const(qual, **args):
    """value of a registry function on constant arguments"""
    key = (qual,) + tuple(sorted((k, v.id) for k, v in args.items()))
    if key in _memo:
        return _memo[key]
    idx = load()
    f = idx.find(RS, qual) or idx.find_any(qual)
    r = None
    if f is not None:
        TM.refill()
        try:
            r = Ev(idx, registry=True).summary(f, {k if k == 'self' else int(k[1:]): v for k, v in args.items()}).value
        except (Unknown, RecursionError):
            r = None
    _memo[key] = r
    return r


def rules():
    """{variant: rule name}"""
    en = load().enums.get('Rule')
    out = {}
    for e in en if isinstance(en, list) else [en]:
        if e and not '/spec/' in str(e.get('file', '')):
            for v in e['v']:
                n = registry_const('Rule::name', self=ctor('Rule::' + v['n']))
                out[v['n']] = n.a[0] if n is not None and n.op == 'str' else None
    return out


def fix_status(variant):
    r = registry_const('Rule::fix_status', self=ctor('Rule::' + variant))
    return r.a[0].split('::')[-1] if r is not None and r.op == 'ctor' else None


def is_lint(f):
    o = str((f.j.get('out') or {}).get('s', '')).replace(' ', '')
    return '/lints/' in f.file and 'Diagnostic' in o


def lint_summary(f):
    """value of a lint function on well-formed syntax; helpers of other modules are left symbolic"""
    k = ('lint', f.file, f.qual)
    if k in _memo:
        return _memo[k]
    idx = load()
    away = {g.name for g in idx.fns if '/spec/' not in g.file and g.file != f.file and (g.owner is None or '/unreachable_code/' in g.file)} - {'new', 'empty'}
    away |= {'find_unreachable_code', 'build_cfg'}
    away -= {g.name for g in idx.fns if g.file == f.file} - {'name', 'body', 'suggestion'}
    TM.refill()
    ev = Ev(idx, opaque=away, ns='l')
    ev.assume_ok = True
    try:
        v = ev.summary(f).value
    except (Unknown, RecursionError) as e:
        v = None
    _memo[k] = (v, ev.analysed)
    return _memo[k]


def struct_fields(t):
    return dict(zip(t.a[1], t.a[2:])) if t.op == 'struct' else {}


def name_of(message):
    """the rule name a diagnostic's message carries, or None when it is not constant"""
    if message.op == 'struct' and message.a[0] == 'ViolationData':
        n = struct_fields(message)['name']
        return n.a[0] if n.op == 'str' else None
    t = message
    while t.op == 'app' and t.a[0] in ('into', 'from', 'f:ViolationData::from') and len(t.a) == 2:
        t = t.a[1]
    ty = t.a[0] if t.op in ('struct', 'ctor', 'var', 'const') else None
    f = load().find_any('%s::name' % ty) if ty else None
    if f is None:
        return None
    v = summarised(f)
    return v.a[0] if v is not None and v.op == 'str' else None


def summarised(f):
    k = ('fn', f.file, f.qual)
    if k not in _memo:
        TM.refill()
        try:
            _memo[k] = Ev(load(), ns='l').summary(f).value
        except (Unknown, RecursionError):
            _memo[k] = None
    return _memo[k]


def diagnostics(v):
    """every diagnostic that may be part of the value: (term, fields)"""
    seen = set()
    for x in subterms(v):
        if x.op == 'struct' and x.a[0] == 'Diagnostic' and x.id not in seen:
            seen.add(x.id)
            yield x, struct_fields(x)
