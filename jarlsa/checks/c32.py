"""What each rule reports: the triggering syntax, the range and the replacement, compared with a reference per rule."""
import re
from ..core import check, load, rel, Ctx
from ..eff import product_fns
from ..lints import is_lint
from ..src import walk
from ..syn import norm, operator_kinds, VOCAB
from ..term import rewrite, mk, lift, ite, is_, subterms, NONE, Some

INLINE = {'get_unnamed_args', 'get_named_args', 'get_arg_by_name', 'get_arg_by_position', 'get_unnamed_arg_by_position', 'get_arg_by_name_then_position', 'is_argument_present', 'drop_arg_by_name_or_position',
          'parenthesize_in_place_of', 'expression_strength', 'binding_strength', 'unary_binding_strength'}


def found(t):
    """a diagnostic as (range, replacement): the wording is not part of the property"""
    def g(x):
        if x.op == 'struct' and x.a[0] == 'Diagnostic':
            d = dict(zip(x.a[1], x.a[2:]))
            fix = d['fix']
            if fix.op != 'struct':
                return None
            q = dict(zip(fix.a[1], fix.a[2:]))
            if q['content'].op == 'str' and q['content'].a[0] == '':
                return mk('tuple', d['range'], ite(q['to_skip'], NONE, Some(mk('str', 'an empty fix that is not marked as none'))))
            return mk('tuple', d['range'], Some(mk('tuple', q['start'], q['end'], q['content'], q['to_skip'])))
        return None
    return rewrite(t, g)


def plain(x):
    if x.op == 'ctor' and x.a[0] == 'Ok':
        return x.a[1]
    return x


def project(what, t):
    return operator_kinds(lift(plain, found(norm(t))))


def used(t):
    return {x for x in subterms(t) if x.op == 'app' and x.a and isinstance(x.a[0], str) and x.a[0].startswith('f:')}


def verdict(c, f, name, opaque, domain, vocab):
    """(verdict, helpers on each side) of one comparison, on a context of its own"""
    t = Ctx(c.prop, c.tier)
    seen = []

    def proj(what, x):
        y = project(what, x)
        if domain:
            y = domain(y)
        seen.append(used(y))
        return y
    r = t.equiv(rel(f.file), f.qual, name, opaque=opaque, assume_ok=True, project=proj, vocab=vocab, target=f)
    return r, t, len(seen) >= 2 and seen[0] == seen[1]


def one_operator(t):
    """assignment() is only called for one of two operators"""
    a = next((x for x in subterms(t) if x.op == 'var' and x.a[0] == 'arg1'), NONE)
    return ite(is_(a, 'RSyntaxKind::ASSIGN'), t, ite(is_(a, 'RSyntaxKind::EQUAL'), t, NONE))


DOMAIN = {'rule_assignment': one_operator}


@check('C32', 'gated value numbering on well-formed syntax: what each rule reports and rewrites compared with a reference per rule on every path')
def c32(c):
    idx = load()
    fns = [f for f in product_fns(idx)]
    specs = {g.name: g for g in idx.fns if '/spec/lints' in g.file}
    free = {f.name for f in fns if f.owner is None}
    known = free & {n for g in specs.values() for n in called(g)}
    methods = {n for f in fns for n in names(f)}
    vocab = VOCAB | {'app:' + m for m in methods if m.startswith('as_r_')} | {'app:' + n for n in known} | {'app:f:' + n for n in known}
    # a helper with another signature is not the helper of the reference: it is looked into, on both sides
    other = {f.name for f in fns for g in [specs.get('spec_' + f.name)] if g and '/lints/' in f.file and not is_lint(f) and signature(f) != signature(g)}
    other -= {f.name for f in fns for g in [specs.get('spec_' + f.name)] if g and '/lints/' in f.file and signature(f) == signature(g)}
    known -= other
    for name in sorted(specs):
        part = name.startswith('spec_')
        if not part and not name.startswith('rule_'):
            continue
        cand = [f for f in fns if f.name == name[5:] and '/lints/' in f.file and (part or is_lint(f))]
        if not cand:
            c.undecided(name[5:], 'renamed or inlined') if part else c.fn('jarl-core/src/lints/', name[5:])
            continue
        if name[5:] in other:
            c.undecided(name[5:], 'its signature changed')
            continue
        f = cand[0]
        # first with the shared look-up functions as they are, then, if the two sides do not use the same ones, with those inlined
        away = known
        r, t, same = verdict(c, f, name, away, DOMAIN.get(name), vocab)
        if r != 'equal' and not (r == 'differ' and same):
            r2, t2, _ = verdict(c, f, name, away - INLINE, DOMAIN.get(name), vocab)
            if r2 == 'equal' or r == 'differ':
                r, t = r2, t2
        c.merge(t)
        c.count('rule functions compared', 1)
    c.floor('rule functions compared', len([n for n in specs if n.startswith('rule_')]))


def signature(f):
    """types of the parameters and the result, however they are borrowed"""
    t = [p['ty'] for p in f.j['in'] if p.get('ty')] + [f.j.get('out')]
    return [re.sub(r'&|\bmut\b|\s', '', x['s']).replace('Found', 'Diagnostic') if x else '' for x in t]


def called(g):
    for n in walk(g.j.get('b')):
        if n.get('k') == 'call' and n['f'].get('k') == 'path':
            yield n['f']['p'][-1]['n']


def names(f):
    for n in walk(f.j.get('b')):
        if n.get('k') == 'mcall':
            yield n.get('m') or n.get('n')
