import os, re
from ..core import check, load, rel
from ..src import REPO, AnalysisError
from ..term import show, mk, ctor, ite, Unknown, eq
from .. import term as TM

RS = 'jarl-core/src/rule_set.rs'
FIX = {'✅': 'Safe', '❗': 'Unsafe', '❌': 'None'}


def const(c, qual, **args):
    """value of a registry function on constant arguments (constant propagation through the expanded macro)"""
    from ..ev import Ev
    idx = load()
    f = idx.find(RS, qual) or idx.find_any(qual)
    if f is None:
        return None
    TM.refill()
    try:
        ev = Ev(idx, registry=True)
        v = ev.summary(f, {k if k == 'self' else int(k[1:]): v for k, v in args.items()}).value
    except (Unknown, RecursionError):
        return None
    for x in ev.analysed:
        c.funcs.add('%s::%s' % (rel(x.file), x.qual))
    return v


def where(c, idx, qual):
    f = idx.find(RS, qual) or idx.find_any(qual)
    return '%s:%s fn %s' % (rel(f.file), f.j['l'], qual) if f else RS


def published():
    p = os.path.join(REPO, 'docs', 'rules.qmd')
    t = open(p, encoding='utf-8').read()
    rows = re.findall(r'^\s*c\("([^"]+)",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)"\)', t, re.M)
    groups = dict(re.findall(r'\*\*([a-z]+)\*\* \(([A-Z]+)\)', t))
    return rows, groups


def categories(c, groups=None):
    """group names and back; the list of all groups"""
    idx = load()
    # categories
    cat_of = {}
    cats = idx.enums.get('Category')
    for v in cats['v']:
        s = const(c, 'Category::as_str', self=ctor('Category::' + v['n']))
        if s is None or s.op != 'str':
            c.undecided('category:' + v['n'], 'as_str is outside the fragment')
            continue
        cat_of['Category::' + v['n']] = s.a[0]
        b = const(c, 'Category::from_str', a0=s)
        want = ctor('Ok', ctor('Category::' + v['n']))
        if b is None:
            c.undecided('category-parse:' + v['n'], 'from_str is outside the fragment')
        elif b is not want:
            c.bad('category-parse:' + v['n'], where(c, idx, 'Category::from_str'), '`%s` parses to %s instead of Category::%s' % (s.a[0], show(b), v['n']))
        else:
            c.ok('category:' + v['n'])
    if len(set(cat_of.values())) != len(cat_of):
        c.bad('category-names', where(c, idx, 'Category::as_str'), 'two categories share one name')
    if groups is not None and set(cat_of.values()) != set(groups.values()):
        c.bad('category-docs', where(c, idx, 'Category::as_str'), 'groups %s are not the documented ones %s' % (sorted(cat_of.values()), sorted(groups.values())))
    from ..ev import Ev
    try:
        ev = Ev(idx, registry=True)
        from ..stdm import State, Frame
        listed = [e for o, f, e, t in idx.consts.get('ALL', []) if o == 'Category']
        names = [x['e'] if x['k'] == 'ref' else x for x in listed]
        got = [a['p'][-1]['n'] for x in names if x['k'] == 'array' for a in x['e'] if a['k'] == 'path']
        if names and (sorted(got) != sorted(v['n'] for v in cats['v'])):
            c.bad('category-all', RS + ' Category::ALL', 'Category::ALL lists %s' % got)
        elif names:
            c.ok('category-all')
    except (KeyError, Unknown) as e:
        c.undecided('category-all', str(e))
    return cat_of


def memberships(c, cat_of):
    """every rule is recognised as a member of exactly its groups"""
    idx = load()
    for v in idx.enums['Rule']['v']:
        me = ctor('Rule::' + v['n'])
        cs = const(c, 'Rule::categories', self=me)
        cs = [x.a[0] for x in cs.a] if cs is not None and cs.op == 'list' else None
        if cs is None:
            c.undecided('groups:' + v['n'], 'Rule::categories is outside the fragment')
            continue
        for k in cat_of:
            h = const(c, 'Rule::has_category', self=me, a0=ctor(k))
            if h is not None and h.op == 'bool' and h.a[0] is not (k in cs):
                c.bad('has_category:%s' % v['n'], where(c, idx, 'Rule::has_category'), 'has_category(%s) of Rule::%s is %s' % (k, v['n'], h.a[0]))
        c.ok('groups:' + v['n'])


def rule_names(c):
    """every rule is found under its own name, and nothing else is the name of a rule"""
    idx = load()
    seen = {}
    for v in idx.enums['Rule']['v']:
        n = const(c, 'Rule::name', self=ctor('Rule::' + v['n']))
        if n is None or n.op != 'str':
            c.undecided('name:' + v['n'], 'Rule::name is outside the fragment')
            return
        seen[n.a[0]] = v['n']
    any_name(c, seen)


def any_name(c, seen):
    idx = load()
    x = mk('var', 'name', 'c01')
    x.ty = 'str'
    any_ = const(c, 'Rule::from_name', a0=x)
    ref = ctor('None')
    for n, v in seen.items():
        ref = ite(eq(x, mk('str', n)), ctor('Some', ctor('Rule::' + v)), ref)
    from ..cmp import Cmp, explain
    try:
        r, d = Cmp().compare(ref, any_) if any_ is not None else ('undecided', 'outside the fragment')
    except Exception as e:
        r, d = 'undecided', str(e)
    if r == 'differ':
        c.bad('from_name:any', where(c, idx, 'Rule::from_name'), 'Rule::from_name of an arbitrary name: %s' % explain(d))
    elif r == 'undecided':
        c.undecided('from_name:any', d)
    else:
        c.ok('from_name:any', 'every other name maps to None')


@check('C01', 'constant propagation through the macro-expanded registry for every rule, compared with the published table; gated value numbering of the rule set operations against references')
def c01(c):
    idx = load()
    en = idx.enums.get('Rule')
    if en is None or len(en['v']) < 20:
        c.undecided('registry', 'the enumeration of rules was not found')
        return
    rows, groups = published()
    if len(rows) < 40 or len(groups) < 4:
        raise AnalysisError('docs/rules.qmd: the published table was not found')
    doc = {}
    for n, g, f, cond in rows:
        if n in doc:
            c.bad('doc-duplicate:' + n, 'docs/rules.qmd', 'rule `%s` is listed twice' % n)
        doc[n] = (g, f, cond)
    allc = const(c, 'Rule::all')
    cat_of = categories(c, groups)
    # rules
    if allc is None or allc.op != 'list':
        c.undecided('all', 'Rule::all() is not a constant list')
        listed = None
    else:
        listed = [x.a[0] for x in allc.a]
        for v in en['v']:
            k = listed.count('Rule::' + v['n'])
            if k != 1:
                c.bad('all:' + v['n'], where(c, idx, 'Rule::all'), 'Rule::%s occurs %d times in the list of all rules' % (v['n'], k))
    seen = {}
    for v in en['v']:
        me = ctor('Rule::' + v['n'])
        c.count('rules')
        n = const(c, 'Rule::name', self=me)
        if n is None or n.op != 'str':
            c.undecided('name:' + v['n'], 'Rule::name is outside the fragment')
            continue
        name = n.a[0]
        if name in seen:
            c.bad('name-unique:' + name, where(c, idx, 'Rule::name'), 'rules %s and %s share the name `%s`' % (seen[name], v['n'], name))
        seen[name] = v['n']
        back = const(c, 'Rule::from_name', a0=n)
        if back is None:
            c.undecided('from_name:' + name, 'outside the fragment')
        elif back is not ctor('Some', me):
            c.bad('from_name:' + name, where(c, idx, 'Rule::from_name'), '`%s` maps to %s instead of Rule::%s' % (name, show(back)[:200], v['n']))
        got = {}
        for q in ('categories', 'default_status', 'fix_status', 'minimum_r_version', 'has_safe_fix', 'has_unsafe_fix', 'has_no_fix', 'is_enabled_by_default',
                  'is_disabled_by_default', 'deprecation', 'is_deprecated'):
            got[q] = const(c, 'Rule::' + q, self=me)
        und = [q for q in got if got[q] is None or got[q].op == 'app']
        if und:
            c.undecided('attributes:' + name, ', '.join(und))
        fx = got['fix_status'].a[0].split('::')[-1] if got['fix_status'] is not None and got['fix_status'].op == 'ctor' else None
        df = got['default_status'].a[0].split('::')[-1] if got['default_status'] is not None and got['default_status'].op == 'ctor' else None
        for q, want in (('has_safe_fix', fx == 'Safe'), ('has_unsafe_fix', fx == 'Unsafe'), ('has_no_fix', fx == 'None')):
            if fx and got[q] is not None and got[q].op == 'bool' and got[q].a[0] is not want:
                c.bad('%s:%s' % (q, name), where(c, idx, 'Rule::' + q), 'Rule::%s of `%s` is %s although its fix status is %s' % (q, name, not want, fx))
        for q, want in (('is_enabled_by_default', df == 'Enabled'), ('is_disabled_by_default', df == 'Disabled')):
            if df and got[q] is not None and got[q].op == 'bool' and got[q].a[0] is not want:
                c.bad('%s:%s' % (q, name), where(c, idx, 'Rule::' + q), 'Rule::%s of `%s` is %s although its default status is %s' % (q, name, not want, df))
        cs = [x.a[0] for x in got['categories'].a] if got['categories'] is not None and got['categories'].op == 'list' else None
        if cs is not None:
            for k in cat_of:
                h = const(c, 'Rule::has_category', self=me, a0=ctor(k))
                if h is not None and h.op == 'bool' and h.a[0] is not (k in cs):
                    c.bad('has_category:%s' % name, where(c, idx, 'Rule::has_category'), 'has_category(%s) of `%s` is %s' % (k, name, h.a[0]))
        row = doc.get(name)
        if row is None:
            c.bad('undocumented:' + name, where(c, idx, 'Rule::name'), 'rule `%s` (Rule::%s) is not in the published table' % (name, v['n']))
            continue
        g, f, cond = row
        if cs is not None:
            have = sorted(cat_of.get(x, x) for x in cs)
            want = sorted(groups.get(x.strip(), x.strip().upper()) for x in g.split(','))
            if have != want:
                c.bad('groups:' + name, where(c, idx, 'Rule::categories'), 'rule `%s` belongs to %s, published: %s' % (name, have, want))
        if fx and fx != FIX.get(f):
            c.bad('fix:' + name, where(c, idx, 'Rule::fix_status'), 'rule `%s` has fix status %s, published: %s' % (name, fx, FIX.get(f)))
        want = 'Disabled' if 'Disabled by default' in cond else 'Enabled'
        if df and df != want:
            c.bad('default:' + name, where(c, idx, 'Rule::default_status'), 'rule `%s` is %s by default, published: %s' % (name, df, want))
        mv = got['minimum_r_version']
        m = re.search(r'R >= (\d+)\.(\d+)(?:\.(\d+))?', cond)
        want = show(ctor('Some', mk('tuple', *[mk('int', int(x or 0)) for x in m.groups()]))) if m else 'None'
        if mv is not None and mv.op == 'ctor' and show(mv) != want:
            c.bad('version:' + name, where(c, idx, 'Rule::minimum_r_version'), 'rule `%s` requires R %s, published: %s' % (name, show(mv), cond or '-'))
        dp = got['deprecation']
        if dp is not None and dp.op == 'ctor' and dp.a[0] == 'Some' and dp.a[1].op == 'struct':
            r = re.search(r"replacement: '([^']+)'", show(dp))
            if r and r.group(1) not in doc:
                c.bad('deprecation:' + name, where(c, idx, 'Rule::deprecation'), 'the replacement of `%s`, `%s`, is not a rule' % (name, r.group(1)))
        c.ok('rule:' + name, 'name, groups, fix, default and version agree with docs/rules.qmd')
    for n in doc:
        if n not in seen and seen:
            c.bad('unknown:' + n, 'docs/rules.qmd', 'published rule `%s` does not exist' % n)
    any_name(c, seen)
    # rule sets
    for q in ('empty', 'from_rules', 'all', 'iter', 'contains', 'contains_name', 'len', 'is_empty', 'filter'):
        c.equiv(RS, 'RuleSet::' + q, 'RuleSet::spec_' + q)
    for q in ('by_fix_status', 'by_category', 'enabled_by_default', 'disabled_by_default'):
        c.equiv(RS, 'Rule::' + q, 'Rule::spec_' + q)
    c.impls('RuleSet', 'FromIterator', {'from_iter': 'RuleSet::spec_from_iter'})
    c.structural_eq('Rule', 'Category', 'FixStatus', 'DefaultStatus')
    c.equiv('jarl-core/src/lints/mod.rs', 'all_rules_enabled_by_default', 'spec_all_rules_enabled_by_default')
