import json, os, re
from ..core import check, load
from ..src import REPO, AnalysisError, walk
from ..eff import product_fns

RO = 'jarl-core/src/rule_options/'
TABLES = {'DuplicatedArguments': ('duplicated_arguments.rs', 'dup'), 'ImplicitAssignment': ('implicit_assignment.rs', 'implicit'),
          'UnreachableCode': ('unreachable_code.rs', 'unreachable'), 'UndesirableFunction': ('undesirable_function.rs', 'undesirable'),
          'Assignment': ('assignment.rs', 'assignment'), 'UnusedFunction': ('unused_function.rs', 'unused')}


def serde(attrs, word):
    for a in attrs:
        s = a.get('s', '')
        if s.startswith('serde'):
            m = re.search(r'\b%s\b(?:\s*=\s*"([^"]*)")?' % word, s)
            if m:
                return m.group(1) or True
    return None


def key(st, f):
    r = serde(f['attrs'], 'rename')
    if r:
        return r
    style = serde(st['attrs'], 'rename_all')
    return f['n'].replace('_', '-') if style == 'kebab-case' else f['n']


def kind(idx, t):
    """('list'|'string'|'bool'|'int'|table name, optional?)"""
    if t['k'] != 'path':
        return None
    n, g = t['p'][-1]['n'], t['p'][-1]['g']
    if n == 'Option':
        return kind(idx, g[0])
    if n in ('Vec', 'HashSet', 'BTreeSet'):
        return 'list of ' + str(kind(idx, g[0]))
    if n == 'String':
        return 'string'
    if n == 'bool':
        return 'bool'
    if n in ('usize', 'u32', 'u64', 'i64', 'u16', 'i32'):
        return 'int'
    return n


def schema_kind(defs, s):
    if 'anyOf' in s:
        ks = [schema_kind(defs, x) for x in s['anyOf'] if x.get('type') != 'null']
        return ks[0] if len(ks) == 1 else tuple(ks)
    if '$ref' in s:
        return s['$ref'].rsplit('/', 1)[1]
    t = s.get('type')
    if isinstance(t, list):
        t = [x for x in t if x != 'null'][0]
    if t == 'array':
        return 'list of ' + str(schema_kind(defs, s.get('items', {})))
    return {'boolean': 'bool', 'integer': 'int', 'string': 'string', 'object': 'table'}.get(t, t)


def option_structs(idx):
    """the structures a configuration file is deserialised into, reachable from TomlOptions"""
    seen, todo = {}, ['TomlOptions']
    while todo:
        n = todo.pop()
        if n in seen or n not in idx.structs:
            continue
        st = seen[n] = idx.structs[n]
        for f in st['f']:
            for x in walk(f['ty']):
                if x.get('k') == 'path':
                    m = x['p'][-1]['n']
                    todo.append(m)
                    if m in idx.enums:
                        for v in idx.enums[m]['v']:
                            for y in walk(v):
                                if y.get('k') == 'path':
                                    todo.append(y['p'][-1]['n'])
    return seen


def strictness(c):
    """every structure of the configuration rejects fields it does not know"""
    idx = load()
    sts = option_structs(idx)
    c.count('configuration structures', len(sts))
    if len(sts) < 8:
        c.undecided('configuration structures', 'only %d found' % len(sts))
        return
    for n, st in sorted(sts.items()):
        if serde(st['attrs'], 'deny_unknown_fields'):
            c.ok('strict:' + n)
            continue
        flat = [f for f in st['f'] if serde(f['attrs'], 'flatten') and any(x.get('k') == 'path' and x['p'][-1]['n'] in ('HashMap', 'BTreeMap') for x in walk(f['ty']))]
        used = [f for f in flat if any(x.get('k') == 'field' and (x.get('n') or x.get('f') or x.get('m')) == f['n'] for g in product_fns(idx) for x in walk(g.j['b']))]
        if used:
            c.ok('strict:' + n, 'unknown fields are collected in `%s` and rejected by into_settings' % used[0]['n'])
        else:
            c.bad('strict:' + n, '%s struct %s' % (st['file'], n), 'a configuration file with an unknown field in `%s` is accepted silently (no deny_unknown_fields)' % n)
    for n, st in sorted(sts.items()):
        for f in st['f']:
            for w in ('skip', 'skip_deserializing', 'alias', 'default', 'deserialize_with', 'with'):
                if serde(f['attrs'], w) is not None and w == 'alias':
                    c.bad('alias:%s.%s' % (n, f['n']), '%s struct %s' % (st['file'], n), 'the undocumented name `%s` is accepted for the option `%s`' % (serde(f['attrs'], w), f['n']))
                elif serde(f['attrs'], w) is not None and w in ('skip', 'skip_deserializing'):
                    c.bad('skipped:%s.%s' % (n, f['n']), '%s struct %s' % (st['file'], n), 'the option `%s` is never read from the configuration file' % f['n'])


def defaults_doc():
    t = open(os.path.join(REPO, 'docs', 'config.md'), encoding='utf-8').read()
    out = {}
    sec = None
    for part in re.split(r'^#### ', t, flags=re.M)[1:]:
        m = re.match(r'`([\w-]+)`', part)
        if not m:
            continue
        out[m.group(1)] = part
    return out


@check('C21', 'structural comparison of the configuration structures (serde names, kinds, strictness) with the published schema and documentation; gated value numbering of option resolution against references')
def c21(c):
    idx = load()
    strictness(c)
    c.equiv(RO + 'mod.rs', 'resolve_with_extend', 'spec_resolve_with_extend')
    for n, (f, s) in TABLES.items():
        c.equiv(RO + f, 'Resolved%sOptions::resolve' % n, 'Resolved%sOptions::spec_resolve_%s' % (n, s), opaque={'Regex::new'})
    c.equiv(RO + 'unused_function.rs', 'ResolvedUnusedFunctionOptions::is_skipped', 'ResolvedUnusedFunctionOptions::spec_is_skipped')
    R = {'Resolved%sOptions::resolve' % n for n in TABLES}
    c.equiv(RO + 'mod.rs', 'ResolvedRuleOptions::resolve', 'ResolvedRuleOptions::spec_resolve_all', opaque=R)
    c.equiv('jarl-core/src/toml.rs', 'TomlOptions::into_settings', 'TomlOptions::spec_into_settings', opaque={'ResolvedRuleOptions::resolve'})
    c.equiv('jarl-core/src/settings.rs', 'LinterSettings::default', 'LinterSettings::spec_default', opaque={'ResolvedRuleOptions::default'})
    # published schema
    sch = json.load(open(os.path.join(REPO, 'artifacts', 'jarl.schema.json')))
    defs = sch['$defs']
    root = dict(sch, title='TomlOptions')
    for n, st in sorted(option_structs(idx).items()):
        if n == 'GlobalTomlOptions' or any(serde(f['attrs'], 'flatten') and n != 'TomlOptions' and len(st['f']) == 1 for f in st['f']):
            continue
        d = root if n == 'TomlOptions' else defs.get(n)
        if d is None:
            c.bad('schema:' + n, 'artifacts/jarl.schema.json', 'the configuration table `%s` is missing from the published schema' % n)
            continue
        mine = {key(st, f): kind(idx, f['ty']) for f in st['f'] if not serde(f['attrs'], 'flatten')}
        theirs = {k: schema_kind(defs, v) for k, v in d.get('properties', {}).items()}
        for k in sorted(set(mine) | set(theirs)):
            c.count('options compared with the schema')
            if k not in theirs:
                c.bad('schema:%s.%s' % (n, k), '%s struct %s' % (st['file'], n), 'the accepted option `%s` is not in the published schema' % k)
            elif k not in mine:
                c.bad('schema:%s.%s' % (n, k), '%s struct %s' % (st['file'], n), 'the published option `%s` is not accepted' % k)
            elif mine[k] != theirs[k] and not (mine[k] == 'AssignmentConfig' and theirs[k] in ('AssignmentConfig', ('string', 'AssignmentOptions'))):
                c.bad('schema:%s.%s' % (n, k), '%s struct %s' % (st['file'], n), 'the option `%s` is read as %s but published as %s' % (k, mine[k], theirs[k]))
            else:
                c.ok('schema:%s.%s' % (n, k))
    c.floor('options compared with the schema', 18, 'artifacts/jarl.schema.json')
    # documentation
    doc = defaults_doc()
    lt = idx.structs.get('LinterTomlOptions')
    if lt is None or len(doc) < 10:
        raise AnalysisError('configuration structure or documentation not found')
    names = {key(lt, f): f for f in lt['f'] if not serde(f['attrs'], 'flatten')}
    for k, text in doc.items():
        if k not in names:
            c.bad('documented:' + k, '%s struct LinterTomlOptions' % lt['file'], 'the documented option `%s` is not accepted' % k)
            continue
        c.ok('documented:' + k)
        t = kind(idx, names[k]['ty'])
        t = 'AssignmentOptions' if t == 'AssignmentConfig' else t
        if t not in idx.structs:
            continue
        sub = {key(idx.structs[t], f) for f in idx.structs[t]['f']}
        used = set(re.findall(r'`((?:extend-)?[a-z]+-(?:functions|ignore)|operator|functions)`', text)) | set(re.findall(r'^([\w-]+) = ', text.split('```toml')[-1], re.M))
        for u in sorted(used):
            if u not in sub:
                c.bad('documented:%s.%s' % (k, u), '%s struct %s' % (idx.structs[t]['file'], t), 'the documented option `%s` of `[lint.%s]` is not accepted' % (u, k))
            else:
                c.ok('documented:%s.%s' % (k, u))
    # every resolved option is read by the rule (or the stage) it configures
    reads = {}
    for f in product_fns(idx):
        if '/rule_options/' in f.file or f.file.endswith('/toml.rs') or f.file.endswith('/settings.rs'):
            continue
        for n in walk(f.j['b']):
            if n.get('k') == 'field':
                reads.setdefault(n.get('n') or n.get('f') or n.get('m'), set()).add(f.file)
    for n in TABLES:
        st = idx.structs.get('Resolved%sOptions' % n)
        if st is None:
            c.undecided('effect:' + n, 'the resolved structure was renamed')
            continue
        for f in st['f']:
            if f['n'] in reads or any(m.qual.startswith('Resolved%sOptions::' % n) and m.name != 'resolve' for m in product_fns(idx)):
                c.ok('effect:%s.%s' % (n, f['n']))
            else:
                c.bad('effect:%s.%s' % (n, f['n']), '%s struct Resolved%sOptions' % (st['file'], n), 'the option `%s` has no effect: nothing reads it' % f['n'])
    c.equiv(RO + 'mod.rs', 'ResolvedRuleOptions::default', 'ResolvedRuleOptions::spec_default', opaque={'ResolvedRuleOptions::resolve'})
    for m, g in (('visit_str', 'AssignmentConfigVisitor::spec_visit_str'), ('visit_map', 'AssignmentConfigVisitor::spec_visit_map')):
        c.equiv(RO + 'assignment.rs', 'AssignmentConfigVisitor::' + m, g)
