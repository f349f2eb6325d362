"""Loading /repo's Rust sources as syntax trees and indexing them."""
import re
import json, os, subprocess, sys, hashlib

REPO = os.environ.get('JARL_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DUMPER_DIR = os.path.join(VERIF, 'dumper')
DUMPER = os.path.join(DUMPER_DIR, 'target', 'release', 'rsdump')


class AnalysisError(Exception):
    """The sources could not be analysed (reported fail-closed)."""


def build_dumper():
    if os.path.exists(DUMPER) and os.path.getmtime(DUMPER) >= max(
            os.path.getmtime(os.path.join(DUMPER_DIR, 'src', 'main.rs')),
            0):
        return
    env = dict(os.environ)
    env.setdefault('HOME', '/root')
    env.setdefault('CARGO_HOME', '/root/.cargo')
    env.setdefault('RUSTUP_HOME', '/root/.rustup')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '')
    env['CARGO_NET_OFFLINE'] = 'true'
    env['RUSTUP_TOOLCHAIN'] = 'stable'
    env['CARGO_TARGET_DIR'] = os.path.join(DUMPER_DIR, 'target')
    env['RUSTC_WRAPPER'] = ''
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--locked'], cwd=DUMPER_DIR, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(DUMPER):
        raise AnalysisError('cannot build the syntax dumper:\n' + r.stdout[-3000:])


def dump(paths):
    build_dumper()
    r = subprocess.run([DUMPER] + paths, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisError('dumper failed: ' + r.stderr[-2000:])
    d = json.loads(r.stdout)
    for p, v in d.items():
        if v['error']:
            raise AnalysisError('does not parse: %s: %s' % (p, v['error']))
    return d


def rust_files(root):
    out = []
    for base in ('crates', 'editors/zed/src', 'xtask'):
        top = os.path.join(root, base)
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ('target', 'tests', 'snapshots', 'node_modules', '.git'))
            for f in sorted(fs):
                if f.endswith('.rs'):
                    out.append(os.path.join(d, f))
    return out


def seg_names(p):
    return [s['n'] for s in p]


STRIP = {'Box', 'Arc', 'Rc', 'Cow', 'Ref', 'RefMut', 'MutexGuard', 'LazyLock', 'OnceLock', 'Mutex', 'RwLock', 'RefCell', 'Cell', 'Pin'}
INTS = {'usize', 'isize', 'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'u128', 'i128', 'TextSize', 'DocumentVersion'}


def conv_type(t, self_ty=None, aliases=None):
    """Type JSON -> light type."""
    if t is None:
        return 'unit'
    k = t['k']
    if k == 'ref':
        return conv_type(t['e'], self_ty, aliases)
    if k in ('slice', 'array'):
        return ('vec', conv_type(t['e'], self_ty, aliases))
    if k == 'tuple':
        if not t['e']:
            return 'unit'
        return ('tuple',) + tuple(conv_type(x, self_ty, aliases) for x in t['e'])
    if k == 'path':
        last = t['p'][-1]
        n = last['n']
        g = last['g']
        ga = [x for x in g if isinstance(x, dict) and x.get('k') not in ('assoc',)
              and not (x.get('k') == 'other' and x.get('s', '').startswith("'"))] if isinstance(g, list) else []
        if n == 'Self' and self_ty:
            return ('adt', self_ty)
        if n in STRIP and ga:
            return conv_type(ga[-1], self_ty, aliases)
        if n == 'Option':
            return ('option', conv_type(ga[0], self_ty, aliases) if ga else None)
        if n == 'Result' or n == 'LspResult':
            return ('result', conv_type(ga[0], self_ty, aliases) if ga else None,
                    conv_type(ga[1], self_ty, aliases) if len(ga) > 1 else None)
        if n in ('Vec', 'VecDeque', 'SmallVec'):
            return ('vec', conv_type(ga[0], self_ty, aliases) if ga else None)
        if n in ('HashSet', 'BTreeSet', 'FxHashSet'):
            return ('set', conv_type(ga[0], self_ty, aliases) if ga else None)
        if n in ('HashMap', 'BTreeMap', 'FxHashMap'):
            return ('map', conv_type(ga[0], self_ty, aliases) if ga else None,
                    conv_type(ga[1], self_ty, aliases) if len(ga) > 1 else None)
        if n in ('String', 'str'):
            return 'str'
        if n in INTS:
            return 'int'
        if n == 'bool':
            return 'bool'
        if n == 'char':
            return 'char'
        if n in ('Path', 'PathBuf'):
            return ('adt', 'Path')
        if aliases and n in aliases:
            return conv_type(aliases[n], self_ty, {k: v for k, v in aliases.items() if k != n})
        return ('adt', n)
    if k == 'other' and 'Iterator' in t.get('s', ''):
        return ('iter', None)
    return None


def as_bound(t, m):
    '''a parameter of a generic type that is only used as a reference to X, as an X'''
    if isinstance(t, list):
        return [as_bound(x, m) for x in t]
    if not isinstance(t, dict):
        return t
    if t.get('k') == 'path' and len(t.get('p') or []) == 1 and t['p'][0]['n'] in m and not t['p'][0].get('g'):
        n = m[t['p'][0]['n']]
        return {'k': 'path', 'q': None, 'p': [{'n': n, 'g': None}], 's': n}
    return {k: as_bound(v, m) for k, v in t.items()}


def leave_by_return(b):
    """`loop { .. break; .. } T` as `loop { .. return T; .. }` for a plain T (a path, or a call of one with a path)"""
    if len(b) < 2 or b[-1]['k'] != 'expr' or b[-1].get('semi') or b[-2]['k'] != 'expr' or b[-2]['e']['k'] != 'loop':
        return b
    t, lp = b[-1]['e'], b[-2]['e']
    q = t['a'][0] if t['k'] == 'call' and t['f']['k'] == 'path' and t['f']['p'][-1]['n'] in ('Ok', 'Some', 'Err') and len(t['a']) == 1 else t
    if q['k'] != 'path' or len(q['p']) != 1:
        return b
    n = q['p'][0]['n']
    if any(x.get('k') == 'ident' and x.get('n') == n and 'sub' in x for x in walk(lp['b'])):
        return b

    def go(x):
        if isinstance(x, list):
            return [go(y) for y in x]
        if not isinstance(x, dict):
            return x
        k = x.get('k')
        if k in ('loop', 'while', 'for', 'closure', 'async'):
            return x
        if k == 'break' and not x.get('label') and x.get('e') is None:
            return {'k': 'return', 'e': t, 'l': x['l']}
        return {a: go(y) for a, y in x.items()}
    return b[:-2] + [dict(b[-2], e=dict(lp, b=go(lp['b'])))]


class Fn:
    __slots__ = ('name', 'file', 'owner', 'trait', 'j', 'mod', 'line', 'qual')

    def __init__(s, name, file, owner, trait, j, mod):
        s.name, s.file, s.owner, s.trait, s.j, s.mod = name, file, owner, trait, j, mod
        s.line = j['l']
        m = {}
        for g in j.get('gen') or []:
            q = re.match(r'(\w+) : AsRef < (Path|str) >$', g)
            if q:
                m[q.group(1)] = q.group(2)
        if m:
            j['in'] = [dict(x, ty=as_bound(x['ty'], m)) if x.get('ty') else x for x in j['in']]
        if isinstance(j.get('b'), list):
            j['b'] = leave_by_return(j['b'])
        s.qual = (owner + '::' if owner else '') + name

    def __repr__(s):
        return '<Fn %s %s>' % (s.file, s.qual)

    @property
    def has_self(s):
        return bool(s.j['in']) and bool(s.j['in'][0].get('self'))


class Index:
    def __init__(s, files, root=''):
        """files: dict path -> {'items'} (already parsed)"""
        s.fns = []
        s.by_name = {}
        s.methods = {}     # name -> [Fn]
        s.structs = {}     # name -> {'f': [(n, ty)], 'tuple', attrs, file}
        s.enums = {}       # name -> {'v': [(name, fields)], ...}
        s.variants = {}    # variant -> [enum]
        s.consts = {}      # name -> [(owner, file, expr, ty)]
        s.aliases = {}
        s.uses = {}        # file -> {as: path}
        s.macros = {}      # file -> [item]
        s.items = {}
        s.mods = {}
        s.impls = []
        s.root = root
        for path, v in files.items():
            rel = os.path.relpath(path, root) if root else path
            s.items[rel] = v['items']
            s.uses[rel] = {}
            s.macros[rel] = []
            s.walk(rel, v['items'], [])
        for us in s.uses.values():
            for n, q in us.items():
                q = q.split('::') if isinstance(q, str) else q
                if q and q[-1] != n and n[:1].isupper() and n not in s.structs and n not in s.enums and (q[-1] in s.structs or q[-1] in s.enums):
                    s.aliases.setdefault(n, {'k': 'path', 'q': None, 'p': [{'n': q[-1], 'g': None}], 's': q[-1]})

    def walk(s, file, items, mod):
        for it in items:
            if it.get('test'):
                continue
            k = it['k']
            if k == 'fn':
                s.add(Fn(it['n'], file, None, None, it, mod))
                s.nested(file, it['b'], mod)
            elif k == 'struct':
                s.structs.setdefault(it['n'], dict(it, file=file))
            elif k == 'enum':
                s.enums.setdefault(it['n'], dict(it, file=file))
                for v in it['v']:
                    s.variants.setdefault(v['n'], []).append(it['n'])
            elif k == 'impl':
                t = it['ty']
                owner = t['p'][-1]['n'] if t['k'] == 'path' else t.get('s', '?')
                tr = it['trait'][-1]['n'] if it['trait'] else None
                s.impls.append((owner, tr, file, it))
                for x in it['items']:
                    if x.get('test'):
                        continue
                    if x['k'] == 'fn':
                        s.add(Fn(x['n'], file, owner, tr, x, mod))
                        s.nested(file, x['b'], mod)
                    elif x['k'] == 'const':
                        s.consts.setdefault(x['n'], []).append((owner, file, x['e'], x['ty']))
            elif k == 'trait':
                for x in it['items']:
                    if x['k'] == 'fn' and x['b'] is not None:
                        s.add(Fn(x['n'], file, it['n'], it['n'], x, mod))
            elif k == 'const':
                s.consts.setdefault(it['n'], []).append((None, file, it['e'], it['ty']))
            elif k == 'mod' and it['items'] is not None:
                s.walk(file, it['items'], mod + [it['n']])
            elif k == 'expanded':
                s.walk(file, it['items'], mod)
            elif k == 'use':
                for u in it['u']:
                    s.uses[file][u['as']] = u['p']
            elif k == 'type':
                s.aliases[it['n']] = it['ty']
            elif k == 'macro':
                s.macros[file].append(it)

    def nested(s, file, body, mod):
        for st in body or []:
            if st['k'] == 'item':
                s.walk(file, [st['i']], mod)

    def add(s, f):
        s.fns.append(f)
        s.by_name.setdefault(f.name, []).append(f)
        if f.owner:
            s.methods.setdefault(f.name, []).append(f)

    def find(s, file_suffix, qual):
        """Fn by file suffix and qualified name (Owner::name or name)."""
        r = [f for f in s.fns if f.qual == qual and f.file.endswith(file_suffix)]
        return r[0] if r else None

    def find_any(s, qual, prefer=None):
        r = [f for f in s.fns if f.qual == qual]
        if prefer:
            q = [f for f in r if f.file.endswith(prefer)]
            if q:
                return q[0]
        return r[0] if len(r) == 1 else (r[0] if r else None)


_cache = {}


def load_repo(root=None):
    root = root or REPO
    if root not in _cache:
        fs = rust_files(root)
        if len(fs) < 100:
            raise AnalysisError('only %d Rust files found under %s' % (len(fs), root))
        _cache[root] = Index(dump(fs), root)
    return _cache[root]


def load_files(paths, root=''):
    return Index(dump(paths), root)


# ---------- generic AST walking ----------
def walk(x, skip_items=False):
    """Yield every dict node of an AST (pre-order)."""
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            yield n
            st.extend(reversed([v for v in n.values() if isinstance(v, (dict, list))]))
        elif isinstance(n, list):
            st.extend(reversed(n))


def path_str(p):
    return '::'.join(s['n'] for s in p)
