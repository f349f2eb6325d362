"""TypeScript: abstract evaluation of the VS Code extension and of reference functions over the same vocabulary.

A run evaluates a function on symbolic inputs; a condition the inputs do not settle becomes an atom, and both
sides of it are explored.  An implementation leaf (atoms, outcome, trace of effects) is compared with every leaf
of the reference under the same atoms.  Anything the evaluator does not model makes the comparison undecided."""
import json, os, subprocess
from .src import REPO, VERIF

NODE_LIB = '/opt/veriftools/node/node_modules/typescript'
BOOLS = {'isTrusted', 'existsSync', 'pathExists'}
TIMED = {'vscode', 'fs', 'fs-extra', 'which', 'child_process'}
UNDEF = ('undef',)
NULL = ('c', None)


class Unsupported(Exception):
    pass


class Need(Exception):
    def __init__(s, atom):
        s.atom = atom


class Throw(Exception):
    def __init__(s, val):
        s.val = val


class Ret(Exception):
    def __init__(s, val):
        s.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Short(Exception):
    pass


class Obj:
    def __init__(s, kind, fields=None, items=None, cls=None):
        s.kind, s.fields, s.items, s.cls = kind, fields if fields is not None else {}, items if items is not None else [], cls


class Clo:
    def __init__(s, node, env, this, mod, name=''):
        s.node, s.env, s.this, s.mod, s.name = node, env, this, mod, name
        s.isasync = any(m['k'] == 'AsyncKeyword' for m in node.get('modifiers', []))


class Cls:
    def __init__(s, node, mod):
        s.node, s.mod = node, mod


class Prom:
    def __init__(s, st, val):
        s.st, s.val = st, val


_cache = {}


def load(files):
    """file -> list of statements"""
    key = tuple(files)
    if key not in _cache:
        env = dict(os.environ, TS_LIB=NODE_LIB)
        p = subprocess.run(['node', os.path.join(VERIF, 'jarlsa/tsdump.js')] + list(files), capture_output=True, text=True, timeout=120, env=env)
        if p.returncode:
            raise Unsupported('the TypeScript front end failed: ' + p.stderr[-300:])
        _cache[key] = json.loads(p.stdout)
    return _cache[key]


class Program:
    def __init__(s, src, spec):
        files = [os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith('.ts') and os.sep + 'test' not in d]
        trees = load(sorted(files) + [spec])
        s.mods = {}
        for f, t in trees.items():
            name = '/spec' if f == spec else '/' + os.path.relpath(f, src)[:-3]
            s.mods[name] = t
        s.decls = {m: s.scan(m, t) for m, t in s.mods.items()}

    def scan(s, m, stmts):
        d = {}
        for st in stmts:
            k = st['k']
            if k in ('FunctionDeclaration', 'ClassDeclaration', 'EnumDeclaration') and st.get('name'):
                if k != 'FunctionDeclaration' or st.get('body'):
                    d[st['name']['text']] = (k, st)
            elif k in ('VariableStatement', 'FirstStatement'):
                for v in st['declarationList']['declarations']:
                    if v['name']['k'] == 'Identifier':
                        d[v['name']['text']] = ('var', v)
            elif k == 'ImportDeclaration' and st.get('importClause'):
                spec = st['moduleSpecifier']['text']
                ic = st['importClause']
                if ic.get('name'):
                    d[ic['name']['text']] = ('import', spec, 'default')
                nb = ic.get('namedBindings')
                if nb and nb['k'] == 'NamespaceImport':
                    d[nb['name']['text']] = ('import', spec, '*')
                elif nb:
                    for e in nb['elements']:
                        d[e['name']['text']] = ('import', spec, (e.get('propertyName') or e['name'])['text'])
        return d

    def resolve(s, mod, spec):
        p = os.path.normpath(os.path.join(os.path.dirname(mod), spec))
        for q in (p, p + '/index'):
            if q in s.mods:
                return q
        return None


class Run:
    """one deterministic replay under an assignment of atoms"""

    def __init__(s, prog, asg, opaque=(), effects=(), throws=(), asyncs=(), passive=('log', 'show'), preset=None, fuel=60000, solids=()):
        s.solids = set(solids)
        s.p, s.asg, s.opaque, s.effects, s.throws, s.asyncs, s.passive = prog, asg, set(opaque), set(effects), set(throws), set(asyncs), set(passive)
        s.modv, s.trace, s.epoch, s.n, s.fuel, s.preset = {}, [], 0, {}, fuel, preset or {}
        s.depth = 0
        s.funcs = set()

    # ---- atoms
    def ask(s, atom):
        if atom in s.asg:
            return s.asg[atom]
        raise Need(atom)

    def eqconst(s, v):
        for a, val in s.asg.items():
            if val and a[0] == 'eq' and v in a[1:]:
                o = a[2] if a[1] == v else a[1]
                if o[0] == 'c':
                    return o
        return None

    def solid(s, v):
        """never empty and never absent"""
        if v[0] in ('new', 'obj', 'arr', 'lam', 'glob', 'local', 'elem') or v[0] == 'get' and v[2] == 'fsPath':
            return True
        if v[0] == 'call':
            return v[1][0] == 'get' and v[1][1] == ('glob', 'path') or s.name_of(v[1]) in s.solids
        return False

    def truthy(s, v):
        if isinstance(v, (Obj, Clo, Prom, Cls)):
            return True
        if v[0] == 'c':
            return bool(v[1])
        if v == UNDEF:
            return False
        if s.solid(v):
            return True
        if v[0] == 'tmpl' and any(p[0] == 'c' and p[1] for p in v[1:]):
            return True
        if v[0] == 'atom':
            return s.decide(v[1])
        if v[0] == 'not':
            return not s.truthy(v[1])
        c = s.eqconst(v)
        if c is not None:
            return bool(c[1])
        if s.asg.get(('nullish', v)) or s.asg.get(('isundef', v)) or s.asg.get(('isnull', v)):
            return False
        return s.ask(('truthy', v))

    def nullish(s, v):
        if isinstance(v, (Obj, Clo, Prom, Cls)):
            return False
        if v in (UNDEF, NULL):
            return True
        if v[0] in ('c', 'tmpl', 'atom', 'not') or s.solid(v):
            return False
        if v[0] == 'call' and s.name_of(v[1]) == 'which':
            return not s.truthy(v)
        if s.eqconst(v) is not None or s.asg.get(('truthy', v)):
            return False
        if s.asg.get(('isundef', v)) or s.asg.get(('isnull', v)):
            return True
        if s.asg.get(('isundef', v)) is False and s.asg.get(('isnull', v)) is False:
            return False
        return s.ask(('nullish', v))

    def same(s, a, b):
        """strict equality"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Obj, Clo, Prom, Cls)):
                return x is y
        if a == b:
            return True
        if a[0] in ('c', 'undef') and b[0] in ('c', 'undef'):
            return False
        if a[0] in ('c', 'undef'):
            a, b = b, a
        if b in (UNDEF, NULL):
            if a[0] == 'call' and s.name_of(a[1]) == 'which':
                return b == NULL and not s.truthy(a)
            if a[0] in ('tmpl', 'atom', 'not') or s.solid(a) or s.eqconst(a) is not None or s.asg.get(('truthy', a)) or s.asg.get(('nullish', a)) is False:
                return False
            me, other = ('isundef', 'isnull') if b == UNDEF else ('isnull', 'isundef')
            if s.asg.get((other, a)):
                return False
            if s.asg.get(('nullish', a)) and s.asg.get((other, a)) is False:
                return True
            return s.ask((me, a))
        if b[0] == 'c':
            if isinstance(b[1], bool) and (a[0] in ('atom', 'not') or a[0] in ('get', 'call') and s.name_of(a[1] if a[0] == 'call' else a) in BOOLS):
                return s.truthy(a) == b[1]
            k = s.eqconst(a)
            if k is not None:
                return k == b
            if s.asg.get(('nullish', a)) or s.asg.get(('isundef', a)) or s.asg.get(('isnull', a)):
                return False
            if b[1] and s.asg.get(('truthy', a)) is False or not b[1] and s.asg.get(('truthy', a)):
                return False
        return s.ask(('eq',) + tuple(sorted((a, b), key=repr)))

    def decide(s, atom):
        if atom in s.asg:
            return s.asg[atom]
        if atom[0] == 'lt':
            lt = [(a[1], a[2], v) for a, v in s.asg.items() if a[0] == 'lt']
            for v in (True, False):
                if not s.ordered(lt + [(atom[1], atom[2], v)]):
                    return not v
        return s.ask(atom)

    @staticmethod
    def ordered(cs):
        """is there a total preorder with these facts"""
        nodes = {x for c in cs for x in c[:2]}
        e = {}
        for a, b, v in cs:
            if v:
                e[(a, b)] = 1
            elif (b, a) not in e:
                e[(b, a)] = 0
        for k in nodes:
            for i in nodes:
                for j in nodes:
                    if (i, k) in e and (k, j) in e:
                        w = e[(i, k)] | e[(k, j)]
                        if e.get((i, j), -1) < w:
                            e[(i, j)] = w
        for n in nodes:
            for c in nodes:
                if isinstance(n, tuple) and n[0] == 'c' and isinstance(c, tuple) and c[0] == 'c' and (n, c) in e and not (n[1] < c[1] or n[1] == c[1] and not e[(n, c)]):
                    return False
        return all(e.get((n, n), 0) == 0 for n in nodes)

    # ---- values
    def freeze(s, v, d=0):
        if d > 12:
            raise Unsupported('deep value')
        if isinstance(v, Obj):
            if v.kind == 'arr':
                return ('arr',) + tuple(s.freeze(x, d + 1) for x in v.items)
            if v.kind == 'inst':
                return ('inst', v.cls.node['name']['text'] if v.cls else '?')
            return ('obj',) + tuple(sorted((k, s.freeze(x, d + 1)) for k, x in v.fields.items() if x != UNDEF))
        if isinstance(v, Clo):
            try:
                return s.lam(v)
            except (Unsupported, KeyError, TypeError, IndexError, AttributeError):
                return ('lam', 'of', v.mod, v.node['l'])
        if isinstance(v, Prom):
            return ('prom', s.freeze(v.val, d + 1)) if v.st == 'ok' else ('rejected',)
        if isinstance(v, Cls):
            return ('class', v.node['name']['text'])
        return v

    def lam(s, clo):
        """the decision tree of a closure handed to code outside the repository"""
        ps = [('lp', i) for i in range(len(clo.node.get('parameters', [])))]
        leaves, todo = [], [dict()]
        while todo:
            extra = todo.pop()
            sub = Run(s.p, {**s.asg, **extra}, s.opaque, s.effects, s.throws, s.asyncs, s.passive, s.preset, 4000, s.solids)
            memo = {}
            sub.modv, sub.epoch, sub.depth, sub.n = s.clone(s.modv, memo), s.epoch, s.depth + 1, dict(s.n)
            mine = s.clone(clo, memo)
            try:
                out = sub.outcome(lambda: sub.call(mine, ps))
            except Need as n:
                if len(leaves) + len(todo) > 60:
                    raise Unsupported('closure')
                todo += [{**extra, n.atom: True}, {**extra, n.atom: False}]
                continue
            leaves.append((tuple(sorted(extra.items(), key=repr)), out, tuple(sub.trace)))
        return ('lam', tuple(sorted(leaves, key=repr)))

    @staticmethod
    def clone(v, memo):
        """a copy of everything reachable, so that looking into a closure changes nothing"""
        if id(v) in memo:
            return memo[id(v)][0]
        c = lambda x: Run.clone(x, memo)
        if isinstance(v, Obj):
            o = Obj(v.kind, cls=v.cls)
            memo[id(v)] = (o, v)
            o.fields = {k: c(x) for k, x in v.fields.items()}
            o.items = [c(x) for x in v.items]
            return o
        if isinstance(v, Clo):
            o = Clo(v.node, None, None, v.mod, v.name)
            memo[id(v)] = (o, v)
            o.env, o.this = c(v.env), c(v.this)
            return o
        if isinstance(v, Prom):
            return Prom(v.st, c(v.val))
        if isinstance(v, dict):
            o = {}
            memo[id(v)] = (o, v)
            for k, x in v.items():
                o[k] = c(x)
            return o
        if isinstance(v, tuple) and v and v[0] == 'meth':
            return ('meth', c(v[1]), v[2])
        return v

    def outcome(s, f):
        try:
            v = f()
            if isinstance(v, Prom):
                if v.st == 'throw':
                    return ('throws',)
                v = v.val
            return ('returns', s.freeze(v))
        except Throw:
            return ('throws',)

    # ---- modules
    def modget(s, mod, name):
        if (mod, name) in s.modv:
            return s.modv[(mod, name)]
        d = s.p.decls[mod].get(name)
        if d is None:
            return None
        if d[0] == 'FunctionDeclaration':
            v = Clo(d[1], None, None, mod, name)
        elif d[0] == 'ClassDeclaration':
            v = Cls(d[1], mod)
        elif d[0] == 'EnumDeclaration':
            v, i = Obj('obj'), 0
            for m in d[1]['members']:
                init = m.get('initializer')
                v.fields[m['name']['text']] = s.ev(init, {}, None, mod) if init else ('c', i)
                i += 1
        elif d[0] == 'var':
            ini = d[1].get('initializer')
            ep, s.epoch = s.epoch, 0
            v = s.ev(ini, {}, None, mod) if ini else UNDEF
            s.epoch = ep
        else:
            _, spec, what = d
            t = s.p.resolve(mod, spec) if spec.startswith('.') else None
            if t:
                if what == '*':
                    return ('ns', t)
                v = s.modget(t, what)
                if v is None:
                    v = ('local', what)
                return v
            g = s.glob(spec)
            return g if what == '*' or what == 'default' and g[1] in ('path', 'fs', 'fs-extra', 'url', 'os', 'util') else ('get', g, what)
        s.modv[(mod, name)] = v
        return v

    def glob(s, spec):
        spec = spec[5:] if spec.startswith('node:') else spec
        return ('glob', spec, s.epoch) if spec in TIMED else ('glob', spec)

    def lookup(s, name, env, mod):
        e = env
        while e:
            if name in e:
                return e[name]
            e = e.get('^')
        if name in s.opaque:
            return ('local', name)
        v = s.modget(mod, name)
        if v is not None:
            return v
        if name == 'undefined':
            return UNDEF
        if mod == '/spec' and name not in ('process', 'path', '__dirname', 'console', 'Promise', 'Error', 'Object', 'Array', 'String', 'Boolean'):
            raise Unsupported('spec: unknown name ' + name)
        return ('glob', name)

    def assign(s, target, v, env, this, mod):
        k = target['k']
        if k == 'Identifier':
            e = env
            while e:
                if target['text'] in e:
                    e[target['text']] = v
                    return
                e = e.get('^')
            if target['text'] in s.p.decls[mod]:
                s.modv[(mod, target['text'])] = v
                return
            raise Unsupported('assignment to ' + target['text'])
        if k in ('PropertyAccessExpression', 'ElementAccessExpression'):
            b = s.ev(target['expression'], env, this, mod)
            if isinstance(b, Obj):
                if k == 'PropertyAccessExpression':
                    b.fields[target['name']['text']] = v
                    return
                i = s.ev(target['argumentExpression'], env, this, mod)
                if i[0] == 'c' and b.kind != 'arr':
                    b.fields[i[1]] = v
                    return
            s.trace.append(('set', s.freeze(b), target.get('name', {}).get('text'), s.freeze(v)))
            return
        if k in ('ParenthesizedExpression', 'NonNullExpression', 'AsExpression'):
            return s.assign(target['expression'], v, env, this, mod)
        raise Unsupported('assignment to ' + k)

    def get(s, b, name):
        if isinstance(b, Obj):
            if b.kind == 'arr' and name == 'length':
                return ('c', len(b.items))
            if name in b.fields:
                return b.fields[name]
            if b.cls:
                for m in b.cls.node.get('members', []):
                    if m.get('name', {}).get('text') == name:
                        if m['k'] == 'MethodDeclaration':
                            return Clo(m, None, b, b.cls.mod, b.cls.node['name']['text'] + '.' + name)
                        if m['k'] == 'GetAccessor':
                            return s.call(Clo(m, None, b, b.cls.mod, name), [])
                return UNDEF
            if b.kind == 'arr':
                return ('meth', b, name)
            return UNDEF
        if isinstance(b, Prom):
            return ('meth', b, name)
        if isinstance(b, (Clo, Cls)):
            raise Unsupported('property %s of a function' % name)
        if b[0] == 'ns':
            if name in s.opaque:
                return ('local', name)
            v = s.modget(b[1], name)
            return ('local', name) if v is None else v
        if b[0] == 'c':
            if isinstance(b[1], str) and name == 'length':
                return ('c', len(b[1]))
            return ('meth', b, name)
        if b in (UNDEF, NULL):
            raise Throw(('new', ('glob', 'TypeError')))
        t = ('get', b, name)
        base = t
        path = []
        while base[0] == 'get':
            path.append(base[2])
            base = base[1]
        if base[0] == 'glob':
            k = base[1] + '.' + '.'.join(reversed(path))
            if k in s.preset:
                return s.preset[k]
        return t

    def args(s, node, env, this, mod):
        out = []
        for a in node.get('arguments', []):
            if a['k'] == 'SpreadElement':
                v = s.ev(a['expression'], env, this, mod)
                if not (isinstance(v, Obj) and v.kind == 'arr'):
                    raise Unsupported('spread argument')
                out += v.items
            else:
                out.append(s.ev(a, env, this, mod))
        return out

    def call(s, f, args):
        s.fuel -= 1
        if s.fuel < 0:
            raise Unsupported('too long')
        if isinstance(f, Clo):
            s.depth += 1
            if s.depth > 40:
                raise Unsupported('recursion')
            if f.mod != '/spec' and f.name:
                s.funcs.add((f.mod, f.name))
            try:
                env = {'^': f.env}
                ps = f.node.get('parameters', [])
                for i, p in enumerate(ps):
                    if p.get('dotDotDotToken'):
                        v = Obj('arr', items=list(args[i:]))
                    else:
                        v = args[i] if i < len(args) else UNDEF
                        if p.get('initializer') and (v == UNDEF or not isinstance(v, (Obj, Clo, Prom, Cls)) and v[0] not in ('c', 'par', 'lp') and s.same(v, UNDEF)):
                            v = s.ev(p['initializer'], env, f.this, f.mod)
                    s.bind(p['name'], v, env, f.this, f.mod)
                body = f.node['body']
                try:
                    if body['k'] == 'Block':
                        try:
                            s.block(body['statements'], env, f.this, f.mod)
                            r = UNDEF
                        except Ret as e:
                            r = e.val
                    else:
                        r = s.ev(body, env, f.this, f.mod)
                except Throw as t:
                    if f.isasync:
                        return Prom('throw', t.val)
                    raise
                if f.isasync:
                    return r if isinstance(r, Prom) else Prom('ok', r)
                return r
            finally:
                s.depth -= 1
        if isinstance(f, (Obj, Prom, Cls)):
            raise Unsupported('call of a value')
        if f[0] == 'meth':
            return s.method(f[1], f[2], args)
        if f in (UNDEF, NULL):
            raise Throw(('new', ('glob', 'TypeError')))
        return s.external(f, args)

    def name_of(s, f):
        return f[2] if f[0] == 'get' and f[2] != 'default' else (f[1][1] if f[0] == 'get' and f[1][0] == 'glob' else f[1] if f[0] in ('glob', 'local') else '?')

    def external(s, f, args):
        name = s.name_of(f)
        if name in s.passive and f[0] in ('local', 'get'):
            return UNDEF
        root = f
        while root[0] in ('get', 'call'):
            root = root[1]
        if root[:2] == ('glob', 'console'):
            return UNDEF
        if name == 'get' and len(args) == 2 and f[0] == 'get' and f[1][0] == 'call' and s.name_of(f[1][1]) == 'getConfiguration':
            v = s.external(f, args[:1])         # configuration.get(key, default)
            return args[1] if s.nullish(v) else v
        if root[:2] == ('glob', 'Promise'):
            if name == 'resolve':
                v = args[0] if args else UNDEF
                return v if isinstance(v, Prom) else Prom('ok', v)
            raise Unsupported('Promise.' + name)
        if name == 'add' and f[1][0] == 'new' and args and isinstance(args[0], Clo):
            s.trace.append(('enqueue', f[1]))
            r = s.call(args[0], [])
            s.trace.append(('dequeue',))
            return r if isinstance(r, Prom) else Prom('ok', r)
        if root[:2] == ('glob', 'path') and name in ('join', 'resolve'):
            parts = []
            for a in args:
                if isinstance(a, tuple) and a[0] == 'c' and isinstance(a[1], str):
                    parts += [('c', q) for q in a[1].split('/') if q not in ('', '.')]
                elif isinstance(a, tuple) and a[0] == 'call' and a[1] == f:
                    parts += a[2:]
                else:
                    parts.append(s.freeze(a))
            return ('call', f) + tuple(parts)
        if s.mutable(args):
            raise Unsupported('an object handed out')
        fr = tuple(s.freeze(a) for a in args)
        while fr and fr[-1] == UNDEF:
            fr = fr[:-1]
        t = ('call', f) + fr
        if name in s.opaque:
            t += (('t', s.epoch),)
        if name in s.effects:
            i = s.n[name] = s.n.get(name, 0) + 1
            s.trace.append(('do', name, t))
            t = ('result', name, i, t)
        st = 'ok'
        if name in s.throws:
            if s.ask(('fails', name, t)):
                st, t = 'throw', ('new', ('glob', 'Error'), t)
        if name in s.asyncs:
            return Prom(st, t)
        if st == 'throw':
            raise Throw(t)
        return t

    def mutable(s, args):
        return False

    def method(s, b, name, args):
        if isinstance(b, Prom):
            if name == 'then':
                f = (args + [UNDEF, UNDEF])[0 if b.st == 'ok' else 1]
            elif name == 'catch':
                f = args[0] if b.st == 'throw' else UNDEF
            elif name == 'finally':
                s.call(args[0], [])
                return b
            else:
                raise Unsupported('promise.' + name)
            if not isinstance(f, Clo):
                return b
            try:
                r = s.call(f, [b.val])
            except Throw as t:
                return Prom('throw', t.val)
            return r if isinstance(r, Prom) else Prom('ok', r)
        if isinstance(b, Obj) and b.kind == 'arr':
            if name == 'push':
                b.items += args
                return ('c', len(b.items))
            if name == 'includes':
                return ('c', any(s.same(x, args[0]) for x in b.items))
            if name == 'concat' and all(isinstance(a, Obj) and a.kind == 'arr' for a in args):
                return Obj('arr', items=b.items + [x for a in args for x in a.items])
            if name == 'slice' and all(a[0] == 'c' for a in args):
                return Obj('arr', items=b.items[slice(*([a[1] for a in args] + [None])[:2])] if args else list(b.items))
            if name == 'at' and args[0][0] == 'c':
                i = args[0][1]
                return b.items[i] if -len(b.items) <= i < len(b.items) else UNDEF
            if name in ('map', 'filter', 'find', 'some', 'every', 'forEach', 'findIndex', 'reduce') and args and isinstance(args[0], Clo):
                out, acc, it = [], None, list(enumerate(b.items))
                if name == 'reduce':
                    if len(args) > 1:
                        acc = args[1]
                    else:
                        if not it:
                            raise Throw(('new', ('glob', 'TypeError')))
                        acc = it.pop(0)[1]
                    for i, x in it:
                        acc = s.call(args[0], [acc, x, ('c', i), b])
                    return acc
                for i, x in it:
                    r = s.call(args[0], [x, ('c', i), b][:max(1, len(args[0].node.get('parameters', [])))])
                    if name == 'map':
                        out.append(r)
                    elif name == 'filter' and s.truthy(r):
                        out.append(x)
                    elif name == 'find' and s.truthy(r):
                        return x
                    elif name == 'findIndex' and s.truthy(r):
                        return ('c', i)
                    elif name == 'some' and s.truthy(r):
                        return ('c', True)
                    elif name == 'every' and not s.truthy(r):
                        return ('c', False)
                return {'map': lambda: Obj('arr', items=out), 'filter': lambda: Obj('arr', items=out), 'find': lambda: UNDEF, 'findIndex': lambda: ('c', -1),
                        'some': lambda: ('c', False), 'every': lambda: ('c', True), 'forEach': lambda: UNDEF}[name]()
            if name == 'join':
                sep = s.freeze(args[0]) if args else ('c', ',')
                parts = []
                for i, x in enumerate(b.items):
                    parts += ([sep] if i else []) + [s.freeze(x)]
                return s.cat(parts)
        if isinstance(b, tuple) and b[0] == 'c' and isinstance(b[1], str):
            if name in ('trim', 'toLowerCase', 'toUpperCase') and not args:
                return ('c', {'trim': b[1].strip, 'toLowerCase': b[1].lower, 'toUpperCase': b[1].upper}[name]())
        raise Unsupported('method ' + name)

    def bind(s, pat, v, env, this, mod):
        if pat['k'] == 'Identifier':
            env[pat['text']] = v
        elif pat['k'] == 'ObjectBindingPattern':
            seen = set()
            for e in pat['elements']:
                if e.get('dotDotDotToken'):
                    if not isinstance(v, Obj):
                        raise Unsupported('rest')
                    x = Obj('obj', {k: y for k, y in v.fields.items() if k not in seen})
                else:
                    n = (e.get('propertyName') or e['name'])['text']
                    seen.add(n)
                    x = s.get(v, n)
                    if e.get('initializer') and s.same(x, UNDEF):
                        x = s.ev(e['initializer'], env, this, mod)
                s.bind(e['name'], x, env, this, mod)
        elif pat['k'] == 'ArrayBindingPattern' and isinstance(v, Obj) and v.kind == 'arr':
            for i, e in enumerate(pat['elements']):
                if e['k'] == 'OmittedExpression':
                    continue
                if e.get('dotDotDotToken'):
                    s.bind(e['name'], Obj('arr', items=v.items[i:]), env, this, mod)
                else:
                    s.bind(e['name'], v.items[i] if i < len(v.items) else UNDEF, env, this, mod)
        else:
            raise Unsupported('pattern')

    def new(s, f, args):
        if isinstance(f, Cls):
            if f.node.get('heritageClauses') and any(h.get('token') == 96 or True for h in f.node['heritageClauses'] if 'Extends' in json.dumps(h)):
                pass
            o = Obj('inst', cls=f)
            for m in f.node.get('members', []):
                if m['k'] == 'PropertyDeclaration':
                    o.fields[m['name']['text']] = s.ev(m['initializer'], {}, o, f.mod) if m.get('initializer') else UNDEF
            for m in f.node.get('members', []):
                if m['k'] == 'Constructor':
                    for i, p in enumerate(m.get('parameters', [])):
                        if p.get('modifiers') and i < len(args):
                            o.fields[p['name']['text']] = args[i]
                    s.call(Clo(m, None, o, f.mod, f.node['name']['text'] + '.constructor'), args)
            return o
        if isinstance(f, (Obj, Clo, Prom)):
            raise Unsupported('new')
        if f == ('glob', 'Promise'):
            raise Unsupported('new Promise')
        if f in (('glob', 'Map'), ('glob', 'Set')):
            return ('new', f) + tuple(s.freeze(a) for a in args)
        return ('new', f) + tuple(s.freeze(a) for a in args)

    # ---- expressions
    CHAIN = ('PropertyAccessExpression', 'CallExpression', 'ElementAccessExpression', 'NonNullExpression')

    def ev(s, n, env, this, mod):
        if n['k'] in s.CHAIN:
            try:
                return s.chain(n, env, this, mod)
            except Short:
                return UNDEF
        m = getattr(s, 'x_' + n['k'], None)
        if m is None:
            raise Unsupported(n['k'])
        return m(n, env, this, mod)

    def chain(s, n, env, this, mod):
        s.fuel -= 1
        if s.fuel < 0:
            raise Unsupported('too long')
        e = n['expression']
        b = s.chain(e, env, this, mod) if e['k'] in s.CHAIN else s.ev(e, env, this, mod)
        if n.get('questionDotToken'):
            if s.nullish(b):
                raise Short()
        k = n['k']
        if k == 'NonNullExpression':
            return b
        if k == 'PropertyAccessExpression':
            return s.get(b, n['name']['text'])
        if k == 'ElementAccessExpression':
            i = s.ev(n['argumentExpression'], env, this, mod)
            if isinstance(b, Obj) and b.kind == 'arr':
                if i[0] == 'c' and isinstance(i[1], int):
                    return b.items[i[1]] if 0 <= i[1] < len(b.items) else UNDEF
                raise Unsupported('index')
            if isinstance(i, tuple) and i[0] == 'c' and isinstance(i[1], str):
                return s.get(b, i[1])
            return ('at', s.freeze(b), s.freeze(i))
        if e['k'] == 'SuperKeyword':
            raise Unsupported('super')
        if isinstance(b, tuple) and b[0] in ('local', 'get') and s.name_of(b) in s.passive:
            return UNDEF
        if isinstance(b, Clo) and b.name in s.passive and b.mod == '/output':
            return UNDEF
        if isinstance(b, Clo) and b.name in s.opaque:
            b = ('local', b.name)
        return s.call(b, s.args(n, env, this, mod))

    def x_Identifier(s, n, env, this, mod):
        return s.lookup(n['text'], env, mod)

    def x_StringLiteral(s, n, *a):
        return ('c', n.get('text', ''))
    x_NoSubstitutionTemplateLiteral = x_StringLiteral

    def x_NumericLiteral(s, n, *a):
        t = n['text']
        return ('c', int(t) if t.isdigit() else float(t))
    x_FirstLiteralToken = x_NumericLiteral

    def x_TrueKeyword(s, *a):
        return ('c', True)

    def x_FalseKeyword(s, *a):
        return ('c', False)

    def x_NullKeyword(s, *a):
        return NULL

    def x_ThisKeyword(s, n, env, this, mod):
        return this if this is not None else UNDEF

    def x_ParenthesizedExpression(s, n, env, this, mod):
        return s.ev(n['expression'], env, this, mod)
    x_AsExpression = x_SatisfiesExpression = x_TypeAssertionExpression = x_ParenthesizedExpression

    def x_AwaitExpression(s, n, env, this, mod):
        v = s.ev(n['expression'], env, this, mod)
        if isinstance(v, Prom):
            if v.st == 'throw':
                raise Throw(v.val)
            return v.val
        return v

    def x_VoidExpression(s, n, env, this, mod):
        s.ev(n['expression'], env, this, mod)
        return UNDEF

    def x_ArrowFunction(s, n, env, this, mod):
        return Clo(n, env, this, mod)

    def x_FunctionExpression(s, n, env, this, mod):
        return Clo(n, env, None, mod)

    def x_TemplateExpression(s, n, env, this, mod):
        parts = [('c', n['head'].get('text', ''))]
        for sp in n['templateSpans']:
            parts += [s.freeze(s.ev(sp['expression'], env, this, mod)), ('c', sp['literal'].get('text', ''))]
        return s.cat(parts)

    def cat(s, parts):
        out = []
        for p in parts:
            for q in (p[1:] if p[0] == 'tmpl' else [p]):
                if q == ('c', ''):
                    continue
                if q[0] == 'c' and out and out[-1][0] == 'c':
                    out[-1] = ('c', str(out[-1][1]) + str(q[1]))
                else:
                    out.append(q)
        if not out:
            return ('c', '')
        if len(out) == 1 and out[0][0] == 'c':
            return out[0]
        return ('tmpl',) + tuple(out)

    def x_ObjectLiteralExpression(s, n, env, this, mod):
        o = Obj('obj')
        for p in n.get('properties', []):
            k = p['k']
            if k == 'PropertyAssignment':
                nm = p['name']
                if nm['k'] == 'ComputedPropertyName':
                    key = s.ev(nm['expression'], env, this, mod)
                    if key[0] != 'c':
                        raise Unsupported('computed key')
                    key = key[1]
                else:
                    key = nm['text']
                o.fields[key] = s.ev(p['initializer'], env, this, mod)
            elif k == 'ShorthandPropertyAssignment':
                o.fields[p['name']['text']] = s.lookup(p['name']['text'], env, mod)
            elif k == 'SpreadAssignment':
                v = s.ev(p['expression'], env, this, mod)
                if not isinstance(v, Obj):
                    if v in (UNDEF, NULL):
                        continue
                    raise Unsupported('spread')
                o.fields.update(v.fields)
            elif k == 'MethodDeclaration':
                o.fields[p['name']['text']] = Clo(p, env, o, mod)
            else:
                raise Unsupported(k)
        return o

    def x_ArrayLiteralExpression(s, n, env, this, mod):
        out = []
        for e in n.get('elements', []):
            if e['k'] == 'SpreadElement':
                v = s.ev(e['expression'], env, this, mod)
                if not (isinstance(v, Obj) and v.kind == 'arr'):
                    raise Unsupported('spread')
                out += v.items
            else:
                out.append(s.ev(e, env, this, mod))
        return Obj('arr', items=out)

    def x_NewExpression(s, n, env, this, mod):
        return s.new(s.ev(n['expression'], env, this, mod), s.args(n, env, this, mod))

    def x_ConditionalExpression(s, n, env, this, mod):
        return s.ev(n['whenTrue'] if s.truthy(s.ev(n['condition'], env, this, mod)) else n['whenFalse'], env, this, mod)

    def x_PrefixUnaryExpression(s, n, env, this, mod):
        v = s.ev(n['operand'], env, this, mod)
        op = n.get('op')
        if op == '!':
            return ('c', not s.truthy(v))
        if op == '-' and v[0] == 'c':
            return ('c', -v[1])
        if op in ('++', '--') and v[0] == 'c':
            r = ('c', v[1] + (1 if op == '++' else -1))
            s.assign(n['operand'], r, env, this, mod)
            return r
        raise Unsupported('unary ' + str(op))

    def x_PostfixUnaryExpression(s, n, env, this, mod):
        v = s.ev(n['operand'], env, this, mod)
        if v[0] != 'c':
            raise Unsupported('++')
        s.assign(n['operand'], ('c', v[1] + (1 if n.get('op') == '++' else -1)), env, this, mod)
        return v

    def x_TypeOfExpression(s, n, env, this, mod):
        v = s.ev(n['expression'], env, this, mod)
        if isinstance(v, tuple) and v[0] == 'c' and v[1] is not None:
            return ('c', 'boolean' if isinstance(v[1], bool) else 'string' if isinstance(v[1], str) else 'number')
        if v == UNDEF:
            return ('c', 'undefined')
        return ('typeof', s.freeze(v))

    def x_BinaryExpression(s, n, env, this, mod):
        op = n['operatorToken'].get('op') or n['operatorToken']['k']
        L, R = n['left'], n['right']
        if op == '=':
            if L['k'] in ('ObjectLiteralExpression', 'ArrayLiteralExpression'):
                raise Unsupported('destructuring assignment')
            v = s.ev(R, env, this, mod)
            s.assign(L, v, env, this, mod)
            return v
        a = s.ev(L, env, this, mod)
        if op in ('&&', '&&='):
            if not s.truthy(a):
                return a
            b = s.ev(R, env, this, mod)
        elif op in ('||', '||='):
            if s.truthy(a):
                return a
            b = s.ev(R, env, this, mod)
        elif op in ('??', '??='):
            if not s.nullish(a):
                return a
            b = s.ev(R, env, this, mod)
        else:
            b = None
        if b is not None:
            if op.endswith('='):
                s.assign(L, b, env, this, mod)
            return b
        b = s.ev(R, env, this, mod)
        if op in ('===', '!=='):
            return ('c', s.same(a, b) == (op == '==='))
        if op in ('==', '!='):
            if b in (UNDEF, NULL):
                return ('c', s.nullish(a) == (op == '=='))
            if a in (UNDEF, NULL):
                return ('c', s.nullish(b) == (op == '=='))
            return ('c', s.same(a, b) == (op == '=='))
        a, b = s.freeze(a), s.freeze(b)
        if op in ('<', '>', '<=', '>='):
            if a[0] == 'c' and b[0] == 'c':
                return ('c', {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op])
            if op in ('>', '<='):
                a, b = b, a
            if a == b:
                return ('c', op in ('<=', '>='))
            return ('c', s.decide(('lt', a, b)) == (op in ('<', '>')))
        if op in ('+', '+='):
            if a[0] == 'c' and b[0] == 'c' and not isinstance(a[1], str) and not isinstance(b[1], str):
                v = ('c', a[1] + b[1])
            elif any(x[0] in ('tmpl',) or x[0] == 'c' and isinstance(x[1], str) for x in (a, b)):
                v = s.cat([a, b])
            else:
                v = ('op', '+', a, b)
            if op == '+=':
                s.assign(L, v, env, this, mod)
            return v
        if op == '-' and a[0] == 'c' and b[0] == 'c':
            return ('c', a[1] - b[1])
        if op == 'instanceof':
            return ('c', s.ask(('instanceof', a, b)))
        if op == ',':
            return b
        raise Unsupported('operator ' + op)

    # ---- statements
    def block(s, stmts, env, this, mod):
        for st in stmts:
            if st['k'] == 'FunctionDeclaration' and st.get('name') and st.get('body'):
                env[st['name']['text']] = Clo(st, env, None, mod, st['name']['text'])
        for st in stmts:
            s.st(st, env, this, mod)

    def body(s, st, env, this, mod):
        e = {'^': env}
        s.block(st['statements'] if st['k'] == 'Block' else [st], e, this, mod)

    def st(s, n, env, this, mod):
        s.fuel -= 1
        if s.fuel < 0:
            raise Unsupported('too long')
        k = n['k']
        if k == 'ExpressionStatement':
            s.ev(n['expression'], env, this, mod)
        elif k in ('VariableStatement', 'FirstStatement'):
            for d in n['declarationList']['declarations']:
                s.bind(d['name'], s.ev(d['initializer'], env, this, mod) if d.get('initializer') else UNDEF, env, this, mod)
        elif k == 'ReturnStatement':
            raise Ret(s.ev(n['expression'], env, this, mod) if n.get('expression') else UNDEF)
        elif k == 'IfStatement':
            if s.truthy(s.ev(n['expression'], env, this, mod)):
                s.body(n['thenStatement'], env, this, mod)
            elif n.get('elseStatement'):
                s.body(n['elseStatement'], env, this, mod)
        elif k == 'ThrowStatement':
            raise Throw(s.ev(n['expression'], env, this, mod))
        elif k == 'Block':
            s.body(n, env, this, mod)
        elif k == 'TryStatement':
            done = False
            try:
                try:
                    s.body(n['tryBlock'], env, this, mod)
                except Throw as t:
                    c = n.get('catchClause')
                    if not c:
                        raise
                    e = {'^': env}
                    if c.get('variableDeclaration'):
                        s.bind(c['variableDeclaration']['name'], t.val if t.val is not None else UNDEF, e, this, mod)
                    s.body(c['block'], e, this, mod)
            except (Throw, Ret, Brk, Cont):
                done = True
                if n.get('finallyBlock'):
                    s.body(n['finallyBlock'], env, this, mod)
                raise
            if not done and n.get('finallyBlock'):
                s.body(n['finallyBlock'], env, this, mod)
        elif k == 'ForOfStatement':
            it = s.ev(n['expression'], env, this, mod)
            if not (isinstance(it, Obj) and it.kind == 'arr'):
                raise Unsupported('loop over an unknown collection')
            for x in list(it.items):
                e = {'^': env}
                ini = n['initializer']
                if ini['k'] != 'VariableDeclarationList':
                    raise Unsupported('for-of target')
                s.bind(ini['declarations'][0]['name'], x, e, this, mod)
                try:
                    s.body(n['statement'], e, this, mod)
                except Brk:
                    break
                except Cont:
                    continue
        elif k in ('ForStatement', 'WhileStatement'):
            e = {'^': env}
            ini = n.get('initializer') if k == 'ForStatement' else None
            if ini:
                if ini['k'] == 'VariableDeclarationList':
                    for d in ini['declarations']:
                        s.bind(d['name'], s.ev(d['initializer'], e, this, mod) if d.get('initializer') else UNDEF, e, this, mod)
                else:
                    s.ev(ini, e, this, mod)
            c = n.get('condition') if k == 'ForStatement' else n['expression']
            while c is None or s.truthy(s.ev(c, e, this, mod)):
                try:
                    s.body(n['statement'], e, this, mod)
                except Brk:
                    break
                except Cont:
                    pass
                if k == 'ForStatement' and n.get('incrementor'):
                    s.ev(n['incrementor'], e, this, mod)
        elif k == 'SwitchStatement':
            v = s.ev(n['expression'], env, this, mod)
            cl = n['caseBlock']['clauses']
            start = None
            for i, c in enumerate(cl):
                if c['k'] == 'CaseClause' and s.same(v, s.ev(c['expression'], env, this, mod)):
                    start = i
                    break
            if start is None:
                start = next((i for i, c in enumerate(cl) if c['k'] == 'DefaultClause'), None)
            if start is not None:
                e = {'^': env}
                try:
                    for c in cl[start:]:
                        s.block(c.get('statements', []), e, this, mod)
                except Brk:
                    pass
        elif k == 'BreakStatement':
            raise Brk()
        elif k == 'ContinueStatement':
            raise Cont()
        elif k in ('EmptyStatement', 'FunctionDeclaration', 'TypeAliasDeclaration', 'InterfaceDeclaration'):
            pass
        else:
            raise Unsupported(k)


def leaves(make, go, asg, limit=6000):
    """every leaf of go under extensions of asg: (atoms, outcome)"""
    out, todo, n = [], [dict(asg)], 0
    while todo:
        a = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported('too many paths')
        r = make(a)
        try:
            o = go(r)
        except Need as e:
            todo += [{**a, e.atom: False}, {**a, e.atom: True}]
            continue
        out.append((a, (o, tuple(r.trace)), r.funcs))
    return out


def heads(t, acc):
    if isinstance(t, tuple):
        if len(t) > 2 and t[0] == 'get' and isinstance(t[2], str):
            acc.add('.' + t[2])
        elif t and t[0] in ('glob', 'local', 'par') and isinstance(t[1], str):
            acc.add(t[0] + ':' + t[1])
        elif t and t[0] in ('op', 'lam', 'at', 'instanceof', 'typeof', 'set', 'enqueue'):
            acc.add(t[0])
        for x in t:
            heads(x, acc)
    return acc


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return json.dumps(t[1])
    if k == 'undef':
        return 'undefined'
    if k in ('glob', 'local', 'par'):
        return str(t[1])
    if k == 'get':
        return show(t[1]) + ('' if t[2] == 'default' else '.' + str(t[2]))
    if k in ('call', 'new'):
        return ('new ' if k == 'new' else '') + show(t[1]) + '(' + ', '.join(show(x) for x in t[2:] if x[0] != 't') + ')'
    if k == 'result':
        return 'result of ' + t[1]
    if k in ('obj',):
        return '{' + ', '.join('%s: %s' % (a, show(b)) for a, b in t[1:]) + '}'
    if k == 'arr':
        return '[' + ', '.join(show(x) for x in t[1:]) + ']'
    if k == 'eq':
        return '%s === %s' % (show(t[1]), show(t[2]))
    if k == 'lt':
        return '%s < %s' % (show(t[1]), show(t[2]))
    if k in ('truthy', 'nullish', 'isundef', 'isnull'):
        return '%s is %s' % (show(t[1]), k)
    if k == 'fails':
        return t[1] + ' fails'
    if k == 'do':
        return show(t[2])
    if k == 'returns':
        return 'returns ' + show(t[1])
    if k == 'throws':
        return 'throws'
    return '(' + ' '.join(show(x) for x in t) + ')'


def compare(prog, impl, spec, vocab=(), **kw):
    """-> ('ok', stats) | ('bad', text) | ('undecided', why)"""
    try:
        make = lambda a: Run(prog, a, **kw)
        sl = leaves(make, spec, {})
        voc = set(vocab)
        for a, o, _ in sl:
            heads(tuple(a), voc)
            heads(o, voc)
        il = leaves(make, impl, {})
        funcs, n = set(), 0
        for a, o, fs in il:
            funcs |= fs
            for b, p, _ in leaves(make, spec, a):
                n += 1
                if o != p:
                    mine = set()
                    heads(tuple(a), mine)
                    heads(o, mine)
                    foreign = mine - voc
                    if foreign:
                        return 'undecided', 'uses %s, which the reference does not know' % ', '.join(sorted(foreign)[:4])
                    cond = ' and '.join(('' if v else 'not ') + '(' + show(k) + ')' for k, v in b.items()) or 'always'
                    return 'bad', 'when %s: %s; required: %s' % (cond[:700], brief(o, p), brief(p, o))
        return 'ok', (len(il), n, funcs)
    except Unsupported as e:
        return 'undecided', str(e)
    except (KeyError, TypeError, IndexError, AttributeError, RecursionError) as e:
        if os.environ.get('DEBUG'):
            raise
        return 'undecided', 'the evaluator does not model this (%s: %s)' % (type(e).__name__, e)


def brief(o, other):
    out, tr = o
    if out != other[0]:
        return show(out)[:500]
    for i, x in enumerate(tr):
        if i >= len(other[1]) or other[1][i] != x:
            return 'then ' + show(x)[:500]
    return 'the effects end after %d' % len(tr)
