"""Where does an order that is not determined (hash iteration, threads, directory listings) become observable?

An abstract interpretation of the syntax trees over light types in which a sequence carries the reason why its order is not
determined.  Sorting clears the mark, collecting into an ordered or keyed container does too; a helper is analysed with the
marks of its arguments; the marks of struct fields are global (iterated to a fixpoint).  A finding is an operation whose
result or effect depends on that order."""
import re
from .src import INTS

HASHMAP = ('HashMap', 'FxHashMap', 'AHashMap', 'DashMap')
HASHSET = ('HashSet', 'FxHashSet', 'AHashSet', 'DashSet')
SEQ = ('Vec', 'VecDeque', 'SmallVec', 'LinkedList', 'BinaryHeap')
KEEP = {'filter', 'inspect', 'skip', 'take', 'skip_while', 'take_while', 'step_by', 'rev', 'cycle', 'fuse', 'peekable', 'by_ref', 'iter', 'iter_mut', 'into_iter', 'par_iter', 'into_par_iter', 'par_iter_mut',
        'as_slice', 'as_mut', 'as_mut_slice', 'to_vec', 'with_min_len', 'with_max_len', 'chunks', 'windows', 'dedup', 'dedup_by_key'}
DEREF = {'clone', 'cloned', 'copied', 'as_ref', 'as_deref', 'borrow', 'as_deref_mut', 'to_owned', 'unwrap_or_default', 'as_str', 'as_path', 'into_boxed_slice', 'by_ref', 'into', 'deref'}
PICK = {'next', 'first', 'last', 'nth', 'find', 'find_map', 'position', 'rposition', 'pop', 'first_mut', 'last_mut', 'split_first', 'split_last', 'next_back', 'reduce', 'swap_remove', 'peek', 'pop_front', 'pop_back', 'truncate'}
NEUTRAL = {'any', 'all', 'count', 'sum', 'len', 'is_empty', 'contains', 'min', 'max', 'product', 'contains_key', 'is_subset', 'is_superset', 'is_disjoint', 'capacity', 'reserve'}
SORTS = {'sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_by_cached_key', 'sort_unstable_by', 'sort_unstable_by_key', 'par_sort', 'par_sort_by', 'par_sort_unstable', 'sorted', 'sorted_by', 'sorted_by_key', 'sorted_unstable'}
PRINT = {'println', 'print', 'eprintln', 'eprint', 'writeln', 'write'}
SETOPS = {'union', 'difference', 'intersection', 'symmetric_difference'}


def conv(t, self_ty=None, al=None):
    if t is None:
        return None
    k = t['k']
    if k == 'ref':
        return conv(t['e'], self_ty, al)
    if k in ('slice', 'array'):
        return ('vec', conv(t['e'], self_ty, al), None)
    if k == 'tuple':
        return ('tuple',) + tuple(conv(x, self_ty, al) for x in t['e'])
    if k == 'path':
        last = t['p'][-1]
        n, g = last['n'], last['g']
        ga = [x for x in g if isinstance(x, dict) and x.get('k') != 'assoc' and not (x.get('k') == 'other' and x.get('s', '').startswith("'"))] if isinstance(g, list) else []
        sub = [conv(x, self_ty, al) for x in ga]
        if n == 'Self' and self_ty:
            return ('adt', self_ty)
        if n in ('Box', 'Arc', 'Rc', 'Cow', 'Ref', 'RefMut', 'RefCell', 'Cell', 'Pin', 'LazyLock', 'OnceLock', 'MutexGuard') and sub:
            return sub[-1]
        if n in ('Mutex', 'RwLock') and sub:
            return ('mutex', sub[-1])
        if n in ('Option', 'Result', 'LspResult'):
            return ('opt', sub[0] if sub else None)
        if n in SEQ:
            return ('vec', sub[0] if sub else None, None)
        if n in HASHSET:
            return ('hset', sub[0] if sub else None)
        if n in HASHMAP:
            return ('hmap',) + tuple((sub + [None, None])[:2])
        if n == 'BTreeSet':
            return ('bset', sub[0] if sub else None)
        if n == 'BTreeMap':
            return ('bmap',) + tuple((sub + [None, None])[:2])
        if n in ('String', 'str'):
            return 'str'
        if n in INTS or n in ('bool', 'char', 'f64', 'f32'):
            return 'scalar'
        if al and n in al:
            return conv(al[n], self_ty, {k: v for k, v in al.items() if k != n})
        return ('adt', n)
    if k == 'other':
        s = t.get('s', '')
        if 'Iterator' in s or 'IntoIterator' in s:
            return ('iter', None, None)
    return None


def src(t):
    return t[2] if isinstance(t, tuple) and t[0] in ('vec', 'iter') else t[1] if isinstance(t, tuple) and t[0] == 'jumble' else None


def mark(t, why):
    if why is None:
        return t
    if isinstance(t, tuple) and t[0] in ('vec', 'iter'):
        return (t[0], t[1], t[2] or why)
    if isinstance(t, tuple) and t[0] == 'opt':
        return ('opt', mark(t[1], why))
    if t == 'str':
        return ('jumble', why)
    return t


def clear(t):
    return (t[0], t[1], None) if isinstance(t, tuple) and t[0] in ('vec', 'iter') else t


def elem(t):
    if not isinstance(t, tuple):
        return None
    if t[0] in ('vec', 'iter', 'hset', 'bset', 'opt'):
        return t[1]
    if t[0] in ('hmap', 'bmap'):
        return ('tuple', t[1], t[2])
    return None


def join(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] in ('vec', 'iter'):
            return (a[0], join(a[1], b[1]), a[2] or b[2])
        if a[0] == 'tuple' and len(a) == len(b):
            return ('tuple',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] in ('opt', 'hset', 'bset', 'mutex'):
            return (a[0], join(a[1], b[1]))
        if a[0] in ('hmap', 'bmap') and len(a) == len(b):
            return (a[0], join(a[1], b[1]), join(a[2], b[2]))
    if isinstance(b, tuple) and b[0] == 'jumble':
        return b
    return a


def overlay(decl, got):
    """declared type with the marks of an actual value"""
    if decl is None:
        return got
    if not isinstance(got, tuple):
        return decl
    if isinstance(decl, tuple):
        if decl[0] in ('vec', 'iter') and got[0] in ('vec', 'iter'):
            return (decl[0], overlay(decl[1], got[1]), got[2])
        if decl[0] == 'iter' and got[0] in ('hset', 'hmap'):
            return got
        if decl[0] == got[0] and decl[0] in ('opt', 'mutex', 'hset', 'bset'):
            return (decl[0], overlay(decl[1], got[1]))
        if decl[0] == got[0] == 'tuple' and len(decl) == len(got):
            return ('tuple',) + tuple(overlay(x, y) for x, y in zip(decl[1:], got[1:]))
        if decl[0] == got[0] and decl[0] in ('hmap', 'bmap'):
            return (decl[0], overlay(decl[1], got[1]), overlay(decl[2], got[2]))
    if decl == 'str' and got[0] == 'jumble':
        return got
    if isinstance(decl, tuple) and decl[0] == 'adt' and len(decl[1]) == 1:
        return got      # a type parameter
    return decl


class Cell:
    __slots__ = ('t', 'depth')

    def __init__(s, t, depth=0):
        s.t, s.depth = t, depth


class Order:
    def __init__(s, idx, fns):
        s.idx, s.fns = idx, list(fns)
        s.ok = {id(f) for f in s.fns}
        s.fields = {}           # (adt, field) -> mark
        s.found = {}            # (file, line, kind) -> (fn, what, why)
        s.memo = {}
        s.stats = {'sources': set(), 'sorted': set(), 'calls': 0}
        s.changed = False

    def run(s):
        for _ in range(4):
            s.changed = False
            s.memo = {}
            s.found = {}
            for f in s.fns:
                s.call(f, None, None, 0)
            if not s.changed:
                break
        return s

    # ---- functions
    def params(s, f):
        out = []
        for p in f.j['in']:
            if p.get('self'):
                out.append((None, ('adt', f.owner) if f.owner else None))
            else:
                out.append((p.get('p'), conv(p.get('ty'), f.owner, s.idx.aliases)))
        return out

    def call(s, f, args, loop, depth):
        """(result type, final types of the parameters)"""
        ps = s.params(f)
        tys = [overlay(t, args[i]) if args and i < len(args) else t for i, (p, t) in enumerate(ps)]
        key = (id(f), tuple(tys), loop)
        if key in s.memo:
            return s.memo[key]
        out = conv(f.j['out'], f.owner, s.idx.aliases)
        s.memo[key] = (out, tys)
        if depth > 5:
            return s.memo[key]
        s.stats['calls'] += 1
        b = Body(s, f, loop, depth)
        for (p, _), t in zip(ps, tys):
            if p is None:
                b.env['self'] = Cell(t)
            else:
                b.bind(p, t)
        b.pars = [b.env.get('self') if p is None else b.env.get(p.get('n')) if p.get('k') == 'ident' else None for p, _ in ps]
        r = b.block(f.j['b'], want=out)
        r = join(r, b.ret)
        if out == ('opt', None) or out is None:
            pass
        res = (overlay(out, r), [c.t if c else t for c, t in zip(b.pars, tys)])
        s.memo[key] = res
        return res

    def lookup(s, owner, name):
        c = [f for f in s.idx.by_name.get(name, ()) if id(f) in s.ok and f.owner == owner]
        return c[0] if len(c) == 1 else None

    def field(s, adt, name):
        st = s.idx.structs.get(adt)
        t = None
        if st:
            for i, x in enumerate(st['f']):
                if (x.get('n') or str(i)) == name:
                    t = conv(x['ty'], adt, s.idx.aliases)
        return mark(t, s.fields.get((adt, name)))

    def set_field(s, adt, name, t):
        w = src(t)
        if w is None and isinstance(t, tuple) and t[0] == 'opt':
            w = src(t[1])
        if w and not s.fields.get((adt, name)):
            s.fields[(adt, name)] = w
            s.changed = True


def fresh(why, f, l):
    return (why, f.file, l)


class Body:
    def __init__(s, o, f, loop, depth):
        s.o, s.f, s.loop, s.depth = o, f, loop, depth
        s.env = {}
        s.ret = None
        s.level = 0            # loop nesting; cells made outside an unordered loop have a smaller depth
        s.loops = []           # (why, bound names, level) of the unordered loops around
        s.pars = []
        s.own = {}             # names the loop of a level binds itself

    # ---- reports
    def bad(s, l, kind, what, why):
        s.o.found.setdefault((s.f.file, l, kind), (s.f.qual, what, why))

    # ---- bindings
    def bind(s, p, t):
        if p is None:
            return
        k = p['k']
        if k == 'ident':
            s.env[p['n']] = Cell(t, s.level)
            if p.get('sub'):
                s.bind(p['sub'], t)
        elif k == 'type':
            s.bind(p['p'], overlay(conv(p['ty'], s.f.owner, s.o.idx.aliases), t))
        elif k == 'tuple':
            for i, q in enumerate(p['e']):
                s.bind(q, t[i + 1] if isinstance(t, tuple) and t[0] == 'tuple' and i + 1 < len(t) else None)
        elif k == 'ts':
            n = p['p'][-1]['n']
            for q in p['e']:
                s.bind(q, t[1] if n in ('Some', 'Ok') and isinstance(t, tuple) and t[0] == 'opt' else None)
        elif k == 'struct':
            for x in p['f']:
                s.bind(x['p'], s.o.field(p['p'][-1]['n'], x['n']))
        elif k in ('or', 'slice'):
            for q in p['e']:
                s.bind(q, t if k == 'or' else elem(t))

    def names(s, p):
        out = set()
        st = [p]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'ident':
                    out.add(x['n'])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return out

    # ---- expressions
    def block(s, b, want=None):
        t = None
        for i, st in enumerate(b or []):
            t = None
            if st['k'] == 'local':
                p = st['p']
                w = conv(p['ty'], s.f.owner, s.o.idx.aliases) if p['k'] == 'type' else None
                if st.get('e') and p['k'] == 'ts' and len(p['e']) == 1 and p['e'][0]['k'] == 'ident' and only_fields(s.f.j['b'], p['e'][0]['n']):
                    s.invariant = st['e']
                t0 = s.ex(st['e'], w) if st.get('e') else None
                if st.get('else'):
                    s.ex(st['else']) if isinstance(st['else'], dict) else s.block(st['else'])
                s.bind(p, overlay(w, t0) if w else t0)
            elif st['k'] == 'expr':
                last = i == len(b) - 1 and not st['semi']
                t = s.ex(st['e'], want if last else None)
                if not last:
                    t = None
        return t

    def ex(s, e, want=None):
        if e is None:
            return None
        if isinstance(e, list):
            return s.block(e, want)
        m = getattr(s, 'x_' + e['k'], None)
        if m:
            return m(e, want)
        for v in e.values():        # anything else: only for its parts
            if isinstance(v, dict) and 'k' in v:
                s.ex(v)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict) and 'k' in y:
                        s.ex(y)
        return None

    def x_lit(s, e, w):
        return 'str' if isinstance(e['v'], dict) and e['v'].get('k') == 'str' else 'scalar'

    def x_path(s, e, w):
        p = e['p']
        if len(p) == 1:
            c = s.env.get(p[0]['n'])
            if c:
                return c.t
            for owner, file, x, ty in s.o.idx.consts.get(p[0]['n'], ()):
                return conv(ty, None, s.o.idx.aliases)
            if p[0]['n'] in s.o.idx.structs:
                return ('adt', p[0]['n'])
        return None

    def cell(s, e):
        """the variable an expression denotes"""
        while e['k'] in ('ref', 'unary', 'paren') and 'e' in e or e['k'] == 'mcall' and e['m'] in ('as_mut', 'by_ref', 'iter_mut', 'unwrap', 'borrow_mut', 'as_mut_slice', 'deref_mut'):
            e = e['r'] if e['k'] == 'mcall' else e['e']
        if e['k'] == 'path' and len(e['p']) == 1:
            return s.env.get(e['p'][0]['n'])
        return None

    def touch(s, e, why, l):
        """elements are added in an order that is not determined"""
        c = s.cell(e)
        if c is not None:
            t = c.t
            if t is None:
                t = ('vec', None, None)
            c.t = mark(t, why)
            return
        while e['k'] in ('ref', 'unary'):
            e = e['e']
        if e['k'] == 'field':
            b = s.ex(e['e'])
            if isinstance(b, tuple) and b[0] == 'adt':
                t = s.o.field(b[1], e['f'])
                s.o.set_field(b[1], e['f'], mark(t, why))

    def x_ref(s, e, w):
        return s.ex(e['e'], w)

    def x_unary(s, e, w):
        return s.ex(e['e'], w)

    def x_paren(s, e, w):
        return s.ex(e['e'], w)

    def x_try(s, e, w):
        t = s.ex(e['e'], ('opt', w) if w else None)
        for why, names, lv in s.loops:
            if s.uses(e['e'], names) and why[0] != 'dir':
                s.bad(e['l'], 'exit', 'which error ends the loop', why)
        return t[1] if isinstance(t, tuple) and t[0] == 'opt' else t if src(t) else None

    def x_await(s, e, w):
        return s.ex(e['e'], w)

    def x_cast(s, e, w):
        s.ex(e['e'])
        return 'scalar'

    def x_field(s, e, w):
        t = s.ex(e['e'])
        if isinstance(t, tuple) and t[0] == 'tuple' and e['f'].isdigit() and int(e['f']) + 1 < len(t):
            return t[int(e['f']) + 1]
        if isinstance(t, tuple) and t[0] == 'adt':
            return s.o.field(t[1], e['f'])
        return None

    def x_index(s, e, w):
        t = s.ex(e['e'])
        s.ex(e['i'])
        if src(t) and e['i']['k'] == 'lit':
            s.bad(e['l'], 'pick', 'indexing with a constant', src(t))
        if e['i']['k'] == 'range':
            return t
        return t[2] if isinstance(t, tuple) and t[0] in ('hmap', 'bmap') else elem(t)

    def x_binary(s, e, w):
        a, b = s.ex(e['a']), s.ex(e['b'])
        return 'scalar' if e['op'] not in ('+',) else a if src(a) else b if src(b) else a

    def x_assign(s, e, w):
        a = s.ex(e['a'])
        t = s.ex(e['b'], a)
        c = s.cell(e['a'])
        if c is not None:
            c.t = overlay(c.t, t) if src(t) else join(clear(c.t), t)
            for why, names, lv in s.loops:
                if c.depth < lv and s.uses(e['b'], names) and not s.guarded:
                    pass
        elif e['a']['k'] == 'field':
            b = s.ex(e['a']['e'])
            if isinstance(b, tuple) and b[0] == 'adt':
                s.o.set_field(b[1], e['a']['f'], t)
        return None

    guarded = False

    def x_assignop(s, e, w):
        t = s.ex(e['b'])
        a = s.ex(e['a'])
        if (a == 'str' or isinstance(a, tuple) and a[0] == 'jumble') and e['op'] == '+':
            s.grow(e['a'], e['b'], e['l'])
        return None

    def x_block(s, e, w):
        return s.block(e['b'], w)

    def x_if(s, e, w):
        s.ex(e['c'])
        a = s.ex(e['t'], w)
        b = s.ex(e['e'], w) if e.get('e') else None
        return join(a, b)

    def x_let(s, e, w):
        s.bind(e['p'], s.ex(e['e']))
        return 'scalar'

    def x_matches(s, e, w):
        s.ex(e['e'])
        return 'scalar'

    def x_match(s, e, w):
        t = s.ex(e['e'])
        out = None
        for a in e['arms']:
            s.bind(a['p'], t)
            if a.get('g'):
                s.ex(a['g'])
            out = join(out, s.ex(a.get('b') or a.get('e'), w))
        return out

    def x_while(s, e, w):
        c = e['c']
        if c['k'] == 'let' and c['e']['k'] == 'mcall' and c['e']['m'] in ('pop', 'pop_front', 'pop_back', 'next', 'recv') and not c['e']['a']:
            # a worklist, or the iterator of a loop
            p = c['p']['e'][0] if c['p']['k'] == 'ts' and c['p']['e'] else c['p']
            t = s.ex(c['e']['r'])
            s.loop_over(s.iterated(t, e['l']), p, t, e['b'], e['l'])
            return None
        for _ in range(2):
            s.ex(e['c'])
            s.block(e['b'])
        return None

    def x_loop(s, e, w):
        for _ in range(2):
            s.block(e['b'])
        return None

    def iterated(s, t, l):
        """why the iteration order over a value of type t is not determined"""
        if isinstance(t, tuple):
            if t[0] in ('hset', 'hmap'):
                s.o.stats['sources'].add((s.f.file, l))
                return ('hash', s.f.file, l) if t[0] == 'hset' else ('pair', s.f.file, l)
            return src(t)
        return None

    def loop_over(s, why, p, t, body, l):
        if why:
            s.level += 1
            nm = s.names(p)
            s.own[s.level] = frozenset(nm)
            s.loops.append((why, nm, s.level))
        for _ in range(2):
            s.bind(p, elem(t))
            if why:
                s.derive(body, nm)
            s.ex(body)
        if why:
            s.loops.pop()
            s.level -= 1

    def derive(s, body, nm):
        """names computed from the element"""
        for _ in range(3):
            n0 = len(nm)
            st = [body]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('k') in ('local', 'let') and x.get('e') and s.uses(x['e'], nm):
                        nm |= s.names(x['p'])
                    elif x.get('k') == 'match' and s.uses(x['e'], nm):
                        for a in x['arms']:
                            nm |= s.names(a['p'])
                    elif x.get('k') == 'for' and s.uses(x['e'], nm):
                        nm |= s.names(x['p'])
                    st.extend(x.values())
                elif isinstance(x, list):
                    st.extend(x)
            if len(nm) == n0:
                return

    def x_for(s, e, w):
        t = s.ex(e['e'])
        s.loop_over(s.iterated(t, e['l']), e['p'], t, e['b'], e['l'])
        return None

    def uses(s, e, names):
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'path' and len(x['p']) == 1 and x['p'][0]['n'] in names:
                    return True
                if x.get('k') == 'lit' and isinstance(x.get('v'), dict) and isinstance(x['v'].get('v'), str) and '{' in x['v']['v']:
                    if any(n in names for n in re.findall(r'\{(\w+)', x['v']['v'])):
                        return True
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return False

    def x_return(s, e, w):
        t = s.ex(e['e'], conv(s.f.j['out'], s.f.owner, s.o.idx.aliases)) if e.get('e') else None
        s.ret = join(s.ret, t)
        for why, names, lv in s.loops:
            if e.get('e') and s.uses(e['e'], names):
                s.bad(e['l'], 'exit', 'the element that ends the loop', why)
        return None

    def x_break(s, e, w):
        if e.get('e'):
            s.ex(e['e'])
            for why, names, lv in s.loops:
                if s.uses(e['e'], names):
                    s.bad(e['l'], 'exit', 'the element that ends the loop', why)
        return None

    def x_closure(s, e, w):
        old = s.ret
        for p in e['ps']:
            s.bind(p, None)
        t = s.ex(e['b'])
        s.ret = old
        return ('fn', t)

    def clo(s, e, *tys):
        """result of applying the closure (or function) e"""
        if e['k'] == 'closure':
            old, s.ret = s.ret, None
            for p, t in zip(e['ps'], list(tys) + [None] * 4):
                s.bind(p, t)
            t = s.ex(e['b'])
            t = join(t, s.ret)
            s.ret = old
            return t
        if e['k'] == 'path':
            f = s.resolve(e['p'])
            if f:
                return s.o.call(f, list(tys), s.why(), s.depth + 1)[0]
            n = e['p'][-1]['n']
            if n in ('clone', 'as_ref', 'from', 'to_owned', 'Ok', 'Some'):
                return ('opt', tys[0]) if n in ('Ok', 'Some') else tys[0]
        return None

    def why(s):
        return s.loops[-1][0] if s.loops else s.loop

    def x_tuple(s, e, w):
        ws = w[1:] if isinstance(w, tuple) and w[0] == 'tuple' else []
        return ('tuple',) + tuple(s.ex(x, ws[i] if i < len(ws) else None) for i, x in enumerate(e['e']))

    def x_array(s, e, w):
        t = None
        for x in e['e']:
            t = join(t, s.ex(x))
        return ('vec', t, None)

    def x_struct(s, e, w):
        n = e['p'][-1]['n']
        if n == 'Self' and s.f.owner:
            n = s.f.owner
        for x in e['f']:
            t = s.ex(x['e'], s.o.field(n, x['n']))
            s.o.set_field(n, x['n'], t)
        if e.get('rest') and isinstance(e['rest'], dict):
            s.ex(e['rest'])
        return ('adt', n)

    def x_range(s, e, w):
        for x in (e.get('lo'), e.get('hi')):
            if x:
                s.ex(x)
        return ('iter', 'scalar', None)

    def x_repeat(s, e, w):
        return ('vec', s.ex(e['e']), None)

    # ---- macros
    def x_macro(s, e, w):
        n = e['n']
        args = e.get('args') or []
        tys = [s.ex(a) for a in args]
        if n == 'vec':
            t = None
            for x in tys:
                t = join(t, x)
            return ('vec', t, None)
        for a, t in list(zip(args, tys)) + s.inline(args):
            why = src(t) or s.iterated(t, e['l']) if isinstance(t, tuple) and t[0] in ('vec', 'iter', 'jumble', 'hset', 'hmap') else None
            if why and n in PRINT | {'panic', 'bail', 'anyhow', 'ensure'}:
                s.bad(e['l'], 'show', '`%s!` shows the elements' % n, why)
                return None
            if why and n in ('format', 'format_args', 'concat'):
                return ('jumble', why)
        if n in PRINT and s.why() is not None:
            if n in ('write', 'writeln') and args:
                c = s.cell(args[0])
                if c is not None and (c.t == 'str' or isinstance(c.t, tuple) and c.t[0] == 'jumble'):
                    if s.loops and c.depth < s.loops[-1][2]:
                        c.t = ('jumble', s.why())
                    return None
            if s.loops and not any(s.uses(args[1 if n.startswith('write') else 0:], nm) for _, nm, _ in s.loops):
                return None
            s.bad(e['l'], 'show', '`%s!` for each element' % n, s.why())
        if n in ('bail', 'ensure'):
            for why, names, lv in s.loops:
                if s.uses(args, names):
                    s.bad(e['l'], 'exit', 'the element that ends the loop', why)
        return 'str' if n in ('format', 'concat', 'stringify') else None

    def inline(s, args):
        out = []
        for a in args:
            if a['k'] == 'lit' and isinstance(a.get('v'), dict) and isinstance(a['v'].get('v'), str):
                for n in re.findall(r'\{(\w+)', a['v']['v']):
                    if n in s.env:
                        out.append((a, s.env[n].t))
        return out

    # ---- calls
    def resolve(s, p):
        n = p[-1]['n']
        if len(p) >= 2:
            o = p[-2]['n']
            if o == 'Self':
                o = s.f.owner
            f = s.o.lookup(o, n)
            if f:
                return f
            if o and o[:1].isupper():
                return None
        c = [f for f in s.o.idx.by_name.get(n, ()) if f.owner is None and id(f) in s.o.ok]
        if len(c) > 1:
            u = s.o.idx.uses.get(s.f.file, {}).get(p[0]['n'])
            same = [f for f in c if f.file == s.f.file]
            if same and len(p) == 1:
                return same[0]
            mods = [x for x in (u.split('::') if u else [p[0]['n']]) + [x['n'] for x in p[1:-1]] if x not in ('crate', 'super', 'self')]
            score = [(sum('/%s.rs' % m in f.file or '/%s/' % m.replace('_', '-') in f.file or '/%s/' % m in f.file for m in mods), f) for f in c]
            top = max(x for x, _ in score)
            best = [f for x, f in score if x == top]
            return best[0] if len(best) == 1 and top else None
        return c[0] if c else None

    def args_effects(s, f, args, res, off=0):
        """what the callee did to the vectors it was lent"""
        for a, t in zip(args, res[1][off:]):
            w = src(t)
            if a is not None and a['k'] == 'ref' and a.get('mut'):
                if w:
                    s.touch(a['e'], w, a.get('l'))
                c = s.cell(a)
                why = s.loops[-1][0] if s.loops else None
                if c is not None and why and c.depth < s.loops[-1][2] and (c.t == 'str' or isinstance(c.t, tuple) and c.t[0] in ('vec', 'jumble')):
                    s.touch(a['e'], why, a.get('l'))
                elif c is not None and not w and src(c.t) and not (why and c.depth < s.loops[-1][2]):
                    c.t = overlay(c.t, t) if t is not None else c.t

    def x_call(s, e, w):
        fe = e['f']
        if fe['k'] != 'path':
            s.ex(fe)
            for a in e['a']:
                s.ex(a)
            return None
        p = fe['p']
        n = p[-1]['n']
        f = s.resolve(p)
        if f:
            ps = s.o.params(f)
            tys = [s.ex(a, ps[i][1] if i < len(ps) else None) for i, a in enumerate(e['a'])]
            r = s.o.call(f, tys, s.why(), s.depth + 1)
            s.args_effects(f, e['a'], r)
            return r[0]
        if n in ('Ok', 'Some') and len(e['a']) == 1:
            return ('opt', s.ex(e['a'][0], w[1] if isinstance(w, tuple) and w[0] == 'opt' else None))
        if n == 'Err' and len(e['a']) == 1:
            s.ex(e['a'][0])
            return ('opt', None)
        tys = [s.ex(a) for a in e['a']]
        owner = p[-2]['n'] if len(p) > 1 else None
        if owner in HASHMAP or owner in HASHSET or owner in SEQ or owner in ('BTreeMap', 'BTreeSet', 'String'):
            t = conv({'k': 'path', 'p': [p[-2]]})
            if owner in SEQ and n in ('from', 'from_iter') and tys:
                return ('vec', elem(tys[0]), s.iterated(tys[0], e['l']))
            if n in ('from', 'from_iter') and tys and t[0] in ('hset', 'bset'):
                return (t[0], elem(tys[0]))
            if w is not None and isinstance(w, tuple) and w[0] == t[0]:
                return w
            return t
        if owner in ('Mutex', 'RwLock') and tys:
            return ('mutex', tys[0])
        if owner in ('Box', 'Arc', 'Rc', 'Cow', 'Some', 'RefCell') and tys:
            return tys[0]
        if n == 'read_dir':
            s.o.stats['sources'].add((s.f.file, e['l']))
            return ('opt', ('iter', ('opt', None), ('dir', s.f.file, e['l'])))
        if owner == 'serde_json' and n.startswith('to_') or n in ('to_string_pretty', 'to_writer', 'to_writer_pretty'):
            for t in tys:
                if src(t):
                    s.bad(e['l'], 'show', '`%s` writes the elements' % n, src(t))
        if n in ('take', 'replace') and owner == 'mem' and tys:
            return tys[0]
        if n == 'from' and tys and owner == 'String':
            return tys[0]
        return None

    def grow(s, recv, arg, l):
        """something is appended to recv"""
        for why, names, lv in s.loops:
            c = s.cell(recv)
            if c is None:
                b = recv
                while b['k'] in ('ref', 'unary'):
                    b = b['e']
                while b['k'] == 'mcall' and b['m'] != 'entry':
                    b = b['r']
                if b['k'] == 'mcall' and b['a']:          # entry(key).or_default().push(..)
                    k = b['a'][0]
                    while k['k'] in ('ref', 'unary') or k['k'] == 'mcall' and k['m'] in ('clone', 'as_str', 'to_string', 'to_owned'):
                        k = k['r'] if k['k'] == 'mcall' else k['e']
                    c = s.cell(b['r'])
                    if c is not None and c.depth < lv and isinstance(c.t, tuple) and c.t[0] in ('hmap', 'bmap') and not (k['k'] == 'path' and s.uses(k, s.own.get(lv, names)) and why[0] in ('pair', 'hash')):
                        c.t = (c.t[0], c.t[1], mark(c.t[2] or ('vec', None, None), why))
                    continue
                if b['k'] == 'field' and not s.uses(b, names):
                    s.touch(recv, why, l)
                continue
            if c.depth < lv:
                s.touch(recv, why, l)

    def x_mcall(s, e, w):
        m, r, a = e['m'], e['r'], e['a']
        l = e['l']
        if m == 'collect' or m == 'from_par_iter':
            return s.collect(e, w)
        rw = None
        if m in ('unwrap', 'expect', 'unwrap_or_default', 'clone', 'cloned'):
            rw = w
        t = s.ex(r, rw)
        if isinstance(t, tuple) and t[0] == 'opt' and m in ('map', 'and_then', 'filter', 'is_some_and', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'unwrap', 'expect', 'ok', 'as_ref', 'as_deref', 'cloned', 'copied', 'as_mut',
                                                            'ok_or', 'ok_or_else', 'map_err', 'context', 'with_context', 'iter', 'into_iter', 'take', 'flatten', 'or_else', 'or', 'is_some', 'is_none', 'map_or', 'map_or_else', 'is_ok', 'is_err', 'zip'):
            return s.option(e, t, w)
        if isinstance(t, tuple) and t[0] == 'mutex':
            for x in a:
                s.ex(x)
            if m in ('into_inner', 'lock', 'get_mut', 'read', 'write'):
                inner = t[1]
                if isinstance(inner, tuple) and inner[0] == 'vec':
                    s.o.stats['sources'].add((s.f.file, l))
                    inner = mark(inner, ('threads', s.f.file, l))
                return ('opt', inner)
            return None
        if isinstance(t, tuple) and t[0] in ('hset', 'hmap', 'bset', 'bmap'):
            return s.keyed(e, t, w)
        if isinstance(t, tuple) and t[0] in ('vec', 'iter'):
            return s.seq(e, t, w)
        if isinstance(t, tuple) and t[0] == 'adt':
            f = s.o.lookup(t[1], m)
            if f and f.has_self:
                ps = s.o.params(f)
                tys = [s.ex(x, ps[i + 1][1] if i + 1 < len(ps) else None) for i, x in enumerate(a)]
                res = s.o.call(f, [t] + tys, s.why(), s.depth + 1)
                s.args_effects(f, a, res, 1)
                return res[0]
            if m in ('build',) and t[1] in ('WalkBuilder',):
                return ('iter', ('opt', None), ('dir', s.f.file, l))
        if m in ('push_str', 'push', 'extend', 'write_str', 'push_back') and (t is None or t == 'str' or isinstance(t, tuple) and t[0] == 'jumble'):
            tys = [s.ex(x) for x in a]
            if t is not None or m == 'push' or m == 'extend':
                s.grow(r, a[0] if a else None, l)
            for x in tys:
                if isinstance(x, tuple) and x[0] == 'jumble' and s.cell(r) is not None:
                    s.cell(r).t = x
            return None
        for x in a:
            s.ex(x)
        if m in DEREF or m in ('trim', 'to_string', 'bold', 'red', 'yellow'):
            return t
        if m == 'par_bridge':
            return ('iter', None, ('threads', s.f.file, l))
        if m in ('read_dir',):
            return ('opt', ('iter', ('opt', None), ('dir', s.f.file, l)))
        # a method of the project whatever the receiver is
        c = [f for f in s.o.idx.by_name.get(m, ()) if f.owner and f.has_self and id(f) in s.o.ok]
        if t is None and len(c) == 1:
            return s.o.call(c[0], None, s.why(), s.depth + 1)[0]
        return None

    def option(s, e, t, w):
        m, a = e['m'], e['a']
        inner = t[1]
        if m in ('map', 'and_then', 'map_or', 'map_or_else', 'is_some_and', 'filter', 'unwrap_or_else', 'or_else', 'map_err', 'ok_or_else', 'with_context'):
            r = [s.clo(x, inner if m not in ('unwrap_or_else', 'or_else', 'map_err') else None) for x in a]
            if m == 'map':
                return ('opt', r[0])
            if m == 'and_then':
                return r[0] if isinstance(r[0], tuple) else ('opt', None)
            if m in ('map_or', 'map_or_else'):
                return r[-1]
            if m == 'unwrap_or_else':
                return inner
            return t if m != 'is_some_and' else 'scalar'
        for x in a:
            s.ex(x)
        if m in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default'):
            return inner
        if m in ('iter', 'into_iter'):
            return ('iter', inner, None)
        if m == 'flatten':
            return inner if isinstance(inner, tuple) and inner[0] == 'opt' else t
        if m in ('is_some', 'is_none', 'is_ok', 'is_err'):
            return 'scalar'
        return t

    def keyed(s, e, t, w):
        m, r, a, l = e['m'], e['r'], e['a'], e['l']
        h = t[0] in ('hset', 'hmap')
        if h and m == 'extend' or m == 'insert' and h:
            for x in a:
                s.ex(x)
            return 'scalar'
        if m in SETOPS:
            s.ex(a[0])
            return ('iter', t[1], ('hash', s.f.file, l) if h else None)
        if m in ('iter', 'into_iter', 'drain', 'par_iter', 'into_par_iter', 'iter_mut'):
            why = s.iterated(t, l)
            return ('iter', elem(t), why)
        if m in ('keys', 'into_keys'):
            s.iterated(t, l)
            return ('iter', t[1], ('hash', s.f.file, l) if h else None)
        if m in ('values', 'into_values', 'values_mut'):
            s.iterated(t, l)
            return ('iter', t[2] if len(t) > 2 else None, ('value', s.f.file, l) if h else None)
        if m in ('clone', 'to_owned', 'as_ref', 'borrow'):
            return t
        if m in ('get', 'get_mut', 'remove', 'get_or_insert_with', 'entry', 'or_insert', 'or_default'):
            for x in a:
                s.ex(x)
            v = t[2] if t[0] in ('hmap', 'bmap') else t[1]
            return ('entry', v) if m == 'entry' else ('opt', v)
        if m == 'retain':
            s.clo(a[0], *((t[1], t[2]) if len(t) > 2 else (t[1],)))
            return None
        for x in a:
            s.ex(x)
        return 'scalar' if m in NEUTRAL else None

    def seq(s, e, t, w):
        m, r, a, l = e['m'], e['r'], e['a'], e['l']
        why, el = src(t), elem(t)
        if m in SORTS:
            for x in a:
                s.clo(x, el, el) if x['k'] == 'closure' else s.ex(x)
            c = s.cell(r)
            total = not (why and a and a[0]['k'] == 'closure' and (why[0] == 'pair' and not key_used(a[0]) or lossy(a[0])))
            if why and total:
                s.o.stats['sorted'].add((s.f.file, l))
            if total:
                if c is not None:
                    c.t = clear(c.t)
                if m.startswith('sorted'):
                    return clear(t)
            return t
        if m in ('push', 'push_back', 'push_front', 'extend', 'append', 'insert', 'extend_from_slice'):
            tys = [s.ex(x, ('vec', el, None) if m != 'push' else el) for x in a]
            x = tys[-1] if tys else None
            c = s.cell(r)
            if m in ('extend', 'append', 'extend_from_slice'):
                y = s.iterated(x, l)
                if y:
                    s.touch(r, y if y[0] != 'pair' else ('hash',) + y[1:], l)
                if c is not None and isinstance(c.t, tuple) and c.t[0] == 'vec':
                    c.t = ('vec', join(c.t[1], elem(x)), c.t[2])
            elif c is not None and isinstance(c.t, tuple) and c.t[0] == 'vec':
                c.t = ('vec', join(c.t[1], x), c.t[2])
            s.grow(r, a[-1] if a else None, l)
            return None
        if m in ('map', 'flat_map', 'filter_map', 'map_while', 'scan', 'flat_map_iter'):
            y = s.clo_in(a[-1], why, el, l)
            if m == 'map':
                return ('iter', y, pair_kept(why, a[-1]))
            if m == 'flat_map' or m == 'flat_map_iter':
                z = s.iterated(y, l)
                return ('iter', elem(y), (why or z) and ((why or z) if (why or z)[0] != 'pair' or not why else ('hash',) + why[1:]))
            return ('iter', y[1] if isinstance(y, tuple) and y[0] == 'opt' else y, pair_kept(why, a[-1]))
        if m == 'flatten':
            z = s.iterated(el, l) if not (isinstance(el, tuple) and el[0] == 'opt') else None
            return ('iter', elem(el), why or z)
        if m == 'chain':
            b = s.ex(a[0])
            return ('iter', join(el, elem(b)), why or s.iterated(b, l))
        if m == 'zip':
            b = s.ex(a[0])
            if why or s.iterated(b, l):
                s.bad(l, 'pick', 'elements are paired by position', why or s.iterated(b, l))
            return ('iter', ('tuple', el, elem(b)), None)
        if m == 'enumerate':
            return ('iter', ('tuple', 'scalar', el), why and ('hash',) + why[1:])
        if m in ('for_each', 'try_for_each'):
            s.clo_loop(a[0], why, t, l)
            return None
        if m in ('fold', 'try_fold'):
            for x in a:
                s.ex(x)
            return None
        if m == 'partition':
            s.clo(a[0], el)
            return ('tuple', ('vec', el, why), ('vec', el, why))
        if m in ('retain', 'retain_mut', 'dedup_by_key', 'dedup_by', 'dedup', 'truncate', 'clear', 'reverse', 'reserve', 'shrink_to_fit', 'drain'):
            for x in a:
                s.clo(x, el) if x['k'] == 'closure' else s.ex(x)
            if m == 'clear' and s.cell(r) is not None:
                s.cell(r).t = clear(s.cell(r).t)
            return t if m == 'drain' else None
        if m in ('join', 'concat'):
            for x in a:
                s.ex(x)
            if why:
                s.bad(l, 'text', 'the joined text', why)
            why = why or (src(el) if isinstance(el, tuple) and el[0] == 'jumble' else None)
            return ('jumble', why) if why else 'str' if el in ('str', None) else None
        if m in PICK:
            for x in a:
                s.clo_in(x, why, el, l) if x['k'] == 'closure' else s.ex(x)
            if why and e is not s.invariant:
                s.bad(l, 'pick', '`%s` depends on the order' % m, why)
            return ('opt', el if m not in ('position', 'rposition') else 'scalar') if m != 'swap_remove' else el
        if m in ('min_by_key', 'max_by_key', 'min_by', 'max_by'):
            for x in a:
                s.clo(x, el, el)
            return ('opt', el)
        if m in NEUTRAL or m in ('sum', 'is_sorted'):
            for x in a:
                s.clo(x, el) if x['k'] == 'closure' else s.ex(x)
            return ('opt', el) if m in ('min', 'max') else 'scalar'
        if m == 'par_bridge':
            return ('iter', el, why or ('threads', s.f.file, l))
        if m in ('cloned', 'copied', 'clone', 'as_ref', 'to_owned') or m in KEEP:
            for x in a:
                s.clo(x, el) if x['k'] == 'closure' else s.ex(x)
            return ('iter' if t[0] == 'iter' or m in ('iter', 'into_iter', 'iter_mut', 'par_iter', 'into_par_iter') else 'vec', el, why)
        if m in ('get', 'get_mut'):
            for x in a:
                s.ex(x)
            return ('opt', el)
        if m == 'unwrap' or m == 'expect':
            return t
        # a method of the project that takes a sequence
        for x in a:
            s.ex(x)
        return None

    invariant = None

    def clo_in(s, c, why, el, l):
        if why and c['k'] == 'closure' and c['ps']:
            s.level += 1
            nm = s.names(c['ps'][-1])
            s.own[s.level] = frozenset(nm)
            s.derive(c['b'], nm)
            s.loops.append((why, nm, s.level))
            old_loops = s.loops
            # leaving the closure does not leave the loop
            s.loops = s.loops[:-1]
            y = s.clo(c, el)
            s.loops = old_loops
            s.loops.pop()
            s.level -= 1
            return y
        return s.clo(c, el)

    def clo_loop(s, c, why, t, l):
        if c['k'] != 'closure' or not c['ps']:
            s.ex(c)
            return
        s.loop_over(why, c['ps'][0], t, c['b'], l)

    def collect(s, e, w):
        t = s.ex(e['r'])
        l = e['l']
        if e.get('tf'):
            w = conv(e['tf'][0], s.f.owner, s.o.idx.aliases)
            if e['tf'][0].get('k') == 'path' and e['tf'][0]['p'][-1]['n'] == '_':
                w = None
        why = s.iterated(t, l)
        el = elem(t)
        if w is None:
            return None if why is None else ('iter', el, why) if False else None
        if isinstance(w, tuple) and w[0] == 'opt':
            el = el[1] if isinstance(el, tuple) and el[0] == 'opt' else el
            return ('opt', s.into(w[1], el, why, l))
        return s.into(w, el, why, l)

    def into(s, w, el, why, l):
        if isinstance(w, tuple):
            if w[0] == 'vec':
                return ('vec', overlay(w[1], el) if w[1] != ('adt', '_') else el, why)
            if w[0] in ('hset', 'bset'):
                return (w[0], overlay(w[1], el) if w[1] != ('adt', '_') else el)
            if w[0] in ('hmap', 'bmap'):
                return w
        if w == 'str' and why:
            s.bad(l, 'text', 'the collected text', why)
            return ('jumble', why)
        return w


def pair_kept(why, c):
    """after mapping, the elements are no longer the pairs of the map"""
    return why if not why or why[0] != 'pair' else ('hash',) + why[1:]


# what all elements of a group have in common
SHARED = {'package_root', 'root_key'}


def only_fields(b, name):
    """every use of the variable is one of the fields that are the same for all elements"""
    uses = fields = 0
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'path' and len(x['p']) == 1 and x['p'][0]['n'] == name:
                uses += 1
            if x.get('k') == 'field' and x['f'] in SHARED and x['e'].get('k') == 'path' and x['e']['p'][0]['n'] == name:
                fields += 1
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
    return uses == fields > 0


LOSSY = {'len', 'count', 'file_name', 'file_stem', 'extension', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'starts_with', 'ends_with', 'contains', 'parent',
         'is_empty', 'is_some', 'is_none', 'is_ok', 'is_err', 'is_dir', 'is_file', 'eq_ignore_ascii_case'}


def lossy(c):
    """the sorting closure sees its elements only through operations that map different elements to the same key"""
    names = set()

    def bound(p):
        if isinstance(p, dict):
            if p.get('k') == 'ident':
                names.add(p['n'])
            for v in p.values():
                bound(v)
        elif isinstance(p, list):
            for v in p:
                bound(v)
    bound(c['ps'])
    kept = uses = 0

    def go(x, lost):
        nonlocal kept, uses
        if isinstance(x, list):
            for y in x:
                go(y, lost)
        elif isinstance(x, dict):
            if x.get('k') == 'path' and len(x['p']) == 1 and x['p'][0]['n'] in names:
                uses += 1
                kept += not lost
                return
            if x.get('k') == 'mcall':
                go(x['r'], lost or x['m'] in LOSSY)
                go(x['a'], lost)
                return
            for v in x.values():
                go(v, lost)
    go(c['b'], False)
    return uses > 0 and kept == 0


def key_used(c):
    """the sorting closure looks at the key of the map entry"""
    for p in c['ps']:
        whole = None
        if p['k'] == 'ident':
            whole = p['n']
        elif p['k'] == 'tuple' and p['e'] and p['e'][0]['k'] == 'ident' and not p['e'][0]['n'].startswith('_'):
            return True
        if whole:
            st = [(c['b'], False)]
            while st:
                x, inside = st.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'field':
                        e = x['e']
                        while e['k'] in ('ref', 'unary', 'paren'):
                            e = e['e']
                        if e['k'] == 'path' and e['p'][0]['n'] == whole and len(e['p']) == 1:
                            if x['f'] == '0':
                                return True
                            continue
                    if x.get('k') == 'path' and len(x['p']) == 1 and x['p'][0]['n'] == whole:
                        return True
                    st.extend((v, False) for v in x.values())
                elif isinstance(x, list):
                    st.extend((v, False) for v in x)
    return False
