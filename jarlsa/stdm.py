"""Semantics of std methods, macros and loops for the gated value numbering (methods attached to Ev)."""
from .term import *
from . import term as TM
from .ev import (end_elem, Ev, Alias, State, Frame, Loop, IT, it_map, exists, first_opt, collect, push, extend, is_empty, mem, elem_type,
                 pos_of, hoist, LOGM, IO_MACROS)
from .src import conv_type

OPT_RET = {'extension', 'parent', 'file_name', 'file_stem', 'to_str', 'get', 'first', 'last', 'strip_prefix', 'next', 'pop', 'checked_add', 'checked_sub',
           'captures', 'find', 'rfind', 'to_digit', 'and_then', 'nth', 'position', 'ok', 'err', 'max', 'min', 'mget', 'max_by_key', 'min_by_key', 'peek',
           'which', 'chars_next', 'to_char', 'partial_cmp', 'checked_mul', 'split_once', 'rsplit_once', 'first_token', 'last_token', 'pop_front', 'next_sibling',
           'prev_sibling', 'from_u32', 'as_array', 'as_object', 'get_mut', 'rposition', 'max_by', 'min_by', 'reduce', 'next_back', 'workdir', 'find_map'}
RES_RET = {'parse', 'read_to_string', 'to_file_path', 'canonicalize', 'metadata', 'from_utf8', 'send', 'try_into', 'try_from', 'absolutize', 'from_file_path',
           'from_value', 'to_value', 'open', 'write', 'recv', 'join_thread', 'binary_search', 'read_dir', 'latest_github_release', 'download_file', 'flush',
           'compile', 'build', 'discover', 'statuses', 'current_dir', 'from_str', 'to_string_pretty', 'write_str', 'create_dir_all', 'remove_file'}
_old_typeof = Ev.typeof


def typeof(self, t):
    r = _old_typeof(self, t)
    if r is None and t.op == 'app':
        n = t.a[0]
        if n.startswith('f:'):
            n = n.split('::')[-1].split(':')[-1]
            if t.a[0] in self.fn_ret:
                return self.fn_ret[t.a[0]]
        if n == 'mget':
            return ('option', None)
        if n == 'path_strip_prefix' or n == 'strip_prefix' and t.a[1].ty == ('adt', 'Path'):
            return ('result', ('adt', 'Path'), None)
        if n in ('first', 'last', 'max', 'min'):
            return None     # element values, see first_opt
        if n in OPT_RET:
            return ('option', {'to_str': 'str', 'find': 'int', 'rfind': 'int', 'position': 'int'}.get(n))
        if n in RES_RET:
            return ('result', {'read_to_string': 'str', 'binary_search': 'int'}.get(n), {'binary_search': 'int'}.get(n))
        if n in ('len_utf8', 'len_utf16', 'timestamp'):
            return 'int'
        if n == 'sort_by' or n == 'sort_by_key':
            return self.typeof(t.a[1])
    if r is None and t.op in ('proj',):
        return self.typeof(t.a[0].a[2 + t.a[1]]) if t.a[0].op in ('fold', 'loop') and len(t.a[0].a) > 2 + t.a[1] else None
    return r


Ev.typeof = typeof


def meth(*names):
    def d(f):
        for n in names:
            setattr(Ev, 'm_' + n, f)
        return f
    return d


def okind(self, r, x, fr):
    """'option' | 'result' | 'iter' | None for the receiver"""
    for l in leaves(r):
        if l.op == 'ctor':
            if l.a[0] in ('Some', 'None'):
                return 'option'
            if l.a[0] in ('Ok', 'Err'):
                return 'result'
        if l.op == 'it':
            return 'iter'
        t = self.typeof(l)
        if isinstance(t, tuple) and t[0] in ('option', 'result', 'iter'):
            return t[0]
        if isinstance(t, tuple) and t[0] in ('vec', 'set', 'map'):
            return 'iter'
    return None


def good(k):
    return 'Ok' if k == 'result' else 'Some'


def bad_of(r, k):
    return NONE if k == 'option' else ctor('Err', get(r, 'Err', 0))


@meth('is_some')
def _(s, r, a, st, fr, x):
    return is_(r, 'Some')


@meth('is_none')
def _(s, r, a, st, fr, x):
    return NOT(is_(r, 'Some'))


@meth('is_ok')
def _(s, r, a, st, fr, x):
    return is_(r, 'Ok')


@meth('is_err')
def _(s, r, a, st, fr, x):
    return NOT(is_(r, 'Ok'))


def guarded(s, c, st, fr, f):
    """evaluate f in the branch where c holds; merge effects"""
    a = st.fork()
    a.scope = st.scope
    a.pc = AND(st.pc, c)
    if a.pc is FALSE:
        return BOT
    v = f(a)
    b = st.fork()
    b.pc = AND(st.pc, NOT(c))
    sc = st.scope
    s.merge(st, c, a, b)
    st.scope = sc
    return v


@meth('is_some_and', 'is_ok_and')
def _(s, r, a, st, fr, x):
    k = 'Ok' if okind(s, r, x, fr) == 'result' else 'Some'
    c = is_(r, k)
    v = guarded(s, c, st, fr, lambda q: s.b(s.callf(a[0], [get(r, k, 0)], q, fr)))
    return AND(c, v) if v is not BOT else FALSE


@meth('is_none_or')
def _(s, r, a, st, fr, x):
    c = is_(r, 'Some')
    v = guarded(s, c, st, fr, lambda q: s.b(s.callf(a[0], [get(r, 'Some', 0)], q, fr)))
    return OR(NOT(c), v) if v is not BOT else TRUE


@meth('unwrap', 'expect')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr)
    if k is None:
        k = 'option'
        for l in leaves(r):
            if l.op == 'app' and (l.a[0] in RES_RET):
                k = 'result'
    g = good(k)
    c = s.b(is_(r, g))
    s.panic_if(NOT(c), st, fr, x['line'], 'unwrap')
    return get(r, g, 0)


@meth('unwrap_err', 'expect_err')
def _(s, r, a, st, fr, x):
    return get(r, 'Err', 0)


@meth('unwrap_or')
def _(s, r, a, st, fr, x):
    g = good(okind(s, r, x, fr))
    return ite(is_(r, g), get(r, g, 0), a[0])


@meth('unwrap_or_else')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr)
    g = good(k)
    c = s.b(is_(r, g))
    v = guarded(s, NOT(c), st, fr, lambda q: s.callf(a[0], [get(r, 'Err', 0)] if k == 'result' else [], q, fr))
    return ite(c, get(r, g, 0), v)


@meth('unwrap_or_default')
def _(s, r, a, st, fr, x):
    g = good(okind(s, r, x, fr))
    p = get(r, g, 0)
    t = s.typeof(p)
    if t is None:
        t = x['hint']
    d = None
    if t is None:
        for l in leaves(p):
            if l.op == 'collect':
                t = {'seq': ('vec', None), 'set': ('set', None), 'str': 'str'}.get(l.a[0])
    d = s.empty(t) if t is not None else mk('app', 'default')
    return ite(is_(r, g), p, d)


def is_iterish(s, r):
    return okind(s, r, None, None) == 'iter'


@meth('map')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr)
    if k == 'iter':
        f = s.fn_lam(a[0], st, fr)
        return it_map(s.as_iter(r), lambda e: Some(f(e)))
    if k is None:
        # unknown receiver: option-like by default
        k = 'option'
    g = good(k)
    c = s.b(is_(r, g))
    v = guarded(s, c, st, fr, lambda q: s.callf(a[0], [get(r, g, 0)], q, fr))
    return ite(c, ctor(g, v) if v is not BOT else BOT, bad_of(r, k))


@meth('map_err')
def _(s, r, a, st, fr, x):
    return ite(is_(r, 'Ok'), ctor('Ok', get(r, 'Ok', 0)), ctor('Err', app('anyerr')))


@meth('inspect', 'inspect_err')
def _(s, r, a, st, fr, x):
    return r


@meth('map_or')
def _(s, r, a, st, fr, x):
    g = good(okind(s, r, x, fr))
    c = s.b(is_(r, g))
    v = guarded(s, c, st, fr, lambda q: s.callf(a[1], [get(r, g, 0)], q, fr))
    return ite(c, v, a[0])


@meth('map_or_else')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr)
    g = good(k)
    c = s.b(is_(r, g))
    v = guarded(s, c, st, fr, lambda q: s.callf(a[1], [get(r, g, 0)], q, fr))
    w = guarded(s, NOT(c), st, fr, lambda q: s.callf(a[0], [get(r, 'Err', 0)] if k == 'result' else [], q, fr))
    return ite(c, v, w)


@meth('and_then')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr) or 'option'
    g = good(k)
    c = s.b(is_(r, g))
    v = guarded(s, c, st, fr, lambda q: s.callf(a[0], [get(r, g, 0)], q, fr))
    return ite(c, v, bad_of(r, k))


@meth('and')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr) or 'option'
    return ite(is_(r, good(k)), a[0], bad_of(r, k))


@meth('or')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr) or 'option'
    g = good(k)
    return ite(is_(r, g), ctor(g, get(r, g, 0)), a[0])


@meth('or_else')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr) or 'option'
    g = good(k)
    c = s.b(is_(r, g))
    v = guarded(s, NOT(c), st, fr, lambda q: s.callf(a[0], [] if k == 'option' else [get(r, 'Err', 0)], q, fr))
    return ite(c, ctor(g, get(r, g, 0)), v)


@meth('xor')
def _(s, r, a, st, fr, x):
    p, q = is_(r, 'Some'), is_(a[0], 'Some')
    return ite(p, ite(q, NONE, Some(get(r, 'Some', 0))), ite(q, Some(get(a[0], 'Some', 0)), NONE))


@meth('zip')
def _(s, r, a, st, fr, x):
    if okind(s, r, x, fr) == 'option':
        c = AND(is_(r, 'Some'), is_(a[0], 'Some'))
        return ite(c, Some(tup(get(r, 'Some', 0), get(a[0], 'Some', 0))), NONE)
    return lift(lambda p, q: IT(mk('app', 'zip', p, q)), s.as_iter(r), s.as_iter(a[0]))


@meth('ok')
def _(s, r, a, st, fr, x):
    return ite(is_(r, 'Ok'), Some(get(r, 'Ok', 0)), NONE)


@meth('err')
def _(s, r, a, st, fr, x):
    return ite(is_(r, 'Ok'), NONE, Some(get(r, 'Err', 0)))


@meth('ok_or')
def _(s, r, a, st, fr, x):
    return ite(is_(r, 'Some'), ctor('Ok', get(r, 'Some', 0)), ctor('Err', a[0]))


@meth('ok_or_else')
def _(s, r, a, st, fr, x):
    c = s.b(is_(r, 'Some'))
    v = guarded(s, NOT(c), st, fr, lambda q: s.callf(a[0], [], q, fr))
    return ite(c, ctor('Ok', get(r, 'Some', 0)), ctor('Err', v))


@meth('flatten')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr)
    if k == 'option':
        return ite(is_(r, 'Some'), get(r, 'Some', 0), NONE)

    def g(e):
        if okind(s, e, x, fr) in ('option', 'result'):
            gg = good(okind(s, e, x, fr))
            return ite(is_(e, gg), Some(get(e, gg, 0)), NONE)
        raise Unknown('flatten')
    try:
        return it_map(s.as_iter(r), g)
    except Unknown:
        return lift(lambda p: IT(mk('app', flat_name(s, p), p)), s.as_iter(r))


def flat_name(s, p):
    """flattening elements of unknown type may drop None/Err or concatenate: not comparable with either"""
    et = s.it_elem(p) if p.op == 'it' else None
    if et is None and p.op == 'it' and p.a[-1].op == 'lam' and all(v.op in ('it', 'list', 'collect') or v.op == 'app' and v.a[0] in ('flat', 'chain', 'split', 'lines')
                                                                   for l in leaves(p.a[-1].a[1]) if l.op == 'ctor' and len(l.a) == 2 for v in [l.a[1]]):
        return 'flat'
    return 'flat' if et is not None else 'flat?'


@meth('filter')
def _(s, r, a, st, fr, x):
    k = okind(s, r, x, fr)
    if k == 'option':
        c = s.b(is_(r, 'Some'))
        v = guarded(s, c, st, fr, lambda q: s.b(s.callf(a[0], [get(r, 'Some', 0)], q, fr)))
        return ite(AND(c, v), Some(get(r, 'Some', 0)), NONE)
    f = s.fn_lam(a[0], st, fr)
    return it_map(s.as_iter(r), lambda e: ite(s.b(f(e)), Some(e), NONE))


@meth('filter_map')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)

    def g(e):
        v = f(e)
        return ite(is_(v, 'Some'), Some(get(v, 'Some', 0)), NONE)
    return it_map(s.as_iter(r), g)


@meth('flat_map')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)
    m = it_map(s.as_iter(r), lambda e: Some(f(e)))
    try:
        def g(e):
            v = f(e)
            k = okind(s, v, x, fr)
            if k in ('option', 'result'):
                gg = good(k)
                return ite(is_(v, gg), Some(get(v, gg, 0)), NONE)
            raise Unknown('flat_map')
        return it_map(s.as_iter(r), g)
    except Unknown:
        return lift(lambda p: IT(mk('app', flat_name(s, p), p)), m)


@meth('any')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)
    return exists(s.as_iter(r), lambda e: s.b(f(e)))


@meth('all')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)
    return NOT(exists(s.as_iter(r), lambda e: NOT(s.b(f(e)))))


@meth('find')
def _(s, r, a, st, fr, x):
    ty = s.typeof(r)
    if ty == 'str' or (ty is None and a and a[0].op in ('char', 'str')):
        def g(p, q):
            if q.op in ('char', 'str'):
                return ite(contains(p, q), Some(pos_of(p, q)), NONE)
            if q.op == 'clos':
                v = fresh('c', 'char')
                body = s.b(s.fn_lam(q, st, fr)(v))
                q = lam([v], body)
            if q.op == 'cls':
                v = fresh('c', 'char')
                q = lam([v], atom(mk('pred', q.a[0], v)))
            return mk('app', 'find', p, q)
        return lift(g, r, a[0])
    f = s.fn_lam(a[0], st, fr)
    return first_opt(s.as_iter(r), lambda e: s.b(f(e)))


@meth('rfind')
def _(s, r, a, st, fr, x):
    if s.typeof(r) == 'str' and a[0].op in ('char', 'str'):
        return lift(lambda p, q: ite(contains(p, q), Some(mk('rpos', p, S(q.a[0]))), NONE), r, a[0])
    if s.typeof(r) == 'str':
        return app('rfind', r, fnterm(s, a[0], st, fr))
    f = s.fn_lam(a[0], st, fr)
    return first_opt(lift(lambda p: IT(mk('app', 'rev', p)), s.as_iter(r)), lambda e: s.b(f(e)))


def fnterm(s, f, st, fr, n=1):
    """function value as a closed lambda term (pure)"""
    if f.op in ('clos', 'fnref', 'cls'):
        vs = [fresh('a') for _ in range(n)]
        try:
            return lam(vs, s.fn_lam(f, st, fr)(*vs))
        except Unknown:
            if f.op == 'clos':
                raise
    return f


@meth('find_map')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)

    def g(e):
        v = f(e)
        return ite(is_(v, 'Some'), Some(get(v, 'Some', 0)), NONE)
    return first_opt(it_map(s.as_iter(r), g))


@meth('position')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)
    it = it_map(s.as_iter(r), lambda e: ite(s.b(f(e)), Some(e), NONE))
    return ite(is_empty(it), NONE, Some(lift(lambda p: mk('idx', p), it)))


@meth('count')
def _(s, r, a, st, fr, x):
    def g(i):
        if i.op == 'it' and len(i.a) == 1 and i.a[0].op in ('list', 'var', 'field'):
            return slen(i.a[0])
        return _count(i)
    return lift(g, s.as_iter(r))


def one_ascii(t):
    if t.op in ('char', 'str') and len(t.a[0]) == 1 and ord(t.a[0]) < 128:
        return t.a[0]


@meth('match_indices', 'matches')
def _(s, r, a, st, fr, x):
    n = x['node']['m']
    c = one_ascii(a[0])
    if c is None or s.typeof(r) not in ('str', None):
        return itbase(n)(s, r, a, st, fr, x)
    ch = mk('char', c)

    def g(p):
        v = fresh('e')
        if n == 'matches':
            return IT(mk('app', 'chars', p), lam([v], ite(eq(v, ch), Some(S(c)), NONE)))
        return IT(mk('app', 'char_indices', p), lam([v], ite(eq(field(v, '1'), ch), Some(tup(field(v, '0'), S(c))), NONE)))
    return lift(g, r)


@meth('sum')
def _(s, r, a, st, fr, x):
    return lift(lambda i: mk('sum', i), s.as_iter(r))


@meth('collect')
def _(s, r, a, st, fr, x):
    h = None
    if x['tf']:
        h = conv_type(x['tf'][0], fr.self_ty, s.idx.aliases)
    if h is None or h == ('adt', '_'):
        h = x['hint']
    kind = 'seq'
    wrap = None
    if isinstance(h, tuple):
        if h[0] in ('set', 'map'):
            kind = h[0]
        if h[0] in ('result', 'option'):
            wrap = h[0]
        if h[0] == 'adt' and h[1] == '_':
            kind = '?'
    elif h == 'str':
        kind = 'str'
    elif h is None:
        kind = '?'
    if wrap:
        t = h[1] if len(h) > 1 else None
        k = t[0] if isinstance(t, tuple) and t[0] in ('set', 'map') else 'str' if t == 'str' else '?' if t is None or t == ('adt', '_') else 'seq'
        return lift(lambda i: collect_all(k, i, wrap), s.as_iter(r))
    return collect(kind, s.as_iter(r))


def collect_all(kind, it, wrap):
    '''all items, or what the first of them says that is none'''
    good, bad = ('Ok', 'Err') if wrap == 'result' else ('Some', 'None')
    v = fresh('e', elem_type(it.a[0]))
    cur = Some(v) if len(it.a) == 1 else beta(it.a[1], v)
    some, x = is_(cur, 'Some'), get(cur, 'Some', 0)
    fails = AND(some, is_(x, bad))
    xs = collect(kind, IT(it.a[0], lam([v], ite(AND(some, NOT(is_(x, bad))), Some(get(x, good, 0)), NONE))))
    val = NONE if bad == 'None' else first_val(it.a[0], v, fails, ctor('Err', get(x, 'Err', 0)))
    return ite(mk_exists_c(it.a[0], v, fails), val, ctor(good, xs))


@meth('iter', 'into_iter', 'iter_mut', 'drain', 'par_iter', 'into_par_iter')
def _(s, r, a, st, fr, x):
    if x['node'] is not None and x['node'].get('m') == 'drain' and x['pl'] is not None:
        n = x['node']['a']
        whole = not n or n[0]['k'] == 'range' and not n[0]['lo'] and not n[0]['hi']
        if whole:
            ty = s.typeof(r)
            k = ty[0] if isinstance(ty, tuple) else None
            s.wr_place(st, x['pl'], mk('list') if k == 'vec' or k is None and n else mk('empty', k) if k in ('map', 'set') else app('mut:drain', r, *a))
        else:
            s.wr_place(st, x['pl'], app('mut:drain', r, *a))
    return s.as_iter(r)


def itbase(name, nargs=0):
    def f(s, r, a, st, fr, x):
        aa = [fnterm(s, q, st, fr) if q.op in ('clos', 'fnref') else (S(q.a[0]) if q.op == 'char' else q) for q in a]
        return lift(lambda p, *q: IT(mk('app', name, p, *q)), r, *aa)
    return f


for n in ('lines', 'chars', 'bytes', 'char_indices', 'split_whitespace', 'split_ascii_whitespace', 'keys', 'values', 'values_mut', 'ancestors', 'components',
          'split_terminator', 'splitn', 'rsplitn', 'split', 'split_inclusive', 'windows', 'chunks', 'children', 'descendants',
          'into_keys', 'into_values', 'args', 'captures_iter', 'find_iter', 'children_with_tokens', 'descendants_tokens', 'pieces'):
    setattr(Ev, 'm_' + n, itbase({'into_keys': 'keys', 'into_values': 'values', 'values_mut': 'values'}.get(n, n)))


def itadapt(name):
    def f(s, r, a, st, fr, x):
        def g(i, *q):
            if name == 'rev' and i.a[0].op == 'app' and i.a[0].a[0] == 'rev' and len(i.a) == 1:
                return i.a[0].a[1]
            if name == 'skip' and q and q[0] is N(0):
                return i
            return IT(mk('app', name, i, *q))
        aa = [fnterm(s, q, st, fr) if q.op in ('clos', 'fnref', 'cls') else q for q in a]
        return lift(g, s.as_iter(r), *aa)
    return f


for n in ('rev', 'enumerate', 'skip', 'take_while', 'skip_while', 'step_by', 'peekable', 'map_while', 'cycle'):
    setattr(Ev, 'm_' + n, itadapt(n))


@meth('take')
def _(s, r, a, st, fr, x):
    if not a:
        # Option::take on a place
        if x['pl'] is not None:
            t = s.typeof(r)
            s.wr_place(st, x['pl'], NONE)
        return r
    return itadapt('take')(s, r, a, st, fr, x)


@meth('union', 'intersection', 'difference')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if not (isinstance(t, tuple) and t[0] == 'set') or len(a) != 1:
        raise Unknown(x['node']['m'] if x['node'] else 'set operation')
    p, m = s.as_iter(r), x['node']['m']
    if m == 'union':
        return lift(lambda i, j: IT(mk('app', 'chain', i, j)), p, s.as_iter(a[0]))
    return it_map(p, lambda e: ite(mem(a[0], e), *((Some(e), NONE) if m == 'intersection' else (NONE, Some(e)))))


@meth('chain')
def _(s, r, a, st, fr, x):
    if not a:       # std::error::Error::chain
        return IT(app('chain', r))

    def g(p, q):
        if p.a[0].op == 'list' and q.a[0].op == 'list' and len(p.a) == len(q.a) == 1:
            return IT(mk('list', *(p.a[0].a + q.a[0].a)))
        return IT(mk('app', 'chain', p, q))
    return lift(g, s.as_iter(r), s.as_iter(a[0]))


@meth('next')
def _(s, r, a, st, fr, x):
    it = s.as_iter(r)
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], lift(lambda i: IT(app('tail', i)), it))
    return first_opt(it)


@meth('first')
def _(s, r, a, st, fr, x):
    return first_opt(s.as_iter(r))


@meth('split_first')
def _(s, r, a, st, fr, x):
    it = s.as_iter(r)
    return lift(lambda i: ite(is_empty(i), NONE, Some(tup(app('first', i), slice_(r, N(1), None)))), it)


def last_opt(i):
    if is_split(i):
        return Some(app('last', i))         # never empty
    return ite(is_empty(i), NONE, Some(app('last', i)))


def is_split(i):
    return i.op == 'it' and len(i.a) == 1 and i.a[0].op == 'app' and i.a[0].a[0] == 'split' and len(i.a[0].a) == 3 and i.a[0].a[2].op in ('str', 'char')


@meth('last')
def _(s, r, a, st, fr, x):
    return lift(last_opt, s.as_iter(r))


@meth('next_back')
def _(s, r, a, st, fr, x):
    it = s.as_iter(r)
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], lift(lambda i: IT(app('init', i)), it))
    return lift(last_opt, it)


@meth('rsplit')
def _(s, r, a, st, fr, x):
    return lift(lambda p, q: IT(mk('app', 'rev', IT(mk('app', 'split', p, S(q.a[0]) if q.op == 'char' else q)))) if q.op in ('str', 'char') else IT(mk('app', 'rsplit', p, fnterm(s, q, st, fr) if q.op in ('clos', 'fnref') else q)), r, a[0])


@meth('nth')
def _(s, r, a, st, fr, x):
    return app('nth', s.as_iter(r), a[0])


@meth('get')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if a and a[0].op == 'app' and a[0].a[0] == 'range':
        return app('getrange', r, a[0])
    if isinstance(t, tuple) and t[0] == 'vec' or (a and s.typeof(a[0]) == 'int' and not (isinstance(t, tuple) and t[0] == 'map')):
        if isinstance(t, tuple) and t[0] == 'vec' or r.op == 'list':
            return ite(ge0(sub(sub(slen(r), a[0]), N(1))), Some(s.index(r, a[0])), NONE)
    return app('mget', r, *a) if len(a) == 1 else app('get0', r)


@meth('get_mut')
def _(s, r, a, st, fr, x):
    return app('mget', r, *a)


@meth('contains_key')
def _(s, r, a, st, fr, x):
    return is_(app('mget', r, *a), 'Some')


@meth('insert')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if x['pl'] is None:
        return app('insert', r, *a)
    if len(a) == 1 and (isinstance(t, tuple) and t[0] == 'option'):
        s.wr_place(st, x['pl'], Some(a[0]))
        return a[0]
    if len(a) == 1:
        s.wr_place(st, x['pl'], push(r, a[0]))
        return NOT(mem(r, a[0]))
    if isinstance(t, tuple) and t[0] == 'map' or t is None:
        s.wr_place(st, x['pl'], app('insert', r, *a))
        return app('mget', r, a[0])
    if t == 'str':
        # String::insert(idx, ch)
        s.wr_place(st, x['pl'], cat(slice_(r, N(0), a[0]), a[1], slice_(r, a[0], None)))
        return UNIT
    s.wr_place(st, x['pl'], app('insertat', r, *a))
    return UNIT


@meth('insert_str')
def _(s, r, a, st, fr, x):
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], cat(slice_(r, N(0), a[0]), a[1], slice_(r, a[0], None)))
    return UNIT


@meth('replace_range')
def _(s, r, a, st, fr, x):
    def g(rng):
        if rng.op == 'app' and rng.a[0] == 'range':
            lo = N(0) if rng.a[1] is UNIT else rng.a[1]
            hi = slen(r) if rng.a[2] is UNIT else rng.a[2]
            return cat(slice_(r, N(0), lo), a[1], slice_(r, hi, None))
        return app('replace_range', r, rng, a[1])
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], lift(g, a[0]))
    return UNIT


def dflt_list(r):
    """the default value of an entry that is pushed to is an empty list"""
    return lift(lambda z: mk('list') if z.op == 'app' and z.a[0] == 'default' and len(z.a) == 1 else z, r) if r.op in ('ite', 'app') else r


@meth('push', 'push_back')
def _(s, r, a, st, fr, x):
    r = dflt_list(r)
    v = cat(r, a[0]) if s.typeof(r) == 'str' or r.op in ('str', 'cat') else push(r, a[0])
    if x['pl'] is None:
        raise Unknown('push on temporary')
    s.wr_place(st, x['pl'], v)
    return UNIT


@meth('push_str')
def _(s, r, a, st, fr, x):
    if x['pl'] is None:
        raise Unknown('push_str on temporary')
    s.wr_place(st, x['pl'], cat(r, a[0]))
    return UNIT


@meth('extend', 'extend_from_slice', 'append')
def _(s, r, a, st, fr, x):
    if x['pl'] is None:
        raise Unknown('extend on temporary')
    v = s.as_iter(a[0])
    nd = x.get('node')
    if nd and nd.get('m') == 'append' and x.get('places') and x['places'][0] is not None:
        s.wr_place(st, x['places'][0], s.empty(s.typeof(a[0])) if s.typeof(a[0]) is not None else mk('list'))
    r = dflt_list(r)
    t = s.typeof(r)
    if isinstance(t, tuple) and t[0] == 'set' and all(q.op in ('var', 'field', 'get', 'collect') for q in leaves(r)):
        # the union of two sets
        w = lift(lambda i, j: collect('set', IT(mk('app', 'chain', i, j))), s.as_iter(r), v)
        if w.op == 'collect':
            w.ty = t
        s.wr_place(st, x['pl'], w)
        return UNIT
    s.wr_place(st, x['pl'], cat(r, collect('str', v)) if s.typeof(r) == 'str' else extend(r, v))
    return UNIT


@meth('clear')
def _(s, r, a, st, fr, x):
    if x['pl'] is not None:
        t = s.typeof(r)
        s.wr_place(st, x['pl'], s.empty(t) if t is not None else app('mut:clear', r))
    return UNIT


@meth('pop')
def _(s, r, a, st, fr, x):
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], app('init', r))
    return ite(is_empty(r), NONE, Some(lift(lambda p: app('last', IT(p)), r)))


@meth('remove')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if x['pl'] is not None and isinstance(t, tuple) and t[0] == 'map':
        # removing an absent key changes nothing
        s.wr_place(st, x['pl'], ite(is_(app('mget', r, *a), 'Some'), app('remove', r, *a), r))
        return app('mget', r, *a)
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], app('remove', r, *a))
    t = s.typeof(r)
    if isinstance(t, tuple) and t[0] == 'set':
        return mem(r, a[0])
    if isinstance(t, tuple) and t[0] == 'vec':
        return s.index(r, a[0])
    return app('mget', r, *a)


@meth('parse')
def _(s, r, a, st, fr, x):
    t = conv_type(x['tf'][0], fr.self_ty, s.idx.aliases) if x['tf'] else x['hint'][1] if isinstance(x['hint'], tuple) and x['hint'][0] == 'result' else None
    if isinstance(t, tuple) and t[0] == 'adt':
        # the conversion the type itself defines
        fs = [f for f in s.idx.methods.get('from_str', []) + [g for g in s.idx.fns if g.name == 'from_str'] if f.owner == t[1] and f.trait == 'FromStr']
        if fs and s.can_inline(fs[0], fs[0].qual):
            return s.inline(fs[0], None, [r], st, fr, x['line'], None)
    return app('parse', r)


@meth('retain')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)
    t = s.typeof(r)
    k = {'set': 'set', 'map': 'map'}.get(t[0] if isinstance(t, tuple) else '', 'seq')
    if x['pl'] is None:
        raise Unknown('retain')
    try:
        it = it_map(s.as_iter(r), lambda e: ite(s.b(f(e)), Some(e), NONE))
    except Unknown as u:
        if 'closure with side effects' not in str(u) or k != 'seq':
            raise
        # one pass in order, accumulating, with the captured state threaded through
        acc = s.newslot()
        st.env[acc] = mk('list')

        def body(v, q, nf):
            w = s.callf(a[0], [v], q, nf)
            q.env[acc] = ite(s.b(w), push(q.env[acc], v), q.env[acc])
        body.slot = None
        run_for_any(s, s.as_iter(r), body, st, fr, None)
        s.wr_place(st, x['pl'], st.env.pop(acc))
        return UNIT
    s.wr_place(st, x['pl'], collect(k, it))
    return UNIT


def sorter(name):
    def f(s, r, a, st, fr, x):
        if x['pl'] is None:
            raise Unknown('sort')
        n = {'sort_unstable': 'sort', 'sort_unstable_by': 'sort_by', 'sort_unstable_by_key': 'sort_by_key', 'sort_by_cached_key': 'sort_by_key'}.get(name, name)
        if n == 'sort_by':
            va, vb = fresh('a', elem_type(r)), fresh('b', elem_type(r))
            body = s.fn_lam(a[0], st, fr)(va, vb)
            b = sort_key(body, va, vb)
            s.wr_place(st, x['pl'], app('sort_by', r, b if b is not None else lam([va, vb], body)))
        elif n == 'sort_by_key':
            va = fresh('a', elem_type(r))
            body = s.fn_lam(a[0], st, fr)(va)
            desc = FALSE
            if body.op == 'ctor' and body.a[0] in ('Reverse', 'cmp::Reverse'):
                desc, body = TRUE, body.a[1]
            s.wr_place(st, x['pl'], app('sort_by', r, mk('key', lam([va], body), desc)))
        elif n == 'dedup':
            s.wr_place(st, x['pl'], app('dedup', r))
        elif n == 'reverse':
            s.wr_place(st, x['pl'], app('reverse', r))
        elif n == 'truncate':
            if s.typeof(r) == 'str':
                s.wr_place(st, x['pl'], ite(ge0(sub(slen(r), a[0])), slice_(r, N(0), a[0]), r))
            else:
                s.wr_place(st, x['pl'], app('truncate', r, *a))
        else:
            s.wr_place(st, x['pl'], app(n, r, *[fnterm(s, q, st, fr) if q.op == 'clos' else q for q in a]))
        return UNIT
    return f


def sort_key(body, va, vb):
    """cmp(key(a), key(b)) -> key ascending / descending"""
    if body.op == 'app' and body.a[0] in ('cmp',) and len(body.a) == 3:
        p, q = body.a[1], body.a[2]
        if vb.a[0] not in p.fvs and va.a[0] not in q.fvs and subst(p, {va: vb}) is q:
            return mk('key', lam([va], p), FALSE)
        if va.a[0] not in p.fvs and vb.a[0] not in q.fvs and subst(p, {vb: va}) is q:
            return mk('key', lam([vb], p), TRUE)
    if body.op == 'app' and body.a[0] == 'reverse' and len(body.a) == 2:
        k = sort_key(body.a[1], va, vb)
        if k is not None:
            return mk('key', k.a[0], NOT(k.a[1]))
    return None


for n in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'dedup', 'truncate', 'sort_by_cached_key'):
    setattr(Ev, 'm_' + n, sorter(n))


@meth('reverse')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if isinstance(t, tuple) and t[0] == 'vec' and x['pl'] is not None:
        s.wr_place(st, x['pl'], app('reverse', r))
        return UNIT
    return app('reverse', r)


@meth('len')
def _(s, r, a, st, fr, x):
    if r.op == 'it':
        return Ev.m_count(s, r, a, st, fr, x)
    return slen(r)


@meth('is_empty')
def _(s, r, a, st, fr, x):
    if s.typeof(r) not in (None, 'str') and isinstance(s.typeof(r), tuple) and s.typeof(r)[0] == 'adt':
        return lift(lambda p: atom(mk('app', 'is_empty', p)), r)
    return is_empty(r)


@meth('eq_ignore_ascii_case')
def _(s, r, a, st, fr, x):
    def g(v, q):
        for p, w in ((q, v), (v, q)):
            if p.op == 'str' and len(p.a[0]) <= 6:
                al = ['']
                for ch in p.a[0]:
                    al = [y + c for y in al for c in sorted({ch.lower(), ch.upper()} if ch.isascii() else {ch})]
                return OR(*[eq(w, S(y)) for y in al])
        return atom(app('eq_ignore_ascii_case', v, q))
    return lift(g, r, a[0])


@meth('starts_with')
def _(s, r, a, st, fr, x):
    q = a[0]
    if q.op == 'clos' or q.op == 'fnref':
        q = fnterm(s, q, st, fr)
        b = q.a[1] if q.op == 'lam' else None
        if b is not None and b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE and b.a[0].op == 'pred' and b.a[0].a[1].op == 'bv':
            q = mk('cls', b.a[0].a[0])
    if q.op == 'list' and all(e.op == 'char' for e in q.a):
        return OR(*[starts_with(r, e) for e in q.a])
    return starts_with(r, q)


@meth('ends_with')
def _(s, r, a, st, fr, x):
    return ends_with(r, fnterm(s, a[0], st, fr) if a[0].op == 'clos' else a[0])


@meth('contains')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if isinstance(t, tuple) and t[0] in ('vec', 'set', 'iter') or r.op in ('list', 'collect', 'push'):
        return mem(r, a[0])
    if r.op == 'app' and r.a[0] == 'range':
        lo, hi = r.a[1], r.a[2]
        return AND(ge0(sub(a[0], lo)) if lo is not UNIT else TRUE, ge0(sub(sub(hi, a[0]), N(1))) if hi is not UNIT else TRUE)
    if a[0].op == 'clos':
        return lift(lambda p: atom(mk('exists', mk('app', 'chars', p), fnterm(s, a[0], st, fr))), r)
    if t == 'str' or a[0].op in ('str', 'char'):
        return contains(r, a[0])
    if t is None:
        return lift(lambda p, q: atom(mk('mem', p, q)), r, a[0])
    return lift(lambda p, q: atom(mk('app', 'contains', p, q)), r, a[0])


@meth('strip_prefix')
def _(s, r, a, st, fr, x):
    if s.typeof(r) == ('adt', 'Path'):
        return lift(lambda p, q: mk('app', 'path_strip_prefix', p, q), r, a[0])
    q = a[0]
    n = S(q.a[0]) if q.op in ('str', 'char') else q
    if q.op not in ('str', 'char'):
        if s.typeof(q) == 'str':
            return ite(starts_with(r, q), Some(slice_(r, slen(q), None)), NONE)
        return app('strip_prefix', r, fnterm(s, q, st, fr))
    return ite(starts_with(r, q), Some(slice_(r, slen(n), None)), NONE)


@meth('strip_suffix')
def _(s, r, a, st, fr, x):
    q = a[0]
    if q.op in ('str', 'char') or s.typeof(q) == 'str':
        n = S(q.a[0]) if q.op in ('str', 'char') else q
        return ite(ends_with(r, n), Some(slice_(r, N(0), sub(slen(r), slen(n)))), NONE)
    return app('strip_suffix', r, fnterm(s, q, st, fr))


@meth('split_once')
def _(s, r, a, st, fr, x):
    q = S(a[0].a[0]) if a[0].op in ('char', 'str') else a[0]
    if a[0].op not in ('char', 'str'):
        return app('split_once', r, fnterm(s, a[0], st, fr))

    def g(p):
        pos = pos_of(p, q)
        return ite(contains(p, q), Some(tup(slice_(p, N(0), pos), slice_(p, add(pos, slen(q)), None))), NONE)
    return lift(g, r)


@meth('rsplit_once')
def _(s, r, a, st, fr, x):
    q = S(a[0].a[0]) if a[0].op in ('char', 'str') else a[0]

    def g(p):
        pos = mk('rpos', p, q)
        return ite(contains(p, q), Some(tup(slice_(p, N(0), pos), slice_(p, add(pos, slen(q)), None))), NONE)
    return lift(g, r)


@meth('split_at')
def _(s, r, a, st, fr, x):
    return tup(slice_(r, N(0), a[0]), slice_(r, a[0], None))


@meth('trim')
def _(s, r, a, st, fr, x):
    def g(p):
        if p.op == 'str':
            return S(p.a[0].strip())
        if p.op == 'app' and p.a[0] == 'trim':
            return p
        if p.op == 'app' and p.a[0] in ('trim_start', 'trim_end'):
            return mk('app', 'trim', p.a[1])
        return mk('app', 'trim', p)
    return lift(g, r)


@meth('trim_start', 'trim_left')
def _(s, r, a, st, fr, x):
    def g(p):
        if p.op == 'str':
            return S(p.a[0].lstrip())
        if p.op == 'app' and p.a[0] in ('trim', 'trim_start'):
            return p
        if p.op == 'app' and p.a[0] == 'trim_end':
            return mk('app', 'trim', p.a[1])
        return mk('app', 'trim_start', p)
    return lift(g, r)


@meth('trim_end', 'trim_right')
def _(s, r, a, st, fr, x):
    def g(p):
        if p.op == 'str':
            return S(p.a[0].rstrip())
        if p.op == 'app' and p.a[0] in ('trim', 'trim_end'):
            return p
        if p.op == 'app' and p.a[0] == 'trim_start':
            return mk('app', 'trim', p.a[1])
        return mk('app', 'trim_end', p)
    return lift(g, r)


def strfn(name):
    def f(s, r, a, st, fr, x):
        aa = []
        for q in a:
            if q.op == 'clos':
                q = fnterm(s, q, st, fr)
                b = q.a[1]
                if b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE and b.a[0].op == 'pred' and len(b.a[0].a) == 2 and b.a[0].a[1].op == 'bv':
                    q = mk('cls', b.a[0].a[0])
                elif b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE and b.a[0].op == 'eq' and b.a[0].a[0].op == 'bv' and b.a[0].a[1].op == 'char':
                    q = S(b.a[0].a[1].a[0])
            elif q.op == 'char':
                q = S(q.a[0])
            elif q.op == 'fnref' and q.a[0].split('::')[-1].startswith('is_'):
                q = mk('cls', q.a[0].split('::')[-1])
            aa.append(q)
        return app(name, r, *aa)
    return f


for n in ('trim_matches', 'trim_start_matches', 'trim_end_matches', 'replacen', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'repeat'):
    setattr(Ev, 'm_' + n, strfn(n))


@meth('replace')
def _(s, r, a, st, fr, x):
    if len(a) == 2:
        return strfn('replace')(s, r, a, st, fr, x)
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], Some(a[0]))
    return r


@meth('eq')
def _(s, r, a, st, fr, x):
    return eq(r, a[0])


@meth('ne')
def _(s, r, a, st, fr, x):
    return NOT(eq(r, a[0]))



@meth('saturating_sub')
def _(s, r, a, st, fr, x):
    return ite(ge0(sub(r, a[0])), sub(r, a[0]), N(0))


@meth('saturating_add', 'wrapping_add')
def _(s, r, a, st, fr, x):
    return add(r, a[0])


@meth('checked_sub')
def _(s, r, a, st, fr, x):
    return ite(ge0(sub(r, a[0])), Some(sub(r, a[0])), NONE)


@meth('checked_add')
def _(s, r, a, st, fr, x):
    return Some(add(r, a[0]))


@meth('min')
def _(s, r, a, st, fr, x):
    if not a:
        return lift(lambda i: ite(is_empty(i), NONE, Some(app('min', i))), s.as_iter(r))
    return s.minmax('min', r, a[0])


@meth('max')
def _(s, r, a, st, fr, x):
    if not a:
        return lift(lambda i: ite(is_empty(i), NONE, Some(app('max', i))), s.as_iter(r))
    return s.minmax('max', r, a[0])


@meth('abs_diff')
def _(s, r, a, st, fr, x):
    return ite(ge0(sub(r, a[0])), sub(r, a[0]), sub(a[0], r))


@meth('then')
def _(s, r, a, st, fr, x):
    if a[0].op not in ('clos', 'fnref', 'lam') and any(l.op == 'app' and l.a[0] in ('cmp', 'partial_cmp') or l.op == 'ctor' and l.a[0].startswith('Ordering::') for l in leaves(r)):
        return ite(is_(r, 'Ordering::Equal'), a[0], r)
    c = s.b(r)
    v = guarded(s, c, st, fr, lambda q: s.callf(a[0], [], q, fr))
    return ite(c, Some(v) if v is not BOT else BOT, NONE)


@meth('then_with')
def _(s, r, a, st, fr, x):
    c = is_(r, 'Ordering::Equal')
    v = guarded(s, c, st, fr, lambda q: s.callf(a[0], [], q, fr))
    return ite(c, v, r)


@meth('then_some')
def _(s, r, a, st, fr, x):
    return ite(s.b(r), Some(a[0]), NONE)


@meth('cmp')
def _(s, r, a, st, fr, x):
    if r.op == 'tuple' and a[0].op == 'tuple' and len(r.a) == len(a[0].a) > 0:
        v = None
        for p, q in reversed(list(zip(r.a, a[0].a))):
            c = app('cmp', p, q)
            v = c if v is None else ite(is_(c, 'Ordering::Equal'), v, c)
        return v
    return app('cmp', r, a[0])


@meth('is_lt')
def _(s, r, a, st, fr, x):
    return is_(r, 'Ordering::Less')


@meth('join')
def _(s, r, a, st, fr, x):
    t = s.typeof(r)
    if t == ('adt', 'Path') or not a:
        return app('join', r, *a)
    def known(l, sep):
        if l.op != 'list' or sep.op != 'str' or any(x.op == 'spread' for x in l.a):
            return app('join', l if l.op != 'it' else collect('seq', l), sep)
        parts = []
        for x in l.a:
            parts += [sep, x] if parts else [x]
        return cat(*parts)
    return lift(known, r, *a)


@meth('concat')
def _(s, r, a, st, fr, x):
    if r.op == 'list' and r.a and s.typeof(r.a[0]) == 'str':
        return Ev.m_join(s, r, [S('')], st, fr, x)
    return app('concat', r, *a)


@meth('fold')
def _(s, r, a, st, fr, x):
    if len(a) != 2:
        return app('fold', r, *a)
    it = s.as_iter(r)
    if it.op != 'it':
        raise Unknown('gated fold')
    # run as a loop over one accumulator
    acc = s.newslot()
    st.env[acc] = a[0]

    def body(v, q, nf):
        q.env[acc] = s.callf(a[1], [q.env[acc], v], q, nf)
    run_for(s, it, body, st, fr, None)
    r = st.env[acc]
    return r


@meth('for_each')
def _(s, r, a, st, fr, x):
    it = s.as_iter(r)

    def body(v, q, nf):
        s.callf(a[0], [v], q, nf)
    run_for_any(s, it, body, st, fr, None)
    return UNIT


@meth('partition')
def _(s, r, a, st, fr, x):
    f = s.fn_lam(a[0], st, fr)
    it = s.as_iter(r)
    return tup(collect('seq', it_map(it, lambda e: ite(s.b(f(e)), Some(e), NONE))),
               collect('seq', it_map(it, lambda e: ite(s.b(f(e)), NONE, Some(e)))))


@meth('max_by_key', 'min_by_key', 'max_by', 'min_by')
def _(s, r, a, st, fr, x):
    n = x['node']['m']
    return app(n, s.as_iter(r), fnterm(s, a[0], st, fr, 2 if n in ('max_by', 'min_by') else 1))


@meth('entry')
def _(s, r, a, st, fr, x):
    raise Unknown('entry api')


@meth('or_insert', 'or_insert_with', 'or_default', 'and_modify')
def _(s, r, a, st, fr, x):
    raise Unknown('entry api')


@meth('to_str')
def _(s, r, a, st, fr, x):
    return app('to_str', r)


@meth('binary_search')
def _(s, r, a, st, fr, x):
    return app('binary_search', r, a[0])


@meth('partition_point')
def _(s, r, a, st, fr, x):
    return app('partition_point', r, fnterm(s, a[0], st, fr))


@meth('swap')
def _(s, r, a, st, fr, x):
    if len(a) == 2 and s.typeof(a[0]) == 'bool':      # AtomicBool::swap
        if x['pl'] is not None:
            s.wr_place(st, x['pl'], a[0])
        return s.b(app('atomic', r))
    raise Unknown('swap')


@meth('fetch_add')
def _(s, r, a, st, fr, x):
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], add(app('atomic', r), a[0]))
    return app('atomic', r)


@meth('load')
def _(s, r, a, st, fr, x):
    return app('atomic', r)


@meth('store')
def _(s, r, a, st, fr, x):
    if x['pl'] is not None:
        s.wr_place(st, x['pl'], a[0])
    return UNIT


@meth('lock')
def _(s, r, a, st, fr, x):
    return ctor('Ok', r)


@meth('write_str')
def _(s, r, a, st, fr, x):
    return app('write', r, a[0])


# ---------------------------------------------------------------- macros
def fmt_parts(s, lit, args, st, fr):
    """format string -> list of terms"""
    named = {}
    pos = []
    for a in args:
        if isinstance(a, tuple):
            named[a[0]] = a[1]
        else:
            pos.append(a)
    out = []
    i = 0
    nxt = 0
    buf = ''
    while i < len(lit):
        c = lit[i]
        if c == '{':
            if lit[i:i + 2] == '{{':
                buf += '{'
                i += 2
                continue
            j = lit.index('}', i)
            inner = lit[i + 1:j]
            i = j + 1
            name, _, spec = inner.partition(':')
            name = name.strip()
            if name == '':
                v = pos[nxt] if nxt < len(pos) else None
                nxt += 1
            elif name.isdigit():
                v = pos[int(name)]
            elif name in named:
                v = named[name]
            elif name in st.scope:
                v = s.rd_slot(st, st.scope[name])
            elif name in s.idx.consts:
                v = s.const(name, fr)
            else:
                v = mk('var', '?' + name)
            if v is None:
                raise Unknown('format arg')
            if buf:
                out.append(S(buf))
                buf = ''
            if spec == '':
                out.append(v)
            elif spec in ('?', '#?'):
                out.append(app('dbg', v))
            else:
                out.append(app('fmtspec', S(spec), v))
            continue
        if c == '}':
            buf += '}'
            i += 2 if lit[i:i + 2] == '}}' else 1
            continue
        buf += c
        i += 1
    if buf:
        out.append(S(buf))
    return out


def fmt(s, args, st, fr):
    """args: AST exprs, first is the literal"""
    if not args:
        return S('')
    f = args[0]
    vals = []
    for a in args[1:]:
        if a['k'] == 'assign' and a['a']['k'] == 'path':
            vals.append((a['a']['p'][0]['n'], s.ev(a['b'], st, fr)))
        else:
            vals.append(s.ev(a, st, fr))
    if f['k'] == 'lit' and f['v']['t'] == 'str':
        return cat(*fmt_parts(s, f['v']['v'], vals, st, fr))
    return app('fmt', s.ev(f, st, fr))


def e_macro(self, e, st, fr, hint=None):
    n = e['n']
    args = e['args']
    if n in LOGM:
        return UNIT
    if args is None and n not in ('unreachable', 'panic', 'todo', 'unimplemented'):
        raise Unknown('macro %s!' % n)
    args = args or []
    if n == 'format':
        return fmt(self, args, st, fr)
    if n == 'vec':
        xs = [self.ev(x, st, fr) for x in args]
        return lift(lambda *a: mk('list', *a), *xs) if xs else mk('list')
    if n in ('println', 'print', 'eprintln', 'eprint'):
        v = fmt(self, args, st, fr)
        self.site(n, None, [v], st, fr, e['l'])
        return UNIT
    if n in ('write', 'writeln'):
        v = fmt(self, args[1:], st, fr)
        if n == 'writeln':
            v = cat(v, S('\n'))
        pl = self.place(args[0], st, fr)
        w = self.ev(args[0], st, fr)
        self.site(n, w, [v], st, fr, e['l'])
        if self.typeof(w) == 'str' and pl is not None:
            self.wr_place(st, pl, cat(w, v))
            return ctor('Ok', UNIT)
        return app('write', w, v)
    if n == 'anyhow':
        if args:
            try:
                v = fmt(self, args, st, fr)
                self.site('anyhow', None, [v], st, fr, e['l'])
            except Unknown:
                pass
        return app('anyerr')
    if n == 'bail':
        self.ret(st.pc, ctor('Err', app('anyerr')), st, fr)
        self.site('anyhow', None, [], st, fr, e['l'])
        st.pc = FALSE
        return BOT
    if n == 'ensure':
        c = self.b(self.ev(args[0], st, fr))
        bad = AND(st.pc, NOT(c))
        if bad is not FALSE:
            self.ret(bad, ctor('Err', app('anyerr')), st, fr)
        st.pc = AND(st.pc, c)
        return UNIT
    if n in ('panic', 'unreachable', 'todo', 'unimplemented'):
        self.panic_if(TRUE, st, fr, e['l'], n)
        st.pc = FALSE
        return BOT
    if n in ('assert',):
        c = self.b(self.ev(args[0], st, fr))
        self.panic_if(NOT(c), st, fr, e['l'], n)
        return UNIT
    if n in ('assert_eq', 'assert_ne'):
        c = eq(self.ev(args[0], st, fr), self.ev(args[1], st, fr))
        self.panic_if(NOT(c) if n == 'assert_eq' else c, st, fr, e['l'], n)
        return UNIT
    if n == 'concat':
        return cat(*[self.ev(x, st, fr) for x in args])
    if n in ('env', 'include_str', 'option_env', 'stringify', 'json', 'line', 'file'):
        return app('macro:' + n, *[self.ev(x, st, fr) for x in args])
    if n == 'unwrap_or_return_none':
        v = self.ev(args[0], st, fr)
        if v is BOT:
            return BOT
        c = self.b(is_(v, 'Some'))
        bad = AND(st.pc, NOT(c))
        if bad is not FALSE:
            self.ret(bad, ctor('Ok', NONE), st, fr)
        st.pc = AND(st.pc, c)
        return get(v, 'Some', 0)
    raise Unknown('macro %s!' % n)


Ev.e_macro = e_macro


# ---------------------------------------------------------------- loops
def e_for(self, e, st, fr):
    mutbase = None
    ex = e['e']
    if ex['k'] == 'mcall' and ex['m'] in ('iter_mut', 'values_mut') or ex['k'] == 'ref' and ex['mut']:
        mutbase = self.place(ex['r'] if ex['k'] == 'mcall' else ex, st, fr)
        if mutbase is None:
            raise Unknown('for over iter_mut')
    it = self.ev(ex, st, fr)
    if st.pc is FALSE:
        return BOT
    if it.op != 'ite' and it.op == 'app' and it.a[0] == 'range':
        it = IT(it)
    it = self.as_iter(it)

    def body(v, q, nf):
        if mutbase is not None:
            s = self.newslot()
            q.env[s] = v
            body.slot = s
            if e['p']['k'] != 'ident':
                c, b = self.pat(e['p'], v, q, nf, (s, ()))
                self.apply_binds(q, b)
            else:
                q.scope[e['p']['n']] = s
        else:
            c, b = self.pat(e['p'], v, q, nf)
            self.apply_binds(q, b)
        self.block(e['b'], q, nf)
    body.slot = None
    if it.op == 'it' and it.a[0].op == 'app' and it.a[0].a[0] == 'flat' and it.a[0].a[1].op == 'it' and mutbase is None and not exits(e['b']):
        # one loop over the concatenation is a loop within a loop
        def outer(v, q, nf):
            def inner(w, q2, nf2):
                body(w, q2, nf2)
            inner.slot = None
            i = self.as_iter(v)
            if len(it.a) > 1:
                i = it_map(i, lambda y: beta(it.a[1], y))
            run_for_any(self, i, inner, q, nf, None)
        outer.slot = None
        run_for_any(self, it.a[0].a[1], outer, st, fr, None)
        return UNIT if st.pc is not FALSE else BOT
    if it.op == 'it' and it.a[0].op == 'app' and it.a[0].a[0] == 'chain' and len(it.a[0].a) == 3 and all(i.op == 'it' for i in it.a[0].a[1:]) \
            and mutbase is None and not exits(e['b']):
        # one part after the other
        for i in it.a[0].a[1:]:
            if len(it.a) > 1:
                i = it_map(i, lambda y: beta(it.a[1], y))
            run_for_any(self, i, body, st, fr, None)
            if st.pc is FALSE:
                return BOT
        return UNIT
    run_for_any(self, it, body, st, fr, e['label'], mutbase)
    return UNIT if st.pc is not FALSE else BOT


def exits(b):
    """does a loop body contain a break (or a continue of an outer loop)?"""
    from .src import walk
    return any(x.get('k') == 'break' or x.get('k') == 'continue' and x.get('label') for x in walk(b))


Ev.e_for = e_for


def run_for_any(self, it, body, st, fr, label, mutbase=None):
    if it.op == 'ite':
        c = atom(it.a[0])
        a, b = st.fork(), st.fork()
        a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        if a.pc is not FALSE:
            run_for_any(self, it.a[1], body, a, fr, label, mutbase)
        if b.pc is not FALSE:
            run_for_any(self, it.a[2], body, b, fr, label, mutbase)
        self.merge(st, c, a, b)
        return
    if it is BOT:
        st.pc = FALSE
        return
    run_for(self, it, body, st, fr, label, mutbase)


def fix_body(self, st, fr, outer, label, runner, elem):
    """evaluate a loop body with its carried slots abstracted; returns (slots, statevars, frame, loop, end state)"""
    carried = []
    nsites = len(self.sites)
    for rnd in range(8):
        del self.sites[nsites:]
        sv = {}
        for s in carried:
            f = fresh('s')
            init = st.env[s]
            f.ty = self.typeof(init) if not isinstance(init, Alias) else None
            sv[s] = f
        q = st.fork()
        q.pc = TRUE
        for s, f in sv.items():
            q.env[s] = f
        nf = Frame(fr.fn, fr.self_ty, outer, fr.ret_ty)
        nf.generics = fr.generics
        nf.file = fr.file
        lp = Loop(label)
        nf.loops = [lp]
        runner(q, nf)
        ends = []
        if q.pc is not FALSE:
            ends.append((q.pc, q.env))
        ends += lp.conts
        changed = []
        allenvs = [x[1] for x in ends] + [x[1] for x in lp.breaks] + [x[2] for x in nf.rets if x[2] is not None]
        for s in st.env:
            if s in sv:
                continue
            for env in allenvs:
                if env.get(s) is not st.env[s]:
                    x, y = env.get(s), st.env[s]
                    if isinstance(x, Alias) and isinstance(y, Alias) and x.place == y.place:
                        continue
                    if isinstance(y, Alias):
                        raise Unknown('alias rebound in loop')
                    changed.append(s)
                    break
        if not changed:
            return carried, sv, nf, lp, ends
        carried = sorted(set(carried) | set(changed))
    raise Unknown('loop does not stabilise')


def merged(ends, s):
    val = None
    for pc, env in reversed(ends):
        val = env[s] if val is None else ite(pc, env[s], val)
    return val


def strip_ctor(v, cond):
    """if under cond every leaf of v is K(x): (K, payload)"""
    w = ite(cond, v, BOT)
    ls = [l for l in leaves(w) if l is not BOT]
    if ls and all(l.op == 'ctor' and len(l.a) == 2 and l.a[0] == ls[0].a[0] for l in ls):
        return ls[0].a[0], get(w, ls[0].a[0], 0)
    return None, None


def first_val(base, v, cond, val):
    """value of `val` at the first element where cond holds"""
    w = ite(cond, val, BOT)
    ls = [l for l in leaves(w) if l is not BOT]
    if all(v.a[0] not in l.fvs for l in ls) and len(ls) == 1:
        return ls[0]
    k, p = strip_ctor(val, cond)
    if k:
        return ctor(k, first_val(base, v, cond, p))
    it = IT(base, lam([v], ite(cond, Some(val), NONE)))
    return app('first', it)


def constant(x):
    return x.op in ('str', 'int', 'char', 'bool') or x.op in ('tuple', 'ctor') and all(constant(y) for y in x.a if isinstance(y, T))


def run_literal(self, elems, body, st, fr, label):
    """a loop over a literal list is its body once per element, in order"""
    def absorb(exits):
        for ex in reversed(exits):
            pc, env = ex[0], ex[1]
            new = {}
            for s, y in st.env.items():
                x = env.get(s)
                new[s] = x if st.pc is FALSE and x is not None else y if x is y or x is None or isinstance(x, Alias) or isinstance(y, Alias) else ite(pc, x, y)
            st.env = new
            st.pc = OR(st.pc, pc)
    lp = Loop(label)
    fr.loops.append(lp)
    saved = dict(st.scope)
    try:
        for e in elems:
            if st.pc is FALSE:
                break
            lp.conts = []
            body(e, st, fr)
            st.scope = dict(saved)
            absorb(lp.conts)
    finally:
        fr.loops.pop()
    absorb(lp.breaks)


def run_for(self, it, body, st, fr, label, mutbase=None):
    base = it.a[0]
    l = it.a[1] if len(it.a) > 1 else None
    if base.op == 'app' and base.a[0] in ('keys', 'values') and len(base.a) == 2 and mutbase is None:
        # the keys of a map: one side of its entries
        q = fresh('e')
        w = field(q, '0' if base.a[0] == 'keys' else '1')
        w.ty = elem_type(base)
        l = lam([q], Some(w) if l is None else beta(l, w))
        base = base.a[1]
    if base.op == 'list' and 0 < len(base.a) <= 8 and mutbase is None and l is None and (len(base.a) <= 4 or all(constant(x) for x in base.a)):
        return run_literal(self, base.a, body, st, fr, label)
    v = fresh('e')
    v.ty = elem_type(base)
    # index-range idiom handled after the body is known
    cur = Some(v) if l is None else beta(l, v)
    c = self.b(is_(cur, 'Some'))
    x = get(cur, 'Some', 0)
    if base.op == 'app' and base.a[0] == 'range':
        v.ty = 'nat' if base.a[1].op == 'int' and base.a[1].a[0] >= 0 else 'int'
    if isinstance(x, T) and x.ty is None and x.op == 'fresh':
        x.ty = v.ty
    outer = AND(fr.outer, st.pc, c)

    def runner(q, nf):
        body(x, q, nf)
    carried, sv, nf, lp, ends = fix_body(self, st, fr, outer, label, runner, v)
    if mutbase is not None:
        # element-wise update of the container
        if nf.rets or lp.breaks or l is not None or lp.conts and False:
            raise Unknown('iter_mut with exits')
        val = None
        slot = body.slot
        for pc, env in reversed(ends):
            if slot not in env:
                raise Unknown('iter_mut')
            val = env[slot] if val is None else ite(pc, env[slot], val)
        old = self.rd_place(st, mutbase)
        self.wr_place(st, mutbase, collect('seq', IT(old, lam([v], Some(val)))))
    finish_loop(self, st, fr, nf, lp, ends, carried, sv, base, v, c, kind='for')


def index_to_elem(self, base, v, terms):
    """for i in 0..xs.len() { .. xs[i] .. }  ->  for e in xs"""
    if not (base.op == 'app' and base.a[0] == 'range' and base.a[1] is N(0)):
        return None
    hi = base.a[2]
    if hi.op != 'len':
        return None
    xs = hi.a[0]
    e = fresh('e')
    e.ty = elem_type(xs)
    m = {mk('app', 'index', xs, v): e}
    out = [subst(t, m) for t in terms]
    if any(v.a[0] in t.fvs for t in out):
        return None
    return xs, e, out


def split_fields(self, st, nf, lp, ends, carried, sv, c):
    """a record whose fields are assigned in the loop is carried field by field; returns (carried, sv, c, undo) or None"""
    def chain(l, x):
        names = set()
        while l.op == 'setf':
            names.add(l.a[1])
            l = l.a[0]
        return names if l is x else None
    envs = [q[1] for q in ends] + [b[1] for b in lp.breaks] + [r[2] for r in nf.rets if r[2] is not None]
    for s in carried:
        x = sv[s]
        init = st.env[s]
        if not isinstance(init, T) or any(not isinstance(env.get(s), T) for env in envs):
            continue
        names = set()
        ok = True
        for env in envs:
            for l in leaves(env[s]):
                if l is BOT:
                    continue
                n = chain(l, x)
                if n is None:
                    ok = False
                    break
                names |= n
            if not ok:
                break
        if not ok or not names:
            continue
        # the parts: the assigned fields are carried, the others keep their initial value
        slots = {n: self.newslot() for n in sorted(names)}
        parts = {n: fresh('s') for n in slots}
        for n in slots:
            st.env[slots[n]] = field(init, n)
            parts[n].ty = self.typeof(field(x, n))
        rest = [t for t in carried if t != s]

        def tr(t):
            if not isinstance(t, T) or x.a[0] not in t.fvs:
                return t
            return TM.rewrite(t, lambda u: (parts[u.a[1]] if u.a[1] in parts else field(init, u.a[1])) if u.op == 'field' and u.a[0] is x else None)

        def env_(env):
            if env is None:
                return None
            env = dict(env)
            for n in slots:
                w = tr(field(env[s], n))
                env[slots[n]] = w
            env[s] = init
            for t in rest:
                env[t] = tr(env[t])
            return env
        nends = [(tr(pc), env_(env)) for pc, env in ends]
        nb = [(tr(pc), env_(env), w) for pc, env, w in lp.breaks]
        nr = [(tr(pc), tr(val), env_(env)) for pc, val, env in nf.rets]
        nc = tr(c)
        every = [q[0] for q in nends + nb + nr] + [q[1] for q in nr] + [nc] + [q[1][t] for q in nends + nb for t in list(slots.values()) + rest] + \
            [q[2][t] for q in nr if q[2] is not None for t in list(slots.values()) + rest]
        if any(isinstance(t, T) and x.a[0] in t.fvs for t in every):
            for n in slots:
                del st.env[slots[n]]
            continue
        ends[:] = nends
        lp.breaks[:] = nb
        nf.rets[:] = nr
        nsv = {t: sv[t] for t in rest}
        for n in slots:
            nsv[slots[n]] = parts[n]

        def undo(env):
            if slots[next(iter(slots))] not in env:
                return
            w = env[s]
            for n in slots:
                w = setfield(w, n, env.pop(slots[n]))
            env[s] = w
        return rest + list(slots.values()), nsv, nc, undo
    return None


def finish_loop(self, st, fr, nf, lp, ends, carried, sv, base, v, c, kind):
    r = None
    if any(env.get(s) is not None and isinstance(env.get(s), T) and any(l.op == 'setf' for l in leaves(env[s]))
           for s in carried for env in [q[1] for q in ends] + [b[1] for b in lp.breaks] + [q[2] for q in nf.rets if q[2] is not None]):
        r = split_fields(self, st, nf, lp, ends, carried, sv, c)
    if r is None:
        return finish_loop1(self, st, fr, nf, lp, ends, carried, sv, base, v, c, kind)
    carried, sv, c, undo = r
    n = len(fr.rets)
    finish_loop(self, st, fr, nf, lp, ends, carried, sv, base, v, c, kind)
    undo(st.env)
    for q in fr.rets[n:]:
        if q[2] is not None:
            undo(q[2])


def finish_loop1(self, st, fr, nf, lp, ends, carried, sv, base, v, c, kind):
    rets = [(AND(c, pc), val, env) for pc, val, env in nf.rets if AND(c, pc) is not FALSE]
    panics = [r for r in rets if r[1] is PANIC]
    brks = [(AND(c, pc), env) for pc, env, _ in lp.breaks if AND(c, pc) is not FALSE]
    upd = {}
    for s in carried:
        m = merged(ends, s) if ends else None
        if m is None:
            upd[s] = sv[s]
        else:
            upd[s] = ite(c, m, sv[s])
    # index-range idiom
    if kind == 'for':
        ts = list(upd.values()) + [c] + [x for r in rets for x in (r[0], r[1])] + [b[0] for b in brks] + \
            [b[1][s] for b in brks for s in carried]
        r = index_to_elem(self, base, v, ts)
        if r is not None:
            xs, e, out = r
            i = 0
            for s in list(upd):
                upd[s] = out[i]
                i += 1
            c = out[i]
            i += 1
            nr = []
            for q in rets:
                nr.append((out[i], out[i + 1], q[2]))
                i += 2
            rets = nr
            nb = []
            for b in brks:
                nb.append([out[i], dict(b[1])])
                i += 1
            for b in nb:
                for s in carried:
                    b[1][s] = out[i]
                    i += 1
            brks = [tuple(b) for b in nb]
            base, v = xs, e
    R = FALSE
    V = None
    for pc, val, env in reversed(rets):
        V = val if V is None else ite(pc, val, V)
        R = OR(R, pc)
    Bk = FALSE
    for pc, env in brks:
        Bk = OR(Bk, pc)
    svars = [sv[s] for s in carried]
    names = {f.a[0] for f in svars}
    dep = lambda t: bool(t.fvs & names)
    real = [s for s in carried if upd[s] is not sv[s]]
    brk_changed = [s for s in carried if any(env[s] is not sv[s] for pc, env in brks)]
    if kind == 'for':
        # no carried state changes on continue
        if not real and not dep(R) and not dep(Bk) and (V is None or not dep(V)):
            if not brks:
                if rets:
                    E = mk_exists_c(base, v, R)
                    val = first_val(base, v, R, V)
                    if AND(st.pc, E) is not FALSE:
                        # what the returning iteration itself wrote
                        q = st.fork()
                        for s in carried:
                            w = None
                            for pc, _, env in reversed(rets):
                                x = env[s] if env is not None else sv[s]
                                w = x if w is None else ite(pc, x, w)
                            if w is sv[s]:
                                continue
                            if dep(w):
                                w = subst(w, {sv[s2]: st.env[s2] for s2 in carried})
                            q.env[s] = first_val(base, v, R, w)
                        self.ret(AND(st.pc, E), val, q, fr)
                    st.pc = AND(st.pc, NOT(E))
                return
            if not rets:
                E = mk_exists_c(base, v, Bk)
                for s in brk_changed:
                    bv_ = None
                    for pc, env in reversed(brks):
                        bv_ = env[s] if bv_ is None else ite(pc, env[s], bv_)
                    init = st.env[s]
                    if dep(bv_):
                        bv_ = subst(bv_, {sv[s2]: st.env[s2] for s2 in carried})
                    st.env[s] = ite(E, first_val(base, v, Bk, bv_), init)
                return
            if rets and not any(env[s] is not sv[s] for pc, _, env in rets if env is not None for s in carried):
                # the first item that ends the loop, one way or the other
                X = OR(R, Bk)
                E = mk_exists_c(base, v, X)
                Er = AND(E, first_val(base, v, X, R))
                if AND(st.pc, Er) is not FALSE:
                    self.ret(AND(st.pc, Er), first_val(base, v, X, V), st.fork(), fr)
                st.pc = AND(st.pc, NOT(Er))
                for s in brk_changed:
                    bv_ = None
                    for pc, env in reversed(brks):
                        bv_ = env[s] if bv_ is None else ite(pc, env[s], bv_)
                    if dep(bv_):
                        bv_ = subst(bv_, {sv[s2]: st.env[s2] for s2 in carried})
                    st.env[s] = ite(E, first_val(base, v, X, bv_), st.env[s])
                return
        # items are collected until one of them ends the function (what was collected is then of no use)
        if rets and not brks and real and not dep(R) and not dep(V) and \
                not any(s == 0 or s in self.refslots for s in carried if s in real or any(env is not None and env[s] is not sv[s] for _, _, env in rets)):
            res = {}
            for s in real:
                r = accum(self, st.env[s], sv[s], ite(R, sv[s], upd[s]), base, v, names)
                if r is None:
                    break
                res[s] = r
            else:
                E = mk_exists_c(base, v, R)
                if AND(st.pc, E) is not FALSE:
                    self.ret(AND(st.pc, E), first_val(base, v, R, V), st.fork(), fr)
                st.pc = AND(st.pc, NOT(E))
                st.env.update(res)
                return
        # a break that sets a flag to a constant also set on continue path etc. falls through to the general case
        if not rets and not brks:
            todo = list(real)
            ok = True
            res = {}
            for s in todo:
                r = accum(self, st.env[s], sv[s], upd[s], base, v, names)
                if r is None:
                    ok = False
                else:
                    res[s] = r
            rest = [s for s in todo if s not in res]
            if not rest:
                st.env.update(res)
                return
            # remaining slots in one fold (including those the rest depends on)
            st.env.update({s: r for s, r in res.items() if not any(sv[s].a[0] in upd[t].fvs for t in rest)})
            grp = [s for s in todo if s not in res or any(sv[s].a[0] in upd[t].fvs for t in rest)]
            grp = order_slots(grp, st, sv, upd)
            unch = [s for s in carried if s not in real]
            m = {sv[s]: st.env[s] for s in unch}
            body = mk_tuple([subst(upd[s], m) for s in grp])
            f = mkfold(base, [st.env[s] for s in grp], [sv[s] for s in grp], v, body)
            for i, s in enumerate(grp):
                st.env[s] = res[s] if s in res else lift(lambda q: proj(q, i), f)
            return
    # general loop with control
    order = order_slots(carried, st, sv, upd)
    ctl = ctor('cont')
    stt = {s: upd[s] for s in carried}
    for pc, env in brks:
        ctl = ite(pc, ctor('brk'), ctl)
        for s in carried:
            stt[s] = ite(pc, env[s], stt[s])
    for pc, val, env in rets:
        ctl = ite(pc, ctor('ret', val), ctl)
        for s in carried:
            if env is not None:
                stt[s] = ite(pc, env[s], stt[s])
    if kind == 'while' and not brks:
        # nothing follows the loop: state that decides nothing and that no caller sees
        live = [s for s in order if s == 0 or s in self.refslots]
        seen = set(ctl.fvs)
        while True:
            for s in live:
                seen |= stt[s].fvs
            more = [s for s in order if s not in live and sv[s].a[0] in seen]
            if not more:
                break
            live += more
        order = [s for s in order if s in live]
    body = mk_tuple([ctl] + [stt[s] for s in order])
    vs = [sv[s] for s in order] + ([v] if v is not None else [])
    lm = lam(vs, body)
    L = lift(lambda b, *i: mk('loop', kind, b, lm, *i), base if base is not None else UNIT, *[st.env[s] for s in order])
    for i, s in enumerate(order):
        if any(stt[s] is not sv[s] for _ in [0]):
            st.env[s] = lift(lambda q: mk('lproj', q, i), L)
            st.env[s].ty = sv[s].ty
    if rets:
        rc = lift(lambda q: atom(mk('pred', 'loopret', q)), L)
        val = lift(lambda q: mk('app', 'loopval', q), L)
        self.ret(AND(st.pc, rc), val, st, fr)
        st.pc = AND(st.pc, NOT(rc))


def mk_tuple(xs):
    # keep components separately gated: tuple of lifted values
    return mk('multi', *xs)


TM.REBUILD['multi'] = lambda *a: mk('multi', *a)


def mk_exists_c(base, v, cond):
    from .ev import mk_exists
    if base.op == 'list':
        r = FALSE
        for e in base.a:
            r = OR(r, subst(cond, {v: e}))
        return r
    return mk_exists(base, v, cond)


def mkfold(base, inits, svs, v, body):
    l = lam(svs + [v], body)
    return lift(lambda b, *i: mk('fold', b, l, *i), base, *inits)


def proj(f, i):
    return mk('proj', f, i)


def order_slots(slots, st, sv, upd):
    def key(s):
        t = upd[s]
        m = {sv[x]: mk('var', '$S' if x == s else '$O') for x in slots}
        init = st.env[s]
        return (init.op if isinstance(init, T) else '', show(init) if isinstance(init, T) else '', show(subst(t, m)) if isinstance(t, T) else '')
    return sorted(slots, key=key)


def accum(self, init, s, u, base, v, names):
    """recognise independent accumulators"""
    n = s.a[0]
    if u.fvs & (names - {n}):
        return None
    ls = leaves(u)
    if any(n in a.fvs for a in atoms(u)):
        # set/flag guards like `if !flag`
        if all(l is s or l in (TRUE, FALSE) for l in ls):
            pass
        return None
    # boolean flags
    if all(l is s or l is TRUE for l in ls) and any(l is TRUE for l in ls):
        cond = replace_leaves(u, lambda l: B(l is TRUE))
        return ite(self.b(init), TRUE, mk_exists_c(base, v, cond))
    if all(l is s or l is FALSE for l in ls) and any(l is FALSE for l in ls):
        cond = replace_leaves(u, lambda l: B(l is FALSE))
        return AND(self.b(init), NOT(mk_exists_c(base, v, cond)))
    # push / extend one element
    if all(l is s or (l.op == 'push' and l.a[0] is s and n not in l.a[1].fvs) for l in ls):
        opt = replace_leaves(u, lambda l: NONE if l is s else Some(l.a[1]))
        it = IT(base, lam([v], opt))
        return extend(init, it)
    if all(l is s or (l.op == 'cat' and l.a[0] is s and not any(n in p.fvs for p in l.a[1:])) for l in ls):
        opt = replace_leaves(u, lambda l: NONE if l is s else Some(cat(*l.a[1:])))
        return cat(init, collect('str', IT(base, lam([v], opt))))
    if all(l is s or (l.op == 'extend' and l.a[0] is s and n not in l.a[1].fvs) for l in ls):
        opt = replace_leaves(u, lambda l: NONE if l is s else Some(l.a[1]))
        it = IT(base, lam([v], opt))
        return extend(init, IT(mk('app', 'flat', it)))
    def chain_parts(l):
        # what is appended to the list, part by part
        ps = []
        while l is not s:
            if l.op not in ('extend', 'push') or n in l.a[1].fvs:
                return None
            ps.insert(0, l.a[1] if l.op == 'extend' else IT(mk('list', l.a[1])))
            if ps[0].op != 'it':
                return None
            l = l.a[0]
        return ps
    if any(l.op == 'extend' for l in ls):
        cs = {l: chain_parts(l) for l in ls}
        if all(q is not None for q in cs.values()):
            def joined_parts(l):
                r = None
                for q in cs[l]:
                    r = q if r is None else IT(mk('app', 'chain', r, q))
                return NONE if r is None else Some(r)
            return extend(init, IT(mk('app', 'flat', IT(base, lam([v], replace_leaves(u, joined_parts))))))
    # a map filled entry by entry
    if init.op == 'empty' and init.a[0] == 'map' and all(l is s or l.op == 'app' and l.a[0] == 'insert' and len(l.a) == 4 and l.a[1] is s and
                                                         n not in l.a[2].fvs and n not in l.a[3].fvs for l in ls):
        opt = replace_leaves(u, lambda l: NONE if l is s else Some(tup(l.a[2], l.a[3])))
        return collect('map', IT(base, lam([v], opt)))
    # counters / sums

    def delta(l):
        c, d = TM.lin(l) if l.op in ('int', 'lin') else (0, {l: 1})
        if d.get(s) == 1:
            dd = {k: q for k, q in d.items() if k is not s}
            if all(n not in k.fvs for k in dd):
                return TM.unlin(c, dd)
        return None
    ds = {l: delta(l) for l in ls}
    if all(d is not None for d in ds.values()):
        val = replace_leaves(u, lambda l: ds[l])
        if all(d in (N(0), N(1)) for d in ds.values()):
            cond = replace_leaves(u, lambda l: B(ds[l] is N(1)))
            it = IT(base, lam([v], ite(cond, Some(v), NONE)))
            return add(init, _count(it))
        it = IT(base, lam([v], Some(val)))
        return add(init, _sum(it))
    # last value wins
    if all(n not in l.fvs or l is s for l in ls):
        opt = replace_leaves(u, lambda l: NONE if l is s else Some(l))
        it = IT(base, lam([v], opt))
        return ite(is_empty(it), init, app('last', it))
    return None


def replace_leaves(t, f):
    memo = {}

    def go(x):
        if x.op != 'ite':
            return f(x)
        r = memo.get(x.id)
        if r is None:
            r = ite(atom(x.a[0]), go(x.a[1]), go(x.a[2]))
            memo[x.id] = r
        return r
    return go(t)


def e_while(self, e, st, fr):
    c = e['c']
    # while let Some(x) = it.next()
    if c['k'] == 'let' and c['e']['k'] == 'mcall' and c['e']['m'] == 'next' and c['e']['r']['k'] == 'path' \
            and c['p']['k'] == 'ts' and c['p']['p'][-1]['n'] == 'Some' and len(c['e']['r']['p']) == 1:
        n = c['e']['r']['p'][0]['n']
        from .src import walk
        used = any(x.get('k') == 'path' and len(x['p']) == 1 and x['p'][0]['n'] == n and 'e' not in x for x in walk(e['b']) if x.get('k') == 'path' and isinstance(x.get('p'), list))
        if not used and n in st.scope and isinstance(st.env.get(st.scope[n]), T):
            it = st.env[st.scope[n]]
            if all(l.op == 'it' for l in leaves(it)):
                st.env[st.scope[n]] = IT(mk('list'))
                fe = dict(e, k='for', p=c['p']['e'][0], e=c['e']['r'])

                def body(v, q, nf):
                    cc, b = self.pat(fe['p'], v, q, nf)
                    self.apply_binds(q, b)
                    self.block(e['b'], q, nf)
                run_for_any(self, it, body, st, fr, e['label'])
                return UNIT if st.pc is not FALSE else BOT

    def runner(q, nf):
        lp = nf.loops[0]
        saved = dict(q.scope)
        cc = self.cond(e['c'], q, nf)
        out = q.fork()
        out.pc = AND(q.pc, NOT(cc))
        if out.pc is not FALSE:
            lp.breaks.append((out.pc, dict(out.env), UNIT))
        q.pc = AND(q.pc, cc)
        if q.pc is not FALSE:
            self.block(e['b'], q, nf)
        q.scope = saved
    carried, sv, nf, lp, ends = fix_body(self, st, fr, AND(fr.outer, st.pc), e['label'], runner, None)
    if while_as_for(self, st, fr, nf, lp, ends, carried, sv):
        return UNIT if st.pc is not FALSE else BOT
    finish_loop(self, st, fr, nf, lp, ends, carried, sv, None, None, TRUE, kind='while')
    return UNIT if st.pc is not FALSE else BOT


def while_as_for(self, st, fr, nf, lp, ends, carried, sv):
    """let mut i = 0; while i < n { .. i += 1 }  ->  for i in 0..n"""
    for s in carried:
        i = sv[s]
        init = st.env[s]
        if self.typeof(init) != 'int' or not ends:
            continue
        u = merged(ends, s)
        if u is not add(i, N(1)):
            continue
        if not lp.breaks:
            continue
        pc0, env0, _ = lp.breaks[0]
        i.ty = 'int'
        # exit condition: not (i < n)
        hi = None
        if pc0.op == 'ite' and pc0.a[0].op == 'ge0':
            cst, d = TM.lin(pc0.a[0].a[0])
            # normal form may be ge0(i - n) true->break or ge0(n - i - 1) false->break
            if pc0.a[1] is TRUE and pc0.a[2] is FALSE and d.get(i) == 1:
                hi = TM.unlin(-cst, {k: -q for k, q in d.items() if k is not i})
            elif pc0.a[1] is FALSE and pc0.a[2] is TRUE and d.get(i) == -1:
                hi = TM.unlin(cst + 1, {k: q for k, q in d.items() if k is not i})
        if hi is None or hi.fvs & {sv[x].a[0] for x in carried if x in carried and merged(ends, x) is not sv[x]}:
            continue
        if len(lp.breaks) > 1 and any(i.a[0] in env[s].fvs and False for _, env, _ in lp.breaks):
            continue
        # i must not be read after: its final value = hi when no early exit
        v = fresh('e')
        v.ty = 'nat' if init.op == 'int' else 'int'
        body_c = NOT(pc0)
        m = {i: v}
        sub_ = lambda t: subst(t, m) if isinstance(t, T) else t
        nends = [(subst(strip_pc(pc, pc0), m), {k: sub_(q) for k, q in env.items()}) for pc, env in ends]
        nb = [(subst(strip_pc(pc, pc0), m), {k: sub_(q) for k, q in env.items()}, x) for pc, env, x in lp.breaks[1:]]
        nr = [(subst(strip_pc(pc, pc0), m), subst(val, m), {k: sub_(q) for k, q in env.items()} if env else env) for pc, val, env in nf.rets]
        rest = [x for x in carried if x != s]
        lp.breaks = nb
        nf.rets = nr
        base = app('range', init, hi)
        if base.op == 'ite':
            return False
        for env in [q[1] for q in nends] + [q[1] for q in nb]:
            env[s] = st.env[s]
        finish_loop(self, st, fr, nf, lp, nends, rest, {x: sv[x] for x in rest}, base, v, TRUE, kind='for')
        if not nb:
            st.env[s] = ite(ge0(sub(hi, init)), hi, init)
        else:
            st.env[s] = mk('app', 'whileidx', base)
        return True
    return False


def strip_pc(pc, pc0):
    """pc assuming not pc0 (pc0 a single atom decision)"""
    if pc0.op == 'ite':
        return assume(pc, {pc0.a[0]: not (pc0.a[1] is TRUE)})
    return pc


def e_loop(self, e, st, fr):
    def runner(q, nf):
        self.block(e['b'], q, nf)
    carried, sv, nf, lp, ends = fix_body(self, st, fr, AND(fr.outer, st.pc), e['label'], runner, None)
    if not ends and not lp.conts:
        # executes at most once
        pass
    had_breaks = bool(lp.breaks)
    vals = [b for b in lp.breaks if b[2] is not UNIT]
    if vals:
        raise Unknown('loop with value')
    finish_loop(self, st, fr, nf, lp, ends, carried, sv, None, None, TRUE, kind='while')
    if not had_breaks:
        st.pc = FALSE
        return BOT
    return UNIT if st.pc is not FALSE else BOT


Ev.e_while = e_while
Ev.e_loop = e_loop


# ---------------------------------------------------------------- function summaries
class Summary:
    pass


def summary(self, f, argmap=None):
    """value summary of a function: return value and final values of &mut params"""
    st = State()
    if getattr(self, 'effects', None):
        st.env[0] = mk('list')
    fr = Frame(f, f.owner, TRUE, conv_type(f.j['out'], f.owner, self.idx.aliases))
    fr.generics = {g.split(':')[0].strip(): 'T$%d' % i for i, g in enumerate(x for x in f.j.get('gen') or [] if not x.strip().startswith("'"))}
    self.stack.append(f)
    self.analysed.add(f)
    outs = {}
    i = 0
    for prm in f.j['in']:
        if prm.get('self'):
            v = (argmap or {}).get('self') or mk('var', 'self', self.ns)
            v.ty = v.ty or ('adt', f.owner)
            self.bind(st, 'self', v)
            outs['self'] = (st.scope['self'], v)
            if prm.get('mut') and prm.get('ref'):
                self.refslots = set(self.refslots) | {st.scope['self']}
        else:
            ty = conv_type(prm['ty'], f.owner, self.idx.aliases)
            v = (argmap or {}).get(i)
            if v is None:
                v = mk('var', 'arg%d' % i, self.ns)
            if v.ty is None:
                v.ty = 'nat' if ty == 'int' and prm['ty'].get('s', '') in ('usize', 'u32', 'u64', 'u8', '& usize') else ty
            c, b = self.pat(prm['p'], v, st, fr)
            self.apply_binds(st, b)
            if prm['ty']['k'] == 'ref' and prm['ty']['mut'] and prm['p']['k'] == 'ident':
                outs['arg%d' % i] = (st.scope[prm['p']['n']], v)
                self.refslots = set(self.refslots) | {st.scope[prm['p']['n']]}
            elif prm['p']['k'] == 'ident' and prm['p']['mut']:
                pass
            i += 1
    try:
        v = self.block(f.j['b'], st, fr)
        v = self.coerce(v, fr.ret_ty)
        v = self.finish(fr, st, v, TRUE)
        if fr.ret_ty is not None and isinstance(fr.ret_ty, tuple) and fr.ret_ty[:2] == ('result', 'unit'):
            # Ok(()) and the result of a call that is Ok are one value
            v = lift(lambda q: (ctor('Ok', UNIT) if q.a[0] == 'Ok' else q) if q.op == 'ctor' else ite(is_(q, 'Ok'), ctor('Ok', UNIT), q) if q.op in ('app', 'get', 'var') else q, v)
    finally:
        self.stack.pop()
    r = Summary()
    r.value = v
    r.outs = {k: st.env.get(s) for k, (s, v0) in outs.items()}
    r.trace = st.env.get(0)
    r.fn = f
    r.sites = self.sites
    return r


Ev.summary = summary


# ---------------------------------------------------------------- normalisers of applications over known values
def _insert(m, k, *v):
    # overwriting the same key
    if v and m.op == 'app' and m.a[0] == 'insert' and len(m.a) == 4 and m.a[2] is k:
        return app('insert', m.a[1], k, *v)
    return None


def _mget(m, k):
    if m.op == 'app' and m.a[0] == 'insert' and len(m.a) == 4:
        return ite(eq(m.a[2], k), Some(m.a[3]), app('mget', m.a[1], k))
    if m.op == 'app' and m.a[0] == 'remove' and len(m.a) == 3:
        return ite(eq(m.a[2], k), NONE, app('mget', m.a[1], k))
    if m.op == 'empty':
        return NONE
    return None


def items_of(it):
    """gated list of the elements of an iterator over a literal list"""
    if it.op == 'list':
        return it
    if it.op == 'it' and it.a[0].op == 'list':
        if len(it.a) == 1:
            return it.a[0]
        return collect('seq', it)
    return None


def _first(it):
    if it.op == 'it' and it.a[0].op == 'list':
        r = BOT
        for e in reversed(it.a[0].a):
            c = Some(e) if len(it.a) == 1 else beta(it.a[1], e)
            r = ite(is_(c, 'Some'), get(c, 'Some', 0), r)
        return r
    if it.op == 'it' and len(it.a) == 1 and it.a[0].op == 'app' and it.a[0].a[0] == 'sort' and len(it.a[0].a) == 2:
        return app('min', IT(it.a[0].a[1]))
    return end_elem('first')(it)


def _last(it):
    if it.op == 'it' and it.a[0].op == 'list':
        r = BOT
        for e in it.a[0].a:
            c = Some(e) if len(it.a) == 1 else beta(it.a[1], e)
            r = ite(is_(c, 'Some'), get(c, 'Some', 0), r)
        return r
    x = it.a[0] if it.op == 'it' and len(it.a) == 1 else it
    if x.op == 'app' and x.a[0] == 'sort' and len(x.a) == 2:
        return app('max', IT(x.a[1]))
    if x.op == 'push':
        return x.a[1]
    if x.op == 'app' and x.a[0] == 'setlast':
        return x.a[2]
    return end_elem('last')(it)


def _setlast(x, v):
    if x.op == 'list' and x.a:
        return mk('list', *(x.a[:-1] + (v,)))
    if x.op == 'push':
        return mk('push', x.a[0], v)
    if x.op == 'app' and x.a[0] == 'setlast':
        return mk('app', 'setlast', x.a[1], v)
    return BOT if x.op in ('list', 'empty') else None


def _setfirst(x, v):
    if x.op == 'list' and x.a:
        return mk('list', *((v,) + x.a[1:]))
    if x.op == 'app' and x.a[0] == 'setfirst':
        return mk('app', 'setfirst', x.a[1], v)
    return BOT if x.op in ('list', 'empty') else None


def _enum(it):
    xs = items_of(it)
    if xs is None:
        return None
    return lift(lambda x: mk('list', *[tup(N(i), e) for i, e in enumerate(x.a)]), xs)


def _rev(it):
    xs = items_of(it)
    if xs is None:
        return None
    return lift(lambda x: mk('list', *reversed(x.a)), xs)


def _strk(fn, idem):
    def g(x, *r):
        if r:
            return None
        if x.op == 'str':
            return S(fn(x.a[0]))
        if x.op == 'app' and x.a[0] in idem and len(x.a) == 2:
            return x
        if x.op == 'app' and x.a[0] in ('trim_start', 'trim_end') and idem == ('trim',):
            return app('trim', x.a[1])
        if x.op == 'cat':
            ps = list(x.a)
            ch = True
            while ch:
                ch = False
                if len(ps) > 1 and idem != ('trim', 'trim_start') and ps[-1].op == 'str' and ps[-1].a[0].rstrip() != ps[-1].a[0]:
                    q = ps[-1].a[0].rstrip()
                    ps = ps[:-1] + ([S(q)] if q else [])
                    ch = True
                if len(ps) > 1 and idem != ('trim', 'trim_end') and ps[0].op == 'str' and ps[0].a[0].lstrip() != ps[0].a[0]:
                    q = ps[0].a[0].lstrip()
                    ps = ([S(q)] if q else []) + ps[1:]
                    ch = True
            if len(ps) != len(x.a) or any(p is not q for p, q in zip(ps, x.a)):
                nm = {('trim',): 'trim', ('trim', 'trim_start'): 'trim_start', ('trim', 'trim_end'): 'trim_end'}[idem]
                return app(nm, cat(*ps))
        return None
    return g


TM.APPN.update(trim=_strk(str.strip, ('trim',)), trim_start=_strk(str.lstrip, ('trim', 'trim_start')), trim_end=_strk(str.rstrip, ('trim', 'trim_end')))


def _flat(i):
    return mk('list') if i.op == 'it' and i.a[0].op == 'list' and not i.a[0].a else None


TM.APPN['flat'] = _flat
TM.APPN.update(mget=_mget, insert=_insert, setlast=_setlast, setfirst=_setfirst, first=_first, last=_last, enumerate=_enum, rev=_rev)


def _count(it):
    def g(i):
        if i.op == 'it' and i.a[0].op == 'list':
            r = N(0)
            for e in i.a[0].a:
                c = Some(e) if len(i.a) == 1 else beta(i.a[1], e)
                r = add(r, ite(is_(c, 'Some'), N(1), N(0)))
            return r
        f = flatten_sum(i, lambda j: _count(j))
        return f if f is not None else mk('count', i)
    return lift(g, it)


def flatten_sum(i, part):
    """count over concatenated sequences is the sum of the counts"""
    if i.op != 'it' or i.a[0].op != 'app' or i.a[0].a[0] not in ('flat', 'chain') or i.a[0].a[1].op != 'it':
        return None

    def inner(e):
        e = e if e.op == 'it' else IT(e)
        return it_map(e, (lambda y: Some(y)) if len(i.a) == 1 else (lambda y: beta(i.a[1], y)))
    if i.a[0].a[0] == 'chain':
        return add(part(inner(i.a[0].a[1])), part(inner(i.a[0].a[2])))
    return _sum(it_map(i.a[0].a[1], lambda e: Some(lift(lambda z: part(inner(z)), e))))


def _minmax1(n):
    def g(i):
        if i.op == 'it' and i.a[0].op == 'list':
            r = NONE
            for e in i.a[0].a:
                c = Some(e) if len(i.a) == 1 else beta(i.a[1], e)
                x, y = get(c, 'Some', 0), get(r, 'Some', 0)
                if r is NONE:
                    r = ite(is_(c, 'Some'), Some(x), NONE)
                else:
                    b = ite(ge0(sub(x, y)), y if n == 'min' else x, x if n == 'min' else y)
                    r = ite(is_(c, 'Some'), ite(is_(r, 'Some'), Some(b), Some(x)), r)
            return r
        return None
    return g


TM.APPN.update(min=_minmax1('min'), max=_minmax1('max'))


def _sum(it):
    def g(i):
        if i.op == 'it' and i.a[0].op == 'list':
            r = N(0)
            for e in i.a[0].a:
                c = Some(e) if len(i.a) == 1 else beta(i.a[1], e)
                r = add(r, ite(is_(c, 'Some'), get(c, 'Some', 0), N(0)))
            return r
        return mk('sum', i)
    return lift(g, it)


def multi_parts(t, n):
    """components of a (possibly gated) multi term"""
    return [lift(lambda x: x.a[i] if x.op == 'multi' else mk('proj', x, i), t) for i in range(n)]


def _fold(base, l, *inits):
    def g(b, *i):
        if b.op == 'list' and l.op == 'lam' and len(b.a) <= 6:
            st = list(i)
            for e in b.a:
                body = beta(l, *(st + [e]))
                st = multi_parts(body, len(st))
            return mk('multi', *st)
        return mk('fold', b, l, *i)
    return lift(lambda b: g(b, *inits), base)


def _proj(f, i):
    return lift(lambda x: x.a[i] if x.op == 'multi' else mk('proj', x, i), f)


def _loop(kind, base, l, *inits):
    def g(b):
        if kind == 'for' and b.op == 'list' and l.op == 'lam' and len(b.a) <= 6:
            n = len(inits)
            st = list(inits)
            ctl = ctor('cont')
            for e in b.a:
                parts = multi_parts(beta(l, *(st + [e])), n + 1)
                live = is_(ctl, 'cont')
                st = [ite(live, x, y) for x, y in zip(parts[1:], st)]
                ctl = ite(live, parts[0], ctl)
            return mk('multi', ctl, *st)
        return mk('loop', kind, b, l, *inits)
    return lift(g, base)


TM.REBUILD['fold'] = _fold
TM.REBUILD['proj'] = _proj
TM.REBUILD['loop'] = _loop
TM.REBUILD['lproj'] = lambda q, i: lift(lambda x: x.a[i + 1] if x.op == 'multi' else mk('lproj', x, i), q)
TM.REBUILD['count'] = _count
TM.REBUILD['sum'] = _sum
TM.APPN['loopval'] = lambda q: get(q.a[0], 'ret', 0) if q.op == 'multi' else None


def _pred(n, *a):
    if n == 'loopret':
        return lift(lambda q: is_(q.a[0], 'ret') if q.op == 'multi' else atom(mk('pred', 'loopret', q)), a[0])
    return lift(lambda *x: atom(mk('pred', n, *x)), *a)


TM.REBUILD['pred'] = _pred
TM.FAMILY.update({'Entry::Occupied': ('Entry::Occupied', 'Entry::Vacant'), 'Entry::Vacant': ('Entry::Occupied', 'Entry::Vacant')})
TM.ARITY.update({'Entry::Occupied': 1, 'Entry::Vacant': 1})
TM.FAMILY.update({'cont': ('cont', 'brk', 'ret'), 'brk': ('cont', 'brk', 'ret'), 'ret': ('cont', 'brk', 'ret')})
TM.ARITY.update({'cont': 0, 'brk': 0, 'ret': 1})


@meth('try_into')
def _(s, r, a, st, fr, x):
    # conversions between integer types: sizes are assumed to fit (noted among the assumptions)
    if s.typeof(r) == 'int':
        return ctor('Ok', r)
    return app('try_into', r)
