"""Gated value numbering of Rust functions.

`Ev.summary(fn)` computes, for one function (with helpers inlined through the call graph), the value it returns and the
values it leaves in its `&mut` parameters, as gated terms over its inputs; joins are merged with gates (no path is
followed separately), loops are closed as folds over the iterated sequence.  `Ev.sites` lists every call that was met,
with the gate under which it is reached.
"""
from .term import *
from . import term as TM
from .src import conv_type, seg_names, walk as awalk


class Alias:
    """name bound to a mutable place"""
    __slots__ = ('place',)

    def __init__(s, place):
        s.place = place


class State:
    __slots__ = ('env', 'scope', 'pc')

    def __init__(s, env=None, scope=None, pc=TRUE):
        s.env = env or {}
        s.scope = scope or {}
        s.pc = pc

    def fork(s):
        return State(dict(s.env), dict(s.scope), s.pc)


INTS = {k + str(b): (b, int(k == 'i')) for k in 'ui' for b in (8, 16, 32, 64, 128)}
INTS.update(usize=(64, 0), isize=(64, 1))


class Frame:
    def __init__(s, fn, self_ty, outer, ret_ty):
        s.fn = fn
        s.self_ty = self_ty
        s.outer = outer      # gate of the frame's entry
        s.rets = []          # (pc, value, env)
        s.ret_ty = ret_ty
        s.loops = []
        s.generics = {}
        s.file = fn.file if fn else ''


class Loop:
    def __init__(s, label):
        s.label = label
        s.breaks = []
        s.conts = []


class Site:
    __slots__ = ('name', 'recv', 'args', 'gate', 'line', 'fn', 'file', 'path', 'node')

    def __init__(s, name, recv, args, gate, line, fn, path, node=None):
        s.name, s.recv, s.args, s.gate, s.line, s.path, s.node = name, recv, args, gate, line, path, node
        s.fn = fn.qual if fn else '?'
        s.file = fn.file if fn else '?'

    def __repr__(s):
        return '%s(%s; %s) @%s:%s if %s' % (s.name, s.recv, ', '.join(map(str, s.args)), s.fn, s.line, s.gate)


# ---------------------------------------------------------------- iterators
def IT(base, l=None):
    if l is not None:
        b = bv(l.a[2], 0)
        if l.a[1] is ctor('Some', b):
            l = None
        elif base.op == 'app' and (base.a[0] == 'bytes' or base.a[0] == 'enumerate' and base.a[1].op == 'it' and len(base.a[1].a) == 1 and
                                   base.a[1].a[0].op == 'app' and base.a[1].a[0].a[0] == 'bytes') and only_ascii(l, base.a[0] == 'enumerate'):
            # bytes that are looked at for ASCII characters only are characters
            base = mk('app', 'chars', *base.a[1:]) if base.a[0] == 'bytes' else mk('app', 'char_indices', *base.a[1].a[0].a[1:])
    return mk('it', base) if l is None else mk('it', base, l)


def only_ascii(l, pair):
    '''is an item left out unless it (the second of the pair) is one of some ASCII characters?'''
    b = fresh('e')
    x = field(b, '1') if pair else b
    body = beta(l, b)
    ats = {}
    for at in atoms(body):
        if at.op == 'eq':
            p, q = at.a
            if q is x:
                p, q = q, p
            if p is x and q.op == 'char' and ord(q.a[0]) < 128:
                ats[at] = False
    return bool(ats) and assume(body, ats) is NONE


def it_map(it, f):
    """compose an iterator with a python function term -> option term"""
    def g(x):
        if x.op != 'it':
            raise Unknown('not an iterator: %s' % x.op)
        v = fresh('e')
        v.ty = elem_type(x.a[0])
        cur = Some(v) if len(x.a) == 1 else beta(x.a[1], v)
        nxt = ite(is_(cur, 'Some'), f(get(cur, 'Some', 0)), NONE)
        return IT(x.a[0], lam([v], nxt))
    return lift(g, it)


ELEM_HOOK = [lambda t: None]


def elem_type(base):
    ty = ELEM_HOOK[0](base)
    if isinstance(ty, tuple) and ty[0] in ('vec', 'set', 'iter', 'option'):
        return ty[1]
    if isinstance(ty, tuple) and ty[0] == 'map':
        return ('tuple', ty[1], ty[2])
    if ty in (('adt', 'RArgumentList'), ('adt', 'RParameterList')):
        return ('result', ('adt', ty[1][:-4]), None)     # lists with separators give results
    return None


def exists(it, p):
    """any element of iterator satisfies predicate p (python fn)"""
    def g(x):
        base = x.a[0]
        if base.op == 'empty':
            return FALSE
        if base.op == 'list':
            r = FALSE
            for e in base.a:
                c = Some(e) if len(x.a) == 1 else beta(x.a[1], e)
                r = OR(r, AND(is_(c, 'Some'), p(get(c, 'Some', 0))))
            return r
        if base.op == 'app' and base.a[0] == 'chain' and len(base.a) == 3 and base.a[1].op == base.a[2].op == 'it':
            def q(e):
                c = Some(e) if len(x.a) == 1 else beta(x.a[1], e)
                return AND(is_(c, 'Some'), p(get(c, 'Some', 0)))
            return OR(exists(base.a[1], q), exists(base.a[2], q))
        if base.op == 'collect' and base.a[1].op == 'it' and base.a[0] in ('set', 'seq', '?'):
            def q2(e):
                c = Some(e) if len(x.a) == 1 else beta(x.a[1], e)
                return AND(is_(c, 'Some'), p(get(c, 'Some', 0)))
            return exists(base.a[1], q2)
        if base.op == 'app' and base.a[0] == 'flat' and base.a[1].op == 'it':
            def q3(e):
                c = Some(e) if len(x.a) == 1 else beta(x.a[1], e)
                return AND(is_(c, 'Some'), p(get(c, 'Some', 0)))
            return exists(base.a[1], lambda e: exists(e if e.op == 'it' else IT(e), q3))
        o = base.a[1] if base.op == 'app' and base.a[0] == 'optlist' else base
        bt = ELEM_HOOK[0](o)
        if isinstance(bt, tuple) and bt[0] == 'option' and base.op not in ('ctor', 'ite'):
            e = get(o, 'Some', 0)
            c = Some(e) if len(x.a) == 1 else beta(x.a[1], e)
            return AND(is_(o, 'Some'), is_(c, 'Some'), p(get(c, 'Some', 0)))
        v = fresh('e')
        v.ty = elem_type(base)
        c = Some(v) if len(x.a) == 1 else beta(x.a[1], v)
        body = AND(is_(c, 'Some'), p(get(c, 'Some', 0)))
        if base.op == 'app' and base.a[0] == 'chars' and body.op == 'ite' and body.a[0].op == 'pred' and body.a[0].a[0] == 'is_whitespace' and \
                body.a[0].a[1] is v and body.a[1] is FALSE and body.a[2] is TRUE:
            return NOT(is_empty(app('trim', base.a[1])))      # some character that is not blank
        return mk_exists(base, v, body)
    return lift(g, it)


def hoist(v, body, build):
    """split atoms of body that do not depend on v out of the binder"""
    at = [a for a in atoms(body) if v.a[0] not in a.fvs] if not isinstance(v, list) else \
        [a for a in atoms(body) if not any(x.a[0] in a.fvs for x in v)]
    if not at:
        return build(body)
    a = at[0]
    return ite(atom(a), hoist(v, assume(body, {a: True}), build), hoist(v, assume(body, {a: False}), build))


def mk_exists(base, v, body):
    if base.op == 'ite':
        return ite(atom(base.a[0]), mk_exists(base.a[1], v, body), mk_exists(base.a[2], v, body))
    if base.op == 'empty' or base.op == 'list' and not base.a:
        return FALSE
    if base.op == 'collect' and base.a[1].op == 'it' and base.a[0] in ('set', 'seq', '?'):
        return exists(base.a[1], lambda e: subst(body, {v: e}))

    def build(b):
        if b is FALSE:
            return FALSE
        if b is TRUE:
            return NOT(is_empty(base))
        # membership idiom
        if b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE and b.a[0].op == 'eq':
            x, y = b.a[0].a
            if x is v and v.a[0] not in y.fvs:
                return mem(base, y)
            if y is v and v.a[0] not in x.fvs:
                return mem(base, x)
        # is-variant equality: eq(v, ctor0)
        if b.op == 'ite' and b.a[1] is TRUE and b.a[2] is FALSE and b.a[0].op == 'is' and b.a[0].a[0] is v and ARITY.get(b.a[0].a[1], 0) == 0:
            return mem(base, ctor(b.a[0].a[1]))
        # one-point rule: exists v. v = y and p(v)  <=>  y in base and p(y)
        if b.op == 'ite':
            for at in atoms(b):
                if at.op != 'eq' or base.op == 'app' and base.a[0] == 'chars':
                    continue
                x, y = at.a
                if y is v:
                    x, y = y, x
                if x is v and v.a[0] not in y.fvs and assume(b, {at: False}) is FALSE:
                    return AND(mem(base, y), subst(assume(b, {at: True}), {v: y}))
        if base.op == 'app' and base.a[0] == 'chars':
            bb = b
            if bb.op == 'ite' and bb.a[1] is TRUE and bb.a[2] is FALSE and bb.a[0].op == 'eq' and \
                    bb.a[0].a[0] is v and bb.a[0].a[1].op == 'char':
                return contains(base.a[1], bb.a[0].a[1])
        return atom(mk('exists', base, lam([v], b)))
    return hoist(v, body, build)


def mem(base, x):
    def g(b, y):
        if b.op == 'empty':
            return FALSE
        if b.op == 'list':
            r = FALSE
            for e in b.a:
                r = OR(r, eq(e, y))
            return r
        if b.op == 'collect':
            return exists(b.a[1], lambda e: eq(e, y))
        if b.op == 'app' and b.a[0] in ('flat', 'chain') and b.a[1].op == 'it':
            return exists(IT(b), lambda e: eq(e, y))
        if b.op == 'app' and b.a[0] in ('chars',) and y.op == 'char':
            return contains(b.a[1], y)
        return atom(mk('mem', b, y))
    return lift(g, base, x)


def is_empty(s):
    def g(x):
        if x.op == 'it':
            if len(x.a) == 1:
                return is_empty(x.a[0])
            return NOT(exists(x, lambda e: TRUE))
        if x.op == 'app' and x.a[0] in ('chars', 'bytes', 'char_indices'):
            return is_empty(x.a[1])
        if x.op == 'app' and x.a[0] in ('trim_start', 'trim_end') and len(x.a) == 2:
            return is_empty(app('trim', x.a[1]))
        if x.op == 'app' and x.a[0] in ('sort', 'sort_by', 'reverse', 'dedup'):
            return is_empty(x.a[1])
        if x.op == 'collect':
            return is_empty(x.a[1])
        if x.op == 'list':
            return B(not x.a)
        if x.op == 'empty':
            return TRUE
        if x.op == 'push':
            return FALSE
        if x.op == 'cat' and any(p.op == 'str' for p in x.a):
            return FALSE
        if x.op == 'app' and x.a[0] in ('split', 'split_inclusive0'):
            return FALSE
        return eq0(slen(x))
    return lift(g, s)


def drop_bot(t):
    if t.op != 'ite':
        return t
    a, b = drop_bot(t.a[1]), drop_bot(t.a[2])
    return b if a is BOT else a if b is BOT else ite(atom(t.a[0]), a, b)


def end_elem(which):
    """first/last of a mapped filter: the mapping applied to the first/last element of the plain filter"""
    def norm(it):
        if it.op != 'it' or len(it.a) == 1 or not isinstance(it.a[1], T) or it.a[1].op != 'lam':
            return None
        base, l = it.a
        v = fresh('e')
        v.ty = elem_type(base)
        body = beta(l, v)
        if all(x is NONE or x.op == 'ctor' and x.a[0] == 'Some' for x in leaves(body)) is False:
            return None
        if all(x is NONE or x.a[1] is v for x in leaves(body)):
            return None
        cond = atom(is_(body, 'Some'))
        f = mk('app', which, IT(base) if cond is TRUE else IT(base, lam([v], ite(cond, Some(v), NONE))))
        if f.ty is None:
            f.ty = v.ty
        w = drop_bot(ite(cond, get(ite(cond, body, BOT), 'Some', 0), BOT))
        return subst(w, {v: f})
    return norm


def first_opt(it, p=None):
    """find first element satisfying p as an Option"""
    def g(x):
        if p is None and x.a[0].op == 'list' and len(x.a) == 1:
            return Some(x.a[0].a[0]) if x.a[0].a else NONE
        if p is None and len(x.a) == 1 and x.a[0].op == 'app' and x.a[0].a[0] == 'rev' and stdm.is_split(x.a[0].a[1]):
            return stdm.last_opt(x.a[0].a[1])
        if p is None and len(x.a) == 1 and x.a[0].op == 'app' and x.a[0].a[0] == 'split' and x.a[0].a[2].op in ('str', 'char'):
            s, d = x.a[0].a[1], x.a[0].a[2]
            d = S(d.a[0])
            return Some(ite(contains(s, d), slice_(s, N(0), mk('pos', s, d)), s))
        y = x if p is None else it_map(x, lambda e: ite(p(e), Some(e), NONE))
        return ite(is_empty(y), NONE, Some(app('first', y)))
    return lift(g, it)


def joined(x):
    """text pieced together with a separator before every element but the first is a join"""
    b = x.a[0]
    if b.op != 'app' or b.a[0] != 'enumerate' or b.a[1].op != 'it' or x.a[1].op != 'lam':
        return None
    e = fresh('joined')
    first, other = (beta(x.a[1], tup(N(i), e)) for i in (0, 1))
    k = fresh('k')
    body = beta(x.a[1], tup(k, e))
    if body is not ite(ge0(add(k, N(-1))), other, first) or not is_(first, 'Some') is TRUE or not is_(other, 'Some') is TRUE:
        return None
    first, other = get(first, 'Some', 0), get(other, 'Some', 0)
    if other.op != 'cat' or other.a[0].op != 'str' or k in subterms(first):
        return None
    sep = other.a[0]
    if cat(*other.a[1:]) is not first:
        return None
    y = b.a[1]
    if len(y.a) == 1 and y.a[0].op == 'list' and not any(i.op == 'spread' for i in y.a[0].a):
        parts = []
        for i in y.a[0].a:
            parts += ([sep] if parts else []) + [subst(first, {e: i})]
        return cat(*parts)
    return app('join', collect('seq', it_map(y, lambda i: Some(subst(first, {e: i})))), sep)


def collect(kind, it):
    def g(x):
        if x.op != 'it':
            return mk('collect', kind, x)
        if kind == 'str' and len(x.a) == 2:
            j = joined(x)
            if j is not None:
                return j
        if kind == 'seq' and len(x.a) == 1 and x.a[0].op in ('list', 'collect') and (x.a[0].op == 'list' or x.a[0].a[0] == 'seq'):
            return x.a[0]
        if kind == 'seq' and len(x.a) == 1 and x.a[0].op == 'proj' and x.a[0].a[0].op == 'fold' and \
                x.a[0].a[0].a[2 + x.a[0].a[1]].op in ('list', 'push', 'collect'):
            return x.a[0]
        if len(x.a) == 1 and kind == 'str' and x.a[0].op == 'app' and x.a[0].a[0] == 'chars':
            return x.a[0].a[1]
        if kind == 'seq' and x.a[0].op == 'app' and x.a[0].a[0] == 'chain' and len(x.a[0].a) == 3:
            p, q = x.a[0].a[1:]
            if p.op == q.op == 'it':
                if len(x.a) > 1:
                    p, q = (it_map(i, lambda y: beta(x.a[1], y)) for i in (p, q))
                return extend(collect('seq', p), q)
        if len(x.a) == 1 and x.a[0].op in ('var', 'field', 'get', 'app', 'bv', 'fresh') and kind == 'seq':
            ty = ELEM_HOOK[0](x.a[0])
            if isinstance(ty, tuple) and ty[0] == 'vec':
                return x.a[0]
        if x.a[0].op == 'list' and kind == 'seq':
            out = mk('list')
            for e in x.a[0].a:
                c = Some(e) if len(x.a) == 1 else beta(x.a[1], e)
                out = ite(is_(c, 'Some'), push(out, get(c, 'Some', 0)), out)
            return out
        return mk('collect', kind, x)
    return lift(g, it)


def push(v, x):
    def g(a, b):
        if a.op == 'list':
            return mk('list', *(a.a + (b,)))
        if a.op == 'empty':
            return mk('list', b) if a.a[0] == 'seq' else mk('push', a, b)
        return mk('push', a, b)
    return lift(g, v, x)


def extend(v, it, kind='seq'):
    def g(a, b):
        if b.op == 'it' and b.a[0].op == 'list' and len(b.a) == 1:
            r = a
            for e in b.a[0].a:
                r = push(r, e)
            return r
        if b.op == 'it' and b.a[0].op == 'app' and b.a[0].a[0] == 'optlist':
            # at most one element
            o = b.a[0].a[1]
            c = Some(get(o, 'Some', 0)) if len(b.a) == 1 else beta(b.a[1], get(o, 'Some', 0))
            return ite(is_(o, 'Some'), ite(is_(c, 'Some'), push(a, get(c, 'Some', 0)), a), a)
        if b.op == 'it' and b.a[0].op == 'app' and b.a[0].a[0] == 'chain' and len(b.a[0].a) == 3 and all(i.op == 'it' for i in b.a[0].a[1:]):
            p, q = b.a[0].a[1:]
            if len(b.a) > 1:
                p, q = (it_map(i, lambda y: beta(b.a[1], y)) for i in (p, q))
            return extend(extend(a, p), q)
        if (a.op == 'list' and not a.a):
            return collect('seq', b)
        if a.op == 'empty':
            return collect(a.a[0], b)
        if a.op == 'str' and a.a[0] == '':
            return collect('str', b)
        return mk('extend', a, b)
    return lift(g, v, it)


def after_mark(s, p):
    '''text from a mark on, searched for another character: the same text after the mark'''
    if s.op == 'slice' and s.a[1].op == 'pos' and s.a[1].a[0] is s.a[0] and s.a[1].a[1].op == 'str' and p.op == 'str' and len(p.a[0]) == 1 \
            and s.a[2] is slen(s.a[0]) and p.a[0] not in s.a[1].a[1].a[0]:
        return slen(s.a[1].a[1])
    return None


def pos_of(s, p):
    if p.op == 'char':
        p = S(p.a[0])
    n = after_mark(s, p)
    if n is not None:
        return add(n, pos_of(slice_(s, n, None), p))
    return mk('pos', s, p)


TM.AFTER[0] = after_mark
for _n in ('exists',):
    TM.REBUILD['exists'] = lambda base, l: exists(IT(base), lambda e: beta(l, e)) if isinstance(l, T) and l.op == 'lam' else \
        lift(lambda b, x: atom(mk('exists', b, x)), base, l)
TM.REBUILD['mem'] = lambda b, x: mem(b, x)
TM.REBUILD['collect'] = lambda k, it: collect(k, it)
TM.REBUILD['push'] = push
TM.REBUILD['extend'] = extend
TM.REBUILD['pos'] = lambda s, p: lift(lambda a, b: pos_of(a, b) if b.op in ('char', 'str') else mk('pos', a, b), s, p)


def _rb_it(base, l=None):
    def g(b):
        return mk('it', b) if l is None else IT(b, l)
    if l is not None and l.op != 'lam':
        raise Unknown('it')
    return lift(g, base)


TM.REBUILD['it'] = _rb_it

# methods that return their receiver's value unchanged for our purposes
TRANSPARENT = {'clone', 'to_owned', 'to_string', 'as_str', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'cloned', 'copied',
               'into', 'borrow', 'borrow_mut', 'as_bytes', 'to_path_buf', 'as_path', 'into_owned', 'to_vec', 'as_slice', 'into_boxed_str',
               'into_string', 'as_os_str', 'to_string_lossy', 'by_ref', 'deref', 'unwrap_unchecked', 'context', 'with_context',
               'into_boxed_slice', 'as_mut_slice', 'display', 'fuse', 'as_mut_str', 'iter_fields'}
CLASSES = {'is_whitespace', 'is_ascii_whitespace', 'is_alphanumeric', 'is_numeric', 'is_ascii_digit', 'is_alphabetic', 'is_control'}
CRATE_DIRS = {'jarl_core': '/jarl-core/src/', 'jarl_lsp': '/jarl-lsp/src/', 'jarl': '/jarl/src/'}


def shared_param(cands, i):
    '''the i-th parameter is a shared reference: nothing is written through it'''
    if len(cands) != 1 or i >= len(cands[0].j['in']):
        return False
    ty = cands[0].j['in'][i].get('ty') or {}
    return ty.get('k') == 'ref' and not ty.get('mut')



def is_builder(t):
    '''a foreign builder under configuration'''
    while t.op in ('app', 'proj', 'fold'):
        if t.op != 'app':
            t = t.a[0] if t.op == 'proj' else t.a[-1]
            if t.op == 'multi':
                t = t.a[0]
            continue
        n = t.a[0]
        if n.startswith('f:'):
            return n.endswith('Builder::new')
        if n.startswith('build') or len(t.a) < 2 or not isinstance(t.a[1], T):
            return False
        t = t.a[1]
    return False


def setter(m, recv, args):
    '''independent settings of a builder commute: keep them in the order of their names'''
    if m.startswith('build') or recv.op != 'app' or recv.a[0].startswith(('f:', 'mut:')) or recv.a[0] <= m:
        return app(m, recv, *args)
    return app(recv.a[0], setter(m, recv.a[1], args), *recv.a[2:])


FOREIGN_KNOWN = {'Vec', 'String', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'FxHashMap', 'FxHashSet', 'PathBuf', 'Path', 'Box', 'Rc', 'Arc', 'VecDeque', 'Cell', 'RefCell', 'Mutex'}
MUTATORS = {'add', 'push', 'push_str', 'insert', 'remove', 'clear', 'extend', 'extend_from_slice', 'pop', 'truncate', 'retain', 'sort', 'sort_by', 'sort_by_key',
            'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'dedup', 'dedup_by', 'dedup_by_key', 'append', 'drain', 'take', 'replace', 'replace_range', 'swap_remove',
            'reverse', 'push_back', 'push_front', 'pop_front', 'pop_back', 'insert_str', 'get_or_insert_with', 'get_or_insert', 'entry',
            'split_off', 'resize', 'fill', 'set', 'swap', 'next', 'write_str', 'next_back', 'extend_from_within'}
LOGM = {'debug', 'info', 'trace', 'warn', 'error', 'debug_assert', 'debug_assert_eq', 'debug_assert_ne', 'debug_span', 'span', 'instrument'}
IO_MACROS = {'println', 'print', 'eprintln', 'eprint', 'write', 'writeln', 'dbg'}
ITER_BASE0 = {'lines', 'chars', 'bytes', 'char_indices', 'split_whitespace', 'keys', 'values', 'values_mut', 'ancestors', 'components',
              'split_ascii_whitespace', 'children', 'descendants', 'split_terminator', 'rsplit', 'splitn', 'rsplitn', 'split', 'split_inclusive',
              'windows', 'chunks', 'match_indices', 'matches', 'rmatch_indices', 'rmatches'}
# std pure functions whose meaning is distinct from one another (the vocabulary in which a difference is a real difference)
ENTRY = ('or_default', 'or_insert', 'or_insert_with')
KNOWN_APPS = {'exists', 'is_dir', 'is_file', 'is_symlink', 'trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen',
              'trim_matches', 'trim_start_matches', 'trim_end_matches', 'first', 'last', 'rev', 'enumerate', 'skip', 'take', 'take_while', 'skip_while',
              'zip', 'chain', 'chars', 'lines', 'bytes', 'char_indices', 'split', 'split_inclusive', 'split_whitespace', 'index', 'count', 'sum', 'max', 'min',
              'disp', 'dbg', 'to_digit', 'parse', 'repeat', 'tail', 'flat', 'values', 'keys', 'len_utf8', 'len_utf16', 'mget', 'insert', 'remove', 'join',
              'step_by', 'nth', 'position', 'rsplit', 'splitn', 'rsplitn', 'split_terminator', 'from_utf8', 'file_stem', 'file_name', 'extension', 'parent',
              'is_file', 'is_dir', 'exists_path', 'range', 'rangei', 'div', 'rem', 'mul', 'sort', 'sort_by', 'dedup', 'replace_range', 'anyerr', 'regex',
              'retain', 'truncate', 'clear', 'pop', 'binary_search', 'partition_point', 'matches', 'ancestors', 'components', 'strip_suffix', 'cast', 'start', 'end', 'text_range', 'text_trimmed_range', 'elapsed'}

# the rule registry (large tables): left symbolic except where the registry itself is examined (C01)
REGISTRY = {'Rule::' + x for x in ('name', 'categories', 'default_status', 'fix_status', 'minimum_r_version', 'deprecation', 'from_name', 'all')}


class Ev:
    def __init__(self, idx, opaque=(), inline=None, depth=12, transparent=(), consts=True, ns='', spec=None, records=None, registry=False):
        self.idx = idx
        self.opaque = set(opaque) | (set() if registry else REGISTRY)
        self.opaque_consts = set() if registry else {'ALL_RULES'}
        self.inline_pol = inline
        self.maxdepth = depth
        self.sites = []
        self.stack = []
        self.ns = ns
        Ev._n = getattr(Ev, '_n', 0) + 1
        self.uid = Ev._n
        self.transparent = TRANSPARENT | set(transparent)
        self.clos = {}
        self.slot = 0
        self.unknowns = []
        self.eval_consts = consts
        self.analysed = set()
        self.raw_err = False
        self.mutslots = set()
        self.stmt_node = None
        self.entries = []
        ELEM_HOOK[0] = self.typeof
        for en, e in idx.enums.items():
            fam = tuple(en + '::' + v['n'] for v in e['v'])
            for v in e['v']:
                FAMILY[en + '::' + v['n']] = fam
                ARITY[en + '::' + v['n']] = [f['n'] for f in v['f']] if v['named'] else len(v['f'])

    # ------------------------------------------------------------ types
    def it_elem(self, t):
        et = elem_type(t.a[0])
        if len(t.a) == 1:
            return et
        v = fresh('e')
        v.ty = et
        r = self.typeof(beta(t.a[1], v))
        return r[1] if isinstance(r, tuple) and r[0] == 'option' else None

    def typeof(self, t):
        if t.ty is not None:
            return 'int' if t.ty == 'nat' else t.ty
        o = t.op
        if o == 'ite':
            a = self.typeof(t.a[1])
            return a if a is not None else self.typeof(t.a[2])
        if o in ('str', 'char', 'int', 'bool', 'unit'):
            return o
        if o in ('cat', 'slice'):
            if o == 'slice':
                return self.typeof(t.a[0])
            return 'str'
        if o in ('lin', 'len', 'pos', 'rpos', 'count'):
            return 'int'
        if o == 'ctor':
            n = t.a[0]
            if n in ('Some', 'None'):
                return ('option', self.typeof(t.a[1]) if len(t.a) > 1 else None)
            if n in ('Ok', 'Err'):
                return ('result', self.typeof(t.a[1]) if n == 'Ok' else None, None)
            if '::' in n:
                return ('adt', n.split('::')[0])
            return ('adt', n)
        if o == 'struct':
            return ('adt', t.a[0].split('::')[0])
        if o == 'tuple':
            return ('tuple',) + tuple(self.typeof(x) for x in t.a)
        if o == 'field':
            bt = self.typeof(t.a[0])
            return self.field_type(bt, t.a[1])
        if o == 'setf':
            return self.typeof(t.a[0])
        if o == 'get':
            bt = self.typeof(t.a[0])
            if isinstance(bt, tuple):
                if bt[0] == 'option':
                    return bt[1]
                if bt[0] == 'result':
                    return bt[1] if t.a[1] == 'Ok' else bt[2]
                if bt[0] == 'adt':
                    en = self.idx.enums.get(bt[1])
                    if en:
                        for v in en['v']:
                            if v['n'] == t.a[1].split('::')[-1]:
                                for i, f in enumerate(v['f']):
                                    if f['n'] == str(t.a[2]):
                                        return conv_type(f['ty'], bt[1], self.idx.aliases)
            return None
        if o == 'it':
            return ('iter', self.it_elem(t))
        if o in ('list', 'push', 'extend'):
            if o == 'list':
                return ('vec', self.typeof(t.a[0]) if t.a else None)
            return self.typeof(t.a[0])
        if o == 'empty':
            return {'seq': ('vec', None), 'map': ('map', None, None), 'set': ('set', None)}.get(t.a[0])
        if o == 'collect':
            if t.a[0] in ('seq', 'set') and len(t.a) > 1 and t.a[1].op == 'it':
                return ('vec' if t.a[0] == 'seq' else 'set', self.it_elem(t.a[1]))
            return {'seq': ('vec', None), 'set': ('set', None), 'str': 'str', 'map': ('map', None, None)}.get(t.a[0])
        if o == 'app':
            n = t.a[0]
            if n.startswith('f:') and n.endswith('::new'):
                k = n.split('::')[-2].replace('f:', '')
                if k[:1].isupper() and k not in self.idx.structs and k not in self.idx.enums and k not in self.idx.aliases and k not in FOREIGN_KNOWN:
                    return ('adt', k)
            if is_builder(t):
                return ('adt', '?Builder')
            if n.startswith('mut:') and len(t.a) > 1 and t.a[1].op == 'app':
                bt = self.typeof(t.a[1])
                if isinstance(bt, tuple) and bt[0] == 'adt':
                    return bt
            if n in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'replace', 'trim_matches', 'trim_start_matches',
                     'trim_end_matches', 'join', 'to_ascii_lowercase', 'disp', 'repeat', 'dbg', 'to_trimmed_string'):
                return 'str'
            if n in ('max', 'min') and len(t.a) == 2:
                return ('option', self.it_elem(t.a[1]) if t.a[1].op == 'it' else None)
            if n in ('len_utf8', 'len_utf16', 'mul', 'div', 'rem', 'max', 'min'):
                return 'int'
            if n == 'chain' and t.a[1].op == 'it':
                et = self.it_elem(t.a[1])
                if et is None and len(t.a) > 2 and t.a[2].op == 'it':
                    et = self.it_elem(t.a[2])
                return ('vec', et)
            if n == 'optlist':
                bt = self.typeof(t.a[1])
                return ('vec', bt[1]) if isinstance(bt, tuple) and bt[0] in ('option', 'result') else None
            if n == 'items' and len(t.a) == 2:
                return ('vec', ('adt', 'PathItem'))
            if n == 'value' and len(t.a) == 2 and self.typeof(t.a[1]) == ('adt', 'PathItem'):
                return ('adt', 'Settings')
            if n in ('read_dir', 'f:fs::read_dir', 'f:read_dir'):
                return ('result', ('vec', ('result', ('adt', 'DirEntry'), None)), None)
            if n == 'flat' and t.a[1].op == 'it':
                et = self.it_elem(t.a[1])
                return ('vec', et[1]) if isinstance(et, tuple) and et[0] in ('vec', 'set', 'iter', 'option') else None
            if n in ('chars',):
                return ('vec', 'char')
            if n in ('lines', 'split', 'split_inclusive', 'split_whitespace', 'rsplit', 'splitn', 'split_terminator'):
                return ('vec', 'str')
            if n == 'char_indices':
                return ('vec', ('tuple', 'int', 'char'))
            if n == 'bytes':
                return ('vec', 'int')
            if n == 'first':
                x = t.a[1]
                if x.op == 'it':
                    if len(x.a) == 1:
                        return elem_type(x.a[0])
                return None
            if n == 'index':
                return elem_type(t.a[1])
            if n == 'values' or n == 'values_mut':
                bt = self.typeof(t.a[1])
                return ('vec', bt[2]) if isinstance(bt, tuple) and bt[0] == 'map' else None
            if n == 'keys':
                bt = self.typeof(t.a[1])
                return ('vec', bt[1]) if isinstance(bt, tuple) and bt[0] == 'map' else None
            if n == 'rev' or n == 'skip' or n == 'take':
                x = t.a[1]
                return self.typeof(x.a[0]) if x.op == 'it' and len(x.a) == 1 else None
            if n == 'enumerate':
                x = t.a[1]
                et = elem_type(x.a[0]) if x.op == 'it' and len(x.a) == 1 else None
                return ('vec', ('tuple', 'int', et))
            if n == 'mget':
                bt = self.typeof(t.a[1])
                return ('option', bt[2]) if isinstance(bt, tuple) and bt[0] == 'map' else None
            if n in ('insert', 'remove', 'clear', 'sort', 'sort_by', 'retain', 'truncate', 'dedup', 'replace_range', 'mut:push_str'):
                return self.typeof(t.a[1])
            if n.startswith('f:'):
                return self.fn_ret.get(n)
        return None

    fn_ret = {}

    def field_type(self, bt, n):
        if isinstance(bt, tuple):
            if bt[0] == 'tuple' and n.isdigit() and int(n) + 1 < len(bt):
                return bt[1 + int(n)]
            if bt[0] == 'adt':
                st = self.idx.structs.get(bt[1])
                if st:
                    for f in st['f']:
                        if f['n'] == n:
                            return conv_type(f['ty'], bt[1], self.idx.aliases)
        return None

    # ------------------------------------------------------------ scope
    def newslot(self):
        self.slot += 1
        return self.slot

    def bind(self, st, name, val):
        s = self.newslot()
        st.scope[name] = s
        st.env[s] = val

    def rd_slot(self, st, s):
        v = st.env.get(s)
        if isinstance(v, Alias):
            return self.rd_place(st, v.place)
        if v is None:
            return mk('uninit')
        return v

    def rd_place(self, st, pl):
        if pl[0] is None:
            raise Unknown('place')
        v = self.rd_slot(st, pl[0])
        for p in pl[1]:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        if p[0] == 'f':
            return field(v, p[1])
        if p[0] == 'v':
            return get(v, p[1], p[2])
        if p[0] == 'i':
            return self.index(v, p[1])
        if p[0] == 'm':
            return get(app('mget', v, p[1]), 'Some', 0)
        if p[0] == 'me':
            return self.unwrap_or_entry(v, p)
        if p[0] == 'L':
            return lift(lambda i: app(p[1], i), self.as_iter(v))
        raise Unknown('proj')

    def unwrap_or_entry(self, v, p):
        m = app('mget', v, p[1])
        return ite(is_(m, 'Some'), get(m, 'Some', 0), p[2])

    def wr_proj(self, old, p, val):
        if p[0] == 'f':
            return setfield(old, p[1], val)
        if p[0] == 'v':
            def g(x, w):
                if x.op == 'ctor' and x.a[0] == p[1] and isinstance(p[2], int):
                    a = list(x.a[1:])
                    a[p[2]] = w
                    return mk('ctor', p[1], *a)
                if x.op == 'ctor':
                    return BOT
                n = ARITY.get(p[1], 1)
                if isinstance(p[2], int) and isinstance(n, int):
                    return ctor(p[1], *[w if i == p[2] else get(x, p[1], i) for i in range(n)])
                return mk('app', 'setv:%s.%s' % (p[1], p[2]), x, w)
            return lift(g, old, val)
        if p[0] == 'i':
            return app('setidx', old, p[1], val)
        if p[0] in ('m', 'me'):
            return app('insert', old, p[1], val)
        if p[0] == 'L':
            return app('set' + p[1], old, val)
        raise Unknown('wr_proj')

    def wr_place(self, st, pl, val):
        slot, projs = pl
        cur = st.env.get(slot)
        if isinstance(cur, Alias):
            return self.wr_place(st, (cur.place[0], cur.place[1] + projs), val)
        if not projs:
            st.env[slot] = val
            return
        olds = [self.rd_slot(st, slot)]
        for p in projs[:-1]:
            olds.append(self.proj(olds[-1], p))
        for old, p in zip(reversed(olds), reversed(projs)):
            val = self.wr_proj(old, p, val)
        st.env[slot] = val

    def wr_typed(self, st, pl, val):
        t = self.typeof(self.rd_place(st, pl))
        for x in leaves(val):
            if x.ty is None and x.op == 'app':
                x.ty = t
        self.wr_place(st, pl, val)

    def place(self, e, st, fr):
        """AST -> place or None"""
        k = e['k']
        if k == 'path' and len(e['p']) == 1:
            n = e['p'][0]['n']
            if n in st.scope:
                s = st.scope[n]
                v = st.env.get(s)
                if isinstance(v, Alias):
                    return v.place
                return (s, ())
            return None
        if k == 'field':
            p = self.place(e['e'], st, fr)
            return p and (p[0], p[1] + (('f', e['f']),))
        if k == 'index':
            p = self.place(e['e'], st, fr)
            if p is None:
                return None
            i = self.ev(e['i'], st, fr)
            return (p[0], p[1] + (('i', i),))
        if k in ('ref',) or (k == 'unary' and e['op'] == '*'):
            return self.place(e['e'], st, fr)
        if k == 'mcall' and e['m'] in ('as_mut', 'as_deref_mut', 'borrow_mut', 'deref_mut', 'as_mut_slice', 'by_ref'):
            return self.place(e['r'], st, fr)
        if k == 'mcall' and e['m'] in ('lock', 'write') and not e['a']:
            return self.place(e['r'], st, fr)
        if k == 'mcall' and e['m'] in ('unwrap', 'expect'):
            r = e['r']
            if r['k'] == 'mcall' and r['m'] in ('lock', 'write', 'read') and not r['a']:
                return self.place(r['r'], st, fr)
            return self.opt_place(r, st, fr)
        if k == 'try':
            return self.opt_place(e['e'], st, fr)
        if k == 'mcall' and e['m'] in ENTRY and e['r']['k'] == 'mcall' and e['r']['m'] == 'entry':
            pm = self.place(e['r']['r'], st, fr)
            if pm is None:
                return None
            key = self.ev(e['r']['a'][0], st, fr)
            if e['m'] == 'or_default':
                t = self.typeof(self.rd_place(st, pm))
                d = self.empty(t[2]) if isinstance(t, tuple) and t[0] == 'map' and len(t) > 2 else mk('app', 'default')
            elif e['m'] == 'or_insert':
                d = self.ev(e['a'][0], st, fr)
            else:
                d = self.callf(self.ev(e['a'][0], st, fr), [], st, fr)
            return pm[0], pm[1] + (('me', key, d),)
        if k == 'mcall' and e['m'] in ('get_mut', 'into_mut') and not e['a'] and e['r']['k'] == 'path':
            t = self.entry_of(e['r'], st)
            if t is not None:
                return t[0][0], t[0][1] + (('m', t[1]),)
        if k == 'mcall' and not e['a']:
            f = self.getter(e, st, fr)
            if f is not None:
                p = self.place(e['r'], st, fr)
                return p and (p[0], p[1] + tuple(('f', x) for x in f))
        return None

    def entry_of(self, e, st):
        """(map place, key) when the expression names the payload of a map entry being matched on"""
        if e['k'] == 'path' and len(e['p']) == 1 and e['p'][0]['n'] in st.scope:
            t = st.env.get(st.scope[e['p'][0]['n']])
            if isinstance(t, T) and t.op == 'app' and t.a[0] == 'entrytok':
                return self.entries[t.a[1].a[0]]
        return None

    def entry_call(self, e, st, fr):
        pm, key = self.entry_of(e['r'], st)
        pl = pm[0], pm[1] + (('m', key),)
        n = len(e['a'])
        if e['m'] in ('get', 'get_mut', 'into_mut') and n == 0:
            return self.rd_place(st, pl)
        if e['m'] in ('key', 'into_key') and n == 0:
            return key
        if e['m'] in ('insert', 'insert_entry') and n == 1:
            old = self.rd_place(st, pl)
            v = self.ev(e['a'][0], st, fr)
            if st.pc is not FALSE:
                self.wr_place(st, pl, v)
            return old          # (of an occupied entry; a vacant one yields the value, which callers ignore)
        if e['m'] in ('remove', 'remove_entry') and n == 0:
            old = self.rd_place(st, pl)
            self.wr_place(st, pm, app('remove', self.rd_place(st, pm), key))
            return old if e['m'] == 'remove' else tup(key, old)
        raise Unknown('entry api')

    def getter(self, e, st, fr):
        """fields selected by a method that only returns a reference to a field of self"""
        c = [f for f in self.idx.methods.get(e['m'], []) if f.has_self and len(f.j['in']) == 1]
        if not c or e['m'] in STD_METHODS:
            return None
        if len(c) > 1:
            pl = self.place(e['r'], st, fr)
            if pl is None:
                return None
            t = self.typeof(self.rd_place(st, pl))
            c = [f for f in c if isinstance(t, tuple) and t[0] == 'adt' and f.owner == t[1]]
        if len(c) != 1 or c[0].j['b'] is None or c[0].j['out'] is None or c[0].j['out'].get('k') != 'ref':
            return None
        b = c[0].j['b']
        if len(b) != 1 or b[0]['k'] != 'expr' or b[0].get('semi'):
            return None
        x, out = b[0]['e'], []
        while x['k'] in ('ref', 'field'):
            if x['k'] == 'field':
                out.insert(0, x['f'])
            x = x['e']
        return out if out and x['k'] == 'path' and len(x['p']) == 1 and x['p'][0]['n'] == 'self' else None

    def opt_place(self, r, st, fr):
        """place of the payload of an Option/Result expression"""
        while r['k'] == 'mcall' and r['m'] in ('ok_or', 'ok_or_else', 'context', 'with_context', 'map_err', 'ok'):
            r = r['r']
        if r['k'] == 'mcall' and r['m'] == 'get_mut' and len(r['a']) == 1:
            p = self.place(r['r'], st, fr)
            return p and (p[0], p[1] + (('m', self.ev(r['a'][0], st, fr)),))
        if r['k'] == 'mcall' and r['m'] == 'as_mut' and not r['a']:
            p = self.place(r['r'], st, fr)
            return p and (p[0], p[1] + (('v', 'Some', 0),))
        if r['k'] == 'mcall' and r['m'] in ('last_mut', 'first_mut') and not r['a']:
            p = self.place(r['r'], st, fr)
            return p and (p[0], p[1] + (('L', r['m'][:-4]),))
        return None

    # ------------------------------------------------------------ sites
    effects = ()

    def site(self, name, recv, args, st, fr, line, path='', node=None):
        if (name in self.effects or '::' in name and name.split('::')[-1] in self.effects) and 0 in st.env:
            name = name.split('::')[-1]
            from .ev import push as _p
            st.env[0] = _p(st.env[0], tup(S(name), *[a for a in args if isinstance(a, T)]))
        elif '.' + name.split('::')[-1] in self.effects and recv is not None and 0 in st.env:       # with the receiver
            st.env[0] = push(st.env[0], tup(S(name.split('::')[-1]), recv, *[a for a in args if isinstance(a, T)]))
        self.sites.append(Site(name, recv, args, AND(fr.outer, st.pc), line, fr.fn, path or name, node))

    def panic_if(self, cond, st, fr, line, what):
        """control reaches here; panics when cond"""
        c = AND(st.pc, cond)
        if c is FALSE:
            return
        self.sites.append(Site('panic', None, [S(what), cond, AND(fr.outer, st.pc)], AND(fr.outer, c), line, fr.fn, what))
        if self.track_panics:
            fr.rets.append((c, PANIC, None))
            st.pc = AND(st.pc, NOT(cond))

    track_panics = False
    assume_ok = False       # `?` on an unknown result takes the success path (well-formed input)
    passive = {}            # name -> result of an opaque call that is only recorded as an effect

    # ------------------------------------------------------------ merging
    def merge(self, st, c, a, b):
        """st := if c then a else b (states forked from st)"""
        if a.pc is FALSE and b.pc is FALSE:
            st.pc = FALSE
            return
        if a.pc is FALSE:
            st.pc = b.pc
            st.env = dict(b.env)
            return
        if b.pc is FALSE:
            st.pc = a.pc
            st.env = dict(a.env)
            return
        st.pc = OR(a.pc, b.pc)
        env = {}
        for s in st.env:
            x, y = a.env.get(s), b.env.get(s)
            if x is None or y is None:
                env[s] = y if x is None else x
                continue
            if x is y or isinstance(x, Alias) or isinstance(y, Alias):
                if isinstance(x, Alias) and isinstance(y, Alias) and x.place == y.place:
                    env[s] = x
                elif x is y:
                    env[s] = x
                elif isinstance(x, T) and isinstance(y, T):
                    env[s] = ite(c, x, y)
                elif isinstance(x, Alias) or isinstance(y, Alias):
                    raise Unknown('gated alias')
            else:
                env[s] = ite(c, x, y)
        st.env = env

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        saved = dict(st.scope)
        # items: nothing to do
        val = UNIT
        for i, s in enumerate(stmts):
            if st.pc is FALSE:
                val = BOT
                break
            k = s['k']
            val = UNIT
            if k == 'local':
                self.local(s, st, fr)
            elif k == 'expr':
                if s['semi'] and s['e']['k'] == 'mcall':
                    self.stmt_node = s['e']
                v = self.ev(s['e'], st, fr)
                if not s['semi']:
                    val = v
                elif i == len(stmts) - 1:
                    val = UNIT
        if st.pc is FALSE:
            val = BOT
        st.scope = saved
        return val

    def local(self, s, st, fr):
        p = s['p']
        hint = None
        if p['k'] == 'type':
            hint = conv_type(p['ty'], fr.self_ty, self.idx.aliases)
            p = p['p']
        if s['e'] is None:
            if p['k'] == 'ident':
                self.bind(st, p['n'], mk('uninit'))
            return
        # mutable alias bindings
        e = s['e']
        if p['k'] == 'ident' and s['else'] is None and self.is_mut_ref_expr(e, st, fr):
            pl = self.place(e, st, fr)
            if pl is not None:
                if e['k'] == 'try' or e['k'] == 'mcall' and e['m'] in ('unwrap', 'expect') + ENTRY:
                    self.ev(e, st, fr)      # early return / panic
                    if st.pc is FALSE:
                        return
                sl = self.newslot()
                st.scope[p['n']] = sl
                st.env[sl] = Alias(pl)
                return
        if p['k'] == 'ident' and p['mut']:
            self.mutslots.add(self.slot + 1)
        base, projs, mutable = self.scrut(e, st, fr)
        if not mutable:
            v = self.ev(e, st, fr, hint=hint)
            v = self.coerce(v, hint)
            pl = None
        else:
            v, pl = base, projs
        if v is BOT:
            return
        c, binds = self.pat(p, v, st, fr, pl)
        if s['else'] is not None:
            st2 = st.fork()
            st2.pc = AND(st.pc, NOT(c))
            if st2.pc is not FALSE:
                self.ev(s['else'], st2, fr)
            st.pc = AND(st.pc, c)
        self.apply_binds(st, binds)

    def coerce(self, v, hint):
        if hint is None or not isinstance(v, T):
            return v
        if isinstance(hint, tuple) and hint[0] in ('set', 'map', 'vec') or hint == 'str':
            k = {'set': 'set', 'map': 'map', 'vec': 'seq'}.get(hint[0] if isinstance(hint, tuple) else '', 'str')

            def f(x):
                if x.op == 'collect' and x.a[0] == '?':
                    return collect(k, x.a[1])
                if x.op == 'empty' and x.a[0] == '?':
                    return self.empty(hint)
                return x
            v = lift(f, v)
        for x in leaves(v):
            if x.ty is None and x.op in ('app', 'field', 'get', 'var') and self.typeof(x) is None:
                x.ty = hint
        return v

    def empty(self, ty):
        k = ty[0] if isinstance(ty, tuple) else ty
        if k == 'str':
            return S('')
        if k == 'vec':
            return mk('list')
        if k in ('set', 'map'):
            return mk('empty', k)
        if k == 'option':
            return NONE
        if k == 'int':
            return N(0)
        if k == 'bool':
            return FALSE
        if k == 'adt':
            r = self.default_of(ty[1])
            if r is not None:
                return r
        return mk('app', 'default')

    def default_of(self, n):
        '''the Default of a type of the code base (written or derived)'''
        c = [f for f in self.idx.fns if f.qual == n + '::default']
        if len(c) == 1 and c[0].j['b'] is not None and not c[0].j['in']:
            if not self.can_inline(c[0], c[0].qual):
                return mk('app', 'f:' + c[0].qual)
            st = State()
            fr = Frame(c[0], n, TRUE, conv_type(c[0].j['out'], n, self.idx.aliases))
            self.stack.append(c[0])
            self.analysed.add(c[0])
            try:
                v = self.coerce(self.block(c[0].j['b'], st, fr), fr.ret_ty)
            finally:
                self.stack.pop()
            return v if not fr.rets else None
        d = self.idx.structs.get(n)
        if d is not None and any('derive' in a.get('s', '') and 'Default' in a.get('s', '') for a in d.get('attrs') or ()) and not c:
            return struct(n, {f['n']: self.empty(conv_type(f['ty'], n, self.idx.aliases)) for f in d['f']})
        return None

    def is_mut_ref_expr(self, e, st, fr):
        if e['k'] == 'ref' and e['mut']:
            return True
        if e['k'] == 'mcall' and e['m'] in ('borrow_mut',) and not e['a']:
            return True
        if e['k'] == 'mcall' and e['m'] in ENTRY and e['r']['k'] == 'mcall' and e['r']['m'] == 'entry':
            return True
        if e['k'] == 'mcall' and e['m'] in ('unwrap', 'expect'):
            r = e['r']
            return r['k'] == 'mcall' and (r['m'] in ('lock', 'write', 'read') and not r['a'] or r['m'] in ('get_mut', 'as_mut', 'last_mut', 'first_mut'))
        if e['k'] == 'try':
            r = e['e']
            while r['k'] == 'mcall' and r['m'] in ('ok_or', 'ok_or_else', 'context', 'with_context', 'map_err', 'ok'):
                r = r['r']
            return r['k'] == 'mcall' and r['m'] in ('get_mut', 'as_mut', 'last_mut', 'first_mut')
        if e['k'] == 'mcall' and not e['a'] and e['m'] in self.idx.methods:
            return self.getter(e, st, fr) is not None
        return False

    def scrut(self, e, st, fr):
        """scrutinee evaluation: (value, place, is_mutable_place)"""
        if e['k'] == 'ref' and e['mut']:
            pl = self.place(e, st, fr)
            if pl:
                return self.rd_place(st, pl), pl, True
        if e['k'] == 'mcall' and e['m'] in ('as_mut', 'as_deref_mut', 'iter_mut', 'borrow_mut') and not e['a']:
            pl = self.place(e['r'], st, fr)
            if pl:
                return self.rd_place(st, pl), pl, True
        if e['k'] == 'mcall' and e['m'] == 'entry' and len(e['a']) == 1:
            pl = self.place(e['r'], st, fr)
            if pl:
                key = self.ev(e['a'][0], st, fr)
                self.entries.append((pl, key))
                tok = mk('app', 'entrytok', N(len(self.entries) - 1))
                return ite(is_(app('mget', self.rd_place(st, pl), key), 'Some'), ctor('Entry::Occupied', tok), ctor('Entry::Vacant', tok)), None, True
        if e['k'] == 'mcall' and e['m'] == 'get_mut' and len(e['a']) == 1:
            pl = self.place(e['r'], st, fr)
            if pl:
                key = self.ev(e['a'][0], st, fr)
                m = self.rd_place(st, pl)
                # Option whose payload is the place (pl, key)
                return app('mget', m, key), (pl[0], pl[1] + (('m?', key),)), True
        if e['k'] == 'mcall' and e['m'] in ('last_mut', 'first_mut') and not e['a']:
            pl = self.place(e['r'], st, fr)
            if pl:
                m = self.rd_place(st, pl)
                w = e['m'][:-4]
                return lift(lambda i: ite(is_empty(i), NONE, Some(app(w, i))), self.as_iter(m)), (pl[0], pl[1] + (('L?', w),)), True
        if e['k'] == 'path' and len(e['p']) == 1 and e['p'][0]['n'] in st.scope:
            s = st.scope[e['p'][0]['n']]
            if isinstance(st.env.get(s), Alias):
                pl = st.env[s].place
                return self.rd_place(st, pl), pl, True
        return None, None, False

    def apply_binds(self, st, binds):
        for n, v in binds:
            if isinstance(v, tuple):      # place
                sl = self.newslot()
                st.scope[n] = sl
                st.env[sl] = Alias(v)
            else:
                self.bind(st, n, v)

    # ------------------------------------------------------------ patterns
    def pat(self, p, v, st, fr, pl=None):
        k = p['k']
        sub_pl = lambda pr: None if pl is None else ((pl[0], pl[1][:-1] + ((pl[1][-1][0][0], pl[1][-1][1]),)) if pl[1] and pl[1][-1][0] in ('m?', 'L?') else (pl[0], pl[1] + (pr,)))
        if k == 'type':
            return self.pat(p['p'], v, st, fr, pl)
        if k in ('wild', 'rest'):
            return TRUE, []
        if k == 'ident':
            n = p['n']
            if n[0].isupper() and p['sub'] is None and not p['mut']:
                return self.path_pat([{'n': n, 'g': None}], v, fr)
            b = [(n, pl if pl is not None else v)]
            if p['sub']:
                c, bb = self.pat(p['sub'], v, st, fr, pl)
                return c, b + bb
            return TRUE, b
        if k == 'lit':
            return eq(v, self.lit(p['v'])), []
        if k == 'path':
            return self.path_pat(p['p'], v, fr)
        if k == 'tuple':
            c = TRUE
            bs = []
            els = p['e']
            n = len(els)
            ri = next((i for i, x in enumerate(els) if x['k'] == 'rest'), None)
            for i, x in enumerate(els):
                if x['k'] == 'rest':
                    continue
                if ri is not None and i > ri:
                    raise Unknown('tuple rest pattern')
                cc, bb = self.pat(x, field(v, str(i)), st, fr, sub_pl(('f', str(i))))
                c = AND(c, cc)
                bs += bb
            return c, bs
        if k == 'ts':
            name = self.ctor_name(p['p'], fr)
            if name is None or name in self.idx.structs:
                c = TRUE
                g = lambda i: field(v, str(i))
                pr = lambda i: ('f', str(i))
            else:
                c = is_(v, name)
                g = lambda i: get(v, name, i)
                pr = lambda i: ('v', name, i)
            bs = []
            for i, x in enumerate(p['e']):
                if x['k'] == 'rest':
                    break
                cc, bb = self.pat(x, g(i), st, fr, sub_pl(pr(i)))
                c = AND(c, cc)
                bs += bb
            return c, bs
        if k == 'struct':
            name = self.ctor_name(p['p'], fr)
            isvar = name and '::' in name and name.split('::')[0] in self.idx.enums or (name and '::' in name and name.split('::')[0] not in self.idx.structs)
            c = is_(v, name) if isvar else TRUE
            bs = []
            for f in p['f']:
                if isvar:
                    fv, pr = get(v, name, f['n']), ('v', name, f['n'])
                else:
                    fv, pr = field(v, f['n']), ('f', f['n'])
                cc, bb = self.pat(f['p'], fv, st, fr, sub_pl(pr))
                c = AND(c, cc)
                bs += bb
            return c, bs
        if k == 'or':
            c = FALSE
            bs = {}
            for x in p['e']:
                cc, bb = self.pat(x, v, st, fr, None)
                for n, val in bb:
                    bs[n] = ite(c, bs[n], val) if n in bs else val
                c = OR(c, cc)
            return c, list(bs.items())
        if k == 'range':
            c = TRUE
            lo = self.ev(p['lo'], st, fr) if p['lo'] else None
            hi = self.ev(p['hi'], st, fr) if p['hi'] else None
            if (lo is not None and lo.op == 'char') or (hi is not None and hi.op == 'char'):
                return atom(mk('pred', 'charrange', v, lo or UNIT, hi or UNIT)), []
            if lo is not None:
                c = AND(c, ge0(sub(v, lo)))
            if hi is not None:
                c = AND(c, ge0(sub(sub(hi, v), N(0 if p['closed'] else 1))))
            return c, []
        if k == 'slice':
            els = p['e']
            ri = next((i for i, x in enumerate(els) if x['k'] == 'rest' or (x['k'] == 'ident' and x.get('sub') and x['sub']['k'] == 'rest')), None)
            n = len(els) - (1 if ri is not None else 0)
            c = eq(slen(v), N(n)) if ri is None else ge0(sub(slen(v), N(n)))
            bs = []
            for i, x in enumerate(els):
                if i == ri:
                    if x['k'] == 'ident':
                        bs.append((x['n'], slice_(v, N(i), sub(slen(v), N(len(els) - 1 - i)))))
                    continue
                j = N(i) if ri is None or i < ri else sub(slen(v), N(len(els) - i))
                cc, bb = self.pat(x, self.index(v, j), st, fr)
                c = AND(c, cc)
                bs += bb
            return c, bs
        raise Unknown('pattern %s' % k)

    def path_pat(self, path, v, fr):
        name = self.ctor_name(path, fr)
        n = path[-1]['n']
        if len(path) == 1 and n not in ('None',) and n in self.idx.consts and n.isupper():
            return eq(v, self.const(n, fr)), []
        if len(path) >= 2 and n in self.idx.consts and n.isupper():
            for owner, file, e, ty in self.idx.consts[n]:
                if owner == self.res_self(path[-2]['n'], fr):
                    return eq(v, self.const(n, fr, owner)), []
        return is_(v, name), []

    def res_self(self, n, fr):
        if n == 'Self' and fr.self_ty:
            return fr.self_ty
        return fr.generics.get(n, n) if fr.generics else n

    def bind_generics(self, f, nf, targs, fr):
        """type parameters given explicitly at the call site"""
        if not targs:
            return
        names = [g.split(':')[0].strip() for g in f.j.get('gen') or [] if not g.strip().startswith("'")]
        for n, t in zip(names, targs):
            if isinstance(t, dict) and t.get('k') == 'path':
                nf.generics[n] = self.res_self(t['p'][-1]['n'], fr)

    def ctor_name(self, path, fr):
        segs = [s['n'] for s in path]
        segs = [self.res_self(s, fr) for s in segs]
        n = segs[-1]
        if n in ('Some', 'None', 'Ok', 'Err') and (len(segs) == 1 or segs[-2] in ('Option', 'Result')):
            return n
        if len(segs) >= 2 and segs[-2][0].isupper():
            en = segs[-2]
            a = self.idx.uses.get(fr.file, {}).get(en)
            if a and a.split('::')[-1] != en:
                en = a.split('::')[-1]
            al = self.idx.aliases.get(en)
            if al and al['k'] == 'path':
                en = al['p'][-1]['n']
            return en + '::' + n
        u = self.idx.uses.get(fr.file, {}).get(n)
        if u:
            us = u.split('::')
            if len(us) >= 2 and us[-2][0].isupper():
                return us[-2] + '::' + us[-1]
            return us[-1]
        if len(segs) == 1 and n in self.idx.variants and n not in self.idx.structs:
            # glob-imported variant
            ens = self.idx.variants[n]
            globs = [x for x in self.idx.uses.get(fr.file, {}).values() if x.endswith('::*')]
            for en in ens:
                if any(g.split('::')[-2] == en for g in globs):
                    return en + '::' + n
        return n

    def const(self, n, fr, owner=None):
        cs = self.idx.consts.get(n, [])
        c = [x for x in cs if x[0] == owner] or cs
        same = [x for x in c if x[1] == fr.file]
        c = same or c
        if len(c) >= 1:
            try:
                f2 = Frame(fr.fn, owner, TRUE, None)
                v = self.ev(c[0][2], State(), f2)
                ty = conv_type(c[0][3], owner, self.idx.aliases)
                if any(x.op == 'app' and x.a[0].startswith('?') for x in subterms(v)):
                    raise Unknown('const')
                return v
            except Unknown:
                pass
        return mk('const', (owner + '::' if owner else '') + n)

    def lit(self, l):
        t = l['t']
        if t == 'str':
            return S(l['v'])
        if t == 'char':
            return C(l['v'])
        if t == 'int':
            return N(int(l['v']))
        if t == 'bool':
            return B(l['v'])
        if t == 'byte':
            return C(chr(l['v']))
        if t == 'bytestr':
            return S(l['v'])
        if t == 'float':
            return mk('float', l['v'])
        return mk('lit', str(l['v']))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr, hint=None):
        if st.pc is FALSE:
            return BOT
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unknown('expr %s (line %s)' % (e['k'], e.get('l')))
        if e['k'] in ('mcall', 'call', 'macro', 'block', 'if', 'match', 'try'):
            return m(e, st, fr, hint)
        return m(e, st, fr)

    def e_lit(self, e, st, fr):
        return self.lit(e['v'])

    def e_path(self, e, st, fr):
        p = e['p']
        n = p[-1]['n']
        if len(p) == 1 and n in st.scope:
            v = self.rd_slot(st, st.scope[n])
            return v
        if len(p) == 1 and n == 'self':
            raise Unknown('self')
        if n in self.idx.consts and (n.upper() == n):
            owner = self.res_self(p[-2]['n'], fr) if len(p) > 1 else None
            if len(p) == 1 or any(c[0] == owner for c in self.idx.consts[n]) or any(c[0] is None for c in self.idx.consts[n]):
                if self.eval_consts and n not in self.opaque_consts:
                    return self.const(n, fr, owner if any(c[0] == owner for c in self.idx.consts[n]) else None)
                return mk('const', n)
        if n in ('MAX', 'MIN') and len(p) > 1 and p[-2]['n'] in INTS:
            b, sg = INTS[p[-2]['n']]
            return N((1 << (b - sg)) - 1 if n == 'MAX' else -(1 << (b - 1)) if sg else 0)
        if n in ('SUCCESS', 'FAILURE') and len(p) > 1 and p[-2]['n'] == 'ExitCode':
            return app('f:ExitCode::from', N(0 if n == 'SUCCESS' else 1))
        if n[0].isupper():
            cn = self.ctor_name(p, fr)
            ar = ARITY.get(cn)
            if ar:
                return mk('fnref', cn)
            if cn in self.idx.structs and self.idx.structs[cn]['tuple']:
                return mk('fnref', cn)
            if cn in self.idx.structs:
                return struct(cn, {})
            return ctor(cn)
        if n in CLASSES:
            return mk('cls', n)
        return mk('fnref', '::'.join(self.res_self(s['n'], fr) for s in p))

    def e_field(self, e, st, fr):
        return field(self.ev(e['e'], st, fr), e['f'])

    def e_index(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        i = e['i']
        if i['k'] == 'range':
            lo = self.ev(i['lo'], st, fr) if i['lo'] else N(0)
            hi = self.ev(i['hi'], st, fr) if i['hi'] else None
            if hi is not None and i['closed']:
                hi = add(hi, N(1))
            self.site('slice_index', v, [lo, hi if hi is not None else UNIT], st, fr, e['l'], node=e)
            return slice_(v, lo, hi)
        iv = self.ev(i, st, fr)
        self.site('index', v, [iv], st, fr, e['l'], node=e)
        return self.index(v, iv)

    def index(self, v, i):
        def g(x, j):
            if x.op == 'list' and j.op == 'int':
                return x.a[j.a[0]] if 0 <= j.a[0] < len(x.a) else PANIC
            if j.op == 'lin' and x.op == 'collect' and x.a[0] == 'seq' and add(j, N(1)) is slen(x):
                return lift(lambda i: app('last', i), self.as_iter(x))
            if j.op == 'lin' and stdm.is_split(IT(x)) and add(j, N(1)) is slen(x):
                return app('last', IT(x))
            if x.op == 'slice':
                return mk('app', 'index', x.a[0], add(x.a[1], j))
            if j is N(0) and x.op in ('collect', 'var', 'field', 'get'):
                return lift(lambda i: app('first', i), self.as_iter(x) if x.op == 'collect' and x.a[0] == 'seq' else IT(x))
            return mk('app', 'index', x, j)
        return lift(g, v, i)

    def e_unary(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        if e['op'] == '*':
            return v
        if e['op'] == '!':
            return NOT(self.b(v))
        if e['op'] == '-':
            return scale(v, -1) if v.op in ('int', 'lin') else app('neg', v)
        raise Unknown('unary')

    def b(self, v):
        """as boolean decision"""
        if v.op in ('ite', 'bool', 'bot'):
            return lift(lambda x: x if x.op in ('bool', 'panic') else atom(x), v) if v.op == 'ite' else v
        return atom(v)

    def e_binary(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.b(self.ev(e['a'], st, fr))
            if st.pc is FALSE:
                return BOT
            s2 = st.fork()
            s2.pc = AND(st.pc, a if op == '&&' else NOT(a))
            s2.scope = st.scope     # let-chains bind into the surrounding scope
            if s2.pc is FALSE:
                return a
            bb = self.b(self.ev(e['b'], s2, fr))
            # merge side effects of b
            s3 = st.fork()
            s3.pc = AND(st.pc, NOT(a) if op == '&&' else a)
            scope = s2.scope
            for s in s2.env:
                if s not in st.env:
                    st.env[s] = s2.env[s]
            keep = {s: v for s, v in st.env.items()}
            self.merge(st, a if op == '&&' else NOT(a), s2, s3)
            for s, v in keep.items():
                if s not in st.env or st.env[s] is None:
                    st.env[s] = v
            st.scope = scope
            return AND(a, bb) if op == '&&' else OR(a, bb)
        a = self.ev(e['a'], st, fr)
        b = self.ev(e['b'], st, fr)
        return self.binop(op, a, b, st, fr, e)

    def binop(self, op, a, b, st, fr, e):
        if a is BOT or b is BOT:
            return BOT
        if op == '==':
            return eq(self.strip_it(a), self.strip_it(b))
        if op == '!=':
            return NOT(eq(a, b))
        if op in ('<', '<=', '>', '>='):
            ta, tb = self.typeof(a), self.typeof(b)
            num = ('int',)
            if (ta in num or tb in num or ta is None and tb is None) and ta not in ('char', 'str') and tb not in ('char', 'str'):
                if op == '<':
                    return ge0(sub(sub(b, a), N(1)))
                if op == '<=':
                    return ge0(sub(b, a))
                if op == '>':
                    return ge0(sub(sub(a, b), N(1)))
                return ge0(sub(a, b))
            # opaque total order: lt(a,b)
            if op == '<':
                return lift(lambda x, y: atom(mk('pred', 'lt', x, y)), a, b)
            if op == '>':
                return lift(lambda x, y: atom(mk('pred', 'lt', y, x)), a, b)
            if op == '<=':
                return NOT(lift(lambda x, y: atom(mk('pred', 'lt', y, x)), a, b))
            return NOT(lift(lambda x, y: atom(mk('pred', 'lt', x, y)), a, b))
        if op == '+':
            if self.typeof(a) == 'str' or self.typeof(b) == 'str':
                return cat(a, b)
            return add(a, b)
        if op == '-':
            self.site('sub', a, [b], st, fr, e.get('l', 0), node=e)
            return sub(a, b)
        if op == '*':
            if b.op == 'int':
                return scale(a, b.a[0])
            if a.op == 'int':
                return scale(b, a.a[0])
            return app('mul', a, b)
        if op in ('&', '|') and (isbool(a) or isbool(b) or self.typeof(a) == 'bool'):
            return AND(self.b(a), self.b(b)) if op == '&' else OR(self.b(a), self.b(b))
        if op == '^' and (isbool(a) or isbool(b)):
            return ite(self.b(a), NOT(self.b(b)), self.b(b))
        return app({'/': 'div', '%': 'rem'}.get(op, 'op' + op), a, b)

    def strip_it(self, v):
        return v

    def e_assign(self, e, st, fr):
        v = self.ev(e['b'], st, fr)
        if st.pc is FALSE:
            return BOT
        lhs = e['a']
        if lhs['k'] == 'path' and lhs['p'][-1]['n'] == '_':
            return UNIT
        if lhs['k'] == 'other' and lhs.get('s') == '_':
            return UNIT
        if lhs['k'] == 'tuple':
            for i, x in enumerate(lhs['e']):
                if x['k'] == 'other' and x.get('s') == '_':
                    continue
                pl = self.place(x, st, fr)
                if pl is None:
                    raise Unknown('assign')
                self.wr_place(st, pl, field(v, str(i)))
            return UNIT
        pl = self.place(lhs, st, fr)
        if pl is None:
            raise Unknown('assign target')
        if any(x.op == 'collect' and x.a[0] == '?' for x in leaves(v)):
            t = self.typeof(self.rd_place(st, pl))
            v = self.coerce(v, t) if isinstance(t, tuple) and t[0] in ('set', 'vec', 'map') else v
        self.wr_place(st, pl, v)
        return UNIT

    def e_assignop(self, e, st, fr):
        pl = self.place(e['a'], st, fr)
        if pl is None:
            raise Unknown('assign target')
        v = self.ev(e['b'], st, fr)
        old = self.rd_place(st, pl)
        if e['op'] in ('|', '&') and (isbool(old) or isbool(v)):
            r = OR(self.b(old), self.b(v)) if e['op'] == '|' else AND(self.b(old), self.b(v))
        else:
            r = self.binop(e['op'], old, v, st, fr, e)
        self.wr_place(st, pl, r)
        return UNIT

    def e_ref(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_block(self, e, st, fr, hint=None):
        if e.get('label'):
            lp = Loop(e['label'])
            lp.block = True
            fr.loops.append(lp)
            v = self.block(e['b'], st, fr)
            fr.loops.pop()
            # breaks with values
            res, pcs = v, st.pc
            for pc, env, val in reversed(lp.breaks):
                res = ite(pc, val, res)
                newenv = {}
                for s in st.env:
                    x = env.get(s)
                    y = st.env[s]
                    if pcs is FALSE:
                        newenv[s] = x
                    elif x is y or isinstance(x, Alias) or x is None:
                        newenv[s] = y
                    else:
                        newenv[s] = ite(pc, x, y)
                st.env = newenv
                pcs = OR(pcs, pc)
            st.pc = pcs
            return res
        return self.block(e['b'], st, fr)

    def cond(self, e, st, fr):
        """evaluate an if/while condition; let bindings are added to st.scope; returns bool term"""
        return self.b(self.ev(e, st, fr))

    def e_let(self, e, st, fr):
        base, pl, mutable = self.scrut(e['e'], st, fr)
        v = base if mutable else self.ev(e['e'], st, fr)
        if v is BOT:
            return BOT
        c, binds = self.pat(e['p'], v, st, fr, pl if mutable else None)
        self.apply_binds(st, binds)
        return c

    def e_if(self, e, st, fr, hint=None):
        saved = dict(st.scope)
        c = self.cond(e['c'], st, fr)
        if st.pc is FALSE:
            return BOT
        a = st.fork()
        a.pc = AND(st.pc, c)
        b = st.fork()
        b.scope = dict(saved)
        b.pc = AND(st.pc, NOT(c))
        va = self.block(e['t'], a, fr) if a.pc is not FALSE else BOT
        vb = BOT
        if b.pc is not FALSE:
            vb = self.ev(e['e'], b, fr, hint) if e['e'] else UNIT
        self.merge(st, c, a, b)
        st.scope = saved
        if a.pc is FALSE:
            return vb
        if b.pc is FALSE:
            return va
        return self.typed_default(ite(c, va, vb))

    def typed_default(self, v):
        '''`Default::default()` next to values of a known type'''
        if v.op != 'ite':
            return v
        ls = leaves(v)
        if not any(l.op == 'app' and l.a == ('default',) for l in ls):
            return v
        tys = {self.typeof(l) for l in ls if not (l.op == 'app' and l.a == ('default',)) and l not in (BOT, PANIC)} - {None}
        if len(tys) != 1:
            return v
        d = self.empty(tys.pop())
        return lift(lambda l: d if l.op == 'app' and l.a == ('default',) else l, v)

    def e_match(self, e, st, fr, hint=None):
        base, pl, mutable = self.scrut(e['e'], st, fr)
        v = base if mutable else self.ev(e['e'], st, fr)
        if st.pc is FALSE or v is BOT:
            return BOT
        return self.match_arms(v, pl if mutable else None, e['arms'], st, fr, hint)

    def match_arms(self, v, pl, arms, st, fr, hint):
        saved = dict(st.scope)
        rem = st
        out = []      # (cond, state, value)
        remaining = TRUE
        cur = st.fork()
        for arm in arms:
            if cur.pc is FALSE:
                break
            a = cur.fork()
            a.scope = dict(saved)
            c, binds = self.pat(arm['p'], v, a, fr, pl)
            if AND(a.pc, c) is FALSE:
                continue
            self.apply_binds(a, binds)
            full = c
            if arm['g']:
                a.pc = AND(cur.pc, c)
                g = self.b(self.ev(arm['g'], a, fr))
                full = AND(c, g)
            a.pc = AND(cur.pc, full)
            if a.pc is not FALSE:
                val = self.ev(arm['b'], a, fr, hint)
                out.append((full, a, val))
            cur.pc = AND(cur.pc, NOT(full))
        # exhaustive: last arm absorbs the rest
        if not out:
            st.pc = FALSE
            return BOT
        value = None
        acc = None
        for full, a, val in reversed(out):
            if acc is None:
                acc, value = a, val
                continue
            m = State(dict(st.env), dict(saved), TRUE)
            # merge a (if full) with acc
            dead_a, dead_b = a.pc is FALSE, acc.pc is FALSE
            self.merge(m, full, a, acc)
            if dead_a:
                pass
            elif dead_b:
                value = val
            else:
                value = ite(full, val, value)
            acc = m
        st.env = {s: acc.env.get(s, st.env[s]) for s in st.env}
        st.pc = acc.pc
        st.scope = saved
        return self.typed_default(value) if st.pc is not FALSE else BOT

    def e_matches(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        s2 = st.fork()
        c, binds = self.pat(e['p'], v, s2, fr)
        if e['g']:
            self.apply_binds(s2, binds)
            c = AND(c, self.b(self.ev(e['g'], s2, fr)))
        return c

    def e_tuple(self, e, st, fr):
        if not e['e']:
            return UNIT
        return tup(*[self.ev(x, st, fr) for x in e['e']])

    def e_array(self, e, st, fr):
        xs = [self.ev(x, st, fr) for x in e['e']]
        return lift(lambda *a: mk('list', *a), *xs) if xs else mk('list')

    def e_repeat(self, e, st, fr):
        return app('repeatarr', self.ev(e['e'], st, fr), self.ev(e['n'], st, fr))

    def e_struct(self, e, st, fr):
        name = self.ctor_name(e['p'], fr)
        fs = {}
        for f in e['f']:
            fs[f['n']] = self.ev(f['e'], st, fr)
        if e['rest']:
            r = self.ev(e['rest'], st, fr)
            sd = self.idx.structs.get(name)
            if sd:
                for f in sd['f']:
                    if f['n'] not in fs:
                        fs[f['n']] = field(r, f['n'])
            else:
                fs['..'] = r
        sd = self.idx.structs.get(name)
        if sd:
            for f in sd['f']:
                if f['n'] in fs:
                    fs[f['n']] = self.coerce(fs[f['n']], conv_type(f['ty'], name, self.idx.aliases))
        r = self.updated(name, fs)
        if r is None:
            r = struct(name, fs)
        self.site('struct:' + name, None, [r], st, fr, e['l'])
        return r

    def updated(self, name, fs):
        """S { a: x.a, b: v, .. } as x with b replaced, x an S"""
        cnt = {}
        for n, v in fs.items():
            if v.op == 'field' and v.a[1] == n:
                cnt[v.a[0]] = cnt.get(v.a[0], 0) + 1
        sd = self.idx.structs.get(name)
        if not cnt or not sd or {f['n'] for f in sd['f']} != set(fs):
            return None
        for x, k in sorted(cnt.items(), key=lambda q: (-q[1], q[0].id)):
            t = self.typeof(x)
            if t == ('adt', name) or t is None and k >= 2 and 2 * k >= len(fs):
                for n, v in fs.items():
                    x = setfield(x, n, v)
                return x
        return None

    def e_range(self, e, st, fr):
        lo = self.ev(e['lo'], st, fr) if e['lo'] else UNIT
        hi = self.ev(e['hi'], st, fr) if e['hi'] else UNIT
        if e['closed'] and hi is not UNIT:
            hi = add(hi, N(1))
        return app('range', lo, hi)

    def e_cast(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        t = conv_type(e['ty'])
        s = e['ty'].get('s', '')
        if t == 'int':
            if s in ('u8', 'i8', 'u16', 'i16'):
                return app('cast', S(s), v)
            if isbool(v) or self.typeof(v) == 'bool':
                return ite(self.b(v), N(1), N(0))
            return v
        return app('cast', S(s), v)

    def e_try(self, e, st, fr, hint=None):
        v = self.ev(e['e'], st, fr)
        return self.try_(v, st, fr, e['l'])

    def try_(self, v, st, fr, line):
        if v is BOT or st.pc is FALSE:
            return BOT
        ty = self.typeof(v)
        kind = ty[0] if isinstance(ty, tuple) and ty[0] in ('option', 'result') else None
        if kind is None:
            rt = fr.ret_ty
            kind = rt[0] if isinstance(rt, tuple) and rt[0] in ('option', 'result') else 'result'
        good = 'Some' if kind == 'option' else 'Ok'
        if self.assume_ok and kind == 'result':
            c = lift(lambda x: B(not (x.op == 'ctor' and x.a[0] == 'Err')), v)
        else:
            c = self.b(is_(v, good))
        bad = AND(st.pc, NOT(c))
        if bad is not FALSE:
            rv = NONE if kind == 'option' else ctor('Err', get(v, 'Err', 0))
            self.ret(bad, rv, st, fr)
        st.pc = AND(st.pc, c)
        return get(v, good, 0)

    def ret(self, pc, v, st, fr):
        fr.rets.append((pc, v, dict(st.env)))

    def e_return(self, e, st, fr):
        v = self.ev(e['e'], st, fr, fr.ret_ty) if e['e'] else UNIT
        if st.pc is not FALSE:
            v = self.coerce(v, fr.ret_ty)
            self.ret(st.pc, v, st, fr)
        st.pc = FALSE
        return BOT

    def find_loop(self, fr, label):
        for lp in reversed(fr.loops):
            if label is None:
                if not getattr(lp, 'block', False):
                    return lp
            elif lp.label == label:
                return lp
        raise Unknown('break target')

    def e_break(self, e, st, fr):
        v = self.ev(e['e'], st, fr) if e['e'] else UNIT
        lp = self.find_loop(fr, e['label'])
        if fr.loops and lp is not [x for x in fr.loops if not getattr(x, 'block', False) or x is lp][-1]:
            raise Unknown('labelled break across loops')
        lp.breaks.append((st.pc, dict(st.env), v))
        st.pc = FALSE
        return BOT

    def e_continue(self, e, st, fr):
        lp = self.find_loop(fr, e['label'])
        if lp is not [x for x in fr.loops if not getattr(x, 'block', False)][-1]:
            raise Unknown('labelled continue')
        lp.conts.append((st.pc, dict(st.env)))
        st.pc = FALSE
        return BOT

    def e_closure(self, e, st, fr):
        i = len(self.clos)
        self.clos[i] = (e, dict(st.scope), fr)
        # captured values make the term distinct
        return mk('clos', i, self.uid)

    def e_await(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_other(self, e, st, fr):
        raise Unknown('expr other %s' % e.get('s'))

    # ------------------------------------------------------------ calling closures
    def callf(self, f, args, st, fr, mutargs=None):
        """call a function value (closure term or function reference)"""
        if f.op == 'ite':
            return ite(atom(f.a[0]), self.callf(f.a[1], args, st, fr), self.callf(f.a[2], args, st, fr))
        if f.op == 'clos':
            e, scope, cfr = self.clos[f.a[0]]
            saved = st.scope
            st.scope = dict(scope)
            nf = Frame(cfr.fn, cfr.self_ty, AND(fr.outer, st.pc), None)
            nf.file = cfr.file
            nf.generics = cfr.generics
            pc0 = st.pc
            st.pc = TRUE
            for p, a in zip(e['ps'], args):
                if p['k'] == 'type':
                    ty = conv_type(p['ty'], cfr.self_ty, self.idx.aliases)
                    if isinstance(a, T) and a.ty is None and a.op == 'fresh':
                        a.ty = ty
                    p = p['p']
                c, b = self.pat(p, a, st, nf)
                self.apply_binds(st, b)
            v = self.ev(e['b'], st, nf)
            v = self.finish(nf, st, v, pc0)
            st.scope = saved
            return v
        if f.op == 'fnref':
            path = f.a[0].split('::')
            return self.call_path([{'n': x, 'g': None} for x in path], args, st, fr, 0, [None] * len(args))
        if f.op == 'ctor' and len(f.a) == 1:
            return ctor(f.a[0], *args)
        if f.op == 'cls':
            return lift(lambda x: atom(mk('pred', f.a[0], x)), args[0])
        return app('callv', f, *args)

    def finish(self, fr, st, v, pc0):
        """combine early returns with the final value; restore pc"""
        rets = fr.rets
        live = st.pc
        if not rets:
            st.pc = AND(pc0, live) if live is not TRUE else pc0
            return v if live is not FALSE else BOT
        # value
        res = v if live is not FALSE else BOT
        env = dict(st.env) if live is not FALSE else None
        for pc, rv, renv in reversed(rets):
            res = ite(pc, rv, res)
            if renv is None:
                continue
            if env is None:
                env = dict(renv)
                continue
            for s in list(env):
                x = renv.get(s)
                y = env[s]
                if x is None or x is y or isinstance(x, Alias) or isinstance(y, Alias):
                    continue
                env[s] = ite(pc, x, y)
        st.env = env if env is not None else st.env
        tot = live
        for pc, rv, renv in rets:
            tot = OR(tot, pc)
        st.pc = pc0
        return res

    def fn_lam(self, f, st, fr, n=1, tys=None):
        """python function applying the function value purely"""
        def g(*args):
            s2 = st.fork()
            r = self.callf(f, list(args), s2, fr)
            for s in st.env:
                if s2.env.get(s) is not st.env[s] and not isinstance(st.env[s], Alias):
                    raise Unknown('closure with side effects')
            return r
        return g

    # ------------------------------------------------------------ calls
    def e_call(self, e, st, fr, hint=None):
        f = e['f']
        if f['k'] == 'path':
            p = f['p']
            n = p[-1]['n']
            if len(p) == 1 and n in st.scope:
                fv = self.rd_slot(st, st.scope[n])
                args = [self.ev(a, st, fr) for a in e['a']]
                self.site('callv:' + n, None, args, st, fr, e['l'])
                return self.callf(fv, args, st, fr)
            # std::mem functions on places
            if n in ('take', 'replace', 'swap') and (len(p) == 1 or p[-2]['n'] == 'mem'):
                pl = self.place(e['a'][0], st, fr)
                if pl is None:
                    raise Unknown('mem::%s' % n)
                old = self.rd_place(st, pl)
                if n == 'take':
                    new = self.empty(self.typeof(old)) if self.typeof(old) is not None else mk('app', 'default')
                    self.wr_place(st, pl, new)
                    return old
                if n == 'replace':
                    self.wr_place(st, pl, self.ev(e['a'][1], st, fr))
                    return old
                pl2 = self.place(e['a'][1], st, fr)
                if pl2 is None:
                    raise Unknown('swap')
                o2 = self.rd_place(st, pl2)
                self.wr_place(st, pl, o2)
                self.wr_place(st, pl2, old)
                return UNIT
            args, places = self.args(e['a'], st, fr)
            if st.pc is FALSE:
                return BOT
            return self.call_path(p, args, st, fr, e['l'], places, hint=hint, q=f.get('q'))
        fv = self.ev(f, st, fr)
        args = [self.ev(a, st, fr) for a in e['a']]
        return self.callf(fv, args, st, fr)

    refslots = ()

    def args(self, al, st, fr):
        args, places = [], []
        for a in al:
            pl = None
            if a['k'] == 'ref' and a['mut']:
                pl = self.place(a, st, fr)
            elif a['k'] == 'path' and len(a['p']) == 1 and a['p'][0]['n'] in st.scope:
                s = st.scope[a['p'][0]['n']]
                if isinstance(st.env.get(s), Alias):
                    pl = st.env[s].place
                elif s in self.refslots:
                    pl = (s, ())        # a `&mut` parameter passed on
            places.append(pl)
            args.append(self.ev(a, st, fr))
        return args, places

    def resolve(self, segs, fr, nargs):
        """function candidates for a path call"""
        n = segs[-1]
        c = self.idx.by_name.get(n, [])
        if not c:
            u = self.idx.uses.get(fr.file, {}).get(n)
            if u and u.split('::')[-1] != n:
                n = u.split('::')[-1]
                c = self.idx.by_name.get(n, [])
        if len(segs) >= 2:
            q = segs[-2]
            if q[0].isupper():
                u = self.idx.uses.get(fr.file, {}).get(q)
                al = {q}
                if u:
                    al.add(u.split('::')[-1])
                c = [f for f in c if f.owner in al]
            else:
                c2 = [f for f in c if f.owner is None and (('/%s.rs' % q) in f.file or ('/%s/' % q) in f.file or q in f.mod)]
                c = c2 if c2 or q not in ('self', 'super', 'crate') else [f for f in c if f.owner is None]
        else:
            c = [f for f in c if f.owner is None]
            same = [f for f in c if f.file == fr.file]
            if same:
                c = same
            else:
                u = self.idx.uses.get(fr.file, {}).get(n)
                if u:
                    us = u.split('::')
                    c2 = [f for f in c if len(us) < 2 or ('/%s.rs' % us[-2]) in f.file or ('/%s/' % us[-2]) in f.file or us[-2] in f.mod]
                    c = c2 or c
        first = segs[0]
        if len(segs) == 1 or first[0].isupper():
            u = self.idx.uses.get(fr.file, {}).get(first)
            first = u.split('::')[0] if u else first
        if len(c) > 1 and first in CRATE_DIRS:
            c2 = [f for f in c if CRATE_DIRS[first] in f.file]
            if c2:
                return c2
        if len(c) > 1:
            same = [f for f in c if f.file == fr.file]
            c = same or c
        return c

    def call_path(self, p, args, st, fr, line, places, hint=None, q=None):
        segs = [self.res_self(s['n'], fr) for s in p]
        n = segs[-1]
        if q and q.get('k') == 'path' and len(segs) >= 1:
            segs = [q['p'][-1]['n'], n]
        # constructors
        if n[0].isupper():
            cn = self.ctor_name(p, fr)
            if cn in self.idx.structs:
                r = struct(cn, {str(i): a for i, a in enumerate(args)})
            else:
                if cn == 'Err' and not self.raw_err:
                    pass
                r = ctor(cn, *args)
            self.site('ctor:' + cn, None, args, st, fr, line)
            return r
        full = '::'.join(segs)
        qn = segs[-2] + '::' + n if len(segs) > 1 else n
        # std constructors
        if len(segs) >= 2:
            q0 = segs[-2]
            if n in ('new', 'with_capacity', 'default') and q0 in ('String', 'Vec', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'FxHashMap', 'FxHashSet', 'VecDeque', 'Option'):
                if n == 'new' or n == 'with_capacity' or n == 'default':
                    return {'String': S(''), 'Vec': mk('list'), 'VecDeque': mk('list'), 'Option': NONE}.get(q0) or mk('empty', 'map' if 'Map' in q0 else 'set')
            if q0 in ('String', 'PathBuf', 'Path', 'Arc', 'Rc', 'Box', 'Cow', 'Mutex', 'RwLock', 'RefCell', 'OsStr', 'OsString', 'Some') and n in ('from', 'new', 'from_str', 'from_utf8_lossy') and len(args) == 1:
                return args[0]
            if q0 in INTS and n == 'from' and len(args) == 1 and args[0] is not BOT:
                t0 = self.typeof(args[0])
                if t0 == 'bool' or isbool(args[0]):
                    return ite(self.b(args[0]), N(1), N(0))
                if t0 in ('int', 'nat') and q0 not in ('TextSize', 'DocumentVersion'):
                    return args[0]
            if q0 in ('Vec', 'HashSet', 'BTreeSet', 'HashMap', 'BTreeMap', 'FxHashSet', 'FxHashMap') and n in ('from', 'from_iter') and len(args) == 1:
                kind = 'seq' if q0 == 'Vec' else ('map' if 'Map' in q0 else 'set')
                it = self.as_iter(args[0])
                return collect(kind, it)
            if q0 in ('Rc', 'Arc') and n == 'clone':
                return args[0]
            if q0 in ('str', 'String', 'Option', 'Result', 'Vec', 'Path', 'OsStr', 'ToString', 'Clone', 'AsRef', 'char', 'PathBuf', 'ToOwned', 'Into', 'Iterator', 'OsString') and args:
                if not self.resolve(segs, fr, len(args)):
                    return self.method(n, args[0], args[1:], st, fr, line, None, None, hint)
            if q0 == 'cmp' and n in ('min', 'max'):
                return self.minmax(n, *args)
            if q0 == 'iter' and n in ('once',):
                return IT(mk('list', args[0]))
            if q0 == 'iter' and n in ('empty',):
                return IT(mk('list'))
            if q0 in ('LazyLock', 'OnceLock', 'Lazy', 'OnceCell') and n == 'new' and len(args) == 1:
                return self.callf(args[0], [], st, fr)
            if q0 == 'Regex' and n == 'new' and len(args) == 1 and args[0].op == 'str':
                from .rx import canon, valid
                r = canon(args[0].a[0])
                if r is not None:
                    return ctor('Ok', mk('app', 'Regex', S(r)))
                if valid(args[0].a[0]):
                    return ctor('Ok', mk('app', '?Regex', args[0]))
        if n in ('min', 'max') and len(args) == 2 and not self.resolve(segs, fr, 2):
            return self.minmax(n, *args)
        if n == 'drop' and len(segs) <= 2:
            return UNIT
        if n == 'default' and len(segs) == 2 and segs[0] in self.idx.structs and not args:
            r = self.default_of(segs[0])
            if r is not None:
                return r
        if n == 'default' and len(segs) == 2 and segs[0] == 'Default':
            return self.empty(hint) if hint is not None else mk('app', 'default')
        cands = self.resolve(segs, fr, len(args))
        if n == 'from' and cands and len(args) == 1 and self.typeof(args[0]) in ('int', 'str', 'bool', 'char'):
            cands = [f for f in cands if f.j['in'] and conv_type(f.j['in'][0].get('ty'), f.owner, self.idx.aliases) == self.typeof(args[0])]
        # UFCS with &mut self
        if len(cands) == 1 and self.can_inline(cands[0], qn):
            tg = p[-1].get('g')
            return self.inline(cands[0], None, args, st, fr, line, places, targs=tg if isinstance(tg, list) else None)
        name = n if len(segs) == 1 else qn
        if len(cands) == 1:
            name = cands[0].qual
        elif len(segs) >= 2 and not segs[-2][0].isupper() and not cands:
            name = qn
        self.site(name, None, args, st, fr, line, full)
        return self.opaque_call('f:' + name, args, st, fr, places, cands)

    def opaque_call(self, name, args, st, fr, places, cands):
        ret = None
        if len(cands) >= 1:
            ret = conv_type(cands[0].j['out'], cands[0].owner, self.idx.aliases)
            self.fn_ret[name] = ret
            ps = cands[0].j['in']
            if len(cands) == 1 and len(ps) == len(args):
                args = [self.coerce(a, t) if isinstance(t, tuple) and t[0] in ('vec', 'set', 'map') else a for a, t in
                        ((a, None if q.get('self') else conv_type(q['ty'], cands[0].owner, self.idx.aliases)) for a, q in zip(args, ps))]
        args = [self.closed(a, st, fr) for a in args]
        if name.split(':')[-1] in self.passive:
            return self.passive[name.split(':')[-1]]
        v = app(name, *args)
        if ret == 'bool':
            v = lift(lambda x: atom(x) if x.op == 'app' else x, v)
        for i, pl in enumerate(places or []):
            if pl is not None and not shared_param(cands, i):
                self.wr_typed(st, pl, app('mutby:%s:%d' % (name, i), *args))
        if ret == 'unit':
            return UNIT
        if isinstance(ret, tuple) and ret[0] == 'adt' and ret[1] == 'never':
            pass
        return v

    def closed(self, a, st, fr):
        """a closure handed to unknown code, as a closed function term"""
        if isinstance(a, T) and a.op == 'clos':
            return stdm.fnterm(self, a, st, fr, len(self.clos[a.a[0]][0]['ps']))
        return a

    def can_inline(self, f, qn):
        if f.j['b'] is None:
            return False
        if f.name in self.opaque or f.qual in self.opaque or qn in self.opaque:
            return False
        if f in self.stack or len(self.stack) >= self.maxdepth:
            return False
        if self.inline_pol is not None:
            return self.inline_pol(f)
        return True

    def inline(self, f, recv, args, st, fr, line, places, recv_place=None, targs=None):
        """evaluate callee in the caller's state"""
        if f.name in self.effects and any(n.get('k') == 'mcall' and n['m'] == f.name for n in awalk(f.j['b'])):
            # a wrapper of the call of the same name in it
            self.sites.append(Site(f.qual, recv, args, AND(fr.outer, st.pc), line, fr.fn, f.qual, None))
        else:
            self.site(f.qual, recv, args, st, fr, line, f.qual)
        self.analysed.add(f)
        if len(self.sites) > 60000:
            raise Unknown('too many sites')
        self.stack.append(f)
        saved_scope = st.scope
        st.scope = {}
        pc0 = st.pc
        st.pc = TRUE
        nf = Frame(f, f.owner if f.trait is None or True else f.owner, AND(fr.outer, pc0), conv_type(f.j['out'], f.owner, self.idx.aliases))
        self.bind_generics(f, nf, targs, fr)
        alla = ([recv] if recv is not None else []) + list(args)
        allp = ([recv_place] if recv is not None else []) + list(places or [None] * len(args))
        params = f.j['in']
        if len(params) != len(alla):
            self.stack.pop()
            st.scope = saved_scope
            st.pc = pc0
            raise Unknown('arity %s' % f.qual)
        for prm, a, pl in zip(params, alla, allp):
            if prm.get('self'):
                s = self.newslot()
                st.scope['self'] = s
                if prm['ref'] and pl is not None:
                    st.env[s] = Alias(pl)       # also for &self: interior mutability
                else:
                    st.env[s] = a
            else:
                ty = conv_type(prm['ty'], f.owner, self.idx.aliases)
                ismut = prm['ty']['k'] == 'ref' and prm['ty']['mut']
                if isinstance(a, T) and a.ty is None and a.op in ('app', 'field', 'get', 'fresh', 'var') and self.typeof(a) is None and ty is not None and not isinstance(ty, tuple):
                    a.ty = ty
                if ismut and pl is not None and prm['p']['k'] == 'ident':
                    s = self.newslot()
                    st.scope[prm['p']['n']] = s
                    st.env[s] = Alias(pl)
                else:
                    a = self.coerce(a, ty) if ty is not None and isinstance(ty, tuple) and ty[0] in ('vec', 'set') else a
                    c, b = self.pat(prm['p'], a, st, nf)
                    self.apply_binds(st, b)
        try:
            v = self.block(f.j['b'], st, nf)
            v = self.coerce(v, nf.ret_ty)
            v = self.finish(nf, st, v, pc0)
        finally:
            self.stack.pop()
            st.scope = saved_scope
        return v

    def minmax(self, n, a, b):
        c = ge0(sub(b, a))
        return ite(c, a if n == 'min' else b, b if n == 'min' else a)

    # ------------------------------------------------------------ method calls
    def e_mcall(self, e, st, fr, hint=None):
        m = e['m']
        r = e['r']
        # mutating std methods need the place of the receiver
        if m in ('unwrap', 'expect') and r['k'] == 'mcall' and r['m'] in ('lock', 'read', 'write', 'try_lock') and not r['a']:
            return self.ev(r['r'], st, fr)
        if m in ENTRY and r['k'] == 'mcall' and r['m'] == 'entry':
            pl = self.place(e, st, fr)
            if pl is None:
                raise Unknown('entry api')
            v = self.rd_place(st, pl)
            self.wr_place(st, pl, v)
            return v
        if r['k'] == 'path' and self.entries and self.entry_of(r, st) is not None:
            return self.entry_call(e, st, fr)
        pl = self.place(r, st, fr) if r['k'] in ('path', 'field', 'index', 'unary', 'ref', 'mcall') else None
        if m == 'collect' and r['k'] == 'mcall' and r['m'] in ('filter', 'map', 'filter_map') and r['a'][0]['k'] == 'closure':
            snap = (dict(st.env), dict(st.scope), st.pc, len(fr.rets), len(self.sites))
            try:
                recv = self.ev(r, st, fr)
            except Unknown as x:
                if 'closure with side effects' not in str(x):
                    raise
                st.env, st.scope, st.pc = snap[:3]
                del fr.rets[snap[3]:]
                del self.sites[snap[4]:]
                recv = self.stateful_adapter(r, st, fr)
        else:
            recv = self.ev(r, st, fr)
        if st.pc is FALSE:
            return BOT
        args, places = self.args(e['a'], st, fr)
        if st.pc is FALSE:
            return BOT
        return self.method(m, recv, args, st, fr, e['l'], pl, places, hint, tf=e.get('tf'), node=e)

    def stateful_adapter(self, r, st, fr):
        """xs.filter(f).collect() with an f that changes captured state: one pass in order, accumulating"""
        from . import stdm
        it = self.as_iter(self.ev(r['r'], st, fr))
        clos = self.ev(r['a'][0], st, fr)
        acc = self.newslot()
        st.env[acc] = mk('list')

        def body(v, q, nf):
            w = self.callf(clos, [v], q, nf)
            old = q.env[acc]
            if r['m'] == 'map':
                q.env[acc] = push(old, w)
            elif r['m'] == 'filter':
                q.env[acc] = ite(self.b(w), push(old, v), old)
            else:
                q.env[acc] = ite(is_(w, 'Some'), push(old, get(w, 'Some', 0)), old)
        body.slot = None
        stdm.run_for_any(self, it, body, st, fr, None)
        return self.as_iter(st.env.pop(acc))

    def as_iter(self, v):
        def g(x):
            if x.op == 'it':
                return x
            if x.op == 'collect' and x.a[0] == 'seq' and x.a[1].op == 'it':
                return x.a[1]
            t = self.typeof(x)
            if isinstance(t, tuple) and t[0] == 'option' or x.op == 'ctor' and x.a[0] in ('Some', 'None'):
                return IT(ite_list(x))
            return IT(x)

        def ite_list(x):
            if x.op == 'ctor':
                return mk('list', *x.a[1:])
            return mk('app', 'optlist', x)
        return lift(g, v)

    def isopt(self, v, st=None):
        t = self.typeof(v)
        if isinstance(t, tuple):
            return t[0] if t[0] in ('option', 'result') else None
        return None

    def find_method(self, m, recv, nargs):
        t = self.typeof(recv)
        c = self.idx.methods.get(m, [])
        c = [f for f in c if f.has_self and len(f.j['in']) == nargs + 1]
        if isinstance(t, tuple) and t[0] == 'adt':
            cc = [f for f in c if f.owner == t[1]]
            if cc:
                return cc
            # trait implemented generically: owner may be a trait (default method)
            if self.idx.structs.get(t[1]) or self.idx.enums.get(t[1]):
                return [f for f in c if f.owner == f.trait]
            return []
        if t is not None:
            return [f for f in c if f.trait and not (f.owner in self.idx.structs or f.owner in self.idx.enums)]
        return c

    def method(self, m, recv, args, st, fr, line, pl, places, hint, tf=None, node=None):
        if recv is BOT or any(a is BOT for a in args):
            return BOT
        ty = self.typeof(recv)
        std_like = ty in ('str', 'int', 'bool', 'char', 'unit') or isinstance(ty, tuple) and ty[0] in ('vec', 'set', 'map', 'option', 'result', 'iter', 'tuple')
        cands = self.find_method(m, recv, len(args))
        if cands and not (std_like and not cands):
            qn = cands[0].qual
            if len(cands) == 1 and (not std_like or cands[0].trait) and self.can_inline(cands[0], qn):
                if ty is not None or m not in STD_METHODS:
                    return self.inline(cands[0], recv, args, st, fr, line, places, recv_place=pl, targs=tf)
            if len(cands) >= 1 and (ty is not None and not std_like or m not in STD_METHODS):
                name = cands[0].qual if len(cands) == 1 else m
                self.site(name, recv, args, st, fr, line, name, node)
                v = self.opaque_call('f:' + name, [recv] + args, st, fr, None, cands[:1])
                if name.split('::')[-1] in self.passive:
                    return v
                sj = cands[0].j['in'][0]
                if sj.get('mut') and sj.get('ref') and pl is not None:
                    self.wr_typed(st, pl, app('mutby:f:%s:0' % name, recv, *args))
                for i, p2 in enumerate(places or []):
                    if p2 is not None and not shared_param(cands[:1], i + 1):
                        self.wr_typed(st, p2, app('mutby:f:%s:%d' % (name, i + 1), recv, *args))
                return v
        self.site(m, recv, args, st, fr, line, m, node)
        h = getattr(self, 'm_' + m, None)
        if h is not None:
            return h(recv, args, st, fr, dict(pl=pl, ty=ty, hint=hint, tf=tf, line=line, node=node, places=places))
        if m in self.transparent:
            return recv
        if m in ('last_mut', 'first_mut', 'get_mut', 'split_at_mut', 'chunks_mut', 'peek_mut', 'split_first_mut', 'split_last_mut', 'make_mut'):
            raise Unknown('reference by ' + m)
        if m in CLASSES:
            return lift(lambda x: atom(mk('pred', m, x)), recv)
        args = [self.closed(a, st, fr) for a in args]
        v = setter(m, recv, args) if is_builder(recv) and m not in MUTATORS else app(m, recv, *args)
        if m in MUTATORS and pl is not None:
            self.wr_place(st, pl, app('mut:' + m, recv, *args))
            return v
        if node is not None and node is self.stmt_node:
            # a call whose result is unused, on a local declared mutable: a builder
            r = node['r']
            while r['k'] == 'mcall':
                r = r['r']
            if r['k'] == 'path' and len(r['p']) == 1 and st.scope.get(r['p'][0]['n']) in self.mutslots:
                self.wr_place(st, (st.scope[r['p'][0]['n']], ()), v)
        for i, p2 in enumerate(places or []):
            if p2 is not None:
                self.wr_place(st, p2, app('mutby:%s:%d' % (m, i + 1), recv, *args))
        if m.startswith('is_') or m.startswith('has_'):
            return lift(lambda x: atom(x) if x.op == 'app' else x, v)
        return v


from . import stdm          # noqa  (attaches m_* methods, loops and macros to Ev)
STD_METHODS = {n[2:] for n in dir(Ev) if n.startswith('m_')} | TRANSPARENT | MUTATORS
