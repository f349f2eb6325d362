"""Hash-consed value terms with gated (decision-DAG) normal form.

Every value of the analysed function is a term. A conditional value is an `ite` node over an *atom*
(a boolean leaf term); `ite` nodes are kept ordered by atom id (as in an ordered decision diagram) and are
always lifted to the top of a term, so two pure computations that gate the same leaves on the same conditions
get the same term no matter how the branches were written.
"""


class Unknown(Exception):
    """The construct is outside the modelled fragment."""


class T:
    __slots__ = ('op', 'a', 'id', 'fvs', 'h', 'isite', 'ty')

    def __repr__(s):
        return show(s)


_tab = {}
_cnt = [0]
LIMIT = [400000]


def refill(n=400000):
    LIMIT[0] = _cnt[0] + n


def mk(op, *a):
    key = (op,) + tuple(('t', x.id) if isinstance(x, T) else ('c', type(x).__name__, x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _cnt[0] += 1
        if _cnt[0] > LIMIT[0]:
            raise Unknown('term budget exceeded')
        t.id = _cnt[0]
        fv = set()
        h = 0
        for x in a:
            if isinstance(x, T):
                fv |= x.fvs
                if x.h > h:
                    h = x.h
        if op == 'fresh':
            fv = {a[0]}
        if op == 'lam':
            h += 1
        t.fvs = frozenset(fv)
        t.h = h
        t.isite = op == 'ite'
        t.ty = None
        _tab[key] = t
    return t


TRUE = mk('bool', True)
FALSE = mk('bool', False)
UNIT = mk('unit')
BOT = mk('bot')          # value on an infeasible branch
PANIC = mk('panic')
NONE = mk('ctor', 'None')


def S(s):
    return mk('str', s)


def C(c):
    return mk('char', c)


def N(n):
    return mk('int', n)


def B(b):
    return TRUE if b else FALSE


def Some(x):
    return ctor('Some', x)


def isbool(t):
    if t.op == 'ite':
        return isbool_leaf(t)
    return t is TRUE or t is FALSE


def isbool_leaf(t):
    while t.op == 'ite':
        t = t.a[1]
    return t is TRUE or t is FALSE


# ---------- decision DAG ----------
_memo_ite = {}


def top(t):
    return t.a[0].id if t.op == 'ite' else 1 << 60


def cof(t, atom, val):
    if t.op == 'ite' and t.a[0] is atom:
        return t.a[1] if val else t.a[2]
    return t


def raw_ite(atom, a, b):
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    return mk('ite', atom, a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c is BOT:
        return BOT
    if c.op != 'ite':
        c = mk('ite', c, TRUE, FALSE)
    key = (c.id, a.id, b.id)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    m = min((x for x in (c, a, b) if x.op == 'ite'), key=top).a[0]
    r = raw_ite(m, ite(cof(c, m, True), cof(a, m, True), cof(b, m, True)),
                ite(cof(c, m, False), cof(a, m, False), cof(b, m, False)))
    _memo_ite[key] = r
    return r


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def NOT(x):
    return ite(x, FALSE, TRUE)


def atom(t):
    """boolean leaf -> decision node"""
    if t.op in ('bool', 'ite', 'bot'):
        return t
    return mk('ite', t, TRUE, FALSE)


def lift(f, *args):
    """Apply leaf function f over all combinations of gated args."""
    memo = {}

    def go(args):
        tops = [x for x in args if isinstance(x, T) and x.op == 'ite']
        if not tops:
            for x in args:
                if isinstance(x, T) and (x is BOT):
                    return BOT
            for x in args:
                if isinstance(x, T) and x is PANIC:
                    return PANIC
            return f(*args)
        key = tuple(x.id if isinstance(x, T) else x for x in args)
        r = memo.get(key)
        if r is None:
            m = min(tops, key=top).a[0]
            r = raw_ite_g(m, go([cof(x, m, True) if isinstance(x, T) else x for x in args]),
                          go([cof(x, m, False) if isinstance(x, T) else x for x in args]))
            memo[key] = r
        return r
    return go(list(args))


def raw_ite_g(m, a, b):
    """ite with branches whose top atoms may precede m."""
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if top(a) > m.id and top(b) > m.id:
        return mk('ite', m, a, b)
    return ite(mk('ite', m, TRUE, FALSE), a, b)


def leaves(t):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st.append(x.a[2])
            st.append(x.a[1])
        else:
            out.append(x)
    return out


def atoms(t):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op != 'ite':
            continue
        seen.add(x.id)
        if x.a[0] not in out:
            out.append(x.a[0])
        st.append(x.a[1])
        st.append(x.a[2])
    return out


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


# ---------- constructors / structs ----------
def ctor(name, *args):
    return lift(lambda *a: mk('ctor', name, *a), *args)


def struct(name, fields):
    """fields: dict"""
    ks = sorted(fields)
    return lift(lambda *a: mk('struct', name, tuple(ks), *a), *[fields[k] for k in ks])


def tup(*xs):
    return lift(lambda *a: mk('tuple', *a), *xs)


# variant families known to the analysis: variant -> full list of the family
FAMILY = {'Some': ('Some', 'None'), 'None': ('Some', 'None'), 'Ok': ('Ok', 'Err'), 'Err': ('Ok', 'Err'),
          'NodeOrToken::Node': ('NodeOrToken::Node', 'NodeOrToken::Token'), 'NodeOrToken::Token': ('NodeOrToken::Node', 'NodeOrToken::Token')}
ARITY = {'NodeOrToken::Node': 1, 'NodeOrToken::Token': 1, 'Some': 1, 'None': 0, 'Ok': 1, 'Err': 1}
CANON = {'None': 'Some', 'Err': 'Ok'}


def is_(t, v):
    def f(x):
        if x.op == 'ctor':
            return B(x.a[0] == v)
        if x.op == 'struct':
            return B(x.a[0] == v)
        if x.op in ('str', 'int', 'char', 'bool', 'list', 'tuple', 'lam'):
            return FALSE
        cv = CANON.get(v)
        if cv:
            return NOT(atom(mk('is', x, cv)))
        fam = FAMILY.get(v)
        if fam and len(fam) == 2 and v == fam[1]:
            return NOT(atom(mk('is', x, fam[0])))
        return atom(mk('is', x, v))
    return lift(f, t)


def get(t, v, i):
    """payload i of variant v"""
    def f(x):
        if x.op == 'ctor':
            if x.a[0] != v:
                return BOT
            return x.a[1 + i] if isinstance(i, int) else BOT
        if x.op == 'struct' and isinstance(i, str):
            if x.a[0] != v:
                return BOT
            return x.a[2 + x.a[1].index(i)] if i in x.a[1] else BOT
        if x.op == 'struct':
            return BOT
        return mk('get', x, v, i)
    return lift(f, t)


def field(t, n):
    def f(x):
        if x.op == 'struct' and n in x.a[1]:
            return x.a[2 + x.a[1].index(n)]
        if x.op == 'tuple' and n.isdigit() and int(n) < len(x.a):
            return x.a[int(n)]
        if x.op == 'ctor' and n.isdigit() and int(n) + 1 < len(x.a):
            return x.a[1 + int(n)]
        if x.op == 'setf':
            return x.a[2] if x.a[1] == n else f(x.a[0])
        if x.op == 'ite':
            return lift(f, x)
        return mk('field', x, n)
    return lift(f, t)


def setfield(t, n, v):
    def f(x, w):
        if x.op == 'struct' and n in x.a[1]:
            ks = x.a[1]
            return mk('struct', x.a[0], ks, *[w if k == n else x.a[2 + i] for i, k in enumerate(ks)])
        if x.op == 'tuple' and n.isdigit() and int(n) < len(x.a):
            return mk('tuple', *[w if i == int(n) else y for i, y in enumerate(x.a)])
        if x.op == 'setf':
            # canonical: ordered by field name, last write wins
            if x.a[1] == n:
                return f(x.a[0], w)
            if x.a[1] > n:
                return mk('setf', f(x.a[0], w), x.a[1], x.a[2])
        if w.op == 'field' and w.a[1] == n:
            b = x
            while b.op == 'setf':
                b = b.a[0]
            if w.a[0] is b:
                return x
        return mk('setf', x, n, w)
    return lift(f, t, v)


# ---------- linear integers ----------
def lin(t):
    """leaf int term -> (const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], {t.a[1 + 2 * i]: t.a[2 + 2 * i] for i in range((len(t.a) - 1) // 2)}
    return 0, {t: 1}


def unlin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return N(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    r = [c]
    for k in sorted(d, key=lambda t: t.id):
        r += [k, d[k]]
    return mk('lin', *r)


def lincomb(a, b, s):
    def f(x, y):
        ca, da = lin(x)
        cb, db = lin(y)
        d = dict(da)
        for k, v in db.items():
            d[k] = d.get(k, 0) + s * v
        return unlin(ca + s * cb, d)
    return lift(f, a, b)


def add(a, b):
    return lincomb(a, b, 1)


def sub(a, b):
    return lincomb(a, b, -1)


def scale(a, n):
    def f(x):
        c, d = lin(x)
        return unlin(c * n, {k: v * n for k, v in d.items()})
    return lift(f, a)


NONNEG_OPS = {'len', 'pos', 'rpos', 'count', 'idx', 'lenutf16', 'lenutf8'}


def nonneg(t):
    return t.op in NONNEG_OPS or t.ty == 'nat' or (t.op == 'app' and t.a[0] in ('len', 'enum_idx')) or \
        t.op == 'get' and t.a[0].op == 'app' and t.a[0].a[0] == 'binary_search'


def ge0(t):
    def f(x):
        c, d = lin(x)
        if not d:
            return B(c >= 0)
        if all(v > 0 and nonneg(k) for k, v in d.items()) and c >= 0:
            return TRUE
        if all(v < 0 and nonneg(k) for k, v in d.items()):
            if c < 0:
                return FALSE
            if c == 0 and len(d) == 1:
                return eq0(x)
        # single nonneg term: k - 1 >= 0  <=> k != 0
        if len(d) == 1:
            (k, v), = d.items()
            if v == 1 and c == -1 and nonneg(k):
                return NOT(eq0(k))
        ks = sorted(d, key=lambda t: t.id)
        if d[ks[0]] < 0:
            # ge0(L) = not ge0(-L-1)
            return NOT(atom(mk('ge0', unlin(-c - 1, {k: -v for k, v in d.items()}))))
        return atom(mk('ge0', unlin(c, d)))
    return lift(f, t)


def eq0(t):
    def f(x):
        c, d = lin(x)
        if not d:
            return B(c == 0)
        ks = sorted(d, key=lambda t: t.id)
        if d[ks[0]] < 0:
            c, d = -c, {k: -v for k, v in d.items()}
        if len(d) == 1 and nonneg(ks[0]) and d[ks[0]] == 1 and c > 0:
            return FALSE
        return atom(mk('eq0', unlin(c, d)))
    return lift(f, t)


# ---------- strings ----------
def slen(s):
    def f(x):
        if x.op == 'str':
            return N(len(x.a[0].encode()))
        if x.op == 'slice':
            return sub(x.a[2], x.a[1])
        if x.op == 'list':
            return N(len(x.a))
        if x.op == 'cat':
            r = N(0)
            for p in x.a:
                r = add(r, slen(p))
            return r
        if x.op in ('push',):
            return add(slen(x.a[0]), N(1))
        if x.op == 'empty':
            return N(0)
        if x.op == 'app' and (x.a[0] in ('keys', 'values') and len(x.a) == 2 or x.a[0] in ('setlast', 'setfirst', 'setidx', 'sort', 'sort_by', 'reverse')):
            return slen(x.a[1])
        if x.op == 'app' and x.a[0] == 'tail' and x.a[1].op == 'it' and len(x.a[1].a) == 1:
            n = slen(x.a[1].a[0])
            return ite(eq0(n), N(0), sub(n, N(1)))
        return mk('len', x)
    return lift(f, s)


def slice_(s, a, b):
    """s[a..b]; b None = to the end"""
    def f(x, lo, hi):
        base, l0 = x, N(0)
        if x.op == 'slice':
            base, l0 = x.a[0], x.a[1]
        lo2 = add(l0, lo)
        hi2 = add(l0, hi)
        if x.op == 'str' and lo.op == 'int' and hi.op == 'int':
            try:
                return S(x.a[0].encode()[lo.a[0]:hi.a[0]].decode())
            except UnicodeDecodeError:
                return PANIC
        if lo2 is N(0) and hi2 is slen(base):
            return base
        if lo2 is hi2:
            return S('')
        return mk('slice', base, lo2, hi2)
    return lift(f, s, a, slen(s) if b is None else b)


def sbyte(s, i, c):
    """atom: byte at constant offset i of string s is c"""
    def f(x):
        if x.op == 'str':
            bs = x.a[0].encode()
            return B(i < len(bs) and bs[i] == ord(c))
        if x.op == 'cat':
            off = 0
            for p in x.a:
                if p.op == 'str':
                    n = len(p.a[0].encode())
                    if i < off + n:
                        return B(p.a[0].encode()[i - off] == ord(c))
                    off += n
                else:
                    break
            return atom(mk('byte', x, i, c))
        if x.op == 'slice' and x.a[1].op == 'int':
            # within slice bounds
            base, lo, hi = x.a
            inb = ge0(sub(sub(hi, lo), N(i + 1)))
            if hi is slen(base):
                return atom(mk('byte', base, lo.a[0] + i, c))
            if x.a[0].op == 'str':
                return AND(inb, sbyte(base, lo.a[0] + i, c))
            return AND(inb, atom(mk('byte', base, lo.a[0] + i, c)))
        return atom(mk('byte', x, i, c))
    return lift(f, s)


def ascii_(p):
    return all(ord(c) < 128 for c in p)


def starts_with(s, p):
    """p: str literal term/char term/other"""
    def f(x, q):
        if q.op in ('str', 'char') and ascii_(q.a[0]):
            r = TRUE
            for i, c in enumerate(q.a[0]):
                r = AND(r, sbyte(x, i, c))
            return r
        if x.op == 'str' and q.op in ('str', 'char'):
            return B(x.a[0].startswith(q.a[0]))
        if q.op in ('cls', 'list', 'lam'):
            if x.op == 'slice' and x.a[2] is slen(x.a[0]) and x.a[1].op == 'int':
                return atom(mk('bytecls', x.a[0], x.a[1].a[0], q))
            if x.op == 'str' and not x.a[0]:
                return FALSE
            return atom(mk('bytecls', x, 0, q))
        return atom(mk('sw', x, q))
    return lift(f, s, p)


def ends_with(s, p):
    def f(x, q):
        if x.op == 'str' and q.op in ('str', 'char'):
            return B(x.a[0].endswith(q.a[0]))
        if q.op == 'char':
            q = S(q.a[0])
        if q.op == 'str' and q.a[0] == '':
            return TRUE
        return atom(mk('ew', x, q))
    return lift(f, s, p)


AFTER = [None]


def contains(s, p):
    def f(x, q):
        if q.op == 'char':
            q = S(q.a[0])
        if x.op == 'str' and q.op == 'str':
            return B(q.a[0] in x.a[0])
        if q.op == 'str' and q.a[0] == '':
            return TRUE
        if x.op == 'slice' and AFTER[0] is not None:
            n = AFTER[0](x, q)
            if n is not None:
                return contains(slice_(x, n, None), q)
        return atom(mk('contains', x, q))
    return lift(f, s, p)


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        K = ('str', 'char', 'int', 'bool', 'unit')
        if x.op in K and y.op in K:
            return B(x.op == y.op and x.a == y.a)
        if x.op in ('int', 'lin') or y.op in ('int', 'lin'):
            return eq0(sub(x, y))
        if x.op in K and y.op not in K:
            x, y = y, x
        if y.op == 'bool':
            return x_bool(x) if y is TRUE else NOT(x_bool(x))
        if x.op == 'ctor' and y.op != 'ctor':
            x, y = y, x
        if y.op == 'ctor':
            if x.op == 'ctor':
                if x.a[0] != y.a[0] or len(x.a) != len(y.a):
                    return FALSE
                r = TRUE
                for p, q in zip(x.a[1:], y.a[1:]):
                    r = AND(r, eq(p, q))
                return r
            r = is_(x, y.a[0])
            for i in range(len(y.a) - 1):
                r = AND(r, eq(get(x, y.a[0], i), y.a[1 + i]))
            return r
        if x.op == 'struct' and y.op == 'struct' and x.a[0] == y.a[0] and x.a[1] == y.a[1]:
            r = TRUE
            for p, q in zip(x.a[2:], y.a[2:]):
                r = AND(r, eq(p, q))
            return r
        if x.op == 'tuple' and y.op == 'tuple' and len(x.a) == len(y.a):
            r = TRUE
            for p, q in zip(x.a, y.a):
                r = AND(r, eq(p, q))
            return r
        if y.op == 'str' and y.a[0] == '':
            return eq0(slen(x))
        if y.op == 'list' and not y.a:
            return eq0(slen(x))
        if y.op == 'str' and x.op == 'slice' and x.a[1].op == 'int' and x.a[2] is slen(x.a[0]) and ascii_(y.a[0]):
            return AND(eq0(sub(slen(x), N(len(y.a[0])))), starts_with(x, y))
        if x.op in ('len', 'pos', 'field', 'var', 'get') and x.ty in ('int', 'nat') or y.ty in ('int', 'nat') or x.op == 'len' or y.op == 'len':
            return eq0(sub(x, y))
        if y.op == 'char' and x.op == 'app' and x.a[0] == 'first' and x.a[1].op == 'it' and \
                x.a[1].a[0].op == 'app' and x.a[1].a[0].a[0] == 'chars' and len(x.a[1].a) == 1 and ascii_(y.a[0]):
            return sbyte(x.a[1].a[0].a[1], 0, y.a[0])
        if y.op in K:
            return atom(mk('eq', x, y))
        if x.id > y.id:
            x, y = y, x
        return atom(mk('eq', x, y))
    return lift(f, a, b)


def x_bool(x):
    return atom(x)


def cat(*parts):
    """string concatenation, flattened"""
    def f(*ps):
        out = []
        for p in ps:
            if p.op == 'cat':
                q = list(p.a)
            elif p.op == 'char':
                q = [S(p.a[0])]
            elif p.op == 'int':
                q = [S(str(p.a[0]))]
            elif p.op == 'bool':
                q = [S('true' if p is TRUE else 'false')]
            else:
                q = [p]
            for r in q:
                if r.op == 'str' and r.a[0] == '':
                    continue
                if r.op == 'str' and out and out[-1].op == 'str':
                    out[-1] = S(out[-1].a[0] + r.a[0])
                else:
                    out.append(r)
        if not out:
            return S('')
        if len(out) == 1 and out[0].op == 'str':
            return out[0]
        if len(out) == 1:
            return out[0]
        return mk('cat', *out)
    return lift(f, *parts)


APPN = {}     # name -> leaf normaliser (returns None to keep the plain application)


def _tail(i):
    if i.op == 'it' and len(i.a) == 1 and i.a[0].op == 'list':
        return mk('list', *i.a[0].a[1:])
    return None


APPN['tail'] = _tail


def app(name, *args):
    n = APPN.get(name)
    if n is not None:
        def f(*a):
            r = n(*a)
            return mk('app', name, *a) if r is None else r
        return lift(f, *args)
    return lift(lambda *a: mk('app', name, *a), *args)


# ---------- substitution / rebuild ----------
def rebuild(op, a):
    """Rebuild a term from (possibly gated) args through the smart constructors."""
    if op == 'ite':
        return ite(atom(a[0]) if a[0].op not in ('ite',) else a[0], a[1], a[2])
    if op == 'ctor':
        return ctor(*a)
    if op == 'struct':
        return struct(a[0], dict(zip(a[1], a[2:])))
    if op == 'tuple':
        return tup(*a)
    if op == 'is':
        return is_(a[0], a[1])
    if op == 'get':
        return get(*a)
    if op == 'field':
        return field(*a)
    if op == 'setf':
        return setfield(*a)
    if op == 'lin':
        r = N(a[0])
        for i in range((len(a) - 1) // 2):
            r = add(r, scale(a[1 + 2 * i], a[2 + 2 * i]))
        return r
    if op == 'ge0':
        return ge0(a[0])
    if op == 'eq0':
        return eq0(a[0])
    if op == 'len':
        return slen(a[0])
    if op == 'slice':
        return slice_(*a)
    if op == 'byte':
        return sbyte(*a)
    if op == 'bytecls':
        if a[1] == 0:
            return starts_with(a[0], a[2])
        return lift(lambda x: atom(mk(op, x, a[1], a[2])), a[0])
    if op == 'sw':
        return starts_with(*a)
    if op == 'ew':
        return ends_with(*a)
    if op == 'contains':
        return contains(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'app':
        r = app(*a)
        return lift(lambda x: atom(x) if x.op == 'app' and a[0] in BOOL_APPS else x, r)
    if op in ('lam', 'fresh', 'bv', 'var', 'str', 'int', 'char', 'bool', 'unit'):
        return mk(op, *a)
    if op in REBUILD:
        return REBUILD[op](*a)
    if op in BOOL_OPS:
        return lift(lambda *x: atom(mk(op, *x)), *a)
    return lift(lambda *x: mk(op, *x), *a)


REBUILD = {}
BOOL_APPS = set()
BOOL_OPS = {'exists', 'mem', 'nonempty', 'pred'}


def rewrite(t, f):
    """bottom-up rewriting; f returns a replacement or None"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        ch = False
        na = []
        for y in x.a:
            if isinstance(y, T):
                z = go(y)
                ch = ch or z is not y
                na.append(z)
            else:
                na.append(y)
        r = rebuild(x.op, na) if ch else x
        if r is not x and r.ty is None and x.ty is not None and r.op == x.op:
            r.ty = x.ty
        z = f(r)
        r = r if z is None else z
        memo[x.id] = r
        return r
    return go(t)


def subst(t, m):
    """m: {T: T}; capture-avoiding because lambda bound variables are height-named."""
    memo = {}
    ids = {k.id: v for k, v in m.items()}

    def go(x):
        r = ids.get(x.id)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is not None:
            return r
        ch = False
        na = []
        for y in x.a:
            if isinstance(y, T):
                z = go(y)
                ch = ch or z is not y
                na.append(z)
            else:
                na.append(y)
        r = rebuild(x.op, na) if ch else x
        if r is not x and r.ty is None and x.ty is not None and r.op == x.op:
            r.ty = x.ty
        memo[x.id] = r
        return r
    return go(t)


def assume(t, facts):
    """cofactor t by atom facts {atom T: bool} (including atoms nested at top-level gates only)"""
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x.id)
        if r is None:
            v = facts.get(x.a[0])
            if v is None:
                r = raw_ite(x.a[0], go(x.a[1]), go(x.a[2]))
            else:
                r = go(x.a[1] if v else x.a[2])
            memo[x.id] = r
        return r
    return go(t)


_fresh = [0]


def fresh(hint='x', ty=None):
    _fresh[0] += 1
    t = mk('fresh', '%s#%d' % (hint, _fresh[0]))
    t.ty = ty
    return t


def lam(vars_, body):
    """close body over the fresh variables; canonical height-based names"""
    h = body.h + 1
    m = {v: bv(h, i) for i, v in enumerate(vars_)}
    for v in vars_:
        if v.ty is not None and m[v].ty is None:
            m[v].ty = None
    return mk('lam', len(vars_), subst(body, m), h)


def bv(h, i):
    return mk('bv', h, i)


def beta(l, *args):
    """apply lambda term"""
    assert l.op == 'lam'
    n, body, h = l.a
    return subst(body, {bv(h, i): args[i] for i in range(n)})


def show(t, d=0):
    o = t.op
    a = t.a
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o in ('str', 'char'):
        return repr(a[0]) if o == 'str' else "'%s'" % a[0].replace('\n', '\\n')
    if o == 'int':
        return str(a[0])
    if o == 'bool':
        return 'true' if a[0] else 'false'
    if o in ('unit',):
        return '()'
    if o in ('var', 'fresh'):
        return str(a[0])
    if o == 'bv':
        return 'b%d_%d' % a
    if o == 'ctor':
        return a[0] + ('(' + ', '.join(map(s, a[1:])) + ')' if len(a) > 1 else '')
    if o == 'struct':
        return a[0] + '{' + ', '.join('%s: %s' % (k, s(v)) for k, v in zip(a[1], a[2:])) + '}'
    if o == 'tuple':
        return '(' + ', '.join(map(s, a)) + ')'
    if o == 'list':
        return '[' + ', '.join(map(s, a)) + ']'
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '!' + s(a[0])
        return 'if %s {%s} else {%s}' % (s(a[0]), s(a[1]), s(a[2]))
    if o == 'app':
        return a[0] + '(' + ', '.join(map(s, a[1:])) + ')'
    if o == 'lam':
        return '|%s| %s' % (','.join('b%d_%d' % (a[2], i) for i in range(a[0])), s(a[1]))
    if o == 'field':
        return s(a[0]) + '.' + a[1]
    if o == 'lin':
        r = []
        for i in range((len(a) - 1) // 2):
            c = a[2 + 2 * i]
            r.append(('%d*' % c if c not in (1, -1) else ('-' if c == -1 else '')) + s(a[1 + 2 * i]))
        if a[0]:
            r.append(str(a[0]))
        return '(' + ' + '.join(r) + ')'
    if o == 'is':
        return '%s is %s' % (s(a[0]), a[1])
    if o == 'get':
        return '%s.%s.%s' % (s(a[0]), a[1], a[2])
    if o == 'ge0':
        return '%s>=0' % s(a[0])
    if o == 'eq0':
        return '%s==0' % s(a[0])
    if o == 'byte':
        return '%s[%d]==%r' % (s(a[0]), a[1], a[2])
    if o == 'slice':
        return '%s[%s..%s]' % tuple(map(s, a))
    return o + '(' + ', '.join(map(s, a)) + ')'
