"""Comparison of two gated terms: do they denote the same value for every input?

Both terms are walked together, one decision at a time; decisions already settled by earlier ones (variant exclusivity,
string/byte facts, linear bounds) are pruned.  A leaf pair that cannot be unified on a feasible path is a difference.
"""
from .term import *
from . import term as TM
from .ev import KNOWN_APPS, IT, REGISTRY
from fractions import Fraction


class Diff(Exception):
    def __init__(s, facts, a, b, why=''):
        s.facts, s.a, s.b, s.why = facts, a, b, why


class Undecided(Exception):
    pass


TRIMS = {'trim', 'trim_start'}
TRIME = {'trim', 'trim_end'}
WS = ' \t\n\r\x0b\x0c'


class Facts:
    """conjunction of atom decisions"""
    __slots__ = ('d', 'sub', 'lin', 'nd', 'clashing')

    def __init__(s, d=None, sub=None, lin=None):
        s.nd = None
        s.clashing = False
        s.d = d or {}
        s.sub = sub or {}
        s.lin = lin or ()

    def add(s, a, v):
        """facts extended with a = v; None when contradictory"""
        d = dict(s.d)
        d[a] = v
        sub = s.sub
        lin = s.lin
        new = None
        if v and a.op == 'eq' and a.a[1].op in ('str', 'char', 'bool', 'unit', 'int'):
            new = (a.a[0], a.a[1])
        elif v and a.op == 'eq' and a.a[1].op not in STRUCT_OPS and a.a[0].op not in STRUCT_OPS:
            x, y = sorted(a.a, key=lambda k: (-k.h, -k.id))
            if x not in list(subterms(y)):
                new = (x, y)
        elif v and a.op == 'is':
            n = TM.ARITY.get(a.a[1])
            if n == 0:
                new = (a.a[0], ctor(a.a[1]))
        elif not v and a.op == 'is' and a.a[1] in TM.FAMILY:
            fam = TM.FAMILY[a.a[1]]
            left = [w for w in fam if w != a.a[1] and d.get(mk('is', a.a[0], w)) is not False]
            if len(left) == 1 and TM.ARITY.get(left[0]) == 0:
                new = (a.a[0], ctor(left[0]))
            if not left:
                return None
        elif a.op == 'eq0' and v:
            c, t = TM.lin(a.a[0])
            if c == 0 and len(t) == 1 and next(iter(t)).op == 'len':
                from .ev import ELEM_HOOK
                k = next(iter(t)).a[0]
                kt = ELEM_HOOK[0](k)
                if kt == 'str':
                    new = (k, S(''))
                elif isinstance(kt, tuple) and kt[0] in ('list', 'vec') and k.op in ('var', 'field', 'get', 'bv', 'fresh'):
                    new = (k, mk('list'))
            for k in (sorted(t, key=lambda k: (-k.h, -k.id)) if new is None else ()):
                if abs(t[k]) == 1:
                    rest = {q: -w * t[k] for q, w in t.items() if q is not k}
                    if k in rest:
                        break
                    tgt = TM.unlin(-c * t[k], rest)
                    if k not in list(subterms(tgt)):
                        new = (k, tgt)
                    break
        if a.op in ('eq0', 'ge0'):
            c, t = TM.lin(a.a[0])
            if a.op == 'ge0':
                lin = lin + (((c, t) if v else (-c - 1, {k: -w for k, w in t.items()})),)
            elif v:
                lin = lin + ((c, t), (-c, {k: -w for k, w in t.items()}))
        if a.op in ('byte', 'bytecls') and v:
            lin = lin + (geq_len(a.a[0], a.a[1] + 1),)
        if a.op == 'contains' and v and a.a[1].op == 'str':
            lin = lin + (geq_len(a.a[0], len(a.a[1].a[0].encode())),)
        if a.op in ('sw', 'ew') and v and a.a[1].op == 'str':
            lin = lin + (geq_len(a.a[0], len(a.a[1].a[0].encode())),)
        if a.op == 'exists' and v:
            lin = lin + (geq_len(a.a[0], 1),)
        if a.op == 'eq' and v and a.a[1].op == 'str' and a.a[0].op not in ('ctor',):
            c0, d0 = geq_len(a.a[0], len(a.a[1].a[0].encode()))
            lin = lin + ((c0, d0), (-c0, {k: -w for k, w in d0.items()}))
        f = Facts(d, sub, lin)
        if new is not None:
            sub = dict(sub)
            x, y = new
            if a.op == 'eq' and y.op not in ('str', 'char', 'bool', 'unit', 'int'):
                x, y = subst(x, sub), subst(y, sub)
                if x is not y and (y.h, y.id) > (x.h, x.id) and y.op not in STRUCT_OPS | {'ite'}:
                    x, y = y, x
                if x.op in ('str', 'char', 'bool', 'unit', 'int', 'ite') or x in list(subterms(y)):
                    x = y
                sub = {k: subst(w, {x: y}) for k, w in sub.items()} if x is not y else sub
            if x is not y:
                sub[x] = y
            f.sub = sub
        if f.contradicts(a, v):
            return None
        if new is None and f.sub and a.op in ('contains', 'exists', 'byte', 'bytecls', 'sw', 'ew', 'eq', 'ge0', 'eq0'):
            ints = {k: w for k, w in f.sub.items() if w.op == 'int'}
            if ints:
                r = subst(mk('ite', a, TM.TRUE, TM.FALSE), ints)
                if r is (TM.FALSE if v else TM.TRUE):
                    return None
        if new is not None and a.op == 'eq' and new[1].op not in ('str', 'char', 'bool', 'unit', 'int'):
            # congruence: a fact and its image under the new equality
            for k, w in f.normal().items():
                if f.d.get(k, w) != w:
                    return None
            if f.clashing:
                return None
        for b, w in whole_text(a, v, d):
            if d.get(b) is None:
                f = f.add(b, w)
                if f is None:
                    return None
            elif d[b] != w:
                return None
        return f

    def contradicts(s, a, v):
        for b, w in s.d.items():
            if b is a:
                continue
            if clash(a, v, b, w) or clash(b, w, a, v):
                return True
        if s.lin and a.op in ('eq0', 'ge0', 'byte', 'bytecls', 'contains', 'sw', 'ew', 'eq', 'exists'):
            neq = [TM.lin(b.a[0]) for b, w in s.d.items() if b.op == 'eq0' and not w]
            if infeasible_neq(s.lin, neq, s):
                return True
        # empty-string facts against content facts
        if s.sub:
            for b, w in s.d.items():
                if b.op in ('eq', 'is', 'eq0') and w:
                    if b is a:
                        pass
                    continue
                r = subst(b, {k: x for k, x in s.sub.items() if k is not b})
                if r.op == 'bool' and r.a[0] != w:
                    return True
        return False

    def normal(s):
        '''the facts with the known equalities substituted'''
        if s.nd is None:
            s.nd = {}
            for k, v in s.d.items():
                r = subst(mk('ite', k, TRUE, FALSE), s.sub)
                if r.op == 'ite' and r.a[0] is not k and r.a[1] in (TRUE, FALSE) and r.a[2] in (TRUE, FALSE):
                    w = v if r.a[1] is TRUE else not v
                    if s.nd.get(r.a[0], w) != w:
                        s.clashing = True
                    s.nd[r.a[0]] = w
        return s.nd

    def val(s, a):
        v = s.d.get(a)
        if v is not None:
            return v
        if s.sub:
            r = subst(mk('ite', a, TRUE, FALSE), s.sub)
            if r is TRUE:
                return True
            if r is FALSE:
                return False
            if r.op == 'ite':
                w = s.d.get(r.a[0])
                if w is None:
                    w = s.normal().get(r.a[0])
                if w is not None:
                    x = r.a[1] if w else r.a[2]
                    if x is TRUE:
                        return True
                    if x is FALSE:
                        return False
        if s.add(a, True) is None:
            return False
        if s.add(a, False) is None:
            return True
        return None


def affix(a):
    '''(text, suffix or prefix, 'ew' | 'sw') of the comparison of a text without its affix, by the length of the affix'''
    if a.op != 'eq' or a.a[0].op != 'slice' or a.a[1].op != 'str':
        return None
    x, lo, hi = a.a[0].a
    if lo.op == 'int' and lo.a[0] == 0 and hi is not TM.UNIT:
        n, t = TM.lin(sub(slen(x), hi))
        return (x, n, 'ew') if n > 0 and not t else None
    if lo.op == 'int' and lo.a[0] > 0 and (hi is TM.UNIT or hi is slen(x)):
        return x, lo.a[0], 'sw'
    return None


def whole_text(a, v, d):
    '''what a known affix and the rest of the text say about the text as a whole'''
    out = []
    if a.op == 'eq':
        q = affix(a)
        if q:
            for b, w in d.items():
                if w and b.op == q[2] and b.a[0] is q[0] and b.a[1].op == 'str' and len(b.a[1].a[0].encode()) == q[1]:
                    out.append((join(a, b), v))
    elif a.op in ('sw', 'ew') and v and a.a[1].op == 'str':
        for b, w in d.items():
            q = affix(b) if b.op == 'eq' else None
            if q and q[2] == a.op and q[0] is a.a[0] and q[1] == len(a.a[1].a[0].encode()):
                out.append((join(b, a), w))
    return out


def join(e, f):
    rest, x = e.a[1].a[0], f.a[1].a[0]
    r = eq(f.a[0], S(rest + x if f.op == 'ew' else x + rest))
    return r.a[0] if r.op == 'ite' else r


def appn(t, *names):
    return t.op == 'app' and t.a[0] in names


def first_char_of(t):
    """s if t denotes the first char of s"""
    if appn(t, 'first') and t.a[1].op == 'it' and len(t.a[1].a) == 1 and appn(t.a[1].a[0], 'chars'):
        return t.a[1].a[0].a[1]
    return None


def clash(a, v, b, w):
    """can (a = v) and (b = w) be shown incompatible?"""
    if a.op == 'is' and b.op == 'is' and a.a[0] is b.a[0] and v and w and a.a[1] != b.a[1]:
        return True
    if a.op == 'is' and b.op == 'is' and a.a[0] is b.a[0] and not v and not w and a.a[1] in TM.FAMILY:
        fam = set(TM.FAMILY[a.a[1]])
        if fam <= {a.a[1], b.a[1]}:
            return True
    if a.op == 'eq' and b.op == 'eq' and v and w and a.a[0] is b.a[0] and a.a[1].op == b.a[1].op and \
            a.a[1].op in ('str', 'char', 'int') and a.a[1] is not b.a[1]:
        return True
    if a.op == 'byte' and b.op == 'byte' and v and w and a.a[0] is b.a[0] and a.a[1] == b.a[1] and a.a[2] != b.a[2]:
        return True
    if a.op == 'byte' and v:
        s, i, c = a.a
        if i == 0 and c in WS and appn(s, *TRIMS):
            return True
        if b.op == 'contains' and not w and b.a[0] is s and b.a[1].op == 'str' and b.a[1].a[0] == c:
            return True
        if b.op == 'bytecls' and b.a[0] is s and b.a[1] == i and b.a[2].op == 'cls':
            m = in_class(c, b.a[2].a[0])
            if m is not None and m != w:
                return True
        if b.op == 'eq' and w and b.a[0] is s and b.a[1].op == 'str':
            bs = b.a[1].a[0]
            if i >= len(bs) or bs[i] != c:
                return True
        # byte of a prefix slice seen on the base
        if s.op == 'slice' and s.a[1] is N(0):
            if b.op == 'byte' and w and b.a[0] is s.a[0] and b.a[1] == i and b.a[2] != c:
                return True
    if a.op == 'byte' and not v and a.a[0].op == 'slice' and False:
        pass
    if a.op == 'byte' and not v:
        s, i, c = a.a
        if b.op == 'eq' and w and b.a[0] is s and b.a[1].op == 'str':
            bs = b.a[1].a[0]
            if i < len(bs) and bs[i] == c:
                return True
    if a.op == 'bytecls' and v and a.a[1] == 0 and a.a[2].op == 'cls' and a.a[2].a[0].endswith('whitespace') and appn(a.a[0], *TRIMS):
        return True
    if a.op == 'contains' and v:
        if a.a[0].op == 'slice' and b.op == 'contains' and not w and b.a[0] is a.a[0].a[0] and b.a[1] is a.a[1]:
            return True
        if a.a[0].op == 'app' and a.a[0].a[0] in ('trim', 'trim_start', 'trim_end') and b.op == 'contains' and not w and \
                b.a[0] is a.a[0].a[1] and b.a[1] is a.a[1]:
            return True
    if a.op == 'contains' and not v and a.a[0].op == 'app' and a.a[0].a[0] in ('trim', 'trim_start', 'trim_end') and \
            b.op == 'contains' and w and b.a[0] is a.a[0].a[1] and b.a[1] is a.a[1]:
        x = a.a[1]
        if x.op == 'str' and x.a[0].strip() == x.a[0]:
            return True
    if a.op == 'exists' and b.op == 'exists' and a.a[0] is b.a[0]:
        # exists x. p  and  not exists x. q  with p => q
        if v and not w:
            z = fresh('x')
            p, q = beta(a.a[1], z), beta(b.a[1], z)
            if AND(p, NOT(q)) is FALSE:
                return True
    if a.op == 'exists' and v and a.a[1].op == 'lam' and a is not b:
        # what holds of no item, or does not hold at all, although some item was said to need it
        z = fresh('x')
        p = beta(a.a[1], z)
        ats = atoms(p)
        if b in ats and assume(p, {b: w}) is TM.FALSE:
            return True
        if b.op == 'exists' and not w:
            for k in ats:
                if k.op == 'exists' and k.a[0] is b.a[0] and assume(p, {k: False}) is TM.FALSE and clash(k, True, b, False):
                    return True
    if a.op == 'eq0' and v and b.op in ('exists', 'mem') and w:
        c, t = TM.lin(a.a[0])
        if c == 0 and len(t) == 1:
            (k, n), = t.items()
            if k.op == 'len' and k.a[0] is b.a[0]:
                return True
    if a.op == 'pred' and b.op == 'pred' and a.a[0] == b.a[0] and False:
        pass
    return False


def in_class(c, cls):
    if cls == 'is_whitespace' or cls == 'is_ascii_whitespace':
        return c in WS
    if cls == 'is_ascii_digit' or cls == 'is_numeric':
        return c.isdigit()
    if cls in ('is_alphanumeric', 'is_ascii_alphanumeric'):
        return c.isalnum()
    if cls in ('is_alphabetic',):
        return c.isalpha()
    return None


def geq_len(x, n):
    L = TM.slen(x)
    if L.op == 'ite':
        return (-n, {mk('len', x): 1})
    c, d = TM.lin(L)
    return (c - n, d)


def infeasible_neq(cons, neq, facts):
    if infeasible(cons, facts):
        return True
    vs = set()
    for c, t in cons:
        vs |= set(t)
    neq = [(c, t) for c, t in neq if t and set(t) <= vs][:5]

    def go(cons, i):
        if infeasible(cons, facts):
            return True
        if i == len(neq):
            return False
        c, t = neq[i]
        return go(cons + ((c - 1, t),), i + 1) and go(cons + ((-c - 1, {k: -w for k, w in t.items()}),), i + 1)
    return bool(neq) and go(cons, 0)


def infeasible(cons, facts, maxn=60):
    """Fourier-Motzkin on (c, {t: k}) meaning c + sum k t >= 0 over the rationals; adds nonneg facts"""
    rows = []
    vars_ = set()
    for c, t in cons:
        rows.append((Fraction(c), dict(t)))
        vars_ |= set(t)
    extra = set()
    for v in list(vars_):
        if TM.nonneg(v) and not v.op == 'pos':
            extra.add(v)
        if v.op == 'pos':
            # pos(s,p): 0 <= pos <= len(s) - len(p)
            L = TM.slen(v.a[0])
            rows.append((Fraction(0), {v: 1}))
            if facts.d.get(mk('contains', v.a[0], v.a[1])) is not False:
                pl = len(v.a[1].a[0].encode()) if v.a[1].op == 'str' else 0
                if L.op != 'ite':
                    c, d = TM.lin(L)
                    d = dict(d)
                    d[v] = d.get(v, 0) - 1
                    rows.append((Fraction(c - pl), d))
                    vars_ |= set(d)
                    extra |= {x for x in d if TM.nonneg(x) and x.op != 'pos'}
    for v in extra:
        rows.append((Fraction(0), {v: 1}))
    vars_ = sorted(vars_, key=lambda v: v.id)
    if len(vars_) > 8 or len(rows) > 30:
        return False
    for v in vars_:
        pos = [r for r in rows if r[1].get(v, 0) > 0]
        neg = [r for r in rows if r[1].get(v, 0) < 0]
        rest = [r for r in rows if not r[1].get(v, 0)]
        if len(pos) * len(neg) > 200:
            return False
        for p in pos:
            for n in neg:
                a, b = p[1][v], -n[1][v]
                d = {}
                for k, w in p[1].items():
                    d[k] = d.get(k, 0) + Fraction(w) / a
                for k, w in n[1].items():
                    d[k] = d.get(k, 0) + Fraction(w) / b
                d = {k: w for k, w in d.items() if w and k is not v}
                c = p[0] / a + n[0] / b
                if not d and c < 0:
                    return True
                if d:
                    rest.append((c, d))
        rows = rest
        if len(rows) > 300:
            return False
    return any(not t and c < 0 for c, t in rows)


VIEWS = {'chars', 'lines', 'bytes', 'char_indices', 'split', 'split_inclusive', 'split_whitespace', 'splitn', 'rsplit', 'split_terminator', 'enumerate', 'rev'}
STRUCT_OPS = {'ctor', 'struct', 'tuple', 'list'}


def is_set(t):
    return t.op in ('collect', 'empty') and t.a[0] == 'set' or t.op in ('push', 'extend') and is_set(t.a[0])


def set_parts(t):
    """the parts a set is made of (elements and whole sequences), or None"""
    if t.op == 'empty' or t.op == 'list' and not t.a:
        return frozenset()
    if t.op == 'list':
        return frozenset(('elem', x) for x in t.a)
    if t.op == 'collect' and t.a[0] in ('set', '?', 'seq'):
        return set_parts(t.a[1])
    if t.op == 'push':
        r = set_parts(t.a[0])
        return None if r is None else r | {('elem', t.a[1])}
    if t.op == 'extend':
        r, q = set_parts(t.a[0]), set_parts(t.a[1])
        return None if r is None or q is None else r | q
    if t.op == 'it':
        if len(t.a) == 1:
            return set_parts(t.a[0])
        if t.a[0].op == 'list':
            out = set()
            for e in t.a[0].a:
                v = beta(t.a[1], e)
                if v.op != 'ctor' or v.a[0] not in ('Some', 'None'):
                    return None
                if v.a[0] == 'Some':
                    out.add(('elem', v.a[1]))
            return frozenset(out)
        if t.a[0].op == 'app' and t.a[0].a[0] == 'chain' and len(t.a[0].a) == 3:
            ps = []
            for x in t.a[0].a[1:]:
                if x.op != 'it':
                    return None
                # distribute the mapping over the two halves
                from .ev import it_map
                v = it_map(x, lambda e: beta(t.a[1], e))
                ps.append(set_parts(v) if v.op == 'it' else None)
            return None if None in ps else ps[0] | ps[1]
        return frozenset({('all', t)})
    if t.op == 'app' and t.a[0] == 'chain' and len(t.a) == 3:
        ps = [set_parts(x) for x in t.a[1:]]
        return None if None in ps else ps[0] | ps[1]
    if t.op in ('ite', 'ctor', 'struct'):
        return None
    return frozenset({('all', t)})


def last_piece(t):
    """the text whose last piece t is"""
    if t.op == 'app' and t.a[0] == 'last' and t.a[1].op == 'it' and t.a[1].a[0].op == 'app' and t.a[1].a[0].a[0] == 'split':
        return t.a[1].a[0].a[1]
    return None


class Cmp:
    def __init__(s, errs=False, vocab=None, budget=60000):
        s.errs = errs            # compare error payloads?
        s.vocab = vocab or set()
        s.steps = 0
        s.budget = budget
        s.paths = 0
        s.unify = {}

    def leaf_eq(s, a, b, facts, raw=False):
        """raises Diff unless equal"""
        if a is b or a is BOT or b is BOT:
            return
        s.steps += 1
        if s.steps > s.budget:
            raise Undecided('comparison budget')
        if a.op == 'ite' or b.op == 'ite':
            return s.walk(a, b, facts)
        if (a.op == 'bool') != (b.op == 'bool'):
            # a condition used as a value
            x = b if a.op == 'bool' else a
            if x.op in ('field', 'app', 'get', 'var', 'pred', 'is', 'eq', 'call'):
                v = facts.d.get(x)
                if v is not None:
                    if v == (a.a[0] if a.op == 'bool' else b.a[0]):
                        return
                    raise Diff(facts, a, b)
        if a.op == 'struct' and b.op == 'setf':
            return s.walk(a, mk('struct', a.a[0], a.a[1], *[TM.field(b, n) for n in a.a[1]]), facts, raw)
        if b.op == 'struct' and a.op == 'setf':
            return s.walk(mk('struct', b.a[0], b.a[1], *[TM.field(a, n) for n in b.a[1]]), b, facts, raw)
        if is_default(a) and empty_value(b) or is_default(b) and empty_value(a):
            return
        if not s.errs and a.op == 'ctor' and b.op == 'ctor' and a.a[0] == 'Err' and b.a[0] == 'Err':
            return
        if is_set(a) or is_set(b):
            p, q = set_parts(a), set_parts(b)
            if p is not None and p == q:
                return
        if a.op == b.op == 'collect' and a.a[0] != b.a[0] and '?' in (a.a[0], b.a[0]):
            return s.walk(a.a[1], b.a[1], facts, True)
        if a.op == b.op and len(a.a) == len(b.a):
            if a.op == 'lam':
                if a.a[0] != b.a[0]:
                    raise Diff(facts, a, b)
                vs = [fresh('z') for _ in range(a.a[0])]
                return s.walk(beta(a, *vs), beta(b, *vs), facts)
            if a.op in ('var', 'fresh', 'bv', 'str', 'char', 'int', 'bool', 'unit', 'cls', 'fnref'):
                raise Diff(facts, a, b)
            if a.op == 'lin':
                d = sub(a, b)
                if d is N(0):
                    return
                ca, da = TM.lin(a)
                cb, db = TM.lin(b)
                ka = [k for k in da if k not in db]
                kb = [k for k in db if k not in da]
                if ca == cb and len(ka) == len(kb) == 1 and da[ka[0]] == db[kb[0]] and all(da[k] == db.get(k) for k in da if k not in ka):
                    return s.leaf_eq(ka[0], kb[0], facts)
            elif all((isinstance(x, T) and isinstance(y, T)) or x == y for x, y in zip(a.a, b.a)):
                try:
                    for x, y in zip(a.a, b.a):
                        if isinstance(x, T) and x is not y:
                            s.walk(x, y, facts, True)
                    return
                except Diff as d:
                    if raw and d.facts is facts:
                        raise       # retried with the known facts substituted by the outermost comparison
                    a2, b2 = s.simp(a, facts), s.simp(b, facts)
                    if a2 is b2:
                        return
                    if a2 is not a or b2 is not b:
                        return s.leaf_eq(a2, b2, Facts(facts.d, {}, facts.lin))
                    raise d
        a2, b2 = s.simp(a, facts), s.simp(b, facts)
        if a2 is b2:
            return
        if a2 is not a or b2 is not b:
            return s.walk(a2, b2, Facts(facts.d, {}, facts.lin))
        if a.op in ('lin', 'int') or b.op in ('lin', 'int'):
            # equal under the linear facts?
            d = sub(a, b)
            if d.op != 'ite':
                c, t = TM.lin(d)
                if infeasible(facts.lin + ((c - 1, t),), facts) and infeasible(facts.lin + ((-c - 1, {k: -w for k, w in t.items()}),), facts):
                    return
        raise Diff(facts, a, b)

    def simp(s, t, facts):
        m = dict(facts.sub)
        # opaque options known to be of a variant: expose the constructor
        for k, v in facts.d.items():
            if k.op == 'is' and k.a[0].op not in ('ctor', 'struct', 'ite') and k.a[0] not in m:
                var = k.a[1] if v else None
                if not v and k.a[1] in TM.FAMILY:
                    left = [w for w in TM.FAMILY[k.a[1]] if w != k.a[1] and facts.d.get(mk('is', k.a[0], w)) is not False]
                    if len(left) == 1:
                        var = left[0]
                if var and isinstance(TM.ARITY.get(var), int):
                    m[k.a[0]] = ctor(var, *[get(k.a[0], var, i) for i in range(TM.ARITY[var])])
        if not m:
            return t
        # replace only at non-discriminated positions: get(x,V,i) of a substituted x folds back
        r = subst_top(t, m)
        r2 = subst(t, facts.sub) if facts.sub else t
        if r2 is not t:
            return r2
        return r

    def walk(s, a, b, facts, raw=False):
        if a is b or a is BOT or b is BOT:
            return
        s.steps += 1
        if s.steps > s.budget:
            raise Undecided('comparison budget')
        if a.op != 'ite' and b.op != 'ite':
            s.paths += 1
            return s.leaf_eq(a, b, facts, raw)
        cands = [x.a[0] for x in (a, b) if x.op == 'ite']
        m = min(cands, key=lambda t: t.id)
        v = facts.val(m)
        if v is None and s.unify:
            u = s.unify.get(m)
            if u is not None:
                v = facts.val(u)
        a1, a0 = cof(a, m, True), cof(a, m, False)
        b1, b0 = cof(b, m, True), cof(b, m, False)
        if v is True:
            return s.walk(a1, b1, facts)
        if v is False:
            return s.walk(a0, b0, facts)
        f1 = facts.add(m, True)
        f0 = facts.add(m, False)
        if f1 is not None:
            s.walk(a1, b1, f1)
        if f0 is not None:
            s.walk(a0, b0, f0)

    def unify_atoms(s, a, b):
        """atoms of one side that are provably the same condition as an atom of the other"""
        A, B_ = atoms_deep(a), atoms_deep(b)
        oa = [x for x in A if x not in B_]
        ob = [x for x in B_ if x not in A]
        m = {}
        for x in ob:
            for y in oa:
                if x.op == y.op and len(x.a) == len(y.a):
                    c = Cmp(s.errs, s.vocab, 4000)
                    try:
                        c.leaf_eq(y, x, Facts())
                        m[x] = y
                        break
                    except (Diff, Undecided, Unknown):
                        pass
        return m

    def compare(s, spec, impl, unroll=True):
        v = s.compare0(spec, impl, unroll)
        if unroll and v[0] == 'differ':
            cut = {t.a[0] for t in subterms(impl) if t.op == 'rpos'} - {t.a[0] for t in subterms(spec) if t.op == 'rpos'}
            if cut and any(last_piece(t) in cut for t in subterms(spec)):
                return ('undecided', 'the last piece of a text is cut out by its position')
        return v

    def compare0(s, spec, impl, unroll=True):
        """'equal' | ('differ', Diff) | ('undecided', reason)"""
        if spec is impl:
            return ('equal', None)
        try:
            if spec.op == 'multi' or impl.op == 'multi':
                pass
            m = s.unify_atoms(spec, impl)
            if m:
                impl = rename_atoms(impl, m)
                if spec is impl:
                    return ('equal', None)
            s.walk(spec, impl, Facts())
            return ('equal', None)
        except Undecided as e:
            return ('undecided', str(e))
        except Unknown as e:
            return ('undecided', str(e))
        except Diff as d:
            bases = loop_bases(spec) | loop_bases(impl)
            if bases and unroll:
                return s.unrolled(spec, impl, bases, d)
            bad = s.foreign(spec, impl, d)
            if bad:
                return ('undecided', 'outside the modelled vocabulary: ' + ', '.join(sorted(bad))[:300])
            return ('differ', d)

    def unrolled(s, spec, impl, bases, d0, only=None):
        '''loops closed over different state encodings: compare their first iterations instead'''
        bs, bi = loop_bases(spec), loop_bases(impl)
        if bs != bi:
            bs, bi = loop_bases(spec, True), loop_bases(impl, True)
        if only is not None:
            bs, bi = bs & only, bi & only
        common = [b for b in (bs | bi if bs <= bi or bi <= bs else bs & bi)]
        if not common or (bs - bi and bi - bs):
            bad = s.foreign(spec, impl, d0)
            if bad or not common:
                if len(bs - bi) == 1 and len(bi - bs) == 1:
                    ld = literal_diff(min(bs - bi), min(bi - bs))
                    if ld:
                        return ('differ', Diff(Facts(), ld[0][0], ld[0][1]))
                return ('undecided', 'loops range over different sequences')
        spec, impl = [loops_only(t) for t in (spec, impl)]
        common = sorted(common, key=lambda t: t.id)
        sizes = [{b: k for b in common} for k in range(0, 4)]
        if 2 <= len(common) <= 6:
            sizes[2:2] = [{b: int((b is c) != w) for b in common} for c in common for w in (False, True)]
        for size in sizes:
            m = {}
            for b in common:
                es = []
                for i in range(size[b]):
                    e = mk('var', '$e%d_%d' % (b.id, i))
                    if e.ty is None:
                        from .ev import elem_type
                        e.ty = elem_type(b)
                    es.append(e)
                m[b] = mk('list', *es)
            c = Cmp(s.errs, s.vocab, s.budget)
            try:
                a2, b2 = subst(spec, m), subst(impl, m)
            except Unknown as e:
                return ('undecided', 'unrolling: %s' % e)
            v, d = c.compare(a2, b2, unroll=False)
            s.paths += c.paths
            if v == 'differ':
                # the elements stand for an arbitrary sequence: a condition on the text they were cut from may contradict them
                for b in common:
                    if b.op == 'app' and b.a[0] in VIEWS and isinstance(b.a[1], T) and b.a[1].op != 'str':
                        sa, sb = set(subterms(a2)), set(subterms(b2))
                        if any(about(a, b.a[1]) and not (a in sa and a in sb) for a in d.facts.d):
                            if len(common) > 1:      # does it differ whatever that sequence is?
                                v2, d2 = s.unrolled(spec, impl, bases, d0, set(common) - {b})
                                if v2 == 'differ' and d2 is not d0:
                                    return (v2, d2)
                            return ('undecided', 'a condition on the text whose %s are iterated: %s' % (b.a[0], [show(a) for a in d.facts.d if about(a, b.a[1])]))
            if v != 'equal':
                return (v, d)
        return ('equal', None)

    def foreign(s, spec, impl, d):
        voc = (vocabulary(spec) | s.vocab) - {'app:flat?'}
        out = set()
        for t in [d.a, d.b] + list(d.facts.d):
            out |= {w for w in vocabulary(t) if w not in voc and not known(w)}
        return out


def is_default(t):
    return t.op == 'app' and t.a == ('default',)


def empty_value(t):
    return t.op == 'empty' or t.op == 'list' and not t.a or t in (N(0), TM.FALSE, TM.S('')) or t.op == 'ctor' and t.a == ('None',)


def literal_diff(x, y):
    '''same construction with different literal arguments: the pairs; None otherwise'''
    if x is y:
        return []
    if x.op == y.op == 'str' or x.op == y.op == 'bool' or {x, y} == {TM.TRUE, TM.FALSE}:
        return [(x, y)]
    if x.op != y.op or len(x.a) != len(y.a) or x.op not in ('app', 'it', 'lam', 'tuple', 'list', 'field', 'struct'):
        return None
    out = []
    for a, b in zip(x.a, y.a):
        if isinstance(a, T) and isinstance(b, T):
            r = literal_diff(a, b)
            if r is None:
                return None
            out += r
        elif a is not b and a != b:
            return None
    return out


def about(a, s):
    '''a condition directly on the text s'''
    if a.op in ('contains', 'byte', 'bytecls', 'sw', 'ew', 'eq'):
        return a.a[0] is s
    if a.op in ('eq0', 'ge0'):
        return set(TM.lin(a.a[0])[1]) == {mk('len', s)}
    return False


def loops_only(t):
    return t


def loop_bases(t, mem=False):
    out = set()
    for x in subterms(t):
        b = None
        if x.op == 'fold':
            b = x.a[0]
        elif x.op == 'loop' and x.a[0] == 'for':
            b = x.a[1]
        elif x.op == 'it':
            b = x.a[0]
        elif x.op == 'exists' or mem and x.op == 'mem':
            b = x.a[0]
        while b is not None and b.op == 'app' and b.a[0] in ('enumerate', 'rev') and b.a[1].op == 'it':
            b = b.a[1].a[0]
        if b is not None and b.op not in ('list', 'bv') and not has_bv(b):
            out.add(b)
    return out


def has_bv(t):
    return any(x.op == 'bv' for x in subterms(t))


def known(w):
    if w.startswith('app:f:'):
        return w[6:] in REGISTRY
    if w.startswith('app:'):
        return w[4:] in KNOWN_APPS
    if w.startswith(('ctor:', 'struct:', 'field:', 'var:', 'pred:', 'lit:')):
        return True
    if w.startswith('op:'):
        return w[3:] not in ('loop', 'lproj', 'uninit', 'callv', 'opaque')
    return False


def vocabulary(t):
    out = set()
    for x in subterms(t):
        if x.op == 'app':
            out.add('app:' + x.a[0])
        elif x.op in ('ctor', 'struct', 'field'):
            pass
        else:
            out.add('op:' + x.op)
    return out


def atoms_deep(t):
    return atoms(t)


def rename_atoms(t, m):
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x.id)
        if r is None:
            r = ite(atom(m.get(x.a[0], x.a[0])), go(x.a[1]), go(x.a[2]))
            memo[x.id] = r
        return r
    return go(t)


def subst_top(t, m):
    """replace maximal subterms, not descending into `get(x, ..)` of a replaced x"""
    memo = {}

    def go(x):
        if x.op == 'get' and x.a[0] in m:
            y = m[x.a[0]]
            if y.op == 'ctor':
                return x
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is not None:
            return r
        na, ch = [], False
        for y in x.a:
            if isinstance(y, T):
                z = go(y)
                ch = ch or z is not y
                na.append(z)
            else:
                na.append(y)
        r = rebuild(x.op, na) if ch else x
        memo[x.id] = r
        return r
    return go(t)


def explain(d, limit=900):
    fs = []
    for a, v in list(d.facts.d.items())[-12:]:
        fs.append(('' if v else 'not ') + show(a))
    return 'when %s: expected %s, found %s' % ('; '.join(fs)[:limit] or 'always', show(d.a)[:limit], show(d.b)[:limit])


def feasible(g, facts, budget=20000):
    '''a path to TRUE in the gate that is consistent with the facts (None when there is none)'''
    n = [0]

    def go(g, f):
        n[0] += 1
        if n[0] > budget:
            raise Undecided('gate budget')
        if g is FALSE or g is BOT:
            return None
        if g.op != 'ite':
            return f
        v = f.val(g.a[0])
        for w, x in ((True, g.a[1]), (False, g.a[2])):
            if v is None or v == w:
                f2 = f.add(g.a[0], w) if v is None else f
                if f2 is not None:
                    r = go(x, f2)
                    if r is not None:
                        return r
        return None
    return go(g, facts)


def facts_of(pairs):
    f = Facts()
    for a, v in pairs:
        f = f.add(a, v)
    return f
