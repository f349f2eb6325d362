"""Regular expressions up to language equality (with the positions of capture group borders).

Two patterns are interchangeable for `is_match`/`captures` when their search languages, marked with the group borders, are equal.
`canon` maps every pattern to a representative of its class; a pattern outside the fragment is its own class and `None` is returned."""
import re._parser as sp
import re._constants as sc

MAXC = 0x10FFFF
WS = [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]
# non-ASCII word characters and digits are stood for by reserved points of the private use planes
CAT = {sc.CATEGORY_DIGIT: [(48, 57), (0xF0000, 0xF0000)], sc.CATEGORY_SPACE: WS,
       sc.CATEGORY_WORD: [(48, 57), (65, 90), (95, 95), (97, 122), (0xF0000, 0xF0001)]}
NEG = {sc.CATEGORY_NOT_DIGIT: sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_SPACE: sc.CATEGORY_SPACE, sc.CATEGORY_NOT_WORD: sc.CATEGORY_WORD}


class Unsupported(Exception):
    pass


def compl(rs):
    out, p = [], 0
    for a, b in sorted(rs):
        if a > p:
            out.append((p, a - 1))
        p = max(p, b + 1)
    if p <= MAXC:
        out.append((p, MAXC))
    return out


def charset(items):
    rs, neg = [], False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            rs.append((av, av))
        elif op is sc.RANGE:
            rs.append(tuple(av))
        elif op is sc.CATEGORY:
            rs += CAT[av] if av in CAT else compl(CAT[NEG[av]])
        else:
            raise Unsupported(op)
    return compl(rs) if neg else rs


class NFA:
    def __init__(s):
        s.eps, s.tr, s.n = {}, {}, 0

    def new(s):
        s.n += 1
        return s.n - 1

    def e(s, a, b):
        s.eps.setdefault(a, []).append(b)

    def t(s, a, lab, b):
        s.tr.setdefault(a, []).append((lab, b))


def build(n, seq, a, fl):
    """fragment starting in state a; returns its end state"""
    for op, av in seq:
        b = n.new()
        if op is sc.LITERAL:
            n.t(a, ((av, av),), b)
        elif op is sc.NOT_LITERAL:
            n.t(a, tuple(compl([(av, av)])), b)
        elif op is sc.ANY:
            n.t(a, tuple(compl([(10, 10)])), b)
        elif op is sc.IN:
            n.t(a, tuple(charset(av)), b)
        elif op is sc.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported('flags')
            if g is None:
                n.e(build(n, sub, a, fl), b)
            else:
                m = n.new()
                n.t(a, ('<', g), m)
                n.t(build(n, sub, m, fl), ('>', g), b)
        elif op is sc.BRANCH:
            for alt in av[1]:
                s0 = n.new()
                n.e(a, s0)
                n.e(build(n, alt, s0, fl), b)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if lo > 40 or (hi is not sc.MAXREPEAT and hi > 40):
                raise Unsupported('repeat')
            cur = a
            for _ in range(lo):
                cur = build(n, sub, cur, fl)
            if hi is sc.MAXREPEAT:
                l = n.new()
                n.e(cur, l)
                n.e(build(n, sub, l, fl), l)
                n.e(l, b)
            else:
                for _ in range(hi - lo):
                    n.e(cur, b)
                    cur = build(n, sub, cur, fl)
                n.e(cur, b)
        elif op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                n.t(a, ('^',), b)
            elif av in (sc.AT_END, sc.AT_END_STRING):
                n.t(a, ('$',), b)
            else:
                raise Unsupported(av)
        else:
            raise Unsupported(op)
        a = b
    return a


def dfa(pat):
    """canonical minimal automaton of  BOT .* pat .* EOT  with group markers, as a hashable value"""
    p = sp.parse(pat)
    if p.state.flags & ~32:
        raise Unsupported('flags')
    n = NFA()
    # states: start --BOT--> s ; anchors are handled by tracking text begin/end as explicit symbols
    start = n.new()
    pre = n.new()
    n.t(start, ('BOT',), pre)
    n.t(pre, ((0, MAXC),), pre)
    m0 = n.new()
    n.e(pre, m0)
    beg = n.new()
    n.t(start, ('BOT',), beg)
    # copy of the pattern entered at the very start (anchors hold) and one entered anywhere (a start anchor fails)
    end1 = build(n, p, beg, True)
    cut = n.n
    end2 = build(n, p, m0, False)
    fin = n.new()
    for e in (end1, end2):
        post = n.new()
        n.e(e, post)
        n.t(post, ((0, MAXC),), post)
        n.t(post, ('EOT',), fin)
    # anchors: '^' is free in the first copy before any character is consumed, and blocked otherwise; '$' allows only EOT afterwards
    noconsume = reach_noconsume(n, beg)
    tr2 = {}
    for q, es in list(n.tr.items()):
        out = []
        for lab, r in es:
            if lab == ('^',):
                if q in noconsume and q < cut:
                    n.e(q, r)
                    # states after it may still see another start anchor
                    noconsume |= {r}
                continue
            if lab == ('$',):
                if not only_end(n, r, (end1, end2)):
                    raise Unsupported('$ in the middle')
                z = n.new()
                n.e(q, z)
                # after the anchor only group closers may follow, then EOT
                out += []
                tr2.setdefault(z, []).extend(tail(n, r, fin, (end1, end2)))
                continue
            out.append((lab, r))
        tr2.setdefault(q, []).extend(out)
    n.tr = tr2
    pts = {0}
    marks = set()
    for es in n.tr.values():
        for lab, _ in es:
            if isinstance(lab[0], tuple):
                for a, b in lab:
                    pts.add(a)
                    pts.add(b + 1)
            else:
                marks.add(lab)
    pts = sorted(x for x in pts if x <= MAXC)

    def clo(ss):
        st, seen = list(ss), set(ss)
        while st:
            for r in n.eps.get(st.pop(), ()):
                if r not in seen:
                    seen.add(r)
                    st.append(r)
        return frozenset(seen)
    init = clo({start})
    D, work = {}, [init]
    syms = [('c', x) for x in pts] + sorted(marks, key=str)
    while work:
        S = work.pop()
        if S in D:
            continue
        if len(D) > 4000:
            raise Unsupported('size')
        row = {}
        for sy in syms:
            nx = set()
            for q in S:
                for lab, r in n.tr.get(q, ()):
                    if sy[0] == 'c':
                        if isinstance(lab[0], tuple) and any(a <= sy[1] <= b for a, b in lab):
                            nx.add(r)
                    elif lab == sy:
                        nx.add(r)
            C = clo(nx)
            row[sy] = C
            if C not in D:
                work.append(C)
        D[S] = row
    acc = {S for S in D if fin in S}
    # Moore minimisation
    cls = {S: int(S in acc) for S in D}
    while True:
        sig = {S: (cls[S], tuple(cls[D[S][sy]] for sy in syms)) for S in D}
        ids = {}
        new = {S: ids.setdefault(sig[S], len(ids)) for S in D}
        if len(set(new.values())) == len(set(cls.values())):
            break
        cls = new
    dead = {cls[S] for S in D if S not in acc and all(cls[D[S][sy]] == cls[S] for sy in syms)}
    # canonical numbering, character columns merged into ranges by target
    order, out, q = {cls[init]: 0}, [], [init]
    rep = {}
    for S in D:
        rep.setdefault(cls[S], S)
    i = 0
    q = [cls[init]]
    while i < len(q):
        S = rep[q[i]]
        i += 1
        row, last = [], None
        for sy in syms:
            t = cls[D[S][sy]]
            if t in dead:
                t = None
            elif t not in order:
                order[t] = len(order)
                q.append(t)
            v = None if t is None else order[t]
            if sy[0] == 'c':
                if v != last:
                    row.append((sy[1], v))
                last = v
            elif v is not None:
                row.append((sy, v))
        out.append((S in acc, tuple(row)))
    return tuple(out)


def reach_noconsume(n, s):
    seen, st = {s}, [s]
    while st:
        q = st.pop()
        for r in n.eps.get(q, []):
            if r not in seen:
                seen.add(r)
                st.append(r)
        for lab, r in n.tr.get(q, []):
            if lab[0] in ('<', '>', '^') and r not in seen:
                seen.add(r)
                st.append(r)
    return seen


def only_end(n, s, ends):
    return bool(reach_noconsume(n, s) & set(ends))


def tail(n, r, fin, ends):
    # only the plain case: `$` is the last item (possibly followed by nothing else)
    seen, st = {r}, [r]
    while st:
        q = st.pop()
        for x in n.eps.get(q, []):
            if x not in seen:
                seen.add(x)
                st.append(x)
        for lab, x in n.tr.get(q, []):
            if lab[0] in ('<', '>'):
                raise Unsupported('group border after $')
    return [(('EOT',), fin)]


_cls = {}


def canon(pat):
    """representative pattern with the same marked search language, or None when outside the fragment"""
    try:
        d = dfa(pat)
    except Exception:
        return None
    return _cls.setdefault(d, pat)


def valid(pat):
    try:
        sp.parse(pat)
        return True
    except Exception:
        return False


def participates(pat, i):
    """'always' when group i takes part in every match, 'not always' when it may not or does not exist, None when unknown"""
    try:
        p = sp.parse(pat)
    except Exception:
        return None
    if i == 0:
        return 'always'

    def go(seq):
        for op, av in seq:
            if op is sc.SUBPATTERN:
                if av[0] == i or go(av[3]):
                    return True
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] > 0 and go(av[2]):
                return True
            elif op is sc.BRANCH and all(go(x) for x in av[1]):
                return True
        return False
    return 'always' if go(p) else 'not always'
