"""Rules give findings or none; a rule that returns an error makes the whole file fail, with all findings of all rules lost."""
from ..core import check, load, rel
from ..eff import product_fns
from ..src import walk

A = '/analyze/'
# the value decides whether these succeed
DATA = {'parse': 'not every literal of the language parses', 'context': 'the value may be absent', 'with_context': 'the value may be absent', 'ok_or': 'the value may be absent',
        'ok_or_else': 'the value may be absent', 'try_into': 'not every value converts', 'from_utf8': 'not every text converts', 'try_from': 'not every value converts', 'from_str': 'not every text parses',
        'from_str_radix': 'not every literal parses', 'read_to_string': 'the file may not be readable', 'read': 'the file may not be readable', 'canonicalize': 'the file may not exist', 'metadata': 'the file may not exist'}
MACROS = {'bail', 'ensure', 'anyhow'}
KEEP = {'clone', 'as_ref', 'map', 'map_err', 'to_owned', 'cloned', 'copied', 'and_then', 'inspect_err', 'into'}


def returns_result(f):
    t = f.j.get('out')
    while t and t.get('k') == 'ref':
        t = t['e']
    return bool(t) and t.get('k') == 'path' and t['p'][-1]['n'].endswith('Result')


def outside_closures(n):
    """nodes of a body that belong to the function itself"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') in ('closure', 'fn', 'async'):
                continue
            if 'k' in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def last(e):
    return e['p'][-1]['n'] if e['k'] == 'path' else None


def text(e):
    """structure of an expression without positions"""
    if isinstance(e, dict):
        return tuple(sorted((k, text(v)) for k, v in e.items() if k not in ('l', 'c')))
    if isinstance(e, list):
        return tuple(text(x) for x in e)
    return e


class Fails:
    def __init__(s, c, idx):
        s.c, s.idx = c, idx
        s.ok = {id(f) for f in product_fns(idx)}
        s.seen, s.todo = set(), []
        s.sites = 0

    def project(s, name, method, near, owner=None):
        fs = [f for f in s.idx.by_name.get(name, ()) if id(f) in s.ok and returns_result(f) and bool(f.has_self) == method]
        if owner:
            fs = [f for f in fs if f.owner == (near.owner if owner == 'Self' else owner)]
        same = [f for f in fs if f.file == near.file]
        return same or fs

    def follow(s, f):
        if id(f) not in s.seen:
            s.seen.add(id(f))
            s.todo.append(f)

    def run(s, roots):
        for f in roots:
            s.follow(f)
        while s.todo:
            s.function(s.todo.pop())

    def bad(s, f, l, what, why):
        s.c.bad('fails:%s:%s' % (f.qual, what), '%s:%s fn %s' % (rel(f.file), l, f.qual), '`%s` makes the analysis of the whole file fail: %s' % (what, why))

    def function(s, f):
        s.c.funcs.add('%s::%s' % (rel(f.file), f.qual))
        n0 = len(s.c.viol)
        body = f.j['b']
        binds = {}
        for n in outside_closures(body):
            if n['k'] == 'local' and n.get('e') is not None:
                p = n['p']
                while p['k'] == 'type':
                    p = p['p']
                if p['k'] == 'ident':
                    binds.setdefault(p['n'], []).append(n['e'])
        exits = [n['e'] for n in outside_closures(body) if n['k'] == 'try'] + list(tails(body)) + [n['e'] for n in outside_closures(body) if n['k'] == 'return' and n.get('e')]
        for e in exits:
            s.sites += 1
            s.judge(f, body, e, binds, 0)
        for n in outside_closures(body):
            if n['k'] == 'macro' and n['n'] in ('bail', 'ensure'):
                s.bad(f, n['l'], n['n'] + '!', 'it is an error by construction')
        if len(s.c.viol) == n0:
            s.c.ok('%s::%s' % (rel(f.file), f.qual))

    def judge(s, f, body, e, binds, depth):
        """may evaluating e give an error that depends on the analysed code?"""
        k = e['k']
        if depth > 12:
            return
        if k in ('paren', 'ref', 'try', 'await', 'unary'):
            s.judge(f, body, e['e'], binds, depth + 1)
        elif k == 'macro' and e['n'] in MACROS:
            s.bad(f, e['l'], e['n'] + '!', 'it is an error by construction')
        elif k == 'call' and e['f']['k'] == 'path':
            n = last(e['f'])
            q = [x['n'] for x in e['f']['p']]
            ow = q[-2] if len(q) > 1 and q[-2][:1].isupper() else None
            if n == 'Err':
                if e['a'] and e['a'][0]['k'] == 'path' and len(e['a'][0]['p']) == 1 or e['a'] and e['a'][0]['k'] == 'mcall' and e['a'][0]['m'] == 'into':
                    s.c.notes.append('not decided: an error is passed on in %s' % f.qual)
                    return
                s.bad(f, e['l'], 'Err', 'it is an error by construction')
            elif n in DATA:
                if not s.project(n, False, f, ow):
                    s.bad(f, e['l'], n, DATA[n])
            elif n not in ('Ok', 'Some'):
                for g in s.project(n, False, f, ow):
                    s.follow(g)
        elif k == 'mcall':
            m = e['m']
            own = s.project(m, True, f)
            if own:
                for g in own:
                    s.follow(g)
            elif m in DATA:
                if not s.guarded(f, body, e):
                    s.bad(f, e['l'], m, DATA[m])
                else:
                    s.c.notes.append('not decided: %s in %s is tested before' % (m, f.qual))
            elif m in KEEP:
                s.judge(f, body, e['r'], binds, depth + 1)
        elif k == 'path' and len(e['p']) == 1:
            for x in binds.get(e['p'][0]['n'], ())[:3]:
                s.judge(f, body, x, binds, depth + 1)
        elif k in ('if', 'match', 'block'):
            for x in tails(e):
                s.judge(f, body, x, binds, depth + 1)

    def guarded(s, f, body, e):
        """the same value is tested somewhere in the function"""
        r = e['r']
        while r['k'] in ('ref', 'unary', 'paren') or r['k'] == 'mcall' and r['m'] in ('clone', 'as_ref', 'as_deref', 'cloned', 'to_owned'):
            r = r['r'] if r['k'] == 'mcall' else r['e']
        t = text(r)
        for n in walk(body):
            if n.get('k') == 'mcall' and n is not e:
                if n['m'] in ('is_some', 'is_none', 'is_some_and', 'is_none_or', 'is_ok', 'is_err', 'all', 'any', 'is_match', 'contains') and any(text(x) == t for x in walk(n['r'])):
                    return True
        return False


def tails(e):
    """the expressions whose value the body or expression takes"""
    if isinstance(e, list):
        if e and e[-1]['k'] == 'expr' and not e[-1].get('semi'):
            yield from tails(e[-1]['e'])
    elif isinstance(e, dict):
        k = e['k']
        if k == 'if':
            yield from tails(e['t'])
            yield from tails(e['e'])
        elif k == 'match':
            for a in e['arms']:
                yield from tails(a['b'])
        elif k in ('block', 'unsafe'):
            yield from tails(e['b'])
        else:
            yield e


@check('C30', 'error-exit analysis of every function reachable from the rule dispatch: each error it can return comes from a missing required part of the syntax tree, never from what the analysed code contains')
def c30(c):
    idx = load()
    x = Fails(c, idx)
    roots = [f for f in product_fns(idx) if A in f.file and returns_result(f)]
    c.count('dispatch functions', len(roots))
    x.run(roots)
    c.count('error exits judged', x.sites)
    c.floor('dispatch functions', 8)
    c.floor('error exits judged', 200)
