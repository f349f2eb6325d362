from ..core import check
from ..term import rewrite, mk, ctor, lift, show, TRUE, app, UNIT

A = 'jarl-core/src/analyze/'
KINDS = {'anyvalue', 'binary_expression', 'call', 'for_loop', 'function_definition', 'identifier', 'if_', 'namespace_expression', 'subset', 'unary_expression', 'while_'}


def parts(t):
    """accessors of well-formed syntax nodes: `x.as_fields().f` is `x.f()`, present parts are present"""
    def f(x):
        if x.op == 'field' and x.a[0].op == 'app' and x.a[0].a[0] == 'as_fields':
            return app(x.a[1], x.a[0].a[1])
        if x.op == 'app' and x.a[0].startswith('f:') and len(x.a) == 2:
            return app(x.a[0][2:], x.a[1])
        if x.op == 'ite' and x.a[0].op == 'is' and x.a[0].a[1] == 'Ok':
            return x.a[1]
        if x.op == 'get' and x.a[1] in ('Ok', 'Some') and x.a[0].op in ('bv', 'fresh'):     # a present item of a list of nodes
            return x.a[0]
        return None
    return rewrite(t, f)


def bag(t):
    """the recorded visits without their order"""
    def leaf(x):
        out = []
        while True:
            if x.op == 'list':
                out += x.a
                break
            if x.op in ('push', 'extend'):
                out.append(x.a[1] if x.op == 'push' else mk('app', 'each', x.a[1]))
                x = x.a[0]
                continue
            if x.op == 'collect':
                out.append(mk('app', 'each', x.a[1]))
                break
            out.append(mk('app', 'rest', x))
            break
        return mk('list', *sorted(out, key=lambda q: (q.op, show(q), q.id)))
    return lift(leaf, t)


def visits(what, t):
    if what.startswith('final'):
        return None
    t = parts(t)
    return bag(t) if what.startswith('sequence') else t


@check('C24', 'gated value numbering of the tree walk on well-formed syntax: the collection of recursive visits and rule dispatches of each node kind is compared with a reference, and every node of a file or chunk is handed to it')
def c24(c):
    V = KINDS | {'check_expression'}
    c.equiv(A + 'expression.rs', 'check_expression', 'spec_visit', opaque=V, effects=V, project=visits, assume_ok=True, passive={n: ctor('Ok', UNIT) for n in V})
    from .c10 import CK, GETCK
    c.equiv(CK, 'get_checks', 'spec_get_checks', opaque=GETCK)
