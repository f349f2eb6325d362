"""Normal form of terms over well-formed syntax: what the parser guarantees is present is present, however it is asked for."""
import re
from .term import rewrite, app, mk, ite, is_, ge0, add, slen, beta, fresh, N, OR, Some, NONE, TRUE

# accessors of parts that a node of a file without parse errors always has (they give `Result`)
REQUIRED = {'left', 'right', 'operator', 'function', 'arguments', 'body', 'condition', 'consequence', 'alternative', 'argument', 'name_token', 'value_token', 'name', 'variable', 'sequence',
            'parameters', 'l_paren_token', 'r_paren_token', 'if_token', 'else_token', 'function_token', 'l_curly_token', 'r_curly_token', 'while_token', 'for_token', 'in_token', 'expression'}
OPTIONAL = {'value', 'name_clause', 'else_clause', 'default'}
VARIANT = re.compile(r'^AnyR\w*::((Any)?R[A-Z]\w*)$')
CAN_CAST = re.compile(r'^(R[A-Z]\w*)::can_cast$')
CAST = re.compile(r'^R([A-Z]\w*)::cast(_ref)?$')


def required(x):
    return x.op == 'app' and x.a[0] in REQUIRED and len(x.a) == 2


def inner(x):
    """the node itself behind conversions between its typed and untyped forms"""
    while x.op == 'app' and x.a[0] in ('syntax', 'into_syntax', 'into', 'clone', 'to_owned') and len(x.a) == 2:
        x = x.a[1]
    return x


def upper(n):
    """RCall is the type of the nodes of kind R_CALL"""
    return re.sub(r'(?<!^)([A-Z])', r'_\1', n).upper()


def is_node(y, kind):
    """a node of one kind; values (numbers, strings) are several kinds of nodes"""
    if kind == 'ANY_R_VALUE':
        return OR(*(is_(y, 'node:' + k) for k in ('R_COMPLEX_VALUE', 'R_DOUBLE_VALUE', 'R_INTEGER_VALUE', 'R_STRING_VALUE')))
    if kind.startswith('ANY_'):
        return is_(app('group', y), 'node:' + kind)
    return is_(y, 'node:' + kind)


def bare_kind(x):
    return x.op == 'is' and x.a[1].isupper() and x.a[0].op == 'app' and x.a[0].a[0] == 'kind'


def has_item(x):
    """the list has an item of that index: it is long enough"""
    if x.op == 'app' and x.a[0] == 'nth' and len(x.a) == 3 and x.a[2].op == 'int':
        l = x.a[1]
        if l.op == 'it' and len(l.a) == 1:
            l = l.a[0]
        if l.op == 'app' and l.a[0] == 'items':
            return ge0(add(slen(l), N(-1 - x.a[2].a[0])))
    return None


def flat_items(x):
    """the arguments of a call, each there: flattening them is the list itself"""
    if x.op != 'app' or x.a[0] != 'flat' or x.a[1].op != 'it':
        return None
    i = x.a[1]
    if i.a[0].op != 'app' or i.a[0].a[0] != 'items':
        return None
    if len(i.a) == 1:
        return i
    z = fresh('item')
    body = beta(i.a[1], z)
    if body.op == 'ctor' and body.a[0] == 'Some' and body.a[1].op == 'it' and body.a[1].a[0] is z and len(body.a[1].a) == 2:
        return mk('it', i.a[0], body.a[1].a[1])
    return None


def norm(t):
    def f(x):
        if x.op == 'it':
            i = flat_items(x.a[0])
            if i is not None and len(i.a) == 1:
                return mk('it', i.a[0], *x.a[1:])
            if i is not None and len(x.a) == 1:
                return i
        if x.op == 'field' and x.a[0].op == 'app' and x.a[0].a[0] == 'as_fields':
            return app(x.a[1], x.a[0].a[1])
        if x.op == 'app' and len(x.a) == 2:
            n, y = x.a
            if n.startswith('f:'):
                return f(app(n[2:], y)) or app(n[2:], y)
            if n in ('clone', 'cloned'):
                return y
            if n == 'into_syntax':
                return app('syntax', y)
            if n in ('syntax', 'to_trimmed_string', 'to_trimmed_text', 'text_trimmed', 'text_trimmed_range') and y.op == 'app' and y.a[0] in ('syntax', 'into') and len(y.a) == 2:
                return app(n if n != 'to_trimmed_text' and (n != 'text_trimmed') else 'to_trimmed_string', y.a[1]) if n != 'text_trimmed_range' else None
            if n == 'text' and y.op == 'app' and y.a[0] in ('to_trimmed_text', 'to_trimmed_string'):
                return app('to_trimmed_string', y.a[1])
            if n == 'to_trimmed_text':
                return app('to_trimmed_string', y)
            if n == 'range':
                return app('text_trimmed_range', app('syntax', y))
            m = CAST.match(n)
            if m:
                return ite(is_node(inner(y), upper('R' + m.group(1))), Some(inner(y)), NONE)
            m = CAN_CAST.match(n)
            if m and y.op == 'app' and y.a[0] == 'kind':
                return is_node(inner(y.a[1]), upper(m.group(1)))
            if n.startswith(('as_r_', 'as_any_r_')):
                return ite(is_node(inner(y), n[3:].upper()), Some(inner(y)), NONE)
            if n == 'kind' and inner(y) is not y:
                return app('kind', inner(y))
        if x.op == 'is' and isinstance(x.a[1], str):
            m = VARIANT.match(x.a[1])
            if m:
                return is_node(inner(x.a[0]), upper(m.group(1)))
            if x.a[1].startswith('RSyntaxKind::R_') and x.a[0].op == 'app' and x.a[0].a[0] == 'kind':
                return is_node(inner(x.a[0].a[1]), x.a[1][13:])
        if x.op == 'get' and isinstance(x.a[1], str) and VARIANT.match(x.a[1]):
            return inner(x.a[0])
        if x.op == 'get' and x.a[1] in ('Ok', 'Some'):
            e = x.a[0]
            if e.op in ('bv', 'fresh'):
                return e
            if e.op == 'get':
                e = e.a[0]
            if e.op == 'app' and e.a[0] in ('first', 'nth', 'last', 'next', 'find') and (e is not x.a[0] or e.a[0] == 'first'):     # an item of a list of nodes
                return x.a[0]
            if x.a[1] == 'Ok' and x.a[0].op == 'app' and x.a[0].a[0] in OPTIONAL and len(x.a[0].a) == 2:       # `.context(…)?`
                return mk('get', x.a[0], 'Some', *x.a[2:])
            if required(x.a[0]):
                return app('the_' + x.a[0].a[0], x.a[0].a[1])
        if x.op == 'ite' and bare_kind(x.a[0]):
            return ite(mk('is', x.a[0].a[0], 'RSyntaxKind::' + x.a[0].a[1]), x.a[1], x.a[2])
        if x.op == 'is' and x.a[1] == 'Some' and has_item(x.a[0]) is not None:
            return has_item(x.a[0])
        if x.op == 'is' and (x.a[1] == 'Ok' or x.a[1] == 'Some' and required(x.a[0])):
            return TRUE
        if x.op == 'ite' and x.a[0].op == 'is' and (x.a[0].a[1] == 'Ok' or x.a[0].a[1] == 'Some' and required(x.a[0].a[0])):
            return x.a[1]
        if x.op == 'ite' and x.a[0].op == 'is':
            c = f(x.a[0])
            if c is not None:
                return ite(c, x.a[1], x.a[2])
        return None
    return rewrite(t, f)


# a token of an operator has the kind of its text; the `%...%` operators share one
OPERATORS = {'=': 'EQUAL', '<-': 'ASSIGN', '<<-': 'SUPER_ASSIGN', '->': 'ASSIGN_RIGHT', '->>': 'SUPER_ASSIGN_RIGHT', '~': 'TILDE', '|': 'OR', '||': 'OR2', '&': 'AND', '&&': 'AND2', '!': 'BANG', '==': 'EQUAL2',
             '!=': 'NOT_EQUAL', '<': 'LESS_THAN', '<=': 'LESS_THAN_OR_EQUAL_TO', '>': 'GREATER_THAN', '>=': 'GREATER_THAN_OR_EQUAL_TO', '+': 'PLUS', '-': 'MINUS', '*': 'MULTIPLY', '/': 'DIVIDE', '|>': 'PIPE',
             ':': 'COLON', '^': 'EXPONENTIATE', '?': 'WAT', ':=': 'WALRUS'}


def operator_kinds(t):
    """tests of an operator's text as tests of its kind; the text of a name or a value is that of its only token"""
    def g(x):
        if x.op == 'app' and x.a[0] in ('text_trimmed', 'token_text_trimmed', 'to_trimmed_string') and len(x.a) == 2 and x.a[1].op == 'app' and x.a[1].a[0] in ('the_name_token', 'the_value_token'):
            return app('to_trimmed_string', inner(x.a[1].a[1]))
        if x.op == 'ite' and x.a[0].op == 'eq' and x.a[0].a[1].op == 'str':
            o, text = x.a[0].a[0], x.a[0].a[1].a[0]
            if o.op == 'app' and o.a[0] == 'text_trimmed' and o.a[1].op == 'app' and o.a[1].a[0] == 'the_operator':
                if text in OPERATORS:
                    return ite(is_(mk('app', 'kind', o.a[1]), 'RSyntaxKind::' + OPERATORS[text]), x.a[1], x.a[2])
                if len(text) > 1 and text[0] == text[-1] == '%':
                    return ite(is_(mk('app', 'kind', o.a[1]), 'RSyntaxKind::SPECIAL'), ite(mk('eq', mk('app', 'special_text', o.a[1]), x.a[0].a[1]), x.a[1], x.a[2]), x.a[2])
        return None
    return rewrite(t, g)


VOCAB = {'app:' + n for n in REQUIRED | OPTIONAL} | {'app:the_' + n for n in REQUIRED} | {'app:' + n for n in (
    'syntax', 'text', 'text_trimmed', 'to_trimmed_string', 'token_text_trimmed', 'kind', 'index', 'parent', 'prev_sibling_or_token', 'next_sibling_or_token', 'prev_sibling', 'next_sibling',
    'first_child', 'last_child', 'items', 'descendants_tokens', 'has_leading_comments', 'has_trailing_comments', 'text_trimmed_range', 'text_range', 'start', 'end', 'grand_parent', 'expressions',
    'children', 'descendants', 'ancestors', 'special_text', 'slots', 'siblings', 'group')}
