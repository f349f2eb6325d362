"""A fix keeps the grouping of the code: what it inserts stays one operand of what is around it, and what it copies stays one operand in it."""
import re, os
DBG = os.environ.get('DBG33')
from ..core import check, load, rel
from ..eff import product_fns
from ..lints import is_lint, lint_summary
from ..syn import norm, inner, VOCAB
from .c32 import one_operator
from ..term import rewrite, mk, subterms, show, N as INT, lin, T

HELPERS = ('binding_strength', 'unary_binding_strength', 'expression_strength', 'parenthesize_in_place_of')
OPS = {'?': 1, '=': 2, '<-': 3, '<<-': 3, ':=': 3, '->': 4, '->>': 4, '~': 5, '|': 6, '||': 6, '&': 7, '&&': 7, '!': 8, '==': 9, '!=': 9, '<': 9, '<=': 9, '>': 9, '>=': 9, '+': 10, '-': 10, '*': 11, '/': 11,
       '|>': 12, '%in%': 12, '%||%': 12, ':': 13, '^': 15, '**': 15}
KINDS = {'EQUAL': '=', 'ASSIGN': '<-', 'SUPER_ASSIGN': '<<-', 'ASSIGN_RIGHT': '->', 'SUPER_ASSIGN_RIGHT': '->>', 'TILDE': '~', 'OR': '|', 'OR2': '||', 'AND': '&', 'AND2': '&&', 'BANG': '!', 'EQUAL2': '==',
         'NOT_EQUAL': '!=', 'LESS_THAN': '<', 'LESS_THAN_OR_EQUAL_TO': '<=', 'GREATER_THAN': '>', 'GREATER_THAN_OR_EQUAL_TO': '>=', 'PLUS': '+', 'MINUS': '-', 'MULTIPLY': '*', 'DIVIDE': '/', 'SPECIAL': '%in%',
         'PIPE': '|>', 'COLON': ':', 'EXPONENTIATE': '^', 'WAT': '?', 'WALRUS': ':='}
KIND_OF = {v: k for k, v in KINDS.items()}
TOP = 255
PRIMARY = {'R_CALL', 'R_IDENTIFIER', 'R_PARENTHESIZED_EXPRESSION', 'R_BRACED_EXPRESSIONS', 'R_SUBSET', 'R_SUBSET2', 'R_EXTRACT_EXPRESSION', 'R_NAMESPACE_EXPRESSION', 'R_STRING_VALUE', 'R_DOUBLE_VALUE',
           'R_INTEGER_VALUE', 'R_COMPLEX_VALUE', 'R_TRUE_EXPRESSION', 'R_FALSE_EXPRESSION', 'R_NULL_EXPRESSION', 'R_INF_EXPRESSION', 'R_NA_EXPRESSION', 'R_NAN_EXPRESSION'}
OPEN = {'R_IF_STATEMENT', 'R_FOR_STATEMENT', 'R_WHILE_STATEMENT', 'R_REPEAT_STATEMENT', 'R_FUNCTION_DEFINITION'}
RIGHT_ASSOCIATIVE = {1, 2, 3, 15}

# what can be around a node: (kind of the parent, its operator, where the node is)
CONTEXTS = [('R_BINARY_EXPRESSION', o, side) for o in ('=', '<-', '->', '~', '||', '&&', '==', '+', '*', '%in%', '|>', ':', '^') for side in ('left', 'right')]
CONTEXTS += [('R_UNARY_EXPRESSION', o, 'right') for o in ('!', '-', '~')]
CONTEXTS += [(k, None, 'left') for k in ('R_CALL', 'R_SUBSET', 'R_SUBSET2', 'R_EXTRACT_EXPRESSION')]
HEADS = [('R_ARGUMENT', None, 'place'), ('R_PARAMETER', None, 'place'), ('R_IF_STATEMENT', None, 'place'), ('R_WHILE_STATEMENT', None, 'place')]


def strength(op, unary=False):
    return 14 if unary and op in '+-' else OPS.get(op, 12)


def app_of(x, *names):
    return x.op == 'app' and isinstance(x.a[0], str) and (x.a[0][2:] if x.a[0].startswith('f:') else x.a[0]) in names


def consts(t):
    def g(x):
        if app_of(x, 'binding_strength') and len(x.a) == 2 and x.a[1].op == 'str':
            return INT(OPS.get(x.a[1].a[0], 12))
        if app_of(x, 'unary_binding_strength') and len(x.a) == 2 and x.a[1].op == 'str':
            return INT(strength(x.a[1].a[0], True))
        return None
    return rewrite(t, g)


def node_of(x):
    """the syntax node behind its text"""
    while x.op == 'app' and x.a[0] in ('to_trimmed_string', 'to_trimmed_text', 'to_string', 'text_trimmed', 'trim', 'text', 'syntax', 'into_syntax', 'into', 'clone', 'to_owned') and len(x.a) == 2:
        x = x.a[1]
    return x


def edge(x, which):
    """the node whose trimmed start or end this is"""
    if app_of(x, which) and len(x.a) == 2 and app_of(x.a[1], 'text_trimmed_range') and len(x.a[1].a) == 2:
        return x.a[1].a[1]
    return None


# ---------------------------------------------------------------- the replacement as R code
TOKEN = re.compile(r'\s+|"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|[A-Za-z.][\w.]*|\d[\w.]*|%[^%]*%|:::?|<<-|->>|<-|->|<=|>=|==|!=|\|>|\|\||&&|:=|\*\*|[-+*/^<>=!?~|&:$@,;]|[(\[{]|[)\]}]')


class Shape(Exception):
    pass


def tokens(code):
    """tokens outside of parentheses: ('atom',), ('group',), ('op', text), ('hole', term), ('kw', text)"""
    parts = list(code.a[1:]) if code.op == 'app' and code.a[0] == 'cat' else list(code.a) if code.op == 'cat' else [code]
    out, depth = [], 0
    for p in parts:
        if p.op != 'str':
            if depth == 0:
                out.append(('hole', p))
            continue
        s, i = p.a[0], 0
        while i < len(s):
            m = TOKEN.match(s, i)
            if not m:
                raise Shape('text %r' % s)
            t, i = m.group(), m.end()
            if t in '([{':
                if depth == 0:
                    out.append(('group', t))
                depth += 1
            elif t in ')]}':
                depth -= 1
            elif depth or t.isspace():
                if t.isspace() and depth == 0:
                    out.append(('space', t))
            elif t in ('if', 'while', 'for', 'repeat', 'function', 'else'):
                out.append(('kw', t))
            elif t in ('::', ':::', '$', '@'):
                out.append(('tight', t))
            elif re.match(r'[A-Za-z.\d"\']', t):
                out.append(('atom', t))
            elif t in ',;':
                raise Shape('several expressions')
            else:
                out.append(('op', t))
    if depth:
        raise Shape('unbalanced')
    return out


class Code:
    """operators and holes of a replacement at its outermost level"""

    def __init__(s, code):
        s.ops, s.holes, s.prefix = [], [], False      # holes: (term, operator on its left, operator on its right, is last)
        toks = tokens(code)
        seq = []
        for i, (k, v) in enumerate(toks):
            if k == 'space':
                seq.append((k, v))
            elif k == 'hole' and app_of(v, 'text_trimmed') and app_of(v.a[1], 'the_operator'):
                seq.append(('op', v))
            elif k == 'hole' and (app_of(v, 'get_function_name', 'get_function_namespace_prefix') or v.op in ('get', 'field') and any(app_of(q, 'get_function_namespace_prefix') for q in subterms(v))):
                seq.append(('atom', v))
            elif k == 'hole' and app_of(node_of(v), 'the_arguments'):
                seq.append(('group', v))
            elif k == 'hole' and app_of(node_of(v), 'the_value_token') and seq and seq[-1][0] == 'atom':
                pass
            elif k == 'hole' and seq and seq[-1][0] in ('atom', 'group', 'hole') or k == 'atom' and seq and seq[-1][0] == 'hole':
                raise Shape('adjacent texts')
            else:
                seq.append((k, v))
        s.seq = [x for x in seq if x[0] != 'space']
        s.parse()

    def parse(s):
        left, i, q = None, 0, s.seq
        first = True
        while i < len(q):
            k, v = q[i]
            if k == 'op':
                if v not in ('!', '-', '+', '~', '?'):
                    raise Shape('operator without left operand')
                s.ops.append((v, True))
                s.prefix |= first
                left, first = (v, True), False
                i += 1
                continue
            if k == 'kw':
                s.prefix |= first
                if v == 'repeat':
                    i += 1
                elif v in ('if', 'while', 'for', 'function') and i + 1 < len(q) and q[i + 1][0] == 'group':
                    i += 2
                else:
                    raise Shape('keyword')
                s.ops.append(('open', True))
                left, first = ('open', True), False
                continue
            if k not in ('atom', 'group', 'hole'):
                raise Shape('operand')
            first = False
            i += 1
            tight = False
            while i < len(q) and q[i][0] in ('group', 'tight', 'atom'):
                tight = True
                i += 1
            right = None
            if i < len(q):
                if q[i][0] != 'op':
                    raise Shape('operator')
                right = (q[i][1], False)
                s.ops.append(right)
                i += 1
                if i == len(q):
                    raise Shape('operator without right operand')
            if k == 'hole' and not syntax_term(node_of(v)):
                raise Shape('computed text')
            if k == 'hole':
                s.holes.append((v, left, 'tight' if tight else right, right is None and not tight))
            left = right


# ---------------------------------------------------------------- paths to a fix
PLACES = ('parent_is_if_condition', 'parent_is_if_body', 'parent_is_while_condition', 'parent_is_while_body', 'parent_is_else_body', 'parent_is_for_body', 'has_previous_pipe', 'parent_is_bang_unary')
CONTENT = HELPERS + ('get_nested_functions_content', 'node_contains_comments', 'get_function_name', 'get_function_namespace_prefix')
AROUND = ('parent', 'index', 'prev_sibling_or_token', 'next_sibling_or_token', 'ancestors', 'prev_sibling', 'next_sibling')


def about(atom, things):
    """does the test say where a node is, which kind it is, or how tightly it holds together?"""
    for x in subterms(atom):
        if x.op == 'is' and x.a[1].startswith('node:') and inner(x.a[0]) in things:
            return True
        if app_of(x, *AROUND, 'the_operator', 'expression_strength') and len(x.a) == 2 and inner(x.a[1]) in things:
            return True
        if app_of(x, 'the_operator') and parent_of(x.a[1]) in things:
            return True
        if app_of(x, *PLACES) and len(x.a) == 2 and (inner(x.a[1]) in things or any(parent_of(y) is inner(x.a[1]) for y in things)):
            return True
        if x.op == 'app' and x.a[0].startswith('f:') and x.a[0][2:] not in CONTENT and any(inner(y) in things for y in x.a[1:]):
            return True
    return False


def says(a):
    """(subject, what it is) of a test of a kind"""
    if a.op == 'is' and a.a[1].startswith('node:'):
        return inner(a.a[0]), a.a[1][5:]
    if a.op == 'is' and a.a[1].startswith('RSyntaxKind::') and app_of(a.a[0], 'kind') and len(a.a[0].a) == 2:
        return inner(a.a[0].a[1]), a.a[1].split('::')[1]
    if a.op == 'eq' and app_of(a.a[0], 'text_trimmed') and app_of(a.a[0].a[1], 'the_operator') and a.a[1].op == 'str':
        o = a.a[1].a[0]
        return inner(a.a[0].a[1]), KIND_OF.get(o, 'SPECIAL')
    if app_of(a, *PLACES) and len(a.a) == 2 and a.a[0].startswith('parent_is_'):
        k = {'if': 'R_IF_STATEMENT', 'while': 'R_WHILE_STATEMENT', 'for': 'R_FOR_STATEMENT', 'else': 'R_ELSE_CLAUSE', 'bang': 'R_UNARY_EXPRESSION'}[a.a[0].split('_')[2]]
        e = inner(a.a[1])
        return ('parent', e.id), k
    return None


def no_parent(a):
    """the outcome of a test that would mean that the analysed expression is not in a file; every expression has a parent there"""
    if a.op == 'is' and a.a[1] in ('Some', 'None') and app_of(a.a[0], 'parent') and len(a.a[0].a) == 2 and inner(a.a[0].a[1]).op == 'var':
        return a.a[1] == 'None'
    return None


def clash(path, atom):
    """the new test cannot hold, as something else is already known to be there"""
    k = says(atom)
    if k is None:
        return False
    keys = {k[0]} | ({('parent', parent_of(k[0]).id)} if isinstance(k[0], T) and parent_of(k[0]) is not None else set())
    for a, v in path:
        if v:
            j = says(a)
            if j is None or j[1] == k[1]:
                continue
            other = {j[0]} | ({('parent', parent_of(j[0]).id)} if isinstance(j[0], T) and parent_of(j[0]) is not None else set())
            if keys & other:
                return True
    return False


def parent_of(x):
    """the node of which x is the parent"""
    x = inner(x)
    if x.op == 'get' and app_of(x.a[0], 'parent') and len(x.a[0].a) == 2:
        return inner(x.a[0].a[1])
    return None


class Rule:
    def __init__(s, c, f):
        s.c, s.f = c, f
        v, fns = lint_summary(f)
        s.n = consts(norm(v)) if v is not None else None
        if f.name == 'assignment' and s.n is not None:
            s.n = one_operator(s.n)
        c.funcs.update('%s::%s' % (rel(x.file), x.qual) for x in fns)
        ty = [p['ty'] for p in f.j['in'] if p.get('ty')]
        s.type = re.sub(r'[&\s]|\bmut\b', '', ty[0]['s']) if ty else ''

    def fixes(s):
        seen = {}
        for x in subterms(s.n):
            if x.op == 'struct' and x.a[0] == 'Fix':
                d = dict(zip(x.a[1], x.a[2:]))
                if d['content'].op == 'str' and d['content'].a[0] == '':
                    continue
                if d['to_skip'].op == 'bool' and d['to_skip'].a[0]:
                    continue
                seen[x] = d
        return seen

    def run(s):
        c, f = s.c, s.f
        if s.n is None:
            c.undecided('grouping:%s' % f.qual, 'not summarised')
            return
        fixes = s.fixes()
        hard = {}
        for x, d in fixes.items():
            c.count('replacements', 1)
            try:
                n = edge(d['start'], 'start')
                if n is None or edge(d['end'], 'end') is not n:
                    raise Shape('the replaced range is not that of a node')
                content, given = d['content'], None
                if app_of(content, 'parenthesize_in_place_of') and len(content.a) == 4:
                    given = (content.a[1], content.a[3])
                    content = content.a[2]
                if any(y.op == 'ite' for y in subterms(content)) and content.op == 'ite':
                    raise Shape('alternatives')
                code = Code(content)
            except Shape as e:
                c.undecided('grouping:%s' % f.qual, str(e))
                continue
            if not code.ops and not code.holes:
                c.count('replacements that are one unit', 1)
                continue
            hard[x] = (n, code, content, given)
        if not hard:
            if fixes:
                c.ok('grouping:%s' % f.qual)
            return
        things = set()
        for n, code, content, given in hard.values():
            p = inner(n)
            things.add(p)
            for h, l, r, last in code.holes:
                e = node_of(h)
                things.add(inner(e))
                if app_of(e, 'the_left', 'the_right', 'the_argument', 'the_body'):
                    things.add(inner(e.a[1]))
        s.judged = set()
        n0 = len(c.viol)
        s.found, s.unknown = {}, {}
        try:
            s.visit(s.n, (), things, hard)
        except OverflowError:
            c.undecided('grouping:%s' % f.qual, 'too many paths')
            return
        for key, text in sorted(s.found.items()):
            c.bad('grouping:%s:%s' % (f.qual, key), '%s:%s fn %s' % (rel(f.file), f.line, f.qual), text)
        for key, text in sorted(s.unknown.items()):
            c.undecided('grouping:%s:%s' % (f.qual, key), text)
        if not s.found and not s.unknown:
            c.ok('grouping:%s' % f.qual)

    def visit(s, root, path, things, hard):
        seen, st = set(), [(root, ())]
        steps = 0
        while st:
            t, p = st.pop()
            steps += 1
            if steps > 150000:
                raise OverflowError
            k = (t.id, p)
            if k in seen:
                continue
            seen.add(k)
            if t.op == 'ite':
                a = t.a[0]
                rel_ = about(a, things)
                for v, x in ((True, t.a[1]), (False, t.a[2])):
                    q = p
                    if rel_:
                        if (a, not v) in p or v and clash(p, a) or v is no_parent(a):
                            continue
                        if (a, v) not in p:
                            q = p + ((a, v),)
                    st.append((x, q))
                continue
            for x in subterms(t):
                if x in hard:
                    s.c.count('paths to a replacement', 1)
                    s.judge(x, p, *hard[x])

    # ---- what the path says
    def kind_of(s, e, path):
        for a, v in path:
            k = says(a) if v else None
            if k and k[0] is inner(e):
                return k[1]
            if k and isinstance(k[0], tuple) and parent_of(e) is not None and k[0][1] == parent_of(e).id:
                return k[1]
        return None

    def operator(s, b, path):
        """strength of the operator of a binary or unary node on this path"""
        unary = s.kind_of(b, path) == 'R_UNARY_EXPRESSION' or b.op == 'var' and s.type == 'RUnaryExpression'
        alts, excluded = None, set()
        for a, v in path:
            o = None
            if v and app_of(a, 'parent_is_bang_unary') and parent_of(b) is inner(a.a[1]):
                return 8
            if a.op == 'is' and a.a[1].startswith('RSyntaxKind::') and app_of(a.a[0], 'kind') and app_of(a.a[0].a[1], 'the_operator') and inner(a.a[0].a[1].a[1]) is inner(b):
                o = KINDS.get(a.a[1].split('::')[1])
            elif a.op == 'eq' and app_of(a.a[0], 'text_trimmed') and app_of(a.a[0].a[1], 'the_operator') and inner(a.a[0].a[1].a[1]) is inner(b) and a.a[1].op == 'str':
                o = a.a[1].a[0]
            if o and v:
                return strength(o, unary)
        return None

    def bounds(s, e, path):
        """what is known about the strength of an expression"""
        lo, hi, tested = 0, TOP, False
        for a, v in path:
            if a.op == 'ge0':
                k, t = lin(a.a[0])
                es = [x for x in t if app_of(x, 'expression_strength') and inner(x.a[1]) is inner(e)]
                if len(es) == 1 and len(t) == 1 and abs(t[es[0]]) == 1:
                    up = t[es[0]] == 1
                    if v and up:
                        lo = max(lo, -k)
                    elif v:
                        hi = min(hi, k)
                    elif up:
                        hi = min(hi, -k - 1)
                    else:
                        lo = max(lo, k + 1)
                elif about(a, {inner(e)}):
                    tested = True
            elif a.op in ('eq', 'eq0') and any(app_of(x, 'expression_strength') for x in subterms(a)) and about(a, {inner(e)}):
                tested = True
        k = s.kind_of(e, path)
        if k in PRIMARY:
            lo = TOP
        elif target(e, s.type) and any(o == s.operator(inner(e.a[1]), path) for o in ((3, 2) if app_of(e, 'the_left') else (4,))):
            lo = TOP
        elif k in OPEN:
            hi = 0
        elif k or any(a.op == 'is' and a.a[1].startswith('node:') and inner(a.a[0]) is inner(e) for a, v in path):
            tested = True
        if app_of(e, 'get_nested_functions_content'):
            tested = True
        return lo, hi, tested

    def start_bound(s, e, path):
        """the loosest operator an operator on the left of the expression can meet; what starts with an operator or a keyword is taken whole"""
        k = s.kind_of(e, path)
        if k is not None and k != 'R_BINARY_EXPRESSION':
            return TOP
        gone = set()
        for a, v in path:
            if v:
                continue
            j = says(a)
            if j and j[0] is inner(e) and j[1] == 'R_BINARY_EXPRESSION':
                return TOP
            if j and isinstance(j[0], T) and app_of(j[0], 'the_operator') and inner(j[0].a[1]) is inner(e):
                gone.add(KINDS.get(j[1]))
        if k is None:
            return 0
        o = s.operator(inner(e), path)
        return o if o is not None else min(x for n, x in OPS.items() if n not in gone and n != '?')

    # ---- the verdict on one path
    def judge(s, x, path, n, code, content, given):
        if (x, path) in s.judged:
            return
        s.judged.add((x, path))
        whole = None
        comps = []                       # how tightly the code holds together: constants and expressions
        for o, un in code.ops:
            if o == 'open':
                comps.append(0)
            elif isinstance(o, str):
                comps.append(strength(o, un))
            else:
                comps.append(s.operator(o.a[1].a[1], path) or 9)
        N = inner(n)
        for h, l, r, last in code.holes:
            e = node_of(h)
            lo, hi, tested = s.bounds(e, path)
            b = inner(e.a[1]) if app_of(e, 'the_left', 'the_right', 'the_argument') else None
            sb = s.operator(b, path) if b is not None else None
            own = b is not None and b is N
            value = lambda o: 0 if o[0] == 'open' else strength(o[0], o[1]) if isinstance(o[0], str) else s.operator(o[0].a[1].a[1], path) or 9
            bad = None
            if r == 'tight':
                if lo < TOP:
                    bad = 'what follows `%s` applies to the end of it only' % show(h)[:60]
            elif r is not None and lo < value(r) and not (app_of(e, 'the_left') and sb is not None and sb >= value(r)):
                bad = 'the operator `%s` takes the end of `%s` only, if that is of a looser operator' % (r[0] if isinstance(r[0], str) else 'of the comparison', brief(e))
            if bad is None and l is not None and l != 'tight':
                q = value(l)
                lo, lo_ = max(lo, s.start_bound(e, path)), lo
                if lo <= q and not (lo == q and q in RIGHT_ASSOCIATIVE) and not (app_of(e, 'the_right', 'the_argument') and sb is not None and sb >= q) and not (app_of(e, 'the_left') and sb is not None and sb >= q) and q:
                    bad = 'the operator `%s` takes the start of `%s` only, if that is of a looser operator' % (l[0] if isinstance(l[0], str) else 'of the comparison', brief(e))
                lo = lo_
            if bad and DBG: print(s.f.name, bad, '\n     ', '\n      '.join('%s %s' % (b, show(a)[:200]) for a, b in path))
            if bad:
                (s.unknown if tested and hi == TOP and lo == 0 else s.found).setdefault('operand', bad)
            if last and not (own and app_of(e, 'the_right')):
                if code.ops:
                    if not (app_of(e, 'the_left') and sb is not None and sb >= min(x for x in comps if isinstance(x, int))) and lo < TOP:
                        comps.append((e, lo, hi, tested))
                elif own and app_of(e, 'the_left') and sb is not None:
                    comps.append(sb)
                elif lo < TOP:
                    comps.append((e, lo, hi, tested))
            elif last and not code.ops:
                comps.append(sb or 0)
        least = min([x for x in comps if isinstance(x, int)] or [TOP])
        syms = [x for x in comps if not isinstance(x, int)]
        if given is not None:
            s.wrapped(given, N, least, syms, path)
        else:
            s.bare(n, N, code, least, syms, path)

    def wrapped(s, given, N, least, syms, path):
        s.c.count('replacements put in parentheses where needed', 1)
        at, st = given
        if inner(at) is not N:
            s.found.setdefault('place', 'parentheses are decided for `%s`, but `%s` is replaced' % (brief(at), brief(N)))
            return
        if st.op == 'int':
            k = st.a[0]
            if k > least:
                s.found.setdefault('strength', 'the replacement is said to hold together with strength %d, but an operator of strength %d takes it apart' % (k, least))
            for e, lo, hi, tested in syms:
                if lo < k:
                    (s.unknown if tested and lo == 0 else s.found).setdefault('strength', 'the replacement is said to hold together with strength %d, but ends with `%s`, which can be looser' % (k, brief(e)))
        elif app_of(st, 'expression_strength'):
            e0 = inner(node_of(st.a[1]))
            lo, hi, tested = s.bounds(node_of(st.a[1]), path)
            if hi > least:
                s.found.setdefault('strength', 'the replacement is said to hold together as `%s`, but has an operator of strength %d' % (brief(e0), least))
            for e, l, h, t in syms:
                if inner(e) is not e0 and l < hi:
                    if l < lo and not t:
                        s.found.setdefault('strength', 'the replacement is said to hold together as `%s`, but ends with `%s`, which can be looser' % (brief(e0), brief(e)))
                    else:
                        s.unknown.setdefault('strength', 'strength of `%s`' % brief(e))
        else:
            s.unknown.setdefault('strength', 'strength given as %s' % show(st)[:80])

    def bare(s, n, N, code, least, syms, path):
        low = min([least] + [lo for e, lo, hi, tested in syms])
        unsure = any(tested for e, lo, hi, tested in syms) and low < least
        s.c.count('replacements inserted as they are', 1)
        # how tightly the replaced node holds together
        prefix, old = False, TOP
        kind = s.kind_of(N, path)
        if N.op == 'var' and not kind:
            kind = re.sub(r'(?<!^)(?=[A-Z])', '_', s.type).upper()
        if N.op != 'var' and not kind and not (N.op in ('get', 'field') and any(app_of(y, 'get_nested_functions_content') for y in subterms(N))):
            if low < TOP:
                s.unknown.setdefault('place', 'kind of the replaced `%s`' % brief(N))
            return
        if kind == 'R_BINARY_EXPRESSION':
            old = s.operator(N, path)
        elif kind == 'R_UNARY_EXPRESSION':
            old, prefix = s.operator(N, path) or 8, True
        elif kind in OPEN:
            old, prefix = 0, True
        if old is None:
            if low < TOP:
                s.unknown.setdefault('place', 'operator of the replaced expression')
            return
        # (the clearest case first)
        for K in sorted(CONTEXTS, key=lambda K: K[1] is None or strength(K[1], K[0] == 'R_UNARY_EXPRESSION') <= least) + (HEADS if any(o == '=' for o, u in code.ops) else []):
            k, o, side = K
            q = TOP if o is None else strength(o, k == 'R_UNARY_EXPRESSION')
            if side == 'place':
                if old == TOP or old <= 2 or prefix:
                    continue
            else:
                # can the replaced node be there without parentheses?
                if side == 'left' and (q > old or q == old and (q == 9 or q in RIGHT_ASSOCIATIVE)):
                    continue
                if side == 'right' and not prefix and (q > old or q == old and q not in RIGHT_ASSOCIATIVE):
                    continue
                if code.prefix and side == 'right' and q == low:
                    continue
                if not prefix and old < TOP and (o in ('=', '<-') and side == 'left' or o == '->' and side == 'right'):
                    continue            # it cannot be assigned to
                if q < low or code.prefix and prefix and least >= old and side == 'right':
                    continue
                if q == low and (side == 'left' and q not in RIGHT_ASSOCIATIVE and q != 9 or side == 'right' and q in RIGHT_ASSOCIATIVE):
                    continue
            r = s.reaches(n, K, path)
            if r is False:
                continue
            key, text = 'as an operand', 'the replacement of a `%s` is of strength %s: next to `%s` (which binds with %s; %s side) R takes a part of it' % (brief(N) if N.op != 'var' else s.type, low, o or k, q, side)
            if side == 'place':
                key, text = 'in place', 'an assignment with `=` in a `%s` is not an assignment' % k
            if DBG: print(s.f.name, text, '\n     ', '\n      '.join('%s %s' % (b, show(a)[:200]) for a, b in path))
            (s.unknown if r is None or unsure else s.found).setdefault(key, text)

    def reaches(s, n, K, path):
        """may the path be taken when the replaced node is in that place? None when that is not known"""
        k, o, side = K
        N = inner(n)
        sure = True
        for a, v in path:
            if app_of(a, *PLACES) and inner(a.a[1]) is N:
                w = {'parent_is_if_condition': K[0] == 'R_IF_STATEMENT', 'parent_is_while_condition': K[0] == 'R_WHILE_STATEMENT', 'has_previous_pipe': (o, side) == ('|>', 'right'),
                     'parent_is_bang_unary': k == 'R_UNARY_EXPRESSION' and o == '!' and (v or None)}.get(a.a[0], False)
                if w is not None and w != v:
                    return False
                continue
            if v and app_of(a, 'parent_is_bang_unary') and parent_of(N) is inner(a.a[1]):
                if k == 'R_UNARY_EXPRESSION':
                    return False
                continue
            par = [x for x in subterms(a) if app_of(x, 'parent') and len(x.a) == 2 and inner(x.a[1]) is N]
            idx = [x for x in subterms(a) if app_of(x, 'index', 'prev_sibling_or_token', 'next_sibling_or_token', 'ancestors', 'prev_sibling', 'next_sibling') and len(x.a) == 2 and inner(x.a[1]) is N]
            if any(x.op == 'app' and x.a[0].startswith('f:') and x.a[0][2:] not in CONTENT and any(inner(y) is N for y in x.a[1:]) for x in subterms(a)):
                sure = False
                continue
            if not par and not idx:
                continue
            w = None
            if a.op == 'is' and a.a[0] in par and a.a[1] == 'Some':
                w = True
            elif a.op == 'is' and a.a[0] in par and a.a[1] == 'None':
                w = False
            elif a.op == 'is' and a.a[1].startswith('node:') and is_parent(a.a[0], par):
                w = a.a[1][5:] == k if a.a[1][5:].startswith('R_') else None
            elif a.op == 'is' and a.a[1].startswith('RSyntaxKind::') and app_of(a.a[0], 'kind') and is_parent(a.a[0].a[1], par):
                w = a.a[1].split('::')[1] == k
            elif a.op == 'is' and a.a[1].startswith('RSyntaxKind::') and app_of(a.a[0], 'kind') and app_of(a.a[0].a[1], 'the_operator') and is_parent(a.a[0].a[1].a[1], par):
                w = o is not None and KINDS.get(a.a[1].split('::')[1]) == o
            elif a.op == 'eq' and app_of(a.a[0], 'text_trimmed') and app_of(a.a[0].a[1], 'the_operator') and is_parent(a.a[0].a[1].a[1], par) and a.a[1].op == 'str':
                w = o == a.a[1].a[0]
            elif idx and side == 'place' and k in ('R_IF_STATEMENT', 'R_WHILE_STATEMENT') and app_of(idx[0], 'index') and len(idx) == 1:
                b = rewrite(a, lambda y: INT(2) if y is idx[0] else None)
                w = b.a[0] if b.op == 'bool' else None
            elif idx and app_of(idx[0], 'prev_sibling_or_token') and side == 'right' and a.op == 'is' and a.a[1] == 'RSyntaxKind::BANG' and k == 'R_UNARY_EXPRESSION':
                w = o == '!'
            if w is None:
                if par and not idx and all(is_grand(a, p) for p in par):
                    continue
                sure = False
                continue
            if w != v:
                return False
        return True if sure else None


def is_parent(x, par):
    x = inner(x)
    return x.op == 'get' and x.a[0] in par


def is_grand(a, p):
    """only asks about what is above the parent"""
    return any(app_of(y, 'parent') and len(y.a) == 2 and is_parent(y.a[1], [p]) for y in subterms(a))


def target(e, ty):
    """an operand of the node itself, which may be what is assigned to: a name, a string, a call or an accessor"""
    return app_of(e, 'the_left', 'the_right') and inner(e.a[1]).op == 'var' and ty == 'RBinaryExpression'


def syntax_term(e):
    """a part of the analysed code, as it is written there"""
    e = inner(e)
    if e.op == 'var':
        return True
    if e.op == 'get' or e.op == 'field':
        return syntax_term(e.a[0])
    if e.op == 'app':
        return e.a[0].startswith('the_') or e.a[0].startswith('f:get_') or e.a[0] in ('value', 'first', 'last', 'nth', 'else_clause', 'name_clause', 'parent', 'items', 'expressions') or e.a[0].startswith('as_')
    return False


def brief(e):
    e = inner(node_of(e))
    t = show(e)
    return t if len(t) < 60 else t[:57] + '...'


@check('C33', 'operator-precedence analysis of the replacement templates on every path of every rule: operands keep together inside the replacement, and the replacement inside what surrounds the replaced node')
def c33(c):
    """operator-precedence obligations on every path to a fix text; helpers equivalent to their references"""
    idx = load()
    fns = list(product_fns(idx))
    names = {g.name for g in idx.fns if '/spec/strength.rs' in g.file}
    for h in HELPERS:
        if any(f.name == h for f in fns):
            c.equiv('jarl-core/src/utils_ast.rs', h, 'spec_' + h, opaque=set(HELPERS), project=lambda w, t: norm(t), assume_ok=True, vocab=VOCAB | {'app:' + x for x in HELPERS} | {'app:f:' + x for x in HELPERS})
    for f in fns:
        if is_lint(f):
            out = (f.j.get('out') or {}).get('s', '')
            if 'Vec' in out or f.name == 'unreachable_code':
                continue
            c.count('rule functions analysed', 1)
            Rule(c, f).run()
    c.floor('rule functions analysed', 55)
    c.floor('replacements', 80)
