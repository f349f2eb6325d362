from ..core import check, load, rel
from ..term import mk, subterms, leaves, assume, rewrite, show
from .. import lints as L
from .c10 import CK, GETCK
from .c24 import parts

D = 'jarl-core/src/diagnostic.rs'
SINGLE = {'RIdentifier', 'AnyRValue'}      # one token: nothing lies inside
INSPECT = 'node_contains_comments'


def nodes(t):
    """accessors of well-formed syntax, tokens and nodes named by their path"""
    def strip(x):
        if x.op == 'app' and len(x.a) == 2 and x.a[0] in ('into_syntax', 'syntax', 'clone', 'f:into_syntax', 'f:syntax'):
            return x.a[1]
        if x.op == 'get' and x.a[1] == 'Ok':
            return x.a[0]
        return None
    return rewrite(parts(t), strip)


def node_of(start, end):
    """(node, why not): the node whose trimmed range the fix replaces"""
    out = []
    for t, want in ((start, 'start'), (end, 'end')):
        if t.op != 'app' or t.a[0] not in ('start', 'end', 'f:start', 'f:end'):
            return None, None
        if t.a[0].split(':')[-1] != want:
            return None, 'its %s is the %s of a range' % (want, t.a[0])
        r = t.a[1]
        if r.op != 'app' or len(r.a) != 2 or r.a[0] not in ('text_trimmed_range', 'text_range', 'range', 'text_range_with_trivia'):
            return None, None
        if r.a[0] in ('text_range', 'text_range_with_trivia'):
            return None, 'it replaces the surrounding comments as well (`%s`)' % r.a[0]
        out.append(r.a[1])
    return (out[0], None) if out[0] is out[1] else (tuple(out), None)


def comment_atoms(t):
    return [a for a in subterms(t) if a.op == 'app' and 'comment' in str(a.a[0])]


def gaps(node):
    """comments that a fix made of both trimmed operands of a binary expression would lose"""
    op, l, r = (mk('app', n, node) for n in ('operator', 'left', 'right'))
    return [mk('app', 'has_leading_comments', op), mk('app', 'has_trailing_comments', op), mk('app', 'has_trailing_comments', l), mk('app', 'has_leading_comments', r)]


def applied(v, facts):
    """the non-empty fixes that may be applied under the facts"""
    for d, g in L.diagnostics(assume(v, facts)):
        for fx in leaves(assume(g['fix'], facts)):
            if fx.op != 'struct':
                yield d, g, None
                continue
            h = L.struct_fields(fx)
            for skip in leaves(assume(h['to_skip'], facts)):
                for content in leaves(assume(h['content'], facts)):
                    if not (skip.op == 'bool' and skip.a[0] is True or content.op == 'str' and content.a[0] == '') and show(skip) != 'true':
                        for s in leaves(assume(h['start'], facts)):
                            for e in leaves(assume(h['end'], facts)):
                                yield d, g, (content, s, e, skip)


@check('C03', 'gated value numbering of every rule function: under the assumption that the replaced node contains a comment no applicable fix is left on any path; range/inspection agreement; the comment test, fix filtering and fix status are compared with references')
def c03(c):
    idx = load()
    c.equiv('jarl-core/src/utils.rs', 'node_contains_comments', 'spec_inner_comments')
    c.equiv(D, 'Diagnostic::has_safe_fix', 'Diagnostic::spec_safe', opaque={'from_name', 'fix_status'})
    c.equiv(D, 'Diagnostic::has_unsafe_fix', 'Diagnostic::spec_unsafe', opaque={'from_name', 'fix_status'})
    c.equiv(D, 'Fix::empty', 'Fix::spec_none')
    c.equiv(CK, 'get_checks', 'spec_get_checks', opaque=GETCK)
    fixing, silent = {}, set()
    for f in sorted((f for f in idx.fns if L.is_lint(f) and '/spec/' not in f.file), key=lambda f: (f.file, f.j['l'])):
        where = '%s:%s fn %s' % (rel(f.file), f.j['l'], f.qual)
        v, an = L.lint_summary(f)
        for x in an:
            c.funcs.add('%s::%s' % (rel(x.file), x.qual))
        if v is None:
            c.undecided(f.qual, 'not summarised')
            continue
        v = nodes(v)
        names = {L.name_of(g['message']) for _, g in L.diagnostics(v)}
        sites = list(applied(v, {}))
        if not sites:
            silent |= names
            c.ok(f.qual, '%d diagnostics without a fix' % len(list(L.diagnostics(v))))
            continue
        ok, seen, n = True, set(), 0
        for d, g, fx in sites:
            if fx is None:
                c.undecided(f.qual, 'fix %s' % show(g['fix'])[:120])
                ok = False
                continue
            content, s, e, skip = fx
            fixing.setdefault(L.name_of(g['message']), where)
            if (s.id, e.id) in seen:
                continue
            seen.add((s.id, e.id))
            n += 1
            node, why = node_of(s, e)
            if why:
                c.bad('range:%s' % f.qual, where, 'the range the fix replaces is not that of a node: %s' % why)
                ok = False
                continue
            if node is None:
                c.undecided(f.qual, 'range %s..%s' % (show(s)[:80], show(e)[:80]))
                ok = False
                continue
            ts = [str(p['ty']) for p in f.j['in']]
            if not isinstance(node, tuple) and node.op == 'var' and any(x in ts[int(node.a[0][3:])] for x in SINGLE if node.a[0].startswith('arg')):
                continue
            good = judge(c, f, v, node, s, e, where)
            ok = ok and good
        c.count('fixes', n)
        if ok:
            c.ok(f.qual, '%d replaced ranges, each inspected for comments' % n)
    names = L.rules()
    for r, name in names.items():
        st = L.fix_status(r)
        if st in ('Safe', 'Unsafe') and name in silent and name not in fixing:
            c.bad('no fix:' + name, 'lints', 'rule `%s` is published as fixable but never attaches a fix' % name)
        elif st in ('Safe', 'Unsafe'):
            c.ok('fix:' + name) if name in fixing else c.undecided('fix:' + name, 'no diagnostic found')
        elif st == 'None':
            # a fix built by such a rule is blanked before it is reported (get_checks, above)
            c.ok('no fix:' + name)


def judge(c, f, v, node, s, e, where):
    """no applicable fix for this range when a comment lies in it"""
    pair = node if isinstance(node, tuple) else (node,)

    def left(facts):
        return [x for x in applied(v, facts) if x[2] and x[2][1] is s and x[2][2] is e]
    inspected = {a.a[1] for a in subterms(v) if a.op == 'app' and a.a[0] == INSPECT}
    if len(pair) == 1 and node in inspected and not left({mk('app', INSPECT, node): True}):
        return True
    if len(pair) == 1 and node.op == 'var' and 'RBinaryExpression' in str([p['ty'] for p in f.j['in']]):
        lost = [g for g in gaps(node) if left({g: True})]
        known = {INSPECT} | {g.a[0] for g in gaps(node)}
        ops = {mk('app', n, node) for n in ('operator', 'left', 'right')}
        if len(lost) < 4:
            kept = {x for _, _, fx in left({}) for x in ops if any(y is x for y in subterms(fx[0]))}
            foreign = [a for a in comment_atoms(v) if a.a[0] not in known or a.a[1] not in ops]
            whole = all(any(t.op == 'app' and t.a[0] in ('text_trimmed', 'to_trimmed_text', 'to_trimmed_string') and len(t.a) == 2 and t.a[1] is o for t in subterms(fx[0]))
                        for _, _, fx in left({}) for o in ops if show(o).split('(')[0] != 'operator')
            if not whole:
                c.undecided(f.qual, 'the new text is not made of both operands')
                return False
            for g in lost:
                if foreign:
                    c.undecided(f.qual, 'comment test %s' % show(foreign[0])[:100])
                else:
                    c.bad('comment:%s:%s' % (f.qual, show(g)), where, 'the fix is applied although `%s`: that comment is deleted' % show(g))
            return not lost
    other = [a for a in comment_atoms(v) if a.a[0] != INSPECT]
    if other:
        c.undecided(f.qual, 'comment test %s' % show(other[0])[:120])
        return False
    far = [n for n in inspected if all(n is not x for x in pair)]
    if far and len(pair) == 2:
        c.undecided(f.qual, 'range of two nodes, comments looked for in %s' % show(far[0])[:100])
        return False
    c.bad('comment:%s:%s' % (f.qual, ' to '.join(show(x)[:60] for x in pair)), where, 'the fix replacing %s is applied although it contains a comment%s' % (
        ' to '.join(show(x)[:80] for x in pair), '; comments are looked for in %s only' % ', '.join(show(x)[:60] for x in inspected) if inspected else ''))
    return False
