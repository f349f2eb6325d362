"""C23: partial operations (unwrap, expect, panicking macros, slicing, indexing, subtraction) on data from outside.

Every product function is a root: its helpers are inlined and each partial operation is judged with the path condition under
which control reaches it.  Verdicts: discharged (the failing case contradicts the path condition, or the bound is a known
boundary of the sliced text), violated (the failing case is consistent with the path condition and nothing on the path
constrains the operand in a way that could exclude it), undecided (anything else: reported in the evidence, never an alarm)."""
import os
from ..core import check, load, rel
from ..eff import product_fns, callers
from ..term import *
from .. import term as TM
from .. import rx
from ..cmp import feasible, facts_of, Facts

# functions that must be total for every argument they can be given
INPUT = {'parse_r_version', 'Description::get_depend_r_version', 'extract_version_from_dependency', 'parse_dcf', 'parse_comment_directive',
         'parse_rule_with_explanation', 'parse_rule_only', 'extract_r_chunks', 'extract_directive', 'strip_comment', 'parse_namespace_exports',
         'scan_symbols', 'scan_top_level_assignments', 'matches_pattern', 'find_new_lines_from_content', 'find_new_lines', 'parse_existing_suppression',
         'parse_sprintf_format', 'parse_quarto_chunk_array_item', 'is_quarto_chunk_array_header', 'DocumentKey::file_path', 'normalize_path', 'Rule::from_name', 'Category::from_str', 'has_r_extension', 'has_rmd_extension', 'is_r_extension',
         'relativize_path', 'parse_jarl_toml', 'find_jarl_toml', 'find_jarl_toml_in_directory', 'TextDocument::position_to_offset', 'TextDocument::new', 'TextDocument::apply_changes',
         'TextDocument::offset_to_position', 'byte_offset_to_lsp_position', 'compute_suppression_insert_point', 'create_suppression_edit_in_rmd',
         'get_invalid_rules', 'parse_rules_cli', 'parse_rules_toml', 'should_exclude_file', 'DirectiveParseResult', 'is_comment_directive'}

# results of operations that fail on bad input (as opposed to programming invariants such as locks or tree accessors)
FALLIBLE = {'parse', 'from_utf8', 'to_str', 'read_to_string', 'read', 'file_name', 'parent', 'extension', 'file_stem', 'strip_prefix', 'strip_suffix',
            'split_once', 'rsplit_once', 'find', 'rfind', 'position', 'rposition', 'nth', 'next', 'next_back', 'char_indices', 'canonicalize', 'absolutize',
            'from_value', 'from_str', 'from_slice', 'to_file_path', 'from_u32', 'checked_sub', 'checked_add', 'checked_mul', 'mget', 'get', 'captures',
            'find_at', 'read_dir', 'metadata', 'open', 'current_dir', 'Url::parse', 'Regex::new', 'as_str', 'as_array', 'as_object', 'as_u64', 'to_digit',
            'try_into', 'try_from', 'remove', 'get_mut', 'min', 'max', 'max_by', 'min_by', 'max_by_key', 'min_by_key'}
FOREIGN_FALLIBLE = {'fs::read_to_string', 'read_to_string', 'fs::read', 'fs::read_dir', 'fs::metadata', 'fs::canonicalize', 'env::current_dir', 'current_dir',
                    'str::from_utf8', 'from_utf8', 'String::from_utf8', 'toml::from_str', 'serde_json::from_value', 'serde_json::from_str', 'from_value', 'Url::parse', 'Url::from_file_path',
                    'Glob::new', 'Repository::discover', 'git2::Repository::discover', 'File::open', 'fs::File::open', 'char::from_u32', 'char::from_digit'}
WIDE = ('is_whitespace', 'is_alphanumeric', 'is_alphabetic', 'is_numeric', 'is_control', 'is_lowercase', 'is_uppercase')
TRANSFORM = {'to_lowercase', 'to_uppercase', 'trim', 'trim_start', 'replace', 'trim_start_matches', 'trim_matches', 'to_string_lossy'}


def base_name(n):
    return n.split(':', 1)[1] if n.startswith('f:') else n


def unwrap_it(t):
    while t.op == 'it' and len(t.a) == 1:
        t = t.a[0]
    return t


def fail_atoms(cond):
    return [a for a in atoms(cond)]


def subject(a):
    """(kind, subject) of an atom that says a fallible operation succeeded; None otherwise"""
    if a.op == 'is' and a.a[1] in ('Ok', 'Some', 'Err', 'None'):
        t = a.a[0]
        if t.op == 'app':
            n = base_name(t.a[0])
            if t.a[0].startswith('f:'):
                if n in FOREIGN_FALLIBLE or '::'.join(n.split('::')[-2:]) in FOREIGN_FALLIBLE:
                    return 'io' if n.split('::')[-1] in ('read_to_string', 'read', 'read_dir', 'metadata', 'canonicalize', 'current_dir', 'discover', 'open') else 'conv', t.a[1] if len(t.a) > 1 else UNIT
                return None
            if n in FALLIBLE and len(t.a) > 1 and not any(x.op == 'app' and base_name(x.a[0]) in ('captures', 'captures_iter') for x in subterms(t.a[1])):
                return n, t.a[1]
        if t.op == 'field' and a.a[1] in ('Some', 'None'):
            return 'option', t
        return None
    if a.op == 'contains':
        return 'contains', a.a[0]
    if a.op == 'exists':
        return 'exists', unwrap_it(a.a[0])
    if a.op == 'eq0':
        c, d = lin(a.a[0])
        if len(d) == 1:
            k = next(iter(d))
            if k.op == 'len':
                v = unwrap_it(k.a[0])
                if v.op == 'app' and v.a[0] == 'chain' and len(v.a) == 2:      # anyhow::Error::chain: the error itself comes first
                    return None
                return 'empty', v
    if a.op in ('sw', 'ew'):
        return 'prefix', a.a[0]
    return None


def group(a):
    """does the capture group whose presence atom a tests take part in every match?"""
    if a.op == 'is' and a.a[1] == 'Some' and a.a[0].op == 'app' and a.a[0].a[0] == 'mget' and len(a.a[0].a) == 3 and a.a[0].a[2].op == 'int':
        i = a.a[0].a[2].a[0]
        for t in subterms(a.a[0].a[1]):
            if t.op == 'app' and t.a[0] == 'captures' and len(t.a) == 3:
                lit = [x.a[0] for x in subterms(t.a[1]) if x.op == 'str']
                return rx.participates(lit[0], i) if len(lit) == 1 else None
    return None


def length_only(a, s):
    """the atom says nothing about s but its length"""
    if a.op not in ('eq0', 'ge0'):
        return False
    c, d = lin(a.a[0])
    return all(k.op == 'len' and unwrap_it(k.a[0]) is s or s not in set(subterms(k)) for k in d)


def weak(a, kind, f, s):
    """atom a (which mentions s) can not guarantee success of the fallible operation f on s"""
    if length_only(a, s):
        return True
    if kind == 'contains':
        p = f.a[1]
        if p.op not in ('str', 'char') or not p.a[0]:
            return False
        p = p.a[0]
        if a.op == 'byte' and a.a[0] is s:
            return a.a[2] != p[0] if isinstance(a.a[2], str) else False
        if a.op == 'bytecls' and a.a[0] is s:
            return True
        if a.op in ('contains', 'sw', 'ew') and a.a[0] is s and a.a[1].op in ('str', 'char'):
            return p not in a.a[1].a[0]
        if a.op == 'exists' and unwrap_it(a.a[0]) is s:
            ch = [x.a[0] for x in subterms(a) if x.op in ('char', 'str')]
            return bool(ch) and not any(p in c or c in p for c in ch)
        return False
    if kind == 'parse':
        return a.op in ('byte', 'contains', 'sw', 'ew') and a.a[0] is s
    return False


def lit(a, pol):
    return atom(a) if pol else NOT(atom(a))


def cubes(g, limit=200):
    """the paths to a true leaf, each as the literals decided on the way"""
    out = []

    def go(t, pre):
        if len(out) > limit:
            raise TM.Unknown('path cases')
        if t.op == 'ite':
            go(t.a[1], pre + [(t.a[0], True)])
            go(t.a[2], pre + [(t.a[0], False)])
        elif t is TRUE:
            out.append(pre)
    go(g, [])
    return out


def free_path(g, a, tries=50):
    """some possible path to a true leaf of g decides nothing that bears on literal a"""
    left = [tries]
    dead = set()

    def go(t, pre):
        if t is TRUE:
            left[0] -= 1
            return reachable(AND(*[lit(x, q) for x, q in pre])) is not False
        if t.op != 'ite' or t in dead:
            return False
        for y, q in ((t.a[1], True), (t.a[2], False)):
            if y is not FALSE and (t.a[0] is a or irrelevant(t.a[0], q, a)):
                if go(y, pre + [(t.a[0], q)]):
                    return True
                if left[0] <= 0:
                    return False
        if left[0] == tries:
            dead.add(t)
        return False
    return go(g, [])


# accessors of the tree that yield nothing for some valid programs
PARTS = ('value', 'name_clause', 'default', 'else_alternative')
LOOKUPS = ('nth', 'first', 'last', 'next')


def optional_part(a, pol):
    """the literal says that an optional part of the tree, or an argument that is looked for, is missing"""
    if a.op == 'is' and (a.a[1], pol) in (('Some', False), ('None', True)) and a.a[0].op == 'app':
        n, t = a.a[0].a[0], a.a[0]
        if n in PARTS:
            return True
        return n in LOOKUPS and bool(args_list(t))
    return a.op == 'exists' and not pol and bool(args_list(a))


def args_list(t):
    """the argument list that t searches"""
    for x in subterms(t):
        if x.op == 'app' and x.a[0] == 'items' and any(y.op == 'field' and y.a[1] == 'arguments' or y.op == 'app' and y.a[0] == 'arguments' for y in subterms(x)):
            return x
    return None


def named(t):
    """the literal name that a search over an argument list asks for"""
    l = {x.a[0] for x in subterms(t) if x.op == 'str'}
    return l if any(x.op == 'app' and x.a[0] == 'name_clause' for x in subterms(t)) else None


def irrelevant(b, pol, a):
    """literal b does not make it likelier that the part literal a is about is present"""
    if a.op == 'is' and a.a[0].a[0] in PARTS:
        n, x = a.a[0].a[0], a.a[0].a[1]
        if x in set(subterms(b)):
            inner = [y for y in subterms(b) if y.op == 'app' and len(y.a) > 1 and y.a[1] is x]
            return bool(inner) and all(y.a[0] in PARTS and y.a[0] != n for y in inner)
        # what is known about how the node was found
        return not any(y.op == 'app' and y.a[0] == n for y in subterms(x))
    l = args_list(a)
    if l not in set(subterms(b)):
        return True
    k = named(a)
    if b.op == 'exists' or b.op == 'is' and b.a[0].op == 'app' and b.a[0].a[0] == 'first' or b.op != 'exists':
        m = named(b)
        if k is not None and m is not None and not k & m and [x for x in subterms(b) if x.op == 'app' and x.a[0] in ('first',) or x.op == 'exists'] and \
                not [x for x in subterms(b) if x.op in ('len', 'count')] and not any(y.op == 'app' and y.a[0] in ('nth', 'last') for y in subterms(b)):
            return True
        if k is None and a.op == 'is' and a.a[0].a[0] == 'nth' and m:
            return not any(y.op == 'app' and y.a[0] in ('nth', 'last') for y in subterms(b)) and not [x for x in subterms(b) if x.op in ('len', 'count')]
        if not pol and b.op == 'exists':
            return True         # that something is absent as well
    return False


def reachable(g):
    try:
        return feasible(g, Facts()) is not None
    except Exception:
        return None


class Judge:
    def __init__(s, ev):
        s.ev = ev
        s.own = {f.qual for f in ev.idx.fns}       # the length of what the program computes itself is its own business

    def is_text(s, t):
        return s.ev.typeof(t) == 'str'

    # ---- unwrap and friends
    def panic(s, site):
        what, cond, pc = site.args[0].a[0], site.args[1], site.args[2]
        r = reachable(site.gate)
        if r is None:
            return 'undecided', None, None
        if not r:
            return 'discharged', None, None
        if what != 'unwrap':
            return 'undecided', None, None
        fa = fail_atoms(cond)
        if not fa:
            return 'undecided', None, None
        t = s.tree(cond, pc)
        if t is not None:
            return t
        gs = [group(a) for a in fa]
        if None not in gs:
            return ('discharged', None, None) if all(g == 'always' for g in gs) else ('violated', 'capture group', fa[0])
        subj = None
        for a in fa:
            k = subject(a)
            if k is None:
                return 'undecided', None, None
            kind, sj = k
            for b in atoms(pc):
                if b is a or sj in set(subterms(b)) and not (kind == 'io') and not weak(b, kind, a, sj):
                    return 'undecided', None, None
            subj = subj or (kind, sj)
        return 'violated', subj[0], subj[1]

    def tree(s, cond, pc):
        """the optional parts of the syntax tree: on a path where nothing but the presence of other parts is known, a part may be missing"""
        for cube in cubes(cond):
            miss = [(a, pol) for a, pol in cube if optional_part(a, pol)]
            if not miss:
                continue
            g = AND(pc, *[lit(a, pol) for a, pol in cube])
            if reachable(g) is False:
                continue
            for a, pol in miss:
                if free_path(g, a):
                    return 'violated', 'tree', a
        return None

    # ---- slices
    def at_least(s, gate, v, k):
        """the path guarantees len(v) >= k"""
        r = reachable(AND(gate, NOT(ge0(TM.sub(slen(v), N(k))))))
        return r is False

    def bound(s, gate, v, x):
        if x.op == 'ite':
            out = 'discharged'
            for w, y in ((x.a[0], x.a[1]), (NOT(atom(x.a[0])), x.a[2])):
                g = AND(gate, atom(w) if w.op != 'ite' else w)
                if reachable(g) is False:
                    continue
                r = s.bound(g, v, y)
                if r[0] == 'violated':
                    return r
                if r[0] == 'undecided':
                    out = 'undecided'
            return out, None
        if x is UNIT or x is slen(v):
            return 'discharged', None
        c, d = lin(x) if x.op in ('int', 'lin') or x.op else (None, None)
        about = [a for a in atoms(gate) if v in set(subterms(a))]
        if not d:
            if c == 0:
                return 'discharged', None
            if c < 0:
                return 'undecided', None
            if not s.is_text(v):
                if s.at_least(gate, v, c):
                    return 'discharged', None
                if all(length_only(a, v) for a in about) and s.opaque_len(v):
                    return 'violated', 'the path does not guarantee %d elements' % c
                return 'undecided', None
            pinned = {a.a[1] for a in about if a.op == 'byte' and a.a[0] is v and reachable(AND(gate, NOT(a))) is False}
            if all(i in pinned for i in range(c)):
                return 'discharged', None
            if not all(a.op in ('byte', 'bytecls') and a.a[0] is v or a.op == 'contains' and a.a[0] is v and a.a[1].op in ('str', 'char') or length_only(a, v) for a in about):
                return 'undecided', None
            if not s.opaque_len(v):
                return 'undecided', None
            return 'violated', 'nothing guarantees that byte %d exists and starts a character' % c
        if len(d) > 1:
            r = s.relative(v, c, d)
            ch = [y for y in d if client(y) and y.a[1] == 'character']
            if r == 'undecided' and s.is_text(v) and ch and not [a for a in atoms(gate) if a.op in ('pred', 'app', 'truth') and any(x.op in ('pred', 'app') and 'boundary' in str(x.a[0]) for x in subterms(a)) and any(y in set(subterms(a)) for y in ch)]:
                return 'violated', 'an offset computed from a position sent by the editor is used without checking that it is a character boundary'
            return r, None
        t, w = next(iter(d.items()))
        if w != 1:
            return 'undecided', None
        if t is slen(v) and c < 0:
            if all(length_only(a, v) for a in about) and s.opaque_len(v):
                if s.is_text(v):
                    return 'violated', 'nothing guarantees a character boundary %d bytes before the end' % -c
                if not s.at_least(gate, v, -c):
                    return 'violated', 'nothing guarantees %d elements' % -c
                return 'discharged', None
            return 'undecided', None
        if t.op in ('count', 'len') and s.is_text(v):
            inner = unwrap_it(t.a[0])
            if inner.op == 'app' and inner.a[0] == 'chars' and inner.a[1] is v and not about:
                return 'violated', 'a number of characters is used as a byte offset'
        if t.op == 'len' and c >= 0 and s.is_text(v):
            w = t.a[0]
            if (s.is_text(w) or s.ev.typeof(w) is None) and w.op != 'str' and w is not v and w not in set(subterms(v)) and v not in set(subterms(w)) and \
                    not [a for a in atoms(gate) if w in set(subterms(a)) and v in set(subterms(a))]:
                return 'violated', 'the length of another text is used as a position'
        b, p = offset_of(t)
        if b is None:
            if c == 0 and s.is_text(v):
                if any(a.op in ('pred', 'app') and a.a[0] == 'is_char_boundary' and a.a[1] is v and a.a[2] is t and reachable(AND(gate, NOT(atom(a)))) is False for a in about):
                    return 'discharged', None
                if param(t) and v.op in ('var', 'field') and not [a for a in atoms(gate) if t in set(subterms(a)) and a.op not in ('ge0', 'eq0')]:
                    return 'violated', 'an offset given by the caller is used without checking that it is a character boundary'
            return 'undecided', None
        vb = v.a[0] if v.op == 'slice' else v
        if b is v or b.op == 'slice' and b.a[0] is v and b.a[1] is N(0):
            if c == 0:
                return 'discharged', None
            if c < 0:
                return 'undecided', None
            if p is not None and p.op in ('str', 'char'):
                k = len(p.a[0].encode())
                if c == k:
                    return 'discharged', None
                if c > k and s.is_text(v) and all(free_after(a, v, p.a[0]) for a in about):
                    return 'violated', 'nothing guarantees what follows the %r that was found' % p.a[0]
                return 'undecided', None
            if p is not None:
                ch = [y.a[0] for y in subterms(p) if y.op in ('char', 'str')]
                cls = [y for y in subterms(p) if y.op in ('pred', 'cls') and any(isinstance(z, str) and z in WIDE for z in y.a)]
                if cls and c >= 1 and s.is_text(v):
                    return 'violated', 'the matched character may be longer than %d byte' % c
                if ch and not cls and c == 1 and all(len(z.encode()) == 1 for z in ch):
                    return 'discharged', None
            return 'undecided', None
        if b.op == 'app' and b.a[0] in TRANSFORM and len(b.a) > 1 and b.a[1] is v and s.is_text(v):
            return 'violated', 'the offset was found in `%s` of the text, not in the text' % b.a[0]
        return 'undecided', None

    def relative(s, v, c, d):
        """an offset found in v[a..] added to a"""
        for t in d:
            b, p = offset_of(t)
            if b is None or d[t] != 1 or b.op != 'slice':
                continue
            vb, lo = (v.a[0], v.a[1]) if v.op == 'slice' else (v, N(0))
            rest = TM.sub(TM.unlin(c, d), t)          # what is added to the offset
            if b.a[0] is vb:
                k = TM.sub(TM.add(rest, lo), b.a[1])
                if k is N(0) or p is not None and p.op in ('str', 'char') and k is N(len(p.a[0].encode())):
                    return 'discharged'
                ch = [y.a[0] for y in subterms(p) if y.op in ('char', 'str')] if p is not None else []
                if k is N(1) and ch and all(len(z.encode()) == 1 for z in ch) and not [y for y in subterms(p) if y.op in ('pred', 'cls')]:
                    return 'discharged'
        return 'undecided'

    def opaque_len(s, v):
        """nothing is known about the length of v from the way it was built"""
        if v.op == 'var' or v.op == 'field' or v.op == 'get':
            return True
        if v.op == 'app':
            return v.a[0] in ('trim', 'trim_start', 'trim_end', 'lines', 'chars', 'split_whitespace', 'text', 'to_lowercase', 'to_string_lossy') or v.a[0].startswith('f:') and v.a[0][2:] not in s.own
        if v.op == 'collect':
            return v.a[0] in ('seq', 'str')
        if v.op == 'slice':
            return True
        return False

    def less(s, gate, ab):
        """unsigned a - b"""
        out = 'discharged', None
        for g, (a, b) in cases(gate, *ab):
            d = TM.sub(a, b)
            if reachable(AND(g, NOT(ge0(d)))) is False:
                continue
            c, k = lin(d)
            if c < 0 and len(k) == 1 and set(k.values()) == {1}:
                t = next(iter(k))
                l = args_list(t)
                if l is not None and [x for x in atoms(g) if l in set(subterms(x))]:
                    out = 'undecided', None     # what is known about the arguments bears on how many there are
                    continue
                if (t.op == 'len' and s.opaque_len(unwrap_it(t.a[0])) and not unwrap_it(t.a[0]).op == 'slice' or param(t) or t in client_terms(t)) and \
                        all(a.op in ('ge0', 'eq0') and not lin(a.a[0])[1].keys() - {t} for a in atoms(g) if t in set(subterms(a)) or t.op == 'len' and t.a[0] in set(subterms(a))):
                    return 'violated', '%d is subtracted although nothing guarantees that the value is at least that' % -c
            out = 'undecided', None
        return out

    def slice(s, gate, pt):
        out = 'discharged', None
        for g, q in cases(gate, *pt):
            for x in q[1:]:
                r = s.bound(g, q[0], x)
                if r[0] == 'violated':
                    return r
                if r[0] == 'undecided':
                    out = r
            r = s.order(g, *q)
            if r[0] == 'violated':
                return r
        return out

    def order(s, gate, v, lo, hi):
        if hi is UNIT or lo is N(0) or reachable(AND(gate, NOT(ge0(TM.sub(hi, lo))))) is False:
            return 'discharged', None
        a, b = client_terms(lo), client_terms(hi)
        if a and b and not a & b:
            if not [x for x in atoms(gate) if a & set(subterms(x)) and b & set(subterms(x))]:
                return 'violated', 'nothing guarantees that the start of the range sent by the editor is not after its end'
            return 'undecided', None
        (c1, d1), (c2, d2) = lin(lo), lin(hi)
        if len(d1) == 1 and len(d2) == 1 and set(d1.values()) | set(d2.values()) == {1}:
            t, u = next(iter(d1)), next(iter(d2))
            (b1, p), (b2, q) = offset_of(t), offset_of(u)
            if b1 is None or b1 is not b2 or p is None or q is None or p.op not in ('str', 'char') or q.op not in ('str', 'char'):
                return 'undecided', None
            x, y = p.a[0], q.a[0]
            about = [a for a in atoms(gate) if b1 in set(subterms(a))]
            if not all(free_after(a, b1, x) for a in about) or [a for a in about if t in set(subterms(a)) and u in set(subterms(a))]:
                return 'undecided', None
            if x not in y and y not in x or x == y and t.op == 'pos' and u.op == 'rpos' and c1 > c2:
                return 'violated', 'nothing guarantees that %r is found before %r' % (x, y)
        return 'undecided', None

    def ordered(s, site):
        """TextRange::new(a, b) requires a <= b"""
        if len(site.args) != 2:
            return 'undecided', None
        a, b = [x.a[1] if x.op == 'app' and x.a[0].endswith('TextSize::from') else x for x in site.args]
        if reachable(AND(site.gate, NOT(ge0(TM.sub(b, a))))) is False:
            return 'discharged', None
        if param(a) and param(b) and not [x for x in atoms(site.gate) if a in set(subterms(x)) and b in set(subterms(x)) and not
                                          (x.op == 'is' and x.a[0].op == 'app' and x.a[0].a[0] in ('covering_element',))]:
            return 'violated', 'nothing guarantees that the start is not after the end'
        return 'undecided', None

    def index(s, site):
        v, i = site.recv, site.args[0]
        if i.op != 'int' or i.a[0] < 0 or v.op in ('ite', 'list'):
            out = 'discharged', None
            for g, (w, k) in cases(site.gate, v, i):
                vt = s.ev.typeof(w)
                if isinstance(vt, tuple) and vt[0] in ('map', 'adt'):
                    return 'undecided', None
                if reachable(AND(g, NOT(ge0(TM.sub(TM.sub(slen(w), k), N(1)))))) is False:
                    continue
                if (param(k) or client_terms(k)) and all(a.op in ('ge0', 'eq0') and not lin(a.a[0])[1].keys() - {k, slen(w)} for a in atoms(g) if k in set(subterms(a))):
                    return 'violated', 'the checks on the index given by the caller do not keep it within the bounds'
                out = 'undecided', None
            return out
        k = i.a[0] + 1
        vt = s.ev.typeof(v)
        if isinstance(vt, tuple) and vt[0] in ('map', 'adt'):
            return 'undecided', None
        if split_len(v) >= k or s.at_least(site.gate, v, k):
            return 'discharged', None
        about = [a for a in atoms(site.gate) if v in set(subterms(a))]
        if split_len(v):
            b, p = split_of(v)
            if p is None:
                return 'undecided', None
            for a in atoms(site.gate):
                if b in set(subterms(a)) and a not in about:
                    if k == 2 and a.op == 'contains' and a.a[0] is b and a.a[1].op in ('str', 'char') and a.a[1].a[0] == p and reachable(AND(site.gate, NOT(a))) is False:
                        return 'discharged', None
                    if not length_only(a, b) and not (a.op in ('contains', 'sw', 'byte', 'bytecls', 'ew') and (a.op in ('byte', 'bytecls') or a.a[1].op in ('str', 'char') and p not in a.a[1].a[0])):
                        return 'undecided', None
        if all(length_only(a, v) for a in about) and isinstance(vt, tuple) and vt[0] == 'vec' and (s.opaque_len(v) or split_len(v)):
            return 'violated', 'the path does not guarantee %d elements' % k
        return 'undecided', None


def part_of(x, ev):
    """(whole, start, end) of a slicing operation, (a, b) of an unsigned subtraction, 'index', or None"""
    n = x.node if isinstance(x.node, dict) else {}
    if n.get('k') == 'index':
        return 'index' if x.name == 'index' else (x.recv, *x.args) if x.name == 'slice_index' else None
    if x.name == 'sub' and n.get('k') == 'binary':
        a, b = x.recv, x.args[0]
        return (a, b) if ev.typeof(a) == 'nat' or any(k.op == 'len' for k in lin(a)[1]) else None
    if n.get('k') != 'mcall' or x.recv is None or not x.args:
        return None
    ty = ev.typeof(x.recv)
    if ty == 'str' or isinstance(ty, tuple) and ty[0] == 'vec':
        a = x.args[0]
        if x.name in ('replace_range', 'drain'):
            try:
                return x.recv, lift(lambda r: end_of(r, 1), a), lift(lambda r: end_of(r, 2), a)
            except TM.Unknown:
                return None
        if x.name in ('split_at', 'split_off', 'insert_str') or x.name == 'insert' and len(x.args) == 2:
            return x.recv, a, UNIT
    return None


def end_of(r, i):
    if r.op != 'app' or r.a[0] not in ('range', 'rangei') or len(r.a) != 3:
        raise TM.Unknown('range')
    e = r.a[i]
    return N(0) if e is UNIT and i == 1 else e if e is UNIT or r.a[0] == 'range' or i == 1 else TM.add(e, N(1))


def client_terms(t):
    """the components of editor positions that occur in t"""
    return {x for x in subterms(t) if client(x)}


def client(x):
    return x.op == 'field' and x.a[1] in ('character', 'line')


def free_after(a, v, p):
    """atom a does not constrain what follows the first p of v"""
    if length_only(a, v):
        return True
    if a.op in ('byte', 'bytecls'):
        return a.a[0] is v or not [x for x in subterms(a.a[0]) if x.op in ('pos', 'rpos')]
    if a.op in ('sw', 'contains') and a.a[1].op in ('str', 'char'):
        lit = a.a[1].a[0]
        return (p not in lit or lit.endswith(p) and lit.count(p) == 1) and (a.op == 'contains' or not [x for x in subterms(a.a[0]) if x.op in ('pos', 'rpos')])
    return False


def offset_of(t):
    """(text, pattern) of an offset that a search yielded"""
    if t.op in ('pos', 'rpos'):
        return t.a[0], t.a[1]
    if t.op == 'app' and t.a[0] in ('first', 'last') and t.a[1].op == 'it':
        q = t.a[1]
        b = q.a[0]
        if b.op == 'app' and b.a[0] == 'rev':
            b = unwrap_it(b.a[1])
        return b, q.a[1] if len(q.a) > 1 else None
    return None, None


def cases(gate, *xs):
    """(path condition, operands without conditionals)"""
    t = lift(lambda *ys: mk('tuple', *ys), *xs)
    out = []

    def go(t, g):
        if len(out) > 40:
            raise TM.Unknown('operand cases')
        if t.op == 'ite' and not isbool(t):
            for w, y in ((atom(t.a[0]), t.a[1]), (NOT(atom(t.a[0])), t.a[2])):
                h = AND(g, w)
                if h is not FALSE and reachable(h) is not False:
                    go(y, h)
        elif t.op == 'tuple':
            out.append((g, t.a))
    go(t, gate)
    return out


def split_of(v):
    """(text, literal separator) of a collected split"""
    t = v
    while t.op in ('collect', 'it') and not (t.op == 'it' and len(t.a) > 1):
        t = t.a[1] if t.op == 'collect' else t.a[0]
    for q in t.a[2:]:
        if q.op in ('str', 'char') and q.a[0]:
            return t.a[1], q.a[0]
    return t.a[1], None


def split_len(v):
    """a split always yields at least one piece"""
    t = v
    while t.op in ('collect', 'it') and not (t.op == 'it' and len(t.a) > 1):
        t = t.a[1] if t.op == 'collect' else t.a[0]
    return 1 if t.op == 'app' and t.a[0] in ('split', 'splitn', 'rsplit', 'rsplitn') else 0


def param(t):
    """a parameter of the root, or a field of one"""
    while t.op == 'field':
        t = t.a[0]
    return t.op == 'var' and str(t.a[0]).startswith('arg')


def rooted(t):
    """depends directly on a parameter of the root"""
    return any(x.op == 'var' and (str(x.a[0]).startswith('arg') or x.a[0] == 'self') for x in subterms(t))


@check('C23', 'partial-operation audit: every unwrap/expect/panic macro, slice and index in the product code is judged with its inlined path condition '
              '(gated value numbering): the failing case must contradict the path, or the bound must be a known boundary of the same text')
def c23(c):
    idx = load()
    roots = sorted(product_fns(idx), key=lambda f: (f.file, f.qual))
    only = os.environ.get('C23_ONLY')       # development aid
    roots = [f for f in roots if not only or f.file.endswith(only)]
    w = 8
    own, seen, outside = {}, {}, 0
    for part in fork_map([roots[i::w] for i in range(w)], judge_roots):
        for root, failed, res in part:
            c.funcs.add(root)
            outside += failed
            for k, v, d, mine in res:
                if mine and v == 'discharged' and own.get(k) != 'open':
                    own[k] = 'discharged'
                elif mine:
                    own[k] = 'open'
                o = seen.get(k)
                if o is None or RANK.index(v) > RANK.index(o[0]):
                    seen[k] = (v, d)
    for k, (v, d) in sorted(seen.items(), key=lambda q: str(q[0])):
        if own.get(k) == 'discharged':
            v = 'discharged'        # whatever the arguments are
        c.count('partial operations %s' % ('guarded by the caller or an invariant' if v == 'caller' else v))
        if v == 'violated':
            c.bad('panic:%s:%s' % (k[1], d[0]), '%s:%s fn %s' % (k[0], k[2], k[1]), '%s: %s is reached when %s (operand %s, entered from %s)' % (d[2], d[0], d[3], d[1], d[4]))
        elif v == 'undecided':
            c.notes.append('not decided: %s in %s' % (k[3], k[1]))
    c.count('roots outside the analysed fragment', outside)
    if not only:
        c.floor('partial operations discharged', 20)
    c.ok('partial operations', '%d operations reached from %d functions judged' % (len(seen), len(roots)))


RANK = ['discharged', 'caller', 'undecided', 'violated']


def judge_roots(roots):
    import signal
    from ..ev import Ev
    idx = load()
    cal = callers(idx)
    out = []

    def late(*a):
        raise TM.Unknown('root takes too long')
    signal.signal(signal.SIGPROF, late)
    for n, f in enumerate(roots):
        TM.refill(150000)
        ev = Ev(idx, depth=3, ns='k%d' % n)
        failed = 0
        signal.setitimer(signal.ITIMER_PROF, 20)
        try:
            ev.summary(f)
        except MemoryError:
            raise
        except Exception as e:
            if os.environ.get('DEBUG') and type(e).__name__ not in ('Unknown', 'RecursionError'):
                raise
            failed = 1      # the operations reached before the analysis gave up are still judged
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        res = []
        # (a rule is given every node of its kind)
        free = f.qual in INPUT or not [x for x in cal.get(f.name, ()) if x is not f and '/analyze/' not in x.file]
        j = Judge(ev)
        for x in ev.sites:
            if x.file.startswith('spec/') or not x.args:
                continue
            rng = x.name.endswith('TextRange::new') or (x.path or '').endswith('TextRange::new')
            TM.refill(100000)
            try:
                pt = None if rng or x.name == 'panic' else part_of(x, ev)
            except TM.Unknown:
                pt = None
            if not rng and x.name != 'panic' and pt is None:
                continue
            TM.refill(100000)
            sj, what, why = None, x.name, None
            signal.setitimer(signal.ITIMER_PROF, 10)
            try:
                if x.name == 'panic':
                    v, kind, sj = j.panic(x)
                    if kind == 'option' and f.qual not in INPUT and 'jarl-lsp/' not in f.file:
                        v = 'undecided'         # optional data of the program itself
                    what = '%s:%s' % (x.args[0].a[0], kind)
                    why = 'the value is taken although nothing on the path guarantees that `%s` succeeded' % kind
                elif rng:
                    v, why = j.ordered(x)
                    sj, what = x.args[0], 'TextRange::new'
                else:
                    v, why = j.index(x) if pt == 'index' else j.slice(x.gate, pt) if len(pt) == 3 else j.less(x.gate, pt)
                    sj = x.recv
            except MemoryError:
                raise
            except Exception as e:
                if os.environ.get('DEBUG') and type(e).__name__ not in ('Unknown', 'RecursionError', 'Undecided'):
                    raise
                v = 'undecided'
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            if v == 'violated' and not free and rooted(sj):
                v = 'caller'
            nl = x.node['l'] if isinstance(x.node, dict) and 'l' in x.node else 0
            k = (rel(x.file), x.fn, x.line, x.name, nl)
            res.append((k, v, (what, show(sj)[:200], why, show(x.gate)[:500], f.qual) if v == 'violated' else None, x.fn == f.qual))
        out.append(('%s::%s' % (rel(f.file), f.qual), failed, res))
    return out


def fork_map(parts, fn):
    """fn applied to every part in a child process of its own"""
    import pickle, sys, threading
    pids = []
    for part in parts:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as h:
                    pickle.dump(fn(part), h)
                code = 0
            except BaseException as e:
                sys.stderr.write('worker: %s %s\n' % (type(e).__name__, e))
            finally:
                os._exit(code)
        os.close(w)
        pids.append((pid, r))
    out = []
    for pid, r in pids:
        with os.fdopen(r, 'rb') as h:
            data = h.read()
        os.waitpid(pid, 0)
        if not data:
            raise TM.Unknown('a worker ended early')
        out.append(pickle.loads(data))
    return out
