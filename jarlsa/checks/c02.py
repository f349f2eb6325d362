import os, re
from ..core import check, load, rel
from ..term import mk, ctor, struct, setfield, subterms, leaves, show, Unknown, UNIT
from .. import term as TM
from .. import lints as L
from ..ev import Ev

A = 'jarl-core/src/analyze/'

# analyses offered to each kind of node
TABLE = {
    'anyvalue': {'NumericLeadingZero': {'numeric_leading_zero'}},
    'binary_expression': {'AnyIsNa': {'any_is_na_2'}, 'Assignment': {'assignment'}, 'ClassEquals': {'class_equals'}, 'VectorLogic': {'vector_logic'},
                          'EmptyAssignment': {'empty_assignment'}, 'EqualsNa': {'equals_na'}, 'EqualsNaN': {'equals_nan'}, 'EqualsNull': {'equals_null'},
                          'ImplicitAssignment': {'implicit_assignment'}, 'IsNumeric': {'is_numeric'}, 'RedundantEquals': {'redundant_equals'}, 'Seq': {'seq'},
                          'StringBoundary': {'string_boundary'}},
    'call': {'AllEqual': {'all_equal'}, 'AnyDuplicated': {'any_duplicated'}, 'AnyIsNa': {'any_is_na'}, 'Browser': {'browser'}, 'ClassEquals': {'class_identical'},
             'DownloadFile': {'download_file'}, 'DuplicatedArguments': {'duplicated_arguments'}, 'ExpectLength': {'expect_length'}, 'ExpectMatch': {'expect_match'},
             'ExpectNamed': {'expect_named'}, 'ExpectNoMatch': {'expect_no_match'}, 'ExpectNot': {'expect_not'}, 'ExpectNull': {'expect_null'},
             'ExpectS3Class': {'expect_s3_class'}, 'ExpectType': {'expect_type'}, 'ExpectTrueFalse': {'expect_true_false'}, 'FixedRegex': {'fixed_regex'},
             'Grepv': {'grepv'}, 'LengthLevels': {'length_levels'}, 'LengthTest': {'length_test'}, 'Lengths': {'lengths'}, 'List2df': {'list2df'},
             'MatrixApply': {'matrix_apply'}, 'OuterNegation': {'outer_negation'}, 'RedundantIfelse': {'redundant_ifelse'}, 'SampleInt': {'sample_int'},
             'Seq2': {'seq2'}, 'Sprintf': {'sprintf'}, 'SystemFile': {'system_file'}, 'UndesirableFunction': {'undesirable_function'}, 'WhichGrepl': {'which_grepl'}},
    'for_loop': {'ForLoopIndex': {'for_loop_index'}, 'ForLoopDupIndex': {'for_loop_dup_index'}},
    'function_definition': {'UnreachableCode': {'unreachable_code'}},
    'identifier': {'TrueFalseSymbol': {'true_false_symbol'}},
    'if_': {'Coalesce': {'coalesce'}, 'IfAlwaysTrue': {'if_always_true'}, 'UnnecessaryNesting': {'unnecessary_nesting'}},
    'namespace_expression': {'InternalFunction': {'internal_function'}},
    'subset': {'Sort': {'sort'}},
    'unary_expression': {'ComparisonNegation': {'comparison_negation'}},
    'while_': {'Repeat': {'repeat'}},
    'check_document': {'UnreachableCode': {'unreachable_code_top_level'}, 'BlanketSuppression': {'blanket_suppression'}, 'InvalidChunkSuppression': {'invalid_chunk_suppression'},
                       'UnexplainedSuppression': {'unexplained_suppression'}, 'MisplacedFileSuppression': {'misplaced_file_suppression'},
                       'MisplacedSuppression': {'misplaced_suppression'}, 'MisnamedSuppression': {'misnamed_suppression'},
                       'UnmatchedRangeSuppression': {'unmatched_range_suppression_start', 'unmatched_range_suppression_end'},
                       'DuplicatedFunctionDefinition': {'=duplicated_function_definition'}, 'UnusedFunction': {'=unused_function'},
                       'OutdatedSuppression': {'outdated_suppression'}},
}
ARGS = {'assignment': ('node', 'operator option'), 'implicit_assignment': ('node', 'checker'), 'duplicated_arguments': ('node', 'checker'),
        'undesirable_function': ('node', 'checker'), 'unreachable_code': ('node', 'checker'), 'unreachable_code_top_level': ('node', 'checker')}


def consulted(f, enabled, ns, opaque):
    """the analyses whose results are reported by f when exactly these rules are enabled: (lint functions, constant names)"""
    TM.refill()
    ev = Ev(load(), opaque=opaque, ns=ns)
    ev.assume_ok = True
    ev.effects = {'report_diagnostic'}
    ev.passive = {'report_diagnostic': UNIT}
    i = [k for k, p in enumerate(f.j['in']) if 'Checker' in str(p['ty'])][0]
    v = mk('var', 'arg%d' % i, ns)
    v.ty = ('adt', 'Checker')
    v = setfield(v, 'rule_set', struct('RuleSet', {'rules': mk('list', *[ctor('Rule::' + r) for r in enabled])}))
    v.ty = ('adt', 'Checker')
    s = ev.summary(f, {i: v})
    calls, names = set(), set()
    for x in subterms(s.trace):
        if x.op == 'app' and x.a[0].startswith('f:') and x.a[0][2:] in LINTS():
            calls.add(x)
        if x.op == 'struct' and x.a[0] == 'Diagnostic':
            names.add(L.name_of(L.struct_fields(x)['message']))
    return calls, names, s, ev


_l = {}


def LINTS():
    if not _l:
        for f in load().fns:
            if L.is_lint(f) and f.owner is None:
                _l.setdefault(f.name, []).append(f)
    return _l


@check('C02', 'scenario evaluation of every dispatch function (each rule enabled alone, all, none, all but one) by gated value numbering: exactly the enabled rule\'s analyses are consulted; constant propagation of the rule name into every diagnostic those analyses build')
def c02(c):
    c.structural_eq('Rule')
    idx = load()
    for q in ('report_diagnostic', 'is_rule_enabled', 'new'):
        c.equiv('jarl-core/src/checker.rs', 'Checker::' + q, 'Checker::spec_' + {'report_diagnostic': 'report', 'is_rule_enabled': 'enabled', 'new': 'checker'}[q])
    rules = L.rules()
    if len(rules) < 50:
        c.undecided('registry', 'the registry of rules could not be read')
        return
    reached = {}
    opaque = set(LINTS()) | {'filter_diagnostics', 'get_unused_suppressions', 'report_diagnostic'}
    fs = [f for f in idx.fns if '/analyze/' in f.file and '/spec/' not in f.file and f.name != 'check_expression' and any('Checker' in str(p.get('ty')) for p in f.j['in'])]
    n = 0
    for f in sorted(fs, key=lambda f: f.qual):
        where = '%s:%s fn %s' % (rel(f.file), f.j['l'], f.qual)
        c.funcs.add('%s::%s' % (rel(f.file), f.qual))
        table = TABLE.get(f.name)
        every = list(rules)
        scen = [('no rule', [])] + [('only ' + r, [r]) for r in every]
        scen += [('every rule', every)] + [('all but ' + r, [x for x in every if x != r]) for r in (table or {})]
        for label, on in scen:
            n += 1
            try:
                calls, names, s, ev = consulted(f, on, 'd%d' % n, opaque)
            except (Unknown, RecursionError, IndexError, KeyError) as e:
                c.undecided('%s with %s' % (f.name, label), str(e)[:200])
                continue
            c.count('scenarios')
            got = {x.a[0][2:] for x in calls} | {'=%s' % x for x in names}
            if len(on) == 1:
                reached.setdefault(on[0], set()).update(got)
            if table is not None:
                want = set().union(*[table.get(r, set()) for r in on]) if on else set()
                for m in sorted(want - got):
                    if m[0] != '=' and m not in LINTS():
                        c.undecided('not consulted:%s:%s:%s' % (f.name, m, label), 'the analysis `%s` has another name now' % m)
                        continue
                    c.bad('not consulted:%s:%s:%s' % (f.name, m, label), where, 'with %s enabled, `%s` is not consulted or its result is not reported' % (label, m.lstrip('=')))
                for m in sorted(got - want):
                    owner = [r for r, x in table.items() if m in x]
                    if owner:       # analyses this table does not know are judged by the names they report, below
                        c.bad('consulted:%s:%s:%s' % (f.name, m, label), where, 'with %s enabled, `%s` of rule %s is consulted' % (label, m.lstrip('='), owner[0]))
                ok = not (want - got)
                if ok:
                    c.ok('%s with %s' % (f.name, label), ', '.join(sorted(got)) or 'nothing')
            if len(on) <= 1:
                want = rules[on[0]] if on else None
                for x in calls:
                    for g in LINTS()[x.a[0][2:]]:
                        if on:
                            judge(c, g, want, on[0])
                        else:
                            c.bad('unguarded:%s:%s' % (f.name, g.name), where, '`%s` is consulted although no rule is enabled' % g.name)
                for nm in names:
                    if nm is not None and nm != want:
                        c.bad('name:%s:%s' % (f.name, nm), where, 'with %s enabled a diagnostic named `%s` is reported' % (label, nm))
            if len(on) == 1:
                for x in calls:
                    arguments(c, f, x, where)
    for r, name in rules.items():
        if reached.get(r):
            c.ok('dispatched:' + r, ', '.join(sorted(reached[r])))
            c.count('rules dispatched')
        else:
            c.bad('dispatched:' + r, A, 'rule `%s` (Rule::%s) is not dispatched anywhere' % (name, r)) if not any(o[1] == 'undecided' for o in c.obs) else \
                c.undecided('dispatched:' + r, 'no dispatch found')


def judge(c, g, want, rule):
    """every diagnostic of lint function g is named after the rule"""
    k = 'names:%s' % g.name
    if any(o[0].startswith(k + ':' + rule) for o in c.obs):
        return
    v, an = L.lint_summary(g)
    for x in an:
        c.funcs.add('%s::%s' % (rel(x.file), x.qual))
    where = '%s:%s fn %s' % (rel(g.file), g.j['l'], g.qual)
    if v is None:
        return c.undecided(k + ':' + rule, 'not summarised')
    ds = list(L.diagnostics(v))
    bad = False
    for _, d in ds:
        n = L.name_of(d['message'])
        c.count('diagnostics')
        if n is None:
            c.undecided(k + ':' + rule, 'the name is not constant: %s' % show(d['message'])[:200])
            bad = True
        elif n != want:
            c.bad('%s:%s:%s' % (k, rule, n), where, '%s, which runs for rule `%s`, reports a diagnostic named `%s`' % (g.name, want, n))
            bad = True
    if not bad:
        c.ok(k + ':' + rule, '%d diagnostics, all named `%s`' % (len(ds), want)) if ds else c.undecided(k + ':' + rule, 'no diagnostic found')


def arguments(c, f, x, where):
    """the analysis looks at the node it was dispatched for"""
    name = x.a[0][2:]
    if f.name == 'check_document' or name not in ARGS and len(x.a) != 2:
        return
    node = [k for k, p in enumerate(f.j['in']) if 'Checker' not in str(p['ty'])]
    a = x.a[1]
    if len(node) == 1 and a.op == 'var':
        if a.a[0] == 'arg%d' % node[0]:
            c.ok('node:%s' % name)
        else:
            c.bad('node:%s' % name, where, '`%s` is not given the node at hand' % name)
    elif len(node) == 1:
        c.undecided('node:%s' % name, 'argument %s' % show(a)[:100])
    if name == 'assignment' and len(x.a) == 3:
        t = x.a[2]
        path = []
        while t.op == 'field':
            path.insert(0, t.a[1])
            t = t.a[0]
        if path and path[-2:] != ['assignment', 'operator']:
            c.bad('option:assignment', where, 'the assignment rule is not given its configured operator but %s' % show(x.a[2])[:100])
