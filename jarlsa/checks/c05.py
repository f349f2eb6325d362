from ..core import check
from .c04 import grammar
from ..term import rewrite, mk, S, setfield, struct, ctor

F = 'jarl-core/src/suppression.rs'
M = 'SuppressionManager::'


@check('C05', 'gated value numbering of comment collection, suppression matching and reporting, compared with references on every path')
def c05(c):
    grammar(c)
    c.equiv(F, M + 'is_same_line_as_code', 'spec_code_before_on_line')
    P = {'parse_comment_directive'}
    c.equiv(F, M + 'process_comment', 'spec_file_comment', opaque=P)
    c.equiv(F, M + 'is_diagnostic_suppressed', M + 'spec_is_hidden')
    c.equiv(F, M + 'filter_diagnostics', M + 'spec_filter', opaque={'is_diagnostic_suppressed'})
    c.equiv(F, M + 'get_unused_suppressions', M + 'spec_unused')
    c.equiv(F, M + 'from_node', M + 'spec_from_node', opaque={'collect_all_directives'})
    c.equiv(F, M + 'collect_all_directives', M + 'spec_collect', opaque={'collect_all_directives', 'process_comment', 'is_same_line_as_code', 'is_quarto_chunk_array_header', 'parse_quarto_chunk_array_item'})
    c.equiv(F, M + 'check_node_comments', M + 'spec_node_rules', opaque=P)
    c.equiv(F, M + 'check_suppression', M + 'spec_rules_for', opaque={'check_node_comments'})
    c.equiv(F, M + 'should_skip_rule', M + 'spec_should_skip', opaque={'check_suppression'})
    c.equiv(F, 'RCommentStyle::place_comment', 'RCommentStyle::spec_place_comment')
    # every kind of broken comment reaches its rule
    D = 'jarl-core/src/analyze/document.rs'
    for n in LINTS:
        c.equiv('lints/comments/%s/%s.rs' % (n, n), n, 'spec_' + n, project=notext)
    for n in ('unmatched_range_suppression_start', 'unmatched_range_suppression_end'):
        c.equiv('lints/comments/unmatched_range_suppression/unmatched_range_suppression.rs', n, 'spec_unmatched', project=notext)
    ops = set(LINTS) | {'unmatched_range_suppression_start', 'unmatched_range_suppression_end', 'unreachable_code_top_level', 'filter_diagnostics', 'get_unused_suppressions'}
    for label, on in scenarios():
        def am(ns, on=on):
            v = mk('var', 'arg1', ns)
            v.ty = ('adt', 'Checker')
            w = setfield(v, 'rule_set', struct('RuleSet', {'rules': mk('list', *[ctor('Rule::' + r) for r in on])}))
            w.ty = ('adt', 'Checker')
            return {1: w}
        c.equiv(D, 'check_document', 'spec_document', name='check_document with ' + label, opaque=ops, project=notext, argmap=am)


LINTS = ['blanket_suppression', 'invalid_chunk_suppression', 'misnamed_suppression', 'misplaced_file_suppression', 'misplaced_suppression',
         'outdated_suppression', 'unexplained_suppression']
RULES = ['UnreachableCode', 'BlanketSuppression', 'InvalidChunkSuppression', 'UnexplainedSuppression', 'MisplacedFileSuppression', 'MisplacedSuppression',
         'MisnamedSuppression', 'UnmatchedRangeSuppression', 'DuplicatedFunctionDefinition', 'UnusedFunction', 'OutdatedSuppression']


def scenarios():
    """the rules consulted by the document check: none, all, each alone, all but each"""
    yield 'no rule', []
    yield 'every rule', RULES
    for r in RULES:
        yield 'only ' + r, [r]
        yield 'all but ' + r, [x for x in RULES if x != r]


def notext(what, t):
    """without the wording of messages"""
    def f(x):
        if x.op == 'struct' and x.a[0] == 'ViolationData':
            return mk('struct', x.a[0], x.a[1], *[S('') if k in ('body', 'suggestion') else v for k, v in zip(x.a[1], x.a[2:])])
    return rewrite(t, f)
