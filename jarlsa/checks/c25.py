from .. import attrs
from ..core import check

F = 'jarl-core/src/suppression_edit.rs'


@check('C25', 'gated value numbering of the insertion point, comment formatting and edit application, compared with references on every path')
def c25(c):
    for f, g in (('format_suppression_comments', 'spec_format_suppression_comments'), ('is_on_own_line', 'spec_is_on_own_line'), ('compute_inline_indent', 'spec_inline_indent'),
                 ('count_lines_to', 'spec_lines_before'), ('compute_simple_insert_point', 'spec_simple_insert_point'),
                 ('find_line_start_and_indent', 'spec_line_start_and_indent'), ('is_meaningful_expression', 'spec_can_carry_comment'),
                 ('is_control_flow_statement', 'spec_is_control_flow'), ('parse_existing_suppression', 'spec_parse_existing_suppression')):
        c.equiv(F, f, g)
    leaf = {'compute_simple_insert_point', 'is_meaningful_expression', 'is_control_flow_statement', 'find_line_start_and_indent', 'compute_inline_indent', 'is_on_own_line'}
    c.equiv(F, 'compute_suppression_insert_point', 'spec_compute_suppression_insert_point', opaque=leaf)
    P = {'compute_suppression_insert_point', 'format_suppression_comments'}
    c.equiv(F, 'create_suppression_edit', 'spec_create_suppression_edit', opaque=P)
    c.equiv(F, 'create_suppression_edit_in_rmd', 'spec_create_suppression_edit_in_rmd', opaque=P | {'extract_r_chunks'})
    c.equiv('jarl/src/commands/check.rs', 'add_jarl_ignore_comments', 'spec_add_jarl_ignore_comments',
            opaque={'create_suppression_edit', 'create_suppression_edit_in_rmd', 'format_suppression_comments', 'has_rmd_extension'}, effects={'write'})
    attrs.options(c, 'option', {'add_jarl_ignore': ('add-jarl-ignore', None)})
