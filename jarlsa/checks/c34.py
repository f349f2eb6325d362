from ..core import check
from ..term import rewrite, S
from .c20 import holes, OUT

J = 'jarl/src/'
D = 'jarl-core/src/diagnostic.rs'


def wording(what, t):
    """also the wording of messages without inserted values (anything with a blank in it)"""
    return rewrite(holes(what, t), lambda x: S('some text') if x.op == 'str' and ' ' in x.a[0] else None)


@check('C34', 'gated value numbering of the order of findings, of the rendering of one finding and of the closing summary, compared with references on every path')
def c34(c):
    c.equiv(D, 'Diagnostic::cmp', 'Diagnostic::spec_order')
    c.equiv(D, 'Diagnostic::partial_cmp', 'Diagnostic::spec_partial_order', opaque={'cmp'})
    c.equiv(D, 'render_diagnostic', 'spec_render_diagnostic')
    c.equiv(J + 'output_format.rs', 'make_hyperlink', 'spec_hyperlink')
    c.equiv(J + 'output_format.rs', 'print_summary', 'spec_print_summary', effects=OUT | {'print_section_header'}, opaque={'print_section_header', 'has_safe_fix', 'has_unsafe_fix'}, project=holes)
    c.equiv(D, 'ViolationData::from', 'spec_violation_data')
    O = {'check', 'hide_unused_function_if_needed', 'add_jarl_ignore_comments', 'build_config', 'discover_r_file_paths', 'discover_settings', 'get_user_config_dir', 'print_statistics',
         'print_summary', 'print_notes', 'print_warnings', 'print_errors', 'emit', 'from_name', 'deprecation'}
    c.equiv(J + 'commands/check.rs', 'check', 'spec_check', name='what is listed and counted', effects={'emit', 'print_statistics', 'print_summary'}, opaque=O, project=wording)
