from ..core import check
from .c18 import scanner
from .c12 import locations
from .c04 import grammar


@check('C19', 'gated value numbering of the chunk pipeline (parse, suppression hand-over, range shift, fix removal, cross-chunk filter), compared with a reference on every path')
def c19(c):
    c.equiv('jarl-core/src/check.rs', 'get_checks_rmd', 'spec_lint_rmd',
            opaque={'extract_r_chunks', 'from_node', 'check_expression', 'check_document', 'compute_lints_location', 'find_new_lines_from_content', 'Rule::from_name'})
    scanner(c)
    locations(c)
    grammar(c)
