from ..core import check
from .c16 import code_actions

LI = 'jarl-lsp/src/lint.rs'
UT = 'jarl-lsp/src/utils.rs'
DI = 'jarl-core/src/discovery.rs'


@check('C17', 'gated value numbering of the editor\'s lint pipeline, its exclusion decisions and the translation of diagnostics, compared with references on every path')
def c17(c):
    c.equiv(LI, 'run_jarl_linting', 'spec_run_jarl_linting',
            opaque={'discover_settings', 'should_exclude_file_based_on_settings', 'build_config', 'collect_sibling_r_files', 'compute_package_analysis',
                    'get_checks', 'relativize_path'})
    c.equiv(LI, 'collect_sibling_r_files', 'spec_collect_sibling_r_files', opaque={'is_in_r_package'}, vocab={'app:path'})
    c.equiv(LI, 'lint_document', 'spec_lint_document', opaque={'run_jarl_linting', 'convert_to_lsp_diagnostic'})
    c.equiv(LI, 'convert_to_lsp_diagnostic', 'spec_convert_to_lsp_diagnostic', opaque={'byte_offset_to_lsp_position'})
    c.equiv(UT, 'should_exclude_file_based_on_settings', 'spec_should_exclude_file_based_on_settings', opaque={'is_excluded_by_settings', 'matches_pattern'})
    c.equiv(UT, 'should_exclude_file', 'spec_should_exclude_file', opaque={'matches_pattern'})
    c.equiv(UT, 'matches_pattern', 'spec_matches_pattern')
    c.equiv(DI, 'is_excluded_by_settings', 'spec_is_excluded_by_settings', opaque={'normalize_path', 'matches_exclude_patterns', 'matches_include_patterns'})
    c.equiv(DI, 'matches_exclude_patterns', 'spec_matches_exclude_patterns')
    c.equiv(DI, 'matches_include_patterns', 'spec_matches_include_patterns')
    c.equiv('jarl/src/commands/check.rs', 'hide_unused_function_if_needed', 'spec_hide_unused_function_if_needed')
