from ..core import check

PK = 'jarl-core/src/package.rs'
UF = 'jarl-core/src/lints/base/unused_function/unused_function.rs'
DU = 'jarl-core/src/lints/base/duplicated_function_definition/duplicated_function_definition.rs'


@check('C27', 'gated value numbering of the package scan, the NAMESPACE reader, the definition and symbol scanners and the duplicate/unused decisions, compared with references on every path')
def c27(c):
    c.equiv(PK, 'compute_package_analysis', 'spec_compute_package_analysis',
            opaque={'collect_files', 'has_r_extension', 'has_cpp_extension', 'scan_symbols', 'scan_top_level_assignments', 'compute_duplicates_from_shared',
                    'compute_unused_from_shared', 'relativize_path', 'is_in_package'})
    c.equiv(PK, 'is_in_package', 'spec_is_in_package')
    c.equiv(UF, 'collect_files', 'spec_collect_files')
    c.equiv(UF, 'has_cpp_extension', 'spec_has_cpp_extension')
    c.equiv(UF, 'scan_symbols', 'spec_scan_symbols')
    c.equiv(UF, 'extract_directive', 'spec_extract_directive')
    c.equiv(UF, 'strip_comment', 'spec_strip_comment')
    c.equiv(UF, 'parse_namespace_exports', 'spec_parse_namespace_exports', opaque={'extract_directive', 'strip_comment'})
    c.equiv(DU, 'is_in_r_package', 'spec_is_in_r_package')
    c.equiv(DU, 'scan_top_level_assignments', 'spec_scan_top_level_assignments')
    c.equiv(DU, 'compute_duplicates_from_shared', 'spec_compute_duplicates_from_shared')
    c.equiv(UF, 'scope_dir_from_path', 'spec_scope_dir_from_path')
    c.equiv(UF, 'compute_unused_from_shared', 'spec_compute_unused_from_shared', opaque={'parse_namespace_exports', 'scope_dir_from_path', 'is_skipped'})
    c.equiv('jarl-core/src/rule_options/unused_function.rs', 'ResolvedUnusedFunctionOptions::is_skipped', 'ResolvedUnusedFunctionOptions::spec_is_skipped')
