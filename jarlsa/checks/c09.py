from .. import attrs
from ..core import check
from .c10 import pipeline, vcs_first, CK, GETCK

CF = 'jarl-core/src/config.rs'


@check('C09', 'gated value numbering of fix consent (option handling, fixable lists, version control, drivers) against references on every path')
def c09(c):
    c.equiv(CF, 'build_config', 'spec_build_config', opaque={
        'determine_minimum_r_version', 'parse_rules_cli', 'parse_rules_toml', 'reconcile_rules', 'filter_rules_by_version', 'parse_fixable_toml', 'parse_assignment_cli'})
    c.equiv(CF, 'parse_fixable_toml', 'spec_parse_fixable_toml', opaque={'replace_group_rules', 'get_invalid_rules'})
    c.equiv('jarl-core/src/vcs.rs', 'check_version_control', 'spec_check_version_control')
    pipeline(c)
    vcs_first(c)
    c.equiv(CK, 'get_checks', 'spec_get_checks', opaque=GETCK)
    for q, g in (('has_safe_fix', 'spec_safe'), ('has_unsafe_fix', 'spec_unsafe')):
        c.equiv('jarl-core/src/diagnostic.rs', 'Diagnostic::' + q, 'Diagnostic::' + g, opaque={'from_name', 'fix_status'})
    c.structural_eq('Rule', 'FixStatus')
    attrs.options(c, 'option', {'fix': ('fix', False), 'unsafe_fixes': ('unsafe-fixes', False), 'fix_only': ('fix-only', False),
                                'allow_dirty': ('allow-dirty', False), 'allow_no_vcs': ('allow-no-vcs', False)})
