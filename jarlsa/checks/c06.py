from .. import attrs
from .c01 import categories, memberships
from ..core import check

CF = 'jarl-core/src/config.rs'
SEL = {'replace_group_rules', 'get_invalid_rules'}


@check('C06', 'gated value numbering of rule selection: group expansion, command line and file selections and their reconciliation are compared with references on every path')
def c06(c):
    c.equiv(CF, 'replace_group_rules', 'spec_expand', opaque={'Rule::has_category'})
    c.equiv(CF, 'parse_rules_cli', 'spec_parse_rules_cli', opaque=SEL)
    c.equiv(CF, 'parse_rules_toml', 'spec_parse_rules_toml', opaque=SEL)
    c.equiv(CF, 'reconcile_rules', 'spec_reconcile_rules', opaque={'all_rules_enabled_by_default'})
    c.equiv(CF, 'build_config', 'spec_build_config', name='build_config:rules', opaque={
        'determine_minimum_r_version', 'parse_rules_cli', 'parse_rules_toml', 'reconcile_rules', 'filter_rules_by_version', 'parse_fixable_toml', 'parse_assignment_cli'})
    memberships(c, categories(c))
    c.equiv('jarl-core/src/lints/mod.rs', 'all_rules_enabled_by_default', 'spec_all_rules_enabled_by_default')
    c.impls('RuleSet', 'FromIterator', {'from_iter': 'RuleSet::spec_from_iter'})
    c.structural_eq('Rule', 'Category')
    attrs.options(c, 'option', {'select': ('select', ''), 'extend_select': ('extend-select', ''), 'ignore': ('ignore', '')})
