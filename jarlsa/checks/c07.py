from .c01 import categories, rule_names
from ..core import check
from .c21 import strictness

CF = 'jarl-core/src/config.rs'
SEL = {'replace_group_rules', 'get_invalid_rules'}


@check('C07', 'gated value numbering: validation of rule names and configuration values compared with references; attribute rule over the configuration structures')
def c07(c):
    strictness(c)
    c.equiv(CF, 'get_invalid_rules', 'spec_invalid')
    c.equiv(CF, 'parse_rules_cli', 'spec_parse_rules_cli', opaque=SEL)
    c.equiv(CF, 'parse_rules_toml', 'spec_parse_rules_toml', opaque=SEL)
    c.equiv(CF, 'parse_fixable_toml', 'spec_parse_fixable_toml', opaque=SEL)
    c.equiv(CF, 'parse_assignment_cli', 'spec_parse_assignment_cli')
    c.equiv('jarl-core/src/toml.rs', 'TomlOptions::into_settings', 'TomlOptions::spec_into_settings', opaque={'ResolvedRuleOptions::resolve'})
    c.equiv('jarl-core/src/rule_options/assignment.rs', 'ResolvedAssignmentOptions::resolve', 'ResolvedAssignmentOptions::spec_resolve_assignment')
    categories(c)
    rule_names(c)
