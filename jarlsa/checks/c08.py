from ..core import check


@check('C08', 'gated value numbering of the DESCRIPTION reader and version filter, compared with references on every decision path')
def c08(c):
    c.equiv('description.rs', 'Description::get_depend_r_version', 'spec_get_depend_r_version')
    c.equiv('config.rs', 'parse_r_version', 'spec_parse_r_version')
    c.equiv('config.rs', 'filter_rules_by_version', 'spec_filter_rules_by_version', opaque={'Rule::minimum_r_version', 'RuleSet::iter'})
    c.equiv('config.rs', 'determine_minimum_r_version', 'spec_determine_minimum_r_version',
            opaque={'parse_r_version', 'Description::get_depend_r_version'})
