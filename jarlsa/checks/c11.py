from ..core import check

C = 'jarl-core/src/'


@check('C11', 'gated value numbering: the text produced from the old text and the list of fixes is compared with a reference on every path of the loop')
def c11(c):
    c.equiv(C + 'fix.rs', 'apply_fixes', 'spec_apply_fixes')
