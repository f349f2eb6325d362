from ..core import check


def scanner(c):
    c.equiv('rmd/extraction.rs', 'extract_r_chunks', 'spec_extract_r_chunks')


@check('C18', 'gated value numbering of the fence scanner, compared with a reference scanner; the fence pattern itself is compared structurally')
def c18(c):
    scanner(c)
