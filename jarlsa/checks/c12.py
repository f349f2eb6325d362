from .. import attrs
from ..core import check

L = 'jarl-core/src/location.rs'
U = 'jarl-core/src/utils.rs'


def locations(c):
    for m in ('new', 'row', 'column', 'fmt_with'):
        c.equiv(L, 'Location::' + m, 'Location::spec_' + m)
    c.equiv(U, 'find_new_lines_from_content', 'spec_find_new_lines_from_content')
    c.equiv(U, 'find_row_col', 'spec_find_row_col')
    c.equiv(U, 'compute_lints_location', 'spec_compute_lints_location', opaque={'find_row_col'})


@check('C12', 'gated value numbering of the newline index, row/column arithmetic and their use, compared with references on every path')
def c12(c):
    locations(c)
    attrs.written(c, 'output', {'Location': {'row': 'row', 'column': 'column'}})
