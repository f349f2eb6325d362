from ..core import check


def grammar(c):
    D = 'jarl-core/src/directive.rs'
    for n in ('is_quarto_chunk_array_header', 'parse_quarto_chunk_array_item', 'parse_comment_directive'):
        c.equiv(D, n, 'spec_' + n, opaque={'Rule::from_name'})


@check('C04', 'gated value numbering of the directive parsers, compared with a reference grammar on every decision path')
def c04(c):
    grammar(c)
