from ..term import lift, field, ctor, rewrite
from ..core import check
from .c16 import code_actions

D = 'jarl-lsp/src/document.rs'
S = 'jarl-lsp/src/session.rs'


def announced(what, t):
    """the encoding announced to the client; its conversion to the protocol's name is an obligation of its own"""
    if what != 'return value':
        return None

    def f(x):
        if x.op == 'ctor' and x.a[0].startswith('PositionEncodingKind::') and len(x.a) == 1:
            return ctor('PositionEncoding::' + x.a[0].split('::')[1])
    return rewrite(lift(lambda x: field(x, 'position_encoding'), t), f)


@check('C14', 'gated value numbering of the negotiation, announcement and offset-to-position conversions, compared with references; every conversion call site is checked to use the negotiated encoding')
def c14(c):
    c.equiv(S, 'negotiate_position_encoding', 'spec_negotiate')
    c.equiv(D, 'PositionEncodingKind::from', 'spec_encoding_kind')
    c.equiv(D, 'PositionEncoding::try_from', 'spec_try_encoding')
    c.equiv(S, 'Session::take_snapshot', 'Session::spec_take_snapshot')
    c.equiv('jarl-lsp/src/lint.rs', 'byte_offset_to_lsp_position', 'spec_byte_offset_to_lsp_position')
    c.equiv('jarl-lsp/src/lint.rs', 'convert_to_lsp_diagnostic', 'spec_convert_to_lsp_diagnostic', opaque={'byte_offset_to_lsp_position'}, name='convert_to_lsp_diagnostic')
    c.equiv('jarl-lsp/src/lint.rs', 'lint_document', 'spec_lint_document', opaque={'run_jarl_linting', 'convert_to_lsp_diagnostic'})
    code_actions(c)
    c.equiv(S, 'Session::server_capabilities', 'Session::spec_announced', name='announced encoding',
            project=announced)
    c.structural_eq('PositionEncoding')
