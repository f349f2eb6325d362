from ..term import lift, field
from ..core import check

D = 'jarl-lsp/src/document.rs'
S = 'jarl-lsp/src/session.rs'


@check('C13', 'gated value numbering of the document updates and position arithmetic (every field written and every returned value), compared with references on every path')
def c13(c):
    c.equiv(D, 'TextDocument::compute_line_starts', 'spec_line_starts')
    c.equiv(D, 'TextDocument::new', 'TextDocument::spec_new')
    c.equiv(D, 'TextDocument::position_to_offset', 'TextDocument::spec_position_to_offset')
    c.equiv(D, 'TextDocument::offset_to_position', 'TextDocument::spec_offset_to_position')
    c.equiv(D, 'TextDocument::range_of_text', 'TextDocument::spec_range_of_text', opaque={'TextDocument::offset_to_position'})
    c.equiv(D, 'TextDocument::line_count', 'TextDocument::spec_line_count')
    c.equiv(D, 'TextDocument::apply_changes', 'TextDocument::spec_apply_changes', opaque={'TextDocument::position_to_offset'})
    c.equiv(S, 'Session::update_document', 'Session::spec_update_document', opaque={'TextDocument::apply_changes'}, effects={'apply_changes'})
    c.equiv(S, 'Session::server_capabilities', 'Session::spec_announced', name='announced synchronisation',
            project=lambda what, t: lift(lambda x: field(x, 'text_document_sync'), t) if what == 'return value' else None)
    c.structural_eq('DocumentKey')
