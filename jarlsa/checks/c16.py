from ..core import check
from ..term import rewrite, mk, S

SV = 'jarl-lsp/src/server.rs'
OPAQUE = {'byte_offset_to_lsp_position', 'create_suppression_edit_in_rmd', 'compute_suppression_insert_point', 'parse_existing_suppression',
          'format_suppression_comments', 'extract_r_chunks', 'has_rmd_extension'}


def notitle(what, t):
    def f(x):
        if x.op == 'struct' and x.a[0] == 'CodeAction':
            return mk('struct', x.a[0], x.a[1], *[S('<title>') if k == 'title' else v for k, v in zip(x.a[1], x.a[2:])])
    return rewrite(t, f)


def code_actions(c):
    for n in ('diagnostic_to_code_action', 'diagnostic_to_jarl_ignore_rule_action', 'diagnostic_to_jarl_ignore_chunk_action'):
        c.equiv(SV, 'Server::' + n, 'Server::spec_' + n, opaque=OPAQUE, project=notitle)


@check('C16', 'gated value numbering of the code-action builders: the offered edits (document, range, text) are compared with references on every path')
def c16(c):
    c.equiv(SV, 'Server::generate_code_actions', 'Server::spec_generate_code_actions',
            opaque={'lint_document', 'Server::diagnostic_to_code_action', 'Server::diagnostic_to_jarl_ignore_rule_action', 'Server::diagnostic_to_jarl_ignore_chunk_action'})
    code_actions(c)
