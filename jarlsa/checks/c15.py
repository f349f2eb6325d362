from ..core import check
from ..term import T, mk, rewrite, S


def nomsg(what, t):
    """the wording of messages shown to the user is free"""
    def f(x):
        if x.op == 'struct' and x.a[0] == 'ShowMessageParams':
            return mk('struct', x.a[0], x.a[1], *[S('<text>') if k == 'message' else v for k, v in zip(x.a[1], x.a[2:])])
    return rewrite(t, f)


CL = 'jarl-lsp/src/client.rs'
SV = 'jarl-lsp/src/server.rs'


@check('C15', 'gated value numbering of the message handlers: state updates and the sequence of messages sent are compared with references on every path')
def c15(c):
    send = {'send'}
    for m in ('send_request', 'send_notification', 'send_response', 'send_error_response', 'publish_diagnostics', 'show_message', 'log_message'):
        c.equiv(CL, 'Client::' + m, 'Client::spec_' + m, effects=send)
    c.equiv(CL, 'Client::new', 'Client::spec_new')
    c.equiv(CL, 'Client::notify_unused_fn_threshold_once', 'Client::spec_notify_unused_fn_threshold_once', effects=send, project=nomsg)
    c.equiv(CL, 'Client::handle_response', 'Client::spec_handle_response', effects=send)
    c.equiv(CL, 'Client::cleanup_pending_requests', 'Client::spec_cleanup_pending_requests', effects=send)
    c.equiv(CL, 'Error::to_lsp_error', 'Error::spec_to_lsp_error')
    c.equiv(CL, 'Error::to_lsp_error_with_code', 'Error::spec_to_lsp_error_with_code')
    c.equiv(SV, 'Server::handle_request', 'Server::spec_handle_request', effects=send)
    c.equiv(SV, 'Server::handle_notification', 'Server::spec_handle_notification', effects={'send', 'exit', 'apply_changes'},
            opaque={'TextDocument::apply_changes', 'Session::check_and_notify_config'})
    c.equiv(SV, 'Server::handle_message', 'Server::spec_handle_message', effects={'send', 'handle_request', 'handle_notification'},
            opaque={'Server::handle_request', 'Server::handle_notification'})
    c.equiv(SV, 'Server::handle_code_action_request', 'Server::spec_handle_code_action_request', effects=send, opaque={'Server::generate_code_actions'})
    c.equiv(SV, 'Server::handle_lint_task', 'Server::spec_handle_lint_task', effects=send, opaque={'lint_document'}, project=nomsg)
    c.equiv(SV, 'Server::worker_thread', 'Server::spec_worker_thread', effects={'handle_lint_task', 'handle_code_action_request'},
            opaque={'Server::handle_lint_task', 'Server::handle_code_action_request'})
