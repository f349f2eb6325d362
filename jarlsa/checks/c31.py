from ..core import check
from ..syn import norm, VOCAB

U = 'jarl-core/src/utils.rs'
X = 'jarl-core/src/utils_ast.rs'
HELPERS = ('get_unnamed_args', 'get_named_args', 'get_arg_by_name', 'get_arg_by_position', 'get_unnamed_arg_by_position', 'get_arg_by_name_then_position', 'is_argument_present',
           'drop_arg_by_name_or_position', 'get_function_name', 'get_function_namespace_prefix', 'get_nested_functions_content', 'node_contains_comments')
PLACES = ('parent_is_if_condition', 'parent_is_if_body', 'parent_is_while_condition', 'parent_is_while_body', 'parent_is_else_body', 'parent_is_for_body', 'has_previous_pipe', 'parent_is_bang_unary')


@check('C31', 'gated value numbering on well-formed syntax: the look-up of functions, arguments, pipes, positions and inner comments compared with references on every path')
def c31(c):
    for f in HELPERS:
        c.equiv(U, f, 'spec_' + f, opaque={'get_function_name', 'get_nested_functions_content'} - {f}, assume_ok=True, project=lambda what, t: norm(t), vocab=VOCAB)
        c.count('functions compared', 1)
    for f in PLACES:
        c.equiv(X, 'AstNodeExt::' + f, 'SpecAstNodeExt::spec_' + f, project=lambda what, t: norm(t), vocab=VOCAB)
        c.count('functions compared', 1)
    c.floor('functions compared', 15)
