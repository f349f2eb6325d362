// How rules look into a call.

fn spec_present(args: &RArgumentList) -> Vec<RArgument> {
    args.iter().map(|x| x.unwrap()).collect()
}

pub fn spec_get_unnamed_args(args: &RArgumentList) -> Vec<RArgument> {
    let mut out = Vec::new();
    for x in args.iter() {
        let arg = x.unwrap();
        if arg.name_clause().is_none() {
            out.push(arg);
        }
    }
    out
}

pub fn spec_get_named_args(args: &RArgumentList) -> Vec<RArgument> {
    let mut out = Vec::new();
    for x in args.iter() {
        let arg = x.unwrap();
        if arg.name_clause().is_some() {
            out.push(arg);
        }
    }
    out
}

// the name without layout, comments and quotes
fn spec_is_argument_named(arg: &RArgument, name: &str) -> bool {
    match arg.name_clause() {
        None => false,
        Some(c) => match c.name() {
            Err(_) => false,
            Ok(n) => n.to_trimmed_string().trim_matches(['"', '\'', '`']) == name,
        },
    }
}

pub fn spec_get_arg_by_name(args: &RArgumentList, name: &str) -> Option<RArgument> {
    for x in args.iter() {
        let arg = x.unwrap();
        if spec_is_argument_named(&arg, name) {
            return Some(arg);
        }
    }
    None
}

pub fn spec_get_arg_by_position(args: &RArgumentList, pos: usize) -> Option<RArgument> {
    args.iter().nth(pos - 1).map(|x| x.unwrap())
}

pub fn spec_get_unnamed_arg_by_position(args: &RArgumentList, pos: usize) -> Option<RArgument> {
    get_unnamed_args(args).into_iter().nth(pos - 1)
}

pub fn spec_get_arg_by_name_then_position(args: &RArgumentList, name: &str, pos: usize) -> Option<RArgument> {
    if let Some(x) = get_arg_by_name(args, name) {
        return Some(x);
    }
    get_unnamed_args(args).into_iter().nth(pos - 1)
}

pub fn spec_is_argument_present(args: &RArgumentList, name: &str, position: usize) -> bool {
    get_arg_by_name_then_position(args, name, position).is_some()
}

// exactly the argument that the look-up finds is dropped
pub fn spec_drop_arg_by_name_or_position(args: &RArgumentList, name: &str, pos: usize) -> Option<Vec<RArgument>> {
    match get_arg_by_name_then_position(args, name, pos) {
        None => None,
        Some(d) => {
            let mut out = Vec::new();
            for x in args.iter() {
                let arg = x.unwrap();
                if arg.syntax() != d.syntax() {
                    out.push(arg);
                }
            }
            Some(out)
        }
    }
}

pub fn spec_get_function_name(function: AnyRExpression) -> String {
    // pkg::fun
    if let Some(ns) = function.as_r_namespace_expression() {
        if let Some(id) = ns.right().unwrap().as_r_identifier() {
            return id.name_token().unwrap().token_text_trimmed().text().to_string();
        }
    }
    // object$fun is a function of its own
    if let Some(ex) = function.as_r_extract_expression() {
        let l = ex.as_fields().left.unwrap();
        let r = ex.as_fields().right.unwrap();
        let op = ex.as_fields().operator.unwrap();
        if let Some(a) = l.as_r_identifier() {
            if let Some(b) = r.as_r_identifier() {
                return format!(
                    "{}{}{}",
                    a.name_token().unwrap().token_text_trimmed().text(),
                    op.text_trimmed(),
                    b.name_token().unwrap().token_text_trimmed().text()
                );
            }
        }
    }
    if function.as_r_return_expression().is_some() {
        return "return".to_string();
    }
    match function.as_r_identifier() {
        Some(id) => id.name_token().unwrap().token_text_trimmed().text().to_string(),
        None => String::new(),
    }
}

pub fn spec_get_function_namespace_prefix(function: AnyRExpression) -> Option<String> {
    match function.as_r_namespace_expression() {
        None => None,
        Some(ns) => match ns.left().unwrap().as_r_identifier() {
            None => None,
            Some(id) => Some(format!("{}::", id.name_token().unwrap().token_text_trimmed().text())),
        },
    }
}

fn spec_call_is(call: &RCall, name: &str) -> bool {
    get_function_name(call.as_fields().function.unwrap()) == name
}

fn spec_argument_text(call: &RCall) -> String {
    call.as_fields().arguments.unwrap().items().into_syntax().to_string()
}

// outer(inner(x)), inner(x) |> outer() and x |> inner() |> outer()
pub fn spec_get_nested_functions_content(call: &RCall, outer_fn: &str, inner_fn: &str) -> Result<Option<(String, RSyntaxNode)>> {
    if !spec_call_is(call, outer_fn) {
        return Ok(None);
    }
    // a call with other unnamed arguments is not the pattern: they would be lost
    let unnamed = get_unnamed_args(&call.as_fields().arguments.unwrap().items());
    if unnamed.len() == 1 {
        if let Some(value) = unnamed[0].value() {
            if let Some(inner) = value.as_r_call() {
                if spec_call_is(inner, inner_fn) {
                    return Ok(Some((spec_argument_text(inner), call.syntax().clone())));
                }
            }
        }
    }
    if unnamed.len() > 0 {
        return Ok(None);
    }
    let Some(parent) = call.syntax().parent() else { return Ok(None) };
    let Some(pipe) = RBinaryExpression::cast(parent) else { return Ok(None) };
    let whole = pipe.syntax().clone();
    if pipe.as_fields().operator.unwrap().kind() != RSyntaxKind::PIPE {
        return Ok(None);
    }
    let left = pipe.as_fields().left.unwrap();
    if let Some(inner) = left.as_r_call() {
        if spec_call_is(inner, inner_fn) {
            return Ok(Some((spec_argument_text(inner), whole)));
        }
    }
    if let Some(inner_pipe) = left.as_r_binary_expression() {
        if inner_pipe.as_fields().operator.unwrap().kind() == RSyntaxKind::PIPE {
            if let Some(inner) = inner_pipe.as_fields().right.unwrap().as_r_call() {
                if spec_call_is(inner, inner_fn) {
                    // the input of the inner function comes from the pipe only; its other arguments are kept
                    let items = inner.as_fields().arguments.unwrap().items();
                    if get_unnamed_args(&items).len() == 0 {
                        let mut content = inner_pipe.as_fields().left.unwrap().to_trimmed_string();
                        for arg in get_named_args(&items) {
                            if let Some(v) = arg.value() {
                                if v.to_trimmed_string() == "_" {
                                    return Ok(None);
                                }
                            }
                            content.push_str(", ");
                            content.push_str(&arg.to_trimmed_string());
                        }
                        return Ok(Some((content, whole)));
                    }
                }
            }
        }
    }
    Ok(None)
}

// only comments strictly inside count
pub fn spec_node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
    let range = node.text_trimmed_range();
    for token in node.descendants_tokens(Direction::Next) {
        let t = token.text_trimmed_range();
        if token.has_leading_comments() && t.start() > range.start() {
            return true;
        }
        if token.has_trailing_comments() && t.end() < range.end() {
            return true;
        }
    }
    false
}

pub trait SpecAstNodeExt: AstNode<Language = RLanguage> {
    // IF_KW ( condition ) body
    fn spec_parent_is_if_condition(&self) -> bool {
        spec_child(self.syntax(), RSyntaxKind::R_IF_STATEMENT, 2)
    }
    fn spec_parent_is_if_body(&self) -> bool {
        spec_child(self.syntax(), RSyntaxKind::R_IF_STATEMENT, 4)
    }
    fn spec_parent_is_while_condition(&self) -> bool {
        spec_child(self.syntax(), RSyntaxKind::R_WHILE_STATEMENT, 2)
    }
    fn spec_parent_is_while_body(&self) -> bool {
        spec_child(self.syntax(), RSyntaxKind::R_WHILE_STATEMENT, 4)
    }
    // ELSE_KW body
    fn spec_parent_is_else_body(&self) -> bool {
        spec_child(self.syntax(), RSyntaxKind::R_ELSE_CLAUSE, 1)
    }
    // FOR_KW ( variable IN_KW sequence ) body
    fn spec_parent_is_for_body(&self) -> bool {
        spec_child(self.syntax(), RSyntaxKind::R_FOR_STATEMENT, 6)
    }
    fn spec_has_previous_pipe(&self) -> bool {
        match self.syntax().prev_sibling_or_token() {
            None => false,
            Some(p) => p.kind() == RSyntaxKind::PIPE,
        }
    }
    // `!x`, but not `!!x`
    fn spec_parent_is_bang_unary(&self) -> bool {
        let Some(parent) = self.syntax().parent() else { return false };
        if parent.kind() != RSyntaxKind::R_UNARY_EXPRESSION {
            return false;
        }
        let Some(prev) = self.syntax().prev_sibling_or_token() else { return false };
        if prev.kind() != RSyntaxKind::BANG {
            return false;
        }
        match parent.parent() {
            None => true,
            Some(g) => g.kind() != RSyntaxKind::R_UNARY_EXPRESSION,
        }
    }
}

fn spec_child(node: &RSyntaxNode, kind: RSyntaxKind, index: usize) -> bool {
    match node.parent() {
        None => false,
        Some(p) => p.kind() == kind && node.index() == index,
    }
}
