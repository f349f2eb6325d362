// What each rule reports on well-formed code, continued.

// sprintf() with an invalid %, without any %, or with another number of arguments
pub fn rule_sprintf(ast: &RCall) -> Option<Found> {
    if called(ast) != "sprintf" || ast.has_previous_pipe() {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let fmt = get_arg_by_name_then_position(&args, "fmt", 1)?;
    let text = fmt.value()?.as_any_r_value()?.as_r_string_value()?.to_trimmed_string();
    let parsed = parse_sprintf_format(&text);
    if !parsed.invalid_positions.is_empty() {
        return flagged_node(ast.syntax());
    }
    if parsed.n_unique_special_chars == 0 {
        return rewritten(ast.syntax(), parsed.output_string);
    }
    let mut n = get_unnamed_args(&args).len();
    if fmt.name_clause().is_none() {
        n = n - 1;
    }
    let wanted = if parsed.has_positional { parsed.max_position } else { parsed.all_args_consumed.iter().sum() };
    if wanted != n { flagged_node(ast.syntax()) } else { None }
}

fn spec_has_multiple_expressions(input: &AnyRExpression) -> bool {
    match input.as_r_braced_expressions() {
        Some(b) => b.expressions().len() > 1,
        None => false,
    }
}

// { x } counts as x
fn spec_extract_single_expression(input: &AnyRExpression) -> AnyRExpression {
    if let Some(b) = input.as_r_braced_expressions() {
        let items: Vec<_> = b.expressions().into_iter().collect();
        if items.len() == 1 {
            return items.first().unwrap().clone();
        }
    }
    input.clone()
}

// Some(truth) of the conditions that do not depend on any variable
fn spec_evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<bool>> {
    if expr.as_r_true_expression().is_some() || expr.as_r_inf_expression().is_some() {
        return Ok(Some(true));
    }
    if expr.as_r_false_expression().is_some() {
        return Ok(Some(false));
    }
    if let Some(value) = expr.as_any_r_value() {
        if let Some(int) = value.as_r_integer_value() {
            let token = int.value_token().unwrap();
            let text = token.text_trimmed();
            return Ok(match text.strip_suffix('L').unwrap_or(text).parse::<i64>() {
                Ok(n) => Some(n != 0),
                Err(_) => None,
            });
        }
        if let Some(double) = value.as_r_double_value() {
            let token = double.value_token().unwrap();
            let text = token.text_trimmed();
            let number = if text.starts_with('.') { format!("0{text}").parse::<f64>() } else { text.parse::<f64>() };
            return match number {
                Ok(n) if !n.is_nan() => Ok(Some(n != 0.0)),
                _ => Ok(None),
            };
        }
        return Ok(None);
    }
    if let Some(p) = expr.as_r_parenthesized_expression() {
        return evaluate_constant_condition(&p.body().unwrap());
    }
    if let Some(u) = expr.as_r_unary_expression() {
        let op = u.operator().unwrap();
        let op = op.text_trimmed();
        let x = evaluate_constant_condition(&u.argument().unwrap());
        if op == "!" {
            return Ok(match x.unwrap() {
                Some(b) => Some(!b),
                None => None,
            });
        }
        if op == "-" || op == "+" {
            return x;
        }
        return Ok(None);
    }
    if let Some(b) = expr.as_r_binary_expression() {
        let op = b.operator().unwrap();
        let op = op.text_trimmed();
        let or = op == "||" || op == "|";
        if !or && op != "&&" && op != "&" {
            return Ok(None);
        }
        let l = evaluate_constant_condition(&b.left().unwrap()).unwrap();
        let r = evaluate_constant_condition(&b.right().unwrap()).unwrap();
        // TRUE decides an or, FALSE an and; otherwise both have to be known
        if l == Some(or) || r == Some(or) {
            return Ok(Some(or));
        }
        if l == Some(!or) {
            return Ok(r);
        }
        return Ok(None);
    }
    Ok(None)
}

// the variable itself, or a call one of whose argument names or values contains it
fn spec_contains_identifier(expr: &AnyRExpression, target: &str) -> anyhow::Result<bool> {
    if let Some(x) = expr.as_r_identifier() {
        return Ok(x.to_trimmed_text() == target);
    }
    let Some(call) = expr.as_r_call() else { return Ok(false) };
    let args = call.arguments().unwrap().items();
    let names: Vec<Text> = args.clone().into_iter().filter_map(|x| Some(x.ok()?.name_clause()?.name().unwrap().to_trimmed_text())).collect();
    if names.iter().any(|x| *x == target) {
        return Ok(true);
    }
    let values: Vec<AnyRExpression> = args.into_iter().filter_map(|x| x.unwrap().value()).collect();
    for v in values {
        if contains_identifier(&v, target)? {
            return Ok(true);
        }
    }
    Ok(false)
}

// an argument name given twice, unless the function accepts that
pub fn rule_duplicated_arguments(ast: &RCall, checker: &Checker) -> Option<Found> {
    let name = match ast.function().unwrap() {
        AnyRExpression::RNamespaceExpression(x) => x.right().unwrap().to_trimmed_string(),
        AnyRExpression::RBracedExpressions(x) => x.expressions().into_iter().map(|x| x.to_string()).collect::<Vec<String>>().join(""),
        AnyRExpression::RExtractExpression(x) => x.right().unwrap().to_trimmed_string(),
        AnyRExpression::RCall(x) => x.function().unwrap().to_trimmed_string(),
        AnyRExpression::RSubset(x) => x.arguments().unwrap().to_trimmed_string(),
        AnyRExpression::RSubset2(x) => x.arguments().unwrap().to_trimmed_string(),
        AnyRExpression::RParenthesizedExpression(x) => x.body().unwrap().to_trimmed_string(),
        x => x.to_trimmed_string(),
    };
    if checker.rule_options.duplicated_arguments.skipped_functions.contains(&name) || name.starts_with("cli_") {
        return None;
    }
    let names: Vec<String> = ast
        .arguments()
        .unwrap()
        .items()
        .into_iter()
        .filter_map(Result::ok)
        .filter_map(|x| {
            if let Some(n) = &x.name_clause() && let Ok(name) = n.name() {
                let text = name.to_trimmed_string();
                let bare = text.replace(&['\'', '"', '`'][..], "");
                if bare.chars().count() == 0 { Some(text) } else { Some(bare) }
            } else {
                None
            }
        })
        .collect();
    if !names.is_empty() && !get_duplicates(&names).is_empty() { flagged_node(ast.syntax()) } else { None }
}

fn nearest(ast: &RBinaryExpression, what: RSyntaxKind) -> bool {
    for a in ast.syntax().ancestors() {
        if a.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
            return false;
        }
        if a.kind() == what {
            return true;
        }
    }
    false
}

// x <- 1 in an argument, a condition or a sequence, but not in a body, in braces or in the functions that are skipped
pub fn rule_implicit_assignment(ast: &RBinaryExpression, checker: &Checker) -> anyhow::Result<Option<Found>> {
    let kind = ast.operator().unwrap().kind();
    if kind != RSyntaxKind::ASSIGN && kind != RSyntaxKind::SUPER_ASSIGN && kind != RSyntaxKind::ASSIGN_RIGHT && kind != RSyntaxKind::SUPER_ASSIGN_RIGHT {
        return Ok(None);
    }
    let arg = nearest(ast, RSyntaxKind::R_ARGUMENT);
    if arg {
        for a in ast.syntax().ancestors() {
            if let Some(call) = RCall::cast(a) {
                if checker.rule_options.implicit_assignment.skipped_functions.contains(&called(&call)) {
                    return Ok(None);
                }
                break;
            }
        }
    }
    let in_if = !ast.parent_is_if_body() && !ast.parent_is_else_body() && nearest(ast, RSyntaxKind::R_IF_STATEMENT);
    let in_while = !ast.parent_is_while_body() && nearest(ast, RSyntaxKind::R_WHILE_STATEMENT);
    let in_for = !ast.parent_is_for_body() && nearest(ast, RSyntaxKind::R_FOR_STATEMENT);
    if arg || in_if || in_while || in_for { Ok(flagged_node(ast.syntax())) } else { Ok(None) }
}

fn each(ranges: &[TextRange]) -> Vec<Found> {
    ranges.iter().map(|r| (*r, None)).collect()
}

pub fn spec_blanket_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_misnamed_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_misplaced_file_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_outdated_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_unexplained_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_unmatched_range_suppression_start(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_unmatched_range_suppression_end(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_misplaced_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}

pub fn spec_invalid_chunk_suppression(ranges: &[TextRange]) -> Vec<Found> {
    each(ranges)
}
