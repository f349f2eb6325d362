// What each rule reports on well-formed code: the range, and the text that replaces it (start, end, text, withheld).

fn flagged(range: TextRange) -> Option<(TextRange, Option<(usize, usize, String, bool)>)> {
    Some((range, None))
}

fn flagged_node(node: &RSyntaxNode) -> Option<(TextRange, Option<(usize, usize, String, bool)>)> {
    Some((node.text_trimmed_range(), None))
}

fn rewritten(node: &RSyntaxNode, text: String) -> Option<(TextRange, Option<(usize, usize, String, bool)>)> {
    let r = node.text_trimmed_range();
    Some((r, Some((r.start().into(), r.end().into(), text, node_contains_comments(node)))))
}

fn called(ast: &RCall) -> String {
    get_function_name(ast.function().unwrap())
}

// any(is.na(x))
pub fn rule_any_is_na(ast: &RCall) -> Option<Found> {
    match get_nested_functions_content(ast, "any", "is.na").unwrap() {
        None => None,
        Some((content, node)) => rewritten(&node, format!("anyNA({content})")),
    }
}

// NA %in% x, but not x %in% NA
pub fn rule_any_is_na_2(ast: &RBinaryExpression) -> Option<Found> {
    let op = ast.operator().unwrap();
    if op.kind() != RSyntaxKind::SPECIAL || op.text_trimmed() != "%in%" {
        return None;
    }
    let right = ast.right().unwrap();
    if ast.left().unwrap().as_r_na_expression().is_some() && right.as_r_na_expression().is_none() {
        return rewritten(ast.syntax(), format!("anyNA({})", right.to_trimmed_string()));
    }
    None
}

pub fn rule_any_duplicated(ast: &RCall) -> Option<Found> {
    match get_nested_functions_content(ast, "any", "duplicated").unwrap() {
        None => None,
        Some((content, node)) => rewritten(&node, parenthesize_in_place_of(&node, format!("anyDuplicated({content}) > 0"), binding_strength(">"))),
    }
}

pub fn rule_which_grepl(ast: &RCall) -> Option<Found> {
    match get_nested_functions_content(ast, "which", "grepl").unwrap() {
        None => None,
        Some((content, node)) => rewritten(&node, format!("grep({content})")),
    }
}

pub fn rule_length_levels(ast: &RCall) -> Option<Found> {
    match get_nested_functions_content(ast, "length", "levels").unwrap() {
        None => None,
        Some((content, node)) => rewritten(&node, format!("nlevels({content})")),
    }
}

pub fn rule_browser(ast: &RCall) -> Option<Found> {
    if called(ast) == "browser" { flagged_node(ast.syntax()) } else { None }
}

pub fn rule_internal_function(ast: &RNamespaceExpression) -> Option<Found> {
    if ast.operator().unwrap().kind() == RSyntaxKind::COLON3 { flagged_node(ast.syntax()) } else { None }
}

pub fn rule_undesirable_function(ast: &RCall, checker: &Checker) -> Option<Found> {
    if checker.rule_options.undesirable_function.functions.contains(&called(ast)) { flagged_node(ast.syntax()) } else { None }
}

// for (i in ..) inside for (i in ..), at any depth: the range from the variable to the end of the sequence
pub fn rule_for_loop_dup_index(ast: &RForStatement) -> Option<Found> {
    let index = ast.variable().unwrap().to_trimmed_string();
    for outer in ast.syntax().ancestors().skip(1) {
        if let Some(l) = RForStatement::cast(outer) {
            if l.variable().unwrap().to_trimmed_string() == index {
                return flagged(TextRange::new(ast.variable().unwrap().range().start(), ast.sequence().unwrap().range().end()));
            }
        }
    }
    None
}

// .1 and .1i
pub fn rule_numeric_leading_zero(ast: &AnyRValue) -> Option<Found> {
    let mut text = "";
    let mut token;
    if let Some(x) = ast.as_r_double_value() {
        token = x.value_token().unwrap();
        text = token.text_trimmed();
    }
    if let Some(x) = ast.as_r_complex_value() {
        token = x.value_token().unwrap();
        text = token.text_trimmed();
    }
    if !text.starts_with('.') {
        return None;
    }
    let r = ast.syntax().text_trimmed_range();
    Some((r, Some((r.start().into(), r.end().into(), format!("0{text}"), false))))
}

fn empty_braces(x: AnyRExpression) -> bool {
    match x.as_r_braced_expressions() {
        None => false,
        Some(b) => b.expressions().into_syntax().text_trimmed() == "",
    }
}

// x <- {}, x = {}, {} -> x
pub fn rule_empty_assignment(ast: &RBinaryExpression) -> Option<Found> {
    let kind = ast.operator().unwrap().kind();
    let to_left = kind == RSyntaxKind::ASSIGN || kind == RSyntaxKind::EQUAL;
    let to_right = kind == RSyntaxKind::ASSIGN_RIGHT;
    if to_left && empty_braces(ast.right().unwrap()) || to_right && empty_braces(ast.left().unwrap()) {
        return flagged_node(ast.syntax());
    }
    None
}

// while (TRUE): the head is reported, the loop is replaced
pub fn rule_repeat(ast: &RWhileStatement) -> Option<Found> {
    if ast.condition().unwrap().as_r_true_expression().is_none() {
        return None;
    }
    let body = ast.body().unwrap();
    let text = body.to_trimmed_string();
    let text = if body.as_r_braced_expressions().is_some() { format!("repeat {text}") } else { format!("repeat {{ {text} }}") };
    let all = ast.syntax().text_trimmed_range();
    let head = TextRange::new(ast.while_token().unwrap().text_trimmed_range().start(), ast.r_paren_token().unwrap().text_trimmed_range().end());
    Some((head, Some((all.start().into(), all.end().into(), text, node_contains_comments(ast.syntax())))))
}

// sapply(x, length)
pub fn rule_lengths(ast: &RCall) -> Option<Found> {
    let name = called(ast);
    if name != "sapply" && name != "vapply" && name != "map_dbl" && name != "map_int" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let x = get_arg_by_name_then_position(&args, "x", 1)?;
    let f = get_arg_by_name_then_position(&args, "FUN", 2)?;
    if f.value()?.to_trimmed_string() != "length" {
        return None;
    }
    rewritten(ast.syntax(), format!("lengths({})", x.to_trimmed_string()))
}

// grep(..., value = TRUE): the argument is dropped
pub fn rule_grepv(ast: &RCall) -> Option<Found> {
    if called(ast) != "grep" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let value = get_arg_by_name_then_position(&args, "value", 5)?;
    if value.value()?.as_r_true_expression().is_none() {
        return None;
    }
    let text = match drop_arg_by_name_or_position(&args, "value", 5) {
        Some(rest) => rest.iter().map(|x| x.to_trimmed_string()).collect::<Vec<_>>().join(", "),
        None => String::new(),
    };
    rewritten(ast.syntax(), format!("grepv({text})"))
}

// T and F, but not the function T(), the element x$T or the term of a formula; a variable T is reported without fix
pub fn rule_true_false_symbol(ast: &RIdentifier) -> Option<Found> {
    let token = ast.name_token().unwrap();
    let name = token.text_trimmed();
    if name != "T" && name != "F" {
        return None;
    }
    if ast.parent::<RCall>().is_some() || ast.parent::<RExtractExpression>().is_some() {
        return None;
    }
    let mut variable = ast.parent::<RSubset>().is_some() || ast.parent::<RSubset2>().is_some();
    if let Some(p) = ast.parent::<RForStatement>() {
        variable = p.variable().unwrap().syntax() == ast.syntax();
    }
    if let Some(p) = ast.parent::<RBinaryExpression>() {
        let kind = p.operator().unwrap().kind();
        if kind == RSyntaxKind::TILDE {
            return None;
        }
        if kind == RSyntaxKind::ASSIGN || kind == RSyntaxKind::SUPER_ASSIGN || kind == RSyntaxKind::EQUAL {
            variable = p.left().unwrap().syntax() == ast.syntax();
        } else if kind == RSyntaxKind::ASSIGN_RIGHT || kind == RSyntaxKind::SUPER_ASSIGN_RIGHT {
            variable = p.right().unwrap().syntax() == ast.syntax();
        } else {
            variable = false;
        }
    }
    if variable {
        return flagged_node(ast.syntax());
    }
    let r = ast.syntax().text_trimmed_range();
    let text = if ast.syntax().text_trimmed() == "T" { "TRUE" } else { "FALSE" };
    Some((r, Some((r.start().into(), r.end().into(), text.to_string(), false))))
}

// do.call(cbind.data.frame, x) without other arguments
pub fn rule_list2df(ast: &RCall) -> Option<Found> {
    if called(ast) != "do.call" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let what = get_arg_by_name_then_position(&args, "what", 1)?;
    let list = get_arg_by_name_then_position(&args, "args", 2)?;
    if get_arg_by_position(&args, 3).is_some() {
        return None;
    }
    let text = what.value()?.to_trimmed_string();
    if text == "cbind.data.frame" || text == "\"cbind.data.frame\"" || text == "'cbind.data.frame'" {
        return rewritten(ast.syntax(), format!("list2DF({})", list.value()?.to_trimmed_string()));
    }
    None
}

// !(x < y)
pub fn rule_comparison_negation(ast: &RUnaryExpression) -> Option<Found> {
    if ast.operator().unwrap().kind() != RSyntaxKind::BANG {
        return None;
    }
    let body = ast.argument().unwrap().as_r_parenthesized_expression()?.body().unwrap();
    let cmp = body.as_r_binary_expression()?;
    let kind = cmp.operator().unwrap().kind();
    let opposite = if kind == RSyntaxKind::GREATER_THAN {
        "<="
    } else if kind == RSyntaxKind::GREATER_THAN_OR_EQUAL_TO {
        "<"
    } else if kind == RSyntaxKind::LESS_THAN {
        ">="
    } else if kind == RSyntaxKind::LESS_THAN_OR_EQUAL_TO {
        ">"
    } else if kind == RSyntaxKind::EQUAL2 {
        "!="
    } else if kind == RSyntaxKind::NOT_EQUAL {
        "=="
    } else {
        return None;
    };
    let right = cmp.right().unwrap();
    let strength = binding_strength(opposite).min(expression_strength(&right));
    let text = format!("{} {} {}", cmp.left().unwrap().to_trimmed_string(), opposite, right.to_trimmed_string());
    rewritten(ast.syntax(), parenthesize_in_place_of(ast.syntax(), text, strength))
}

fn maybe_bitwise(x: &AnyRExpression) -> bool {
    if let Some(c) = x.as_r_call() {
        let name = called(c);
        if name == "as.raw" || name == "as.octmode" || name == "as.hexmode" {
            return true;
        }
    }
    match x.as_any_r_value() {
        None => false,
        Some(v) => v.as_r_string_value().is_some(),
    }
}

// if (x & y), while (x | y)
pub fn rule_vector_logic(ast: &RBinaryExpression) -> Option<Found> {
    let kind = ast.operator().unwrap().kind();
    if kind != RSyntaxKind::AND && kind != RSyntaxKind::OR {
        return None;
    }
    if maybe_bitwise(&ast.left().unwrap()) || maybe_bitwise(&ast.right().unwrap()) {
        return None;
    }
    if ast.parent_is_if_condition() || ast.parent_is_while_condition() {
        return flagged_node(ast.syntax());
    }
    None
}

// the two conditions are joined; conditions that are not plain symbols get parentheses
fn in_parentheses(x: AnyRExpression) -> String {
    if x.syntax().kind() == RSyntaxKind::R_IDENTIFIER { x.to_trimmed_string() } else { format!("({x})") }
}

pub fn rule_unnecessary_nesting(ast: &RIfStatement) -> Option<Found> {
    if ast.else_clause().is_some() {
        return None;
    }
    let body = ast.consequence().unwrap();
    let items = body.as_r_braced_expressions()?.expressions().iter().collect::<Vec<_>>();
    if items.len() != 1 {
        return None;
    }
    let nested = items.first().unwrap().as_r_if_statement()?;
    if nested.else_clause().is_some() {
        return None;
    }
    let text = format!(
        "if ({} && {}) {}",
        in_parentheses(ast.condition().unwrap()),
        in_parentheses(nested.condition().unwrap()),
        nested.consequence().unwrap().to_trimmed_string()
    );
    rewritten(ast.syntax(), text)
}

pub fn rule_all_equal(ast: &RCall) -> Option<Found> {
    if let Some((content, node)) = get_nested_functions_content(ast, "isFALSE", "all.equal").unwrap() {
        return rewritten(&node, parenthesize_in_place_of(&node, format!("!isTRUE(all.equal({content}))"), binding_strength("!")));
    }
    if called(ast) != "all.equal" {
        return None;
    }
    let text = ast.to_trimmed_string();
    if ast.parent_is_bang_unary() {
        // with the `!`
        return match ast.syntax().parent() {
            Some(p) => rewritten(&p, format!("!isTRUE({text})")),
            None => rewritten(ast.syntax(), format!("!isTRUE({text})")),
        };
    }
    if ast.parent_is_if_condition() || ast.parent_is_while_condition() {
        return rewritten(ast.syntax(), format!("isTRUE({text})"));
    }
    None
}

// is.numeric(x) || is.integer(x), in any order, on the same arguments
pub fn rule_is_numeric(ast: &RBinaryExpression) -> Option<Found> {
    if ast.operator().unwrap().kind() != RSyntaxKind::OR2 {
        return None;
    }
    let l = ast.left().unwrap();
    let r = ast.right().unwrap();
    let a = l.as_r_call()?;
    let b = r.as_r_call()?;
    let f = a.function().unwrap().to_trimmed_string();
    let g = b.function().unwrap().to_trimmed_string();
    if f == "is.numeric" && g == "is.integer" || f == "is.integer" && g == "is.numeric" {
        let x = a.arguments().unwrap().to_trimmed_string();
        if x == b.arguments().unwrap().to_trimmed_string() {
            return rewritten(ast.syntax(), format!("is.numeric{x}"));
        }
    }
    None
}

// length(x == y)
pub fn rule_length_test(ast: &RCall) -> Option<Found> {
    if called(ast) != "length" {
        return None;
    }
    let first = ast.arguments().unwrap().items().into_iter().next()?;
    let value = first.unwrap().value().unwrap();      // known to fail (C30) when there is none
    let AnyRExpression::RBinaryExpression(cmp) = value else { return None };
    let op = cmp.operator().unwrap();
    let kind = op.kind();
    if kind == RSyntaxKind::EQUAL2
        || kind == RSyntaxKind::NOT_EQUAL
        || kind == RSyntaxKind::GREATER_THAN
        || kind == RSyntaxKind::GREATER_THAN_OR_EQUAL_TO
        || kind == RSyntaxKind::LESS_THAN
        || kind == RSyntaxKind::LESS_THAN_OR_EQUAL_TO
    {
        return rewritten(ast.syntax(), format!("length({}) {} {}", cmp.left().unwrap().to_trimmed_string(), op.text_trimmed(), cmp.right().unwrap().to_trimmed_string()));
    }
    None
}

fn string_value(x: Option<RArgument>) -> Option<String> {
    Some(x?.value()?.as_any_r_value()?.as_r_string_value()?.to_trimmed_string())
}

// download.file() with mode "w" or "a" or the default mode, unless the method ignores it
pub fn rule_download_file(ast: &RCall) -> Option<Found> {
    if called(ast) != "download.file" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    if let Some(m) = string_value(get_arg_by_name_then_position(&args, "method", 3)) {
        if m == "\"wget\"" || m == "'wget'" || m == "\"curl\"" || m == "'curl'" {
            return None;
        }
    }
    let value = match get_arg_by_name_then_position(&args, "mode", 5) {
        None => None,
        Some(arg) => arg.value(),
    };
    if let Some(v) = value {
        let text = v.as_any_r_value()?.as_r_string_value()?.to_trimmed_string();
        if text != "\"w\"" && text != "'w'" && text != "\"a\"" && text != "'a'" {
            return None;
        }
    }
    flagged_node(ast.syntax())
}
