// What each rule reports on well-formed code, continued.

// x = 1, 1 -> x to x <- 1 (or to x = 1); the operator and its target are reported, the assignment is replaced
pub fn rule_assignment(ast: &RBinaryExpression, assignment: RSyntaxKind) -> Option<Found> {
    let op = ast.operator().unwrap();
    let l = ast.left().unwrap().into_syntax();
    let r = ast.right().unwrap().into_syntax();
    let kind = op.kind();
    let (wanted, unwanted) = if assignment == RSyntaxKind::ASSIGN {
        ("<-", RSyntaxKind::EQUAL)
    } else if assignment == RSyntaxKind::EQUAL {
        ("=", RSyntaxKind::ASSIGN)
    } else {
        unreachable!()
    };
    let (range, text) = if kind == RSyntaxKind::ASSIGN_RIGHT {
        (
            TextRange::new(op.text_trimmed_range().start(), r.text_trimmed_range().end()),
            format!("{} {} {}", r.text_trimmed(), wanted, l.text_trimmed()),
        )
    } else if kind == unwanted {
        (
            TextRange::new(l.text_trimmed_range().start(), op.text_trimmed_range().end()),
            format!("{} {} {}", l.text_trimmed(), wanted, r.text_trimmed()),
        )
    } else {
        return None;
    };
    let comments = op.has_leading_comments() || op.has_trailing_comments() || l.has_trailing_comments() || r.has_leading_comments();
    let withheld = comments || read_differently(ast, assignment);
    let all = ast.syntax().text_trimmed_range();
    Some((range, Some((all.start().into(), all.end().into(), text, withheld))))
}

fn read_differently(ast: &RBinaryExpression, assignment: RSyntaxKind) -> bool {
    let parent = match ast.syntax().parent() {
        None => return false,
        Some(p) => p,
    };
    let around = match RBinaryExpression::cast_ref(&parent) {
        None => None,
        Some(b) => Some(b.operator().unwrap().kind()),
    };
    if assignment == RSyntaxKind::ASSIGN {
        // `<-` takes the left side of a `=` in its value; `->` around takes its value
        let right = ast.right().unwrap();
        let chained = match right.as_r_binary_expression() {
            None => false,
            Some(b) => b.operator().unwrap().kind() == RSyntaxKind::EQUAL,
        };
        return chained || around == Some(RSyntaxKind::ASSIGN_RIGHT) || around == Some(RSyntaxKind::SUPER_ASSIGN_RIGHT);
    }
    // `=` is the loosest operator, and names an argument or a parameter
    let kind = parent.kind();
    if kind == RSyntaxKind::R_BINARY_EXPRESSION {
        return around != Some(RSyntaxKind::EQUAL);
    }
    if kind == RSyntaxKind::R_IF_STATEMENT || kind == RSyntaxKind::R_WHILE_STATEMENT || kind == RSyntaxKind::R_FOR_STATEMENT {
        return !(ast.parent_is_if_body() || ast.parent_is_while_body() || ast.parent_is_for_body());
    }
    if kind == RSyntaxKind::R_ARGUMENT || kind == RSyntaxKind::R_PARAMETER {
        return true;
    }
    match parent.parent() {
        None => false,
        Some(p) => p.kind() == RSyntaxKind::R_PARAMETER,
    }
}

fn is_file_path(arg: &RArgument) -> bool {
    match arg.value() {
        None => false,
        Some(v) => match v.as_r_call() {
            None => false,
            Some(c) => c.function().unwrap().to_trimmed_string() == "file.path",
        },
    }
}

// system.file(file.path("a", "b")): the arguments of the only file.path() take its place
pub fn rule_system_file(ast: &RCall) -> Option<Found> {
    if called(ast) != "system.file" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let unnamed = get_unnamed_args(&args);
    let paths = unnamed.iter().filter(|x| is_file_path(x)).collect::<Vec<&RArgument>>();
    if paths.len() != 1 {
        return None;
    }
    let path = paths.first()?;
    let value = path.value()?;
    let call = value.as_r_call()?;
    let parts = call.arguments().unwrap().items().iter().filter(|x| if let Ok(x) = x { x.value().is_some() } else { false });
    let _ = parts.clone().next()?;
    let text = parts.map(|x| x.unwrap().to_trimmed_string()).collect::<Vec<String>>().join(", ");
    let all = args
        .iter()
        .filter_map(Result::ok)
        .map(|x| if x.syntax() == path.syntax() { text.clone() } else { x.to_trimmed_string() })
        .collect::<Vec<String>>()
        .join(", ");
    rewritten(ast.syntax(), format!("system.file({all})"))
}

// ifelse(x, TRUE, FALSE): x; ifelse(x, FALSE, TRUE): !(x); the same value twice: no replacement
pub fn rule_redundant_ifelse(ast: &RCall) -> Option<Found> {
    let name = called(ast);
    let (c, t, f) = if name == "ifelse" || name == "fifelse" {
        ("test", "yes", "no")
    } else if name == "if_else" {
        ("condition", "true", "false")
    } else {
        return None;
    };
    let args = ast.arguments().unwrap().items();
    if args.iter().collect::<Vec<_>>().len() != 3 {
        return None;
    }
    let cond = get_arg_by_name_then_position(&args, c, 1)?.value()?;
    let yes = get_arg_by_name_then_position(&args, t, 2)?.value()?;
    let no = get_arg_by_name_then_position(&args, f, 3)?.value()?;
    let y = if yes.as_r_true_expression().is_some() {
        true
    } else if yes.as_r_false_expression().is_some() {
        false
    } else {
        return None;
    };
    let n = if no.as_r_true_expression().is_some() {
        true
    } else if no.as_r_false_expression().is_some() {
        false
    } else {
        return None;
    };
    if y == n {
        return flagged_node(ast.syntax());
    }
    let (text, strength) = if y {
        (cond.to_string(), expression_strength(&cond))
    } else {
        (format!("!({cond})"), binding_strength("!"))
    };
    rewritten(ast.syntax(), parenthesize_in_place_of(ast.syntax(), text, strength))
}

// x[order(x)]: sort(x); the other arguments na.last, decreasing and method are kept, any other is a second key
pub fn rule_sort(ast: &RSubset) -> Option<Found> {
    let items: Vec<_> = ast.arguments().unwrap().items().into_iter().collect();
    if items.len() != 1 {
        return None;
    }
    let arg = items.first().unwrap().clone().unwrap();
    if arg.name_clause().is_some() {
        return None;
    }
    let value = arg.value()?;
    let call = value.as_r_call()?;
    if called(call) != "order" {
        return None;
    }
    let args = call.arguments().unwrap().items();
    let unnamed = get_unnamed_args(&args);
    if unnamed.len() != 1 {
        return None;
    }
    let x = ast.function().unwrap().to_trimmed_string();
    if unnamed.first().unwrap().to_trimmed_string() != x {
        return None;
    }
    let mut others = vec![];
    if let Some(a) = get_arg_by_name(&args, "na.last") {
        others.push(a.to_trimmed_string());
    }
    if let Some(a) = get_arg_by_name(&args, "decreasing") {
        others.push(a.to_trimmed_string());
    }
    if let Some(a) = get_arg_by_name(&args, "method") {
        others.push(a.to_trimmed_string());
    }
    if args.iter().count() > others.len() + 1 {
        return None;
    }
    let others = others.join(", ");
    if others.is_empty() { rewritten(ast.syntax(), format!("sort({x})")) } else { rewritten(ast.syntax(), format!("sort({x}, {others})")) }
}

// apply(x, 1, mean), optionally with na.rm
pub fn rule_matrix_apply(ast: &RCall) -> Option<Found> {
    if called(ast) != "apply" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let na_rm = get_arg_by_name(&args, "na.rm");
    let most = if na_rm.is_some() { 4 } else { 3 };
    if args.iter().count() > most {
        return None;
    }
    let x = get_arg_by_name_then_position(&args, "X", 1)?.value()?.to_trimmed_string();
    let margin = get_arg_by_name_then_position(&args, "MARGIN", 2)?.value()?.to_trimmed_string();
    let f = get_arg_by_name_then_position(&args, "FUN", 3)?.value()?.to_trimmed_string();
    let dim = if margin == "1" || margin == "1L" {
        "row"
    } else if margin == "2" || margin == "2L" {
        "col"
    } else {
        return None;
    };
    let what = if f == "mean" {
        "Means"
    } else if f == "sum" {
        "Sums"
    } else {
        return None;
    };
    match na_rm {
        Some(a) => rewritten(ast.syntax(), format!("{dim}{what}({x}, {})", a.to_trimmed_string())),
        None => rewritten(ast.syntax(), format!("{dim}{what}({x})")),
    }
}

fn literal(value: &AnyRExpression) -> String {
    value.to_trimmed_string()
}

// a pattern without special characters, case sensitive, not yet fixed
pub fn rule_fixed_regex(ast: &RCall) -> Option<Found> {
    let name = called(ast);
    let (ignore, fixed) = if name == "gsub" || name == "sub" {
        (4, 6)
    } else if name == "grep" {
        (3, 6)
    } else if name == "regexpr" || name == "gregexpr" || name == "regexec" || name == "grepl" {
        (3, 5)
    } else {
        return None;
    };
    let args = ast.arguments().unwrap().items();
    let given = get_arg_by_name_then_position(&args, "fixed", fixed);
    let mut drop = false;
    if let Some(a) = given {
        if literal(&a.value()?) != "FALSE" {
            return None;
        }
        drop = true;
    }
    if let Some(a) = get_arg_by_name_then_position(&args, "ignore.case", ignore) {
        if let Some(v) = a.value() {
            if literal(&v) == "TRUE" {
                return None;
            }
        }
    }
    let pattern = get_arg_by_name_then_position(&args, "pattern", 1)?.value()?;
    let text = pattern.as_any_r_value()?.as_r_string_value()?.to_trimmed_string();
    if !is_fixed_pattern(text.trim_matches(|c| c == '"' || c == '\'')) {
        return None;
    }
    let rest = if drop {
        drop_arg_by_name_or_position(&args, "fixed", fixed)?.into_iter().map(|x| x.to_trimmed_string()).collect::<Vec<_>>().join(", ")
    } else {
        args.into_iter().filter_map(|x| x.ok()).map(|x| x.to_trimmed_string()).collect::<Vec<_>>().join(", ")
    };
    rewritten(ast.syntax(), format!("{name}({rest}, fixed = TRUE)"))
}

fn spec_is_fixed_pattern(pattern: &str) -> bool {
    pattern.bytes().all(|b| !b".*+?[{()|^$\\".contains(&b))
}

// expect_true(grepl(p, x)): expect_match(x, p, ...); piped, with further arguments or with unnamed further arguments of grepl(): no replacement
fn matched(ast: &RCall, outer: &str, replacement: &str) -> Option<Found> {
    if called(ast) != outer {
        return None;
    }
    if let Some((_, node)) = get_nested_functions_content(ast, outer, "grepl").unwrap() {
        if node.kind() == RSyntaxKind::R_BINARY_EXPRESSION {
            if let Some(parent) = node.parent() {
                if let Some(unary) = RUnaryExpression::cast(parent) {
                    if unary.operator().unwrap().kind() == RSyntaxKind::BANG {
                        return None;
                    }
                }
            }
            return flagged(node.text_trimmed_range());
        }
    }
    let args = ast.arguments().unwrap().items();
    let object = get_arg_by_name_then_position(&args, "object", 1)?.value()?;
    let call = object.as_r_call()?;
    if called(call) != "grepl" {
        return None;
    }
    let inner = call.arguments().unwrap().items();
    let p = get_arg_by_name_then_position(&inner, "pattern", 1)?;
    let x = get_arg_by_name_then_position(&inner, "x", 2)?;
    let x_text = x.value()?.to_trimmed_string();
    let p_text = p.value()?.to_trimmed_string();
    if args.iter().count() > 1 {
        return flagged_node(ast.syntax());
    }
    let p_range = p.syntax().text_trimmed_range();
    let x_range = x.syntax().text_trimmed_range();
    if get_unnamed_args(&inner).into_iter().any(|a| a.syntax().text_trimmed_range() != p_range && a.syntax().text_trimmed_range() != x_range) {
        return flagged_node(ast.syntax());
    }
    let others: Vec<String> = inner
        .iter()
        .flatten()
        .filter(|a| a.syntax().text_trimmed_range() != p_range && a.syntax().text_trimmed_range() != x_range)
        .map(|a| a.to_trimmed_string())
        .collect();
    let all = [x_text, p_text].into_iter().chain(others).collect::<Vec<_>>().join(", ");
    let prefix = get_function_namespace_prefix(ast.function().unwrap()).unwrap_or_default();
    rewritten(ast.syntax(), format!("{prefix}{replacement}({all})"))
}

pub fn rule_expect_match(ast: &RCall) -> Option<Found> {
    matched(ast, "expect_true", "expect_match")
}

pub fn rule_expect_no_match(ast: &RCall) -> Option<Found> {
    matched(ast, "expect_false", "expect_no_match")
}

// if (TRUE) without else
pub fn rule_if_always_true(ast: &RIfStatement) -> Option<Found> {
    if ast.else_clause().is_some() {
        return None;
    }
    let condition = ast.condition().unwrap();
    if evaluate_constant_condition(&condition).unwrap() == Some(true) { flagged_node(condition.syntax()) } else { None }
}

fn argument_of_is_null(call: &RCall) -> Option<AnyRExpression> {
    if called(call) != "is.null" {
        return None;
    }
    let values = call.arguments().unwrap().items().into_iter().filter_map(Result::ok).filter_map(|x| x.value()).collect::<Vec<AnyRExpression>>();
    if values.len() != 1 {
        return None;
    }
    Some(values.first().unwrap().clone())
}

// if (is.null(x)) y else x, if (!is.null(x)) x else y
pub fn rule_coalesce(ast: &RIfStatement) -> Option<Found> {
    let condition = ast.condition().unwrap();
    let then = ast.consequence().unwrap();
    let other = ast.else_clause()?.alternative().unwrap();
    let (x, same, value) = if let Some(call) = condition.as_r_call() {
        (argument_of_is_null(call)?, extract_single_expression(&other), extract_single_expression(&then))
    } else if let Some(not) = condition.as_r_unary_expression() {
        if not.operator().unwrap().text_trimmed() != "!" {
            return None;
        }
        let inner = not.argument().unwrap();
        (argument_of_is_null(inner.as_r_call()?)?, extract_single_expression(&then), extract_single_expression(&other))
    } else {
        return None;
    };
    if x.to_trimmed_string() != same.to_trimmed_string() {
        return None;
    }
    if has_multiple_expressions(&then) || has_multiple_expressions(&other) {
        return flagged_node(ast.syntax());
    }
    let text = format!("{} %||% {}", operand_of_coalesce(&x), operand_of_coalesce(&value));
    rewritten(ast.syntax(), parenthesize_in_place_of(ast.syntax(), text, binding_strength("%||%")))
}

fn operand_of_coalesce(x: &AnyRExpression) -> String {
    let text = x.to_trimmed_string();
    if expression_strength(x) > binding_strength("%||%") { text } else { format!("({text})") }
}

// class(x) == "k" as the condition of if or while
pub fn rule_class_equals(ast: &RBinaryExpression) -> Option<Found> {
    let op = ast.operator().unwrap();
    let kind = op.kind();
    if kind != RSyntaxKind::EQUAL2 && kind != RSyntaxKind::NOT_EQUAL && op.text_trimmed() != "%in%" {
        return None;
    }
    if !is_in_condition_context(ast.syntax()) {
        return None;
    }
    let (x, class) = extract_class_and_string(ast.left().unwrap(), ast.right().unwrap())?;
    if kind == RSyntaxKind::EQUAL2 || op.text_trimmed() == "%in%" {
        rewritten(ast.syntax(), format!("inherits({x}, {class})"))
    } else {
        rewritten(ast.syntax(), format!("!inherits({x}, {class})"))
    }
}

// identical(class(x), "k")
pub fn rule_class_identical(ast: &RCall) -> Option<Found> {
    if called(ast) != "identical" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let a = get_arg_by_position(&args, 1)?.value()?;
    let b = get_arg_by_position(&args, 2)?.value()?;
    let (x, class) = extract_class_and_string(a, b)?;
    rewritten(ast.syntax(), format!("inherits({x}, {class})"))
}

fn spec_is_in_condition_context(node: &RSyntaxNode) -> bool {
    match node.parent() {
        None => false,
        Some(p) => node.index() == 2 && (p.kind() == RSyntaxKind::R_IF_STATEMENT || p.kind() == RSyntaxKind::R_WHILE_STATEMENT),
    }
}

// 1: class(..), 0: a string, -1: anything else
fn class_or_string(x: &AnyRExpression) -> i32 {
    if let Some(c) = x.as_r_call() {
        return if called(c) == "class" { 1 } else { -1 };
    }
    match x.as_any_r_value() {
        None => -1,
        Some(v) => if v.as_r_string_value().is_some() { 0 } else { -1 },
    }
}

fn spec_extract_class_and_string(left: AnyRExpression, right: AnyRExpression) -> Option<(String, String)> {
    let l = class_or_string(&left);
    let r = class_or_string(&right);
    if l < 0 || r < 0 || l == r {
        return None;
    }
    let (call, name) = if l == 1 { (left, right) } else { (right, left) };
    let args = call.as_r_call()?.arguments().unwrap().items();
    Some((get_arg_by_position(&args, 1)?.to_trimmed_string(), name.to_trimmed_string()))
}

// substr(x, 1, n) == "a": startsWith(x, "a"); substr(x, n, nchar(x)) == "a": endsWith(x, "a")
pub fn rule_string_boundary(ast: &RBinaryExpression) -> Option<Found> {
    let kind = ast.operator().unwrap().kind();
    if kind != RSyntaxKind::EQUAL2 && kind != RSyntaxKind::NOT_EQUAL {
        return None;
    }
    let l = ast.left().unwrap();
    let r = ast.right().unwrap();
    let (call, other) = if let Some(c) = l.as_r_call() { (c, r.clone()) } else if let Some(c) = r.as_r_call() { (c, l.clone()) } else { return None };
    let name = called(call);
    let (a, b, c) = if name == "substr" {
        ("x", "start", "stop")
    } else if name == "substring" {
        ("text", "first", "last")
    } else {
        return None;
    };
    let args = call.arguments().unwrap().items();
    let mut unnamed = get_unnamed_args(&args).into_iter();
    let x = get_arg_by_name(&args, a).or_else(|| unnamed.next());
    let first = get_arg_by_name(&args, b).or_else(|| unnamed.next());
    let last = get_arg_by_name(&args, c).or_else(|| unnamed.next());
    let x = x?.value()?;
    let first = first?.value()?;
    let last = last?.value()?;
    let function = if is_literal_one(&first) {
        "startsWith"
    } else if is_nchar_of_same_expr(&last, &x) {
        "endsWith"
    } else {
        return None;
    };
    let text = format!("{}({}, {})", function, x.to_trimmed_string(), other.to_trimmed_string());
    if kind == RSyntaxKind::EQUAL2 { rewritten(ast.syntax(), text) } else { rewritten(ast.syntax(), format!("!{text}")) }
}

fn spec_is_literal_one(expr: &AnyRExpression) -> bool {
    let Some(v) = expr.as_any_r_value() else { return false };
    if let Some(i) = v.as_r_integer_value() {
        let t = i.value_token().unwrap();
        let t = t.text_trimmed();
        return t == "1" || t == "1L" || t == "1l";
    }
    if let Some(d) = v.as_r_double_value() {
        let t = d.value_token().unwrap();
        let t = t.text_trimmed();
        return t == "1" || t == "1.0" || t == "1.";
    }
    false
}

fn spec_is_nchar_of_same_expr(end_expr: &AnyRExpression, x_expr: &AnyRExpression) -> bool {
    let Some(call) = end_expr.as_r_call() else { return false };
    if called(call) != "nchar" {
        return false;
    }
    let args: Vec<_> = call.arguments().unwrap().items().into_iter().filter_map(|a| a.ok()).collect();
    if args.len() != 1 {
        return false;
    }
    match args[0].value() {
        None => false,
        Some(v) => v.to_trimmed_string() == x_expr.to_trimmed_string(),
    }
}

// sample(1:n, ...): sample.int(n, ...)
pub fn rule_sample_int(ast: &RCall) -> Option<Found> {
    if called(ast) != "sample" {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let value = get_arg_by_name_then_position(&args, "n", 1)?.value()?;
    let range = value.as_r_binary_expression()?;
    if range.operator().unwrap().kind() != RSyntaxKind::COLON {
        return None;
    }
    let from = range.left().unwrap().to_trimmed_string();
    if from != "1" && from != "1L" {
        return None;
    }
    let n = range.right().unwrap().to_trimmed_string();
    let text = match drop_arg_by_name_or_position(&args, "n", 1) {
        None => n,
        Some(rest) => format!("{n}, {}", rest.iter().map(|x| x.to_trimmed_string()).collect::<Vec<_>>().join(", ")),
    };
    rewritten(ast.syntax(), format!("sample.int({text})"))
}

// for (x in f(x)): the range from the variable to the end of the sequence
pub fn rule_for_loop_index(ast: &RForStatement) -> Option<Found> {
    let name = ast.variable().unwrap().to_trimmed_text();
    if contains_identifier(&ast.sequence().unwrap(), &name).unwrap() {
        flagged(TextRange::new(ast.variable().unwrap().range().start(), ast.sequence().unwrap().range().end()))
    } else {
        None
    }
}
