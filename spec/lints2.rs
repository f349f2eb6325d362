// What each rule reports on well-formed code, continued.

// any(!x), all(!x)
pub fn rule_outer_negation(ast: &RCall) -> Option<Found> {
    let name = ast.function().unwrap().to_trimmed_string();
    let opposite = if name == "any" {
        "all"
    } else if name == "all" {
        "any"
    } else {
        return None;
    };
    if ast.parent_is_bang_unary() {
        return None;
    }
    let args = ast.arguments().unwrap().items();
    let only = get_arg_by_position(&args, 1)?;
    if get_arg_by_position(&args, 2).is_some() {
        return None;
    }
    let value = only.value()?;
    let negation = value.as_r_unary_expression()?;
    if negation.operator().unwrap().kind() != RSyntaxKind::BANG {
        return None;
    }
    let inner = negation.argument().unwrap();
    if inner.syntax().kind() == RSyntaxKind::R_UNARY_EXPRESSION {
        return None;
    }
    let text = format!("!{}({})", opposite, inner.to_trimmed_string());
    rewritten(ast.syntax(), parenthesize_in_place_of(ast.syntax(), text, binding_strength("!")))
}

// x == TRUE, x != FALSE: x; x == FALSE, x != TRUE: !x
pub fn rule_redundant_equals(ast: &RBinaryExpression) -> Option<Found> {
    let kind = ast.operator().unwrap().kind();
    let equal = kind == RSyntaxKind::EQUAL2;
    if !equal && kind != RSyntaxKind::NOT_EQUAL {
        return None;
    }
    let l = ast.left().unwrap();
    let r = ast.right().unwrap();
    let (truth, other) = if l.as_r_true_expression().is_some() {
        (true, r)
    } else if r.as_r_true_expression().is_some() {
        (true, l)
    } else if l.as_r_false_expression().is_some() {
        (false, r)
    } else if r.as_r_false_expression().is_some() {
        (false, l)
    } else {
        return None;
    };
    let text = other.to_trimmed_string();
    if truth == equal {
        rewritten(ast.syntax(), text)
    } else {
        rewritten(ast.syntax(), format!("!{}", text))
    }
}

// 1:length(x): seq_along(x); 1:nrow(x): seq_len(nrow(x))
pub fn rule_seq(ast: &RBinaryExpression) -> Option<Found> {
    if ast.operator().unwrap().kind() != RSyntaxKind::COLON {
        return None;
    }
    let right = ast.right().unwrap();
    let one = ast.left().unwrap().to_trimmed_string();
    let call = right.as_r_call()?;
    if one != "1" && one != "1L" {
        return None;
    }
    let name = called(call);
    let text = call.arguments().unwrap().items().into_iter().map(|x| x.unwrap().to_trimmed_string()).collect::<Vec<String>>().join(", ");
    if name == "length" {
        return rewritten(ast.syntax(), format!("seq_along({})", text));
    }
    if name == "nrow" || name == "ncol" || name == "NROW" || name == "NCOL" {
        return rewritten(ast.syntax(), format!("seq_len({}({}))", name, text));
    }
    None
}

// seq(length(x)): seq_along(x); seq(nrow(x)): seq_len(nrow(x))
pub fn rule_seq2(ast: &RCall) -> Option<Found> {
    if called(ast) != "seq" {
        return None;
    }
    let items = ast.arguments().unwrap().items();
    if items.iter().collect::<Vec<_>>().len() != 1 {
        return None;
    }
    let arg = items.into_iter().find(|x| x.clone().unwrap().name_clause().is_none())?;
    let value = arg.unwrap().value()?;
    let call = value.as_r_call()?;
    let name = called(call);
    let text = call.arguments().unwrap().items().into_syntax().to_string();
    if name == "length" {
        return rewritten(ast.syntax(), format!("seq_along({})", text));
    }
    if name == "nrow" || name == "ncol" || name == "NROW" || name == "NCOL" {
        return rewritten(ast.syntax(), format!("seq_len({}({}))", name, text));
    }
    None
}

// -1: not a comparison, 0: ==, 1: !=, 2: %in%
fn comparison(ast: &RBinaryExpression) -> i32 {
    let op = ast.operator().unwrap();
    let kind = op.kind();
    if kind == RSyntaxKind::EQUAL2 {
        return 0;
    }
    if kind == RSyntaxKind::NOT_EQUAL {
        return 1;
    }
    if kind == RSyntaxKind::SPECIAL && op.text_trimmed() == "%in%" {
        return 2;
    }
    -1
}

fn with_predicate(ast: &RBinaryExpression, predicate: &str, x: String) -> Option<Found> {
    if ast.operator().unwrap().kind() == RSyntaxKind::NOT_EQUAL {
        rewritten(ast.syntax(), format!("!{predicate}({x})"))
    } else {
        rewritten(ast.syntax(), format!("{predicate}({x})"))
    }
}

// x == NULL, x != NULL, x %in% NULL, in any order
pub fn rule_equals_null(ast: &RBinaryExpression) -> Option<Found> {
    let op = comparison(ast);
    let l = ast.left().unwrap();
    let r = ast.right().unwrap();
    let a = l.as_r_null_expression().is_some();
    let b = r.as_r_null_expression().is_some();
    if op < 0 || a == b {
        return None;
    }
    let x = if a { r.to_trimmed_string() } else { l.to_trimmed_string() };
    with_predicate(ast, "is.null", x)
}

// x == NaN, x != NaN, x %in% NaN, but not NaN %in% x
pub fn rule_equals_nan(ast: &RBinaryExpression) -> Option<Found> {
    let op = comparison(ast);
    let l = ast.left().unwrap();
    let r = ast.right().unwrap();
    let a = l.as_r_nan_expression().is_some();
    let b = r.as_r_nan_expression().is_some();
    if op < 0 || a == b || op == 2 && a {
        return None;
    }
    let x = if a { r.to_trimmed_string() } else { l.to_trimmed_string() };
    with_predicate(ast, "is.nan", x)
}

fn is_na(x: &str) -> bool {
    x == "NA" || x == "NA_character_" || x == "NA_integer_" || x == "NA_real_" || x == "NA_logical_" || x == "NA_complex_"
}

// x == NA, x != NA, x %in% NA, but not NA %in% x
pub fn rule_equals_na(ast: &RBinaryExpression) -> Option<Found> {
    let op = comparison(ast);
    let l = ast.left().unwrap().to_trimmed_string();
    let r = ast.right().unwrap().to_trimmed_string();
    let a = is_na(l.trim());
    let b = is_na(r.trim());
    if op < 0 || a == b || op == 2 && a {
        return None;
    }
    let x = if a { r.trim().to_string() } else { l.trim().to_string() };
    with_predicate(ast, "is.na", x)
}

fn is_expect_equal(ast: &RCall) -> bool {
    let name = called(ast);
    name == "expect_equal" || name == "expect_identical"
}

fn object(ast: &RCall) -> Option<AnyRExpression> {
    get_arg_by_name_then_position(&ast.arguments().unwrap().items(), "object", 1)?.value()
}

fn expected(ast: &RCall) -> Option<AnyRExpression> {
    get_arg_by_name_then_position(&ast.arguments().unwrap().items(), "expected", 2)?.value()
}

fn count(ast: &RCall) -> usize {
    ast.arguments().unwrap().items().iter().count()
}

fn is_call_of(x: &AnyRExpression, name: &str) -> bool {
    match x.as_r_call() {
        None => false,
        Some(c) => called(c) == name,
    }
}

fn argument_x(call: &RCall) -> Option<String> {
    Some(get_arg_by_name_then_position(&call.arguments().unwrap().items(), "x", 1)?.value()?.to_trimmed_string())
}

// the name of the expectation and its arguments are replaced; more than `most` arguments would get lost
fn expectation(ast: &RCall, text: String, most: usize) -> Option<Found> {
    let r = ast.syntax().text_trimmed_range();
    let prefix = get_function_namespace_prefix(ast.function().unwrap()).unwrap_or_default();
    Some((r, Some((r.start().into(), r.end().into(), format!("{prefix}{text}"), count(ast) > most || node_contains_comments(ast.syntax())))))
}

// expect_equal(names(x), n), but not expect_equal(names(x), names(y))
pub fn rule_expect_named(ast: &RCall) -> Option<Found> {
    if !is_expect_equal(ast) {
        return None;
    }
    let o = object(ast)?;
    let e = expected(ast)?;
    if !is_call_of(&o, "names") || is_call_of(&e, "names") {
        return None;
    }
    let x = argument_x(o.as_r_call()?)?;
    expectation(ast, format!("expect_named({}, {})", x, e.to_trimmed_string()), 2)
}

// expect_equal(x, TRUE) in any order
pub fn rule_expect_true_false(ast: &RCall) -> Option<Found> {
    if !is_expect_equal(ast) {
        return None;
    }
    let o = object(ast)?.to_trimmed_string();
    let e = expected(ast)?.to_trimmed_string();
    if o == "TRUE" {
        return expectation(ast, format!("expect_true({e})"), 2);
    }
    if o == "FALSE" {
        return expectation(ast, format!("expect_false({e})"), 2);
    }
    if e == "TRUE" {
        return expectation(ast, format!("expect_true({o})"), 2);
    }
    if e == "FALSE" {
        return expectation(ast, format!("expect_false({o})"), 2);
    }
    None
}

// expect_true(!x), but not !!x; the parentheses of !(x) go away
pub fn rule_expect_not(ast: &RCall) -> Option<Found> {
    let name = called(ast);
    let opposite = if name == "expect_true" {
        "expect_false"
    } else if name == "expect_false" {
        "expect_true"
    } else {
        return None;
    };
    let o = object(ast)?;
    if count(ast) > 1 {
        return None;
    }
    let not = o.as_r_unary_expression()?;
    if not.operator().unwrap().kind() != RSyntaxKind::BANG {
        return None;
    }
    let x = not.argument().unwrap();
    if let Some(inner) = x.as_r_unary_expression() {
        if inner.operator().unwrap().kind() == RSyntaxKind::BANG {
            return None;
        }
    }
    let text = match x.as_r_parenthesized_expression() {
        Some(p) => p.body().unwrap().to_trimmed_string(),
        None => x.to_trimmed_string(),
    };
    let r = ast.syntax().text_trimmed_range();
    let prefix = get_function_namespace_prefix(ast.function().unwrap()).unwrap_or_default();
    Some((r, Some((r.start().into(), r.end().into(), format!("{prefix}{opposite}({text})"), node_contains_comments(ast.syntax())))))
}

// expect_equal(x, NULL) in any order, expect_true(is.null(x))
pub fn rule_expect_null(ast: &RCall) -> Option<Found> {
    if is_expect_equal(ast) {
        let o = object(ast)?;
        let e = expected(ast)?;
        let other = if e.syntax().kind() == RSyntaxKind::R_NULL_EXPRESSION {
            o.to_trimmed_string()
        } else if o.syntax().kind() == RSyntaxKind::R_NULL_EXPRESSION {
            e.to_trimmed_string()
        } else {
            return None;
        };
        return expectation(ast, format!("expect_null({other})"), 2);
    }
    if called(ast) != "expect_true" {
        return None;
    }
    let o = object(ast)?;
    if !is_call_of(&o, "is.null") {
        return None;
    }
    let x = argument_x(o.as_r_call()?)?;
    expectation(ast, format!("expect_null({x})"), 1)
}

// expect_equal(length(x), n) in any order, but not with two lengths or other arguments
pub fn rule_expect_length(ast: &RCall) -> Option<Found> {
    if !is_expect_equal(ast) || count(ast) > 2 {
        return None;
    }
    let o = object(ast)?;
    let e = expected(ast)?;
    let a = is_call_of(&o, "length");
    let b = is_call_of(&e, "length");
    if a == b {
        return None;
    }
    let r = ast.syntax().text_trimmed_range();
    let prefix = get_function_namespace_prefix(ast.function().unwrap()).unwrap_or_default();
    let (call, n) = if a { (o, e) } else { (e, o) };
    let x = argument_x(call.as_r_call()?)?;
    Some((r, Some((r.start().into(), r.end().into(), format!("{prefix}expect_length({}, {})", x, n.to_trimmed_string()), node_contains_comments(ast.syntax())))))
}

fn not_s3(name: &str) -> bool {
    [
        "NULL", "symbol", "pairlist", "closure", "environment", "promise", "language", "special", "builtin", "char", "logical", "integer", "double",
        "complex", "character", "...", "any", "expression", "list", "externalptr", "bytecode", "weakref", "raw", "S4", "object", "numeric", "name",
        "list", "matrix", "array", "function",
    ]
    .contains(&name)
}

// expect_equal(class(x), "k") in any order unless k is a base type
pub fn rule_expect_s3_class(ast: &RCall) -> Option<Found> {
    if !is_expect_equal(ast) || count(ast) > 2 {
        return None;
    }
    let o = object(ast)?;
    let e = expected(ast)?;
    let (call, class) = if is_call_of(&o, "class") {
        (o, e)
    } else if o.as_r_call().is_none() && is_call_of(&e, "class") {
        (e, o)
    } else {
        return None;
    };
    let name = class.as_any_r_value()?.as_r_string_value()?.to_trimmed_string().replace("\"", "").replace("'", "");
    if not_s3(&name) {
        return None;
    }
    let r = ast.syntax().text_trimmed_range();
    let prefix = get_function_namespace_prefix(ast.function().unwrap()).unwrap_or_default();
    let x = argument_x(call.as_r_call()?)?;
    Some((r, Some((r.start().into(), r.end().into(), format!("{prefix}expect_s3_class({}, {})", x, class.to_trimmed_string()), node_contains_comments(ast.syntax())))))
}

fn type_tested(name: &str) -> Option<&str> {
    Some(match name {
        "is.logical" => "logical",
        "is.integer" => "integer",
        "is.double" => "double",
        "is.complex" => "complex",
        "is.character" => "character",
        "is.raw" => "raw",
        "is.list" => "list",
        "is.null" => "NULL",
        "is.symbol" => "symbol",
        "is.expression" => "expression",
        "is.language" => "language",
        "is.environment" => "environment",
        "is.pairlist" => "pairlist",
        _ => return None,
    })
}

// expect_equal(typeof(x), t) in any order, expect_true(is.<t>(x))
pub fn rule_expect_type(ast: &RCall) -> Option<Found> {
    let r = ast.syntax().text_trimmed_range();
    let prefix = get_function_namespace_prefix(ast.function().unwrap()).unwrap_or_default();
    if is_expect_equal(ast) {
        if count(ast) > 2 {
            return None;
        }
        let o = object(ast)?;
        let e = expected(ast)?;
        let (call, t) = if is_call_of(&o, "typeof") {
            (o, e)
        } else if is_call_of(&e, "typeof") {
            (e, o)
        } else {
            return None;
        };
        let x = argument_x(call.as_r_call()?)?;
        return Some((r, Some((r.start().into(), r.end().into(), format!("{prefix}expect_type({}, {})", x, t.to_trimmed_string()), node_contains_comments(ast.syntax())))));
    }
    if called(ast) != "expect_true" || count(ast) > 1 {
        return None;
    }
    let o = object(ast)?;
    let call = o.as_r_call()?;
    let name = called(call);
    let t = type_tested(&name)?;
    let x = argument_x(call)?;
    Some((r, Some((r.start().into(), r.end().into(), format!("{prefix}expect_type({}, \"{}\")", x, t), node_contains_comments(ast.syntax())))))
}
