// How tightly R's operators bind (?Syntax), and when a replacement needs parentheses.

fn spec_binding_strength(operator: &str) -> u8 {
    if operator == "?" {
        return 1;
    }
    if operator == "=" {
        return 2;
    }
    if operator == "<-" || operator == "<<-" || operator == ":=" {
        return 3;
    }
    if operator == "->" || operator == "->>" {
        return 4;
    }
    if operator == "~" {
        return 5;
    }
    if operator == "|" || operator == "||" {
        return 6;
    }
    if operator == "&" || operator == "&&" {
        return 7;
    }
    if operator == "!" {
        return 8;
    }
    if operator == "==" || operator == "!=" || operator == "<" || operator == "<=" || operator == ">" || operator == ">=" {
        return 9;
    }
    if operator == "+" || operator == "-" {
        return 10;
    }
    if operator == "*" || operator == "/" {
        return 11;
    }
    if operator == ":" {
        return 13;
    }
    if operator == "^" || operator == "**" {
        return 15;
    }
    12
}

fn spec_unary_binding_strength(operator: &str) -> u8 {
    if operator == "-" || operator == "+" { 14 } else { binding_strength(operator) }
}

fn spec_expression_strength(expr: &AnyRExpression) -> u8 {
    if let Some(b) = expr.as_r_binary_expression() {
        return binding_strength(b.operator().unwrap().text_trimmed()).min(expression_strength(&b.right().unwrap()));
    }
    if let Some(u) = expr.as_r_unary_expression() {
        return unary_binding_strength(u.operator().unwrap().text_trimmed()).min(expression_strength(&u.argument().unwrap()));
    }
    match expr {
        AnyRExpression::RIfStatement(_) => 0,
        AnyRExpression::RForStatement(_) => 0,
        AnyRExpression::RWhileStatement(_) => 0,
        AnyRExpression::RRepeatStatement(_) => 0,
        AnyRExpression::RFunctionDefinition(_) => 0,
        _ => u8::MAX,
    }
}

fn spec_parenthesize_in_place_of(node: &RSyntaxNode, code: String, strength: u8) -> String {
    match node.parent() {
        None => code,
        Some(p) => {
            let kind = p.kind();
            let wrap = if let Some(b) = RBinaryExpression::cast_ref(&p) {
                binding_strength(b.operator().unwrap().text_trimmed()) >= strength
            } else if let Some(u) = RUnaryExpression::cast_ref(&p) {
                unary_binding_strength(u.operator().unwrap().text_trimmed()) > strength
            } else if kind == RSyntaxKind::R_CALL || kind == RSyntaxKind::R_SUBSET || kind == RSyntaxKind::R_SUBSET2 || kind == RSyntaxKind::R_EXTRACT_EXPRESSION {
                strength < u8::MAX
            } else {
                false
            };
            if wrap { format!("({code})") } else { code }
        }
    }
}
