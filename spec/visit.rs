// C24: every kind of expression that has parts: its rules, then each of its parts, once
fn spec_visit(expression: &air_r_syntax::AnyRExpression, checker: &mut Checker) -> anyhow::Result<()> {
    match expression {
        AnyRExpression::AnyRValue(x) => anyvalue(x, checker)?,
        AnyRExpression::RBinaryExpression(x) => {
            binary_expression(x, checker)?;
            check_expression(&x.left()?, checker)?;
            check_expression(&x.right()?, checker)?;
        }
        AnyRExpression::RBracedExpressions(x) => {
            for part in x.expressions() {
                check_expression(&part, checker)?;
            }
        }
        AnyRExpression::RCall(x) => {
            call(x, checker)?;
            check_expression(&x.function()?, checker)?;
            for arg in x.arguments()?.items() {
                if let Some(value) = arg?.value() {
                    check_expression(&value, checker)?;
                }
            }
        }
        AnyRExpression::RExtractExpression(x) => check_expression(&x.left()?, checker)?,
        AnyRExpression::RForStatement(x) => {
            for_loop(x, checker)?;
            identifier(&x.variable()?, checker)?;
            check_expression(&x.sequence()?, checker)?;
            check_expression(&x.body()?, checker)?;
        }
        AnyRExpression::RFunctionDefinition(x) => {
            function_definition(x, checker)?;
            for param in x.parameters()?.items() {
                if let Some(default) = param?.default() {
                    check_expression(&default.value()?, checker)?;
                }
            }
            check_expression(&x.body()?, checker)?;
        }
        AnyRExpression::RIdentifier(x) => identifier(x, checker)?,
        AnyRExpression::RIfStatement(x) => {
            if_(x, checker)?;
            check_expression(&x.condition()?, checker)?;
            check_expression(&x.consequence()?, checker)?;
            if let Some(else_clause) = x.else_clause() {
                check_expression(&else_clause.alternative()?, checker)?;
            }
        }
        AnyRExpression::RNamespaceExpression(x) => namespace_expression(x, checker)?,
        AnyRExpression::RParenthesizedExpression(x) => check_expression(&x.body()?, checker)?,
        AnyRExpression::RRepeatStatement(x) => check_expression(&x.body()?, checker)?,
        AnyRExpression::RSubset(x) => {
            subset(x, checker)?;
            check_expression(&x.function()?, checker)?;
            for arg in x.arguments()?.items() {
                if let Some(value) = arg?.value() {
                    check_expression(&value, checker)?;
                }
            }
        }
        AnyRExpression::RSubset2(x) => {
            check_expression(&x.function()?, checker)?;
            for arg in x.arguments()?.items() {
                if let Some(value) = arg?.value() {
                    check_expression(&value, checker)?;
                }
            }
        }
        AnyRExpression::RUnaryExpression(x) => {
            unary_expression(x, checker)?;
            check_expression(&x.argument()?, checker)?;
        }
        AnyRExpression::RWhileStatement(x) => {
            while_(x, checker)?;
            check_expression(&x.condition()?, checker)?;
            check_expression(&x.body()?, checker)?;
        }
        _ => {}
    }
    Ok(())
}
