// C05: reporting of suppression comments
fn spec_blanket_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("blanket_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_invalid_chunk_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("invalid_chunk_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_misnamed_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("misnamed_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_misplaced_file_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("misplaced_file_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_misplaced_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("misplaced_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_outdated_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("outdated_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_unexplained_suppression(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("unexplained_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}

fn spec_unmatched(ranges: &[TextRange]) -> Vec<Diagnostic> {
    ranges.iter().map(|r| Diagnostic::new(ViolationData::new("unmatched_range_suppression".to_string(), "".to_string(), None), *r, Fix::empty())).collect()
}


/// each kind of broken comment is reported by its own rule when that rule is enabled, package-level findings
/// are subject to suppression too, and what is unused is known only after the filter has run
fn spec_document(
    expressions: &RExpressionList,
    checker: &mut Checker,
    duplicate_assignments: &[(String, biome_rowan::TextRange, String)],
    unused_functions: &[(String, biome_rowan::TextRange, String)],
) -> anyhow::Result<()> {
    let nodes: Vec<RSyntaxNode> = expressions.iter().map(|e| e.syntax().clone()).collect();
    if checker.rule_set.contains(&Rule::UnreachableCode) {
        let found = unreachable_code_top_level(&nodes, checker)?;
        checker.diagnostics.extend(found);
    }
    if checker.rule_set.contains(&Rule::BlanketSuppression) {
        checker.diagnostics.extend(blanket_suppression(&checker.suppression.blanket_suppressions));
    }
    if checker.rule_set.contains(&Rule::InvalidChunkSuppression) {
        checker.diagnostics.extend(invalid_chunk_suppression(&checker.suppression.invalid_chunk_suppressions));
    }
    if checker.rule_set.contains(&Rule::UnexplainedSuppression) {
        checker.diagnostics.extend(unexplained_suppression(&checker.suppression.unexplained_suppressions));
    }
    if checker.rule_set.contains(&Rule::MisplacedFileSuppression) {
        checker.diagnostics.extend(misplaced_file_suppression(&checker.suppression.misplaced_file_suppressions));
    }
    if checker.rule_set.contains(&Rule::MisplacedSuppression) {
        checker.diagnostics.extend(misplaced_suppression(&checker.suppression.misplaced_suppressions));
    }
    if checker.rule_set.contains(&Rule::MisnamedSuppression) {
        checker.diagnostics.extend(misnamed_suppression(&checker.suppression.misnamed_suppressions));
    }
    if checker.rule_set.contains(&Rule::UnmatchedRangeSuppression) {
        checker.diagnostics.extend(unmatched_range_suppression_start(&checker.suppression.unmatched_start_suppressions));
        checker.diagnostics.extend(unmatched_range_suppression_end(&checker.suppression.unmatched_end_suppressions));
    }
    if checker.rule_set.contains(&Rule::DuplicatedFunctionDefinition) {
        for (name, range, help) in duplicate_assignments {
            checker.diagnostics.push(Diagnostic::new(ViolationData::new("duplicated_function_definition".to_string(), "".to_string(), None), *range, Fix::empty()));
        }
    }
    if checker.rule_set.contains(&Rule::UnusedFunction) {
        for (name, range, help) in unused_functions {
            checker.diagnostics.push(Diagnostic::new(ViolationData::new("unused_function".to_string(), "".to_string(), None), *range, Fix::empty()));
        }
    }
    checker.diagnostics = checker.suppression.filter_diagnostics(std::mem::take(&mut checker.diagnostics));
    if checker.rule_set.contains(&Rule::OutdatedSuppression) {
        checker.diagnostics.extend(outdated_suppression(&checker.suppression.get_unused_suppressions()));
    }
    Ok(())
}
