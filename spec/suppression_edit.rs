// C25: an inserted suppression comment is valid and changes nothing but comments
fn spec_format_suppression_comments(rule_names: &[&str], explanation: &str, indent: &str, needs_leading_newline: bool) -> String {
    // one comment of the grammar per rule, each on a line of its own
    let comments: String = rule_names.iter().map(|r| format!("{indent}# jarl-ignore {r}: {explanation}\n")).collect();
    if needs_leading_newline {
        // breaks the line before the construct, which keeps its column
        format!("\n{comments}{indent}")
    } else {
        comments
    }
}

/// only blanks between the start of the line and the offset
fn spec_is_on_own_line(source: &str, offset: usize) -> bool {
    if offset == 0 {
        return true;
    }
    let start = match source[..offset].rfind('\n') {
        Some(p) => p + 1,
        None => 0,
    };
    source[start..offset].chars().all(|c| c.is_whitespace())
}

fn spec_inline_indent(source: &str, offset: usize) -> String {
    let start = match source[..offset].rfind('\n') {
        Some(p) => p + 1,
        None => 0,
    };
    " ".repeat(offset - start)
}

fn spec_lines_before(source: &str, offset: usize) -> usize {
    source[..offset].matches('\n').count()
}

fn spec_line_start_and_indent(source: &str, offset: usize) -> (usize, String) {
    let start = match source[..offset].rfind('\n') {
        Some(p) => p + 1,
        None => 0,
    };
    (start, source[start..].chars().take_while(|c| c.is_whitespace() && *c != '\n').collect())
}

/// above the line of the offset
fn spec_above(source: &str, offset: usize) -> SuppressionInsertPoint {
    let (at, indent) = spec_line_start_and_indent(source, offset);
    SuppressionInsertPoint { offset: at, indent, line: spec_lines_before(source, at), needs_leading_newline: false }
}

fn spec_simple_insert_point(source: &str, offset: usize) -> Option<SuppressionInsertPoint> {
    Some(spec_above(source, offset))
}

/// directly before a construct that shares its line with other code
fn spec_inline(source: &str, offset: usize) -> SuppressionInsertPoint {
    SuppressionInsertPoint { offset, indent: spec_inline_indent(source, offset), line: spec_lines_before(source, offset), needs_leading_newline: true }
}

fn spec_before_node(source: &str, node: &SyntaxNode<air_r_syntax::RLanguage>) -> SuppressionInsertPoint {
    let at: usize = node.text_trimmed_range().start().into();
    if spec_is_on_own_line(source, at) { spec_above(source, at) } else { spec_inline(source, at) }
}

fn spec_can_carry_comment(node: &SyntaxNode<air_r_syntax::RLanguage>) -> bool {
    match node.kind() {
        RSyntaxKind::R_BINARY_EXPRESSION | RSyntaxKind::R_CALL | RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_FOR_STATEMENT => true,
        RSyntaxKind::R_WHILE_STATEMENT | RSyntaxKind::R_REPEAT_STATEMENT | RSyntaxKind::R_FUNCTION_DEFINITION => true,
        RSyntaxKind::R_UNARY_EXPRESSION | RSyntaxKind::R_SUBSET | RSyntaxKind::R_SUBSET2 | RSyntaxKind::R_PARAMETER => true,
        _ => false,
    }
}

fn spec_is_control_flow(node: &SyntaxNode<air_r_syntax::RLanguage>) -> bool {
    match node.kind() {
        RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_FOR_STATEMENT | RSyntaxKind::R_WHILE_STATEMENT | RSyntaxKind::R_REPEAT_STATEMENT => true,
        RSyntaxKind::R_FUNCTION_DEFINITION => true,
        _ => false,
    }
}

fn spec_compute_suppression_insert_point(source: &str, diagnostic_start: usize, diagnostic_end: usize) -> Option<SuppressionInsertPoint> {
    if diagnostic_end < diagnostic_start || !source.is_char_boundary(diagnostic_start) || !source.is_char_boundary(diagnostic_end) {
        return None;
    }
    let parsed = air_r_parser::parse(source, RParserOptions::default());
    if parsed.has_error() {
        return compute_simple_insert_point(source, diagnostic_start);
    }
    let range = TextRange::new(TextSize::from(diagnostic_start as u32), TextSize::from(diagnostic_end as u32));
    let mut node = match parsed.tree().syntax().covering_element(range) {
        biome_rowan::NodeOrToken::Node(n) => n,
        biome_rowan::NodeOrToken::Token(t) => match t.parent() {
            Some(p) => p,
            None => return None,
        },
    };
    let mut largest: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
    let mut first: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
    loop {
        if is_meaningful_expression(&node) {
            let at: usize = node.text_trimmed_range().start().into();
            if is_control_flow_statement(&node) {
                // never hoisted out of a branch
                match largest {
                    Some(n) => return Some(spec_point_before(source, &n)),
                    None => {
                        if is_on_own_line(source, at) {
                            return Some(spec_point_above(source, at));
                        }
                    }
                }
            } else {
                if first.is_none() && is_on_own_line(source, at) {
                    first = Some(node.clone());
                }
                largest = Some(node.clone());
            }
        }
        match node.parent() {
            Some(p) => node = p,
            None => break,
        }
    }
    match first {
        Some(n) => {
            let at: usize = n.text_trimmed_range().start().into();
            Some(spec_point_above(source, at))
        }
        None => match largest {
            Some(n) => {
                let at: usize = n.text_trimmed_range().start().into();
                Some(spec_point_inline(source, at))
            }
            None => compute_simple_insert_point(source, diagnostic_start),
        },
    }
}

fn spec_point_before(source: &str, n: &SyntaxNode<air_r_syntax::RLanguage>) -> SuppressionInsertPoint {
    let at: usize = n.text_trimmed_range().start().into();
    if is_on_own_line(source, at) { spec_point_above(source, at) } else { spec_point_inline(source, at) }
}

fn spec_point_above(source: &str, offset: usize) -> SuppressionInsertPoint {
    let (at, indent) = find_line_start_and_indent(source, offset);
    SuppressionInsertPoint { offset: at, indent, line: spec_lines_before(source, at), needs_leading_newline: false }
}

fn spec_point_inline(source: &str, offset: usize) -> SuppressionInsertPoint {
    SuppressionInsertPoint { offset, indent: compute_inline_indent(source, offset), line: spec_lines_before(source, offset), needs_leading_newline: true }
}

fn spec_parse_existing_suppression(line: &str) -> Option<(String, Option<Vec<String>>)> {
    let rest = match line.trim().strip_prefix("# jarl-ignore") {
        Some(r) => r.trim_start(),
        None => return None,
    };
    let indent: String = line.chars().take_while(|c| c.is_whitespace()).collect();
    if rest.is_empty() {
        return Some((indent, None));
    }
    match rest.find(':') {
        Some(p) => {
            let names: Vec<String> = rest[..p].split(',').map(|n| n.trim().to_string()).filter(|n| !n.is_empty()).collect();
            if names.is_empty() { None } else { Some((indent, Some(names))) }
        }
        None => None,
    }
}

fn spec_create_suppression_edit(source: &str, diagnostic_start: usize, diagnostic_end: usize, rule_name: &str, explanation: &str) -> Option<SuppressionEdit> {
    match compute_suppression_insert_point(source, diagnostic_start, diagnostic_end) {
        Some(p) => {
            let text = format_suppression_comments(&[rule_name], explanation, &p.indent, p.needs_leading_newline);
            Some(SuppressionEdit { insert_point: p, comment_text: text })
        }
        None => None,
    }
}

fn spec_create_suppression_edit_in_rmd(file_content: &str, diagnostic_start: usize, diagnostic_end: usize, rule_name: &str, explanation: &str) -> Option<SuppressionEdit> {
    for chunk in crate::rmd::extract_r_chunks(file_content).iter() {
        // the chunk that contains the diagnostic
        if chunk.start_byte <= diagnostic_start && diagnostic_start <= chunk.start_byte + chunk.code.len() {
            let at = diagnostic_start - chunk.start_byte;
            let end = diagnostic_end.saturating_sub(chunk.start_byte);
            let p = match compute_suppression_insert_point(&chunk.code, at, end) {
                Some(p) => p,
                None => return None,
            };
            let text = format_suppression_comments(&[rule_name], explanation, &p.indent, p.needs_leading_newline);
            // in the coordinates of the document
            let q = SuppressionInsertPoint {
                offset: p.offset + chunk.start_byte,
                line: p.line + spec_lines_before(file_content, chunk.start_byte),
                indent: p.indent,
                needs_leading_newline: p.needs_leading_newline,
            };
            return Some(SuppressionEdit { insert_point: q, comment_text: text });
        }
    }
    None
}

fn spec_add_jarl_ignore_comments(all_diagnostics: &[(String, Vec<Diagnostic>)], reason: &str, parent_config_path: Option<PathBuf>) -> Result<ExitStatus> {
    // a reason the grammar would not accept
    if reason.contains(['\n', '\r']) || reason.trim().is_empty() {
        return Err(anyhow::anyhow!("no"));
    }
    if all_diagnostics.is_empty() {
        return Ok(ExitStatus::Success);
    }
    let mut by_file: BTreeMap<&str, Vec<&Diagnostic>> = BTreeMap::new();
    for (path, diagnostics) in all_diagnostics {
        by_file.entry(path).or_default().extend(diagnostics.iter());
    }
    let mut failed = false;
    for (path, diagnostics) in by_file {
        let path = PathBuf::from(path);
        let content = match std::fs::read_to_string(&path) {
            Ok(c) => c,
            Err(_) => {
                failed = true;
                continue;
            }
        };
        let is_rmd = has_rmd_extension(&path);
        let mut points: Vec<(usize, String, bool, String)> = Vec::new();
        for d in &diagnostics {
            let start: usize = d.range.start().into();
            let end: usize = d.range.end().into();
            let edit = if is_rmd {
                create_suppression_edit_in_rmd(&content, start, end, &d.message.name, reason)
            } else {
                create_suppression_edit(&content, start, end, &d.message.name, reason)
            };
            match edit {
                Some(e) => points.push((e.insert_point.offset, e.insert_point.indent, e.insert_point.needs_leading_newline, d.message.name.clone())),
                None => {}
            }
        }
        if points.is_empty() {
            continue;
        }
        points.sort_by_key(|p| p.0);
        // one group of rules per insertion point
        let mut merged: Vec<(usize, String, bool, Vec<String>)> = Vec::new();
        for (offset, indent, newline, rule) in points {
            if let Some(last) = merged.last_mut() {
                if last.0 == offset {
                    if !last.3.contains(&rule) {
                        last.3.push(rule);
                    }
                    continue;
                }
            }
            merged.push((offset, indent, newline, vec![rule]));
        }
        // from the end of the file to its start, so that offsets stay valid
        merged.sort_by(|a, b| b.0.cmp(&a.0));
        let mut text = content.clone();
        for (offset, indent, newline, rules) in &merged {
            let names: Vec<&str> = rules.iter().map(|s| s.as_str()).collect();
            text.insert_str(*offset, &format_suppression_comments(&names, reason, indent, *newline));
        }
        match std::fs::write(&path, &text) {
            Ok(()) => {}
            Err(_) => failed = true,
        }
    }
    if failed { Ok(ExitStatus::Error) } else { Ok(ExitStatus::Success) }
}
