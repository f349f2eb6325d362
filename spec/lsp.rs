// Reference for the bridge between the linter and the editor.  Analysed, never compiled or run.
impl Server {
    fn spec_generate_code_actions(snapshot: &DocumentSnapshot, params: &types::CodeActionParams) -> LspResult<Vec<types::CodeActionOrCommand>> {
        let mut actions = Vec::new();
        for d in lint_document(snapshot)?.diagnostics {
            if d.range.start <= params.range.end && params.range.start <= d.range.end {
                if let Some(a) = Self::diagnostic_to_code_action(&d, snapshot) {
                    actions.push(types::CodeActionOrCommand::CodeAction(a));
                }
                if let Some(a) = Self::diagnostic_to_jarl_ignore_rule_action(&d, snapshot) {
                    actions.push(types::CodeActionOrCommand::CodeAction(a));
                }
                if let Some(a) = Self::diagnostic_to_jarl_ignore_chunk_action(&d, snapshot) {
                    actions.push(types::CodeActionOrCommand::CodeAction(a));
                }
            }
        }
        Ok(actions)
    }

    fn spec_diagnostic_to_code_action(diagnostic: &types::Diagnostic, snapshot: &DocumentSnapshot) -> Option<types::CodeAction> {
        let data = match diagnostic.data.as_ref() {
            Some(d) => d.clone(),
            None => return None,
        };
        let fix: crate::lint::DiagnosticFix = match serde_json::from_value(data) {
            Ok(f) => f,
            Err(_) => return None,
        };
        if fix.start == fix.end && fix.content.is_empty() {
            return None;
        }
        let a = byte_offset_to_lsp_position(fix.start, &snapshot.document.content, snapshot.position_encoding).ok()?;
        let b = byte_offset_to_lsp_position(fix.end, &snapshot.document.content, snapshot.position_encoding).ok()?;
        Some(spec_code_action(
            diagnostic,
            snapshot,
            types::Range::new(a, b),
            fix.content,
            if fix.is_safe { types::CodeActionKind::QUICKFIX } else { types::CodeActionKind::from("quickfix.unsafe".to_string()) },
            fix.is_safe,
        ))
    }

    fn spec_diagnostic_to_jarl_ignore_rule_action(diagnostic: &types::Diagnostic, snapshot: &DocumentSnapshot) -> Option<types::CodeAction> {
        let data = match diagnostic.data.as_ref() {
            Some(d) => d.clone(),
            None => return None,
        };
        let fix: crate::lint::DiagnosticFix = match serde_json::from_value(data) {
            Ok(f) => f,
            Err(_) => return None,
        };
        let content = &snapshot.document.content;
        let rmd = match snapshot.file_path() {
            Some(p) => has_rmd_extension(&p),
            None => false,
        };
        let at = if rmd {
            match create_suppression_edit_in_rmd(content, fix.diagnostic_start, fix.diagnostic_end, &fix.rule_name, "<reason>") {
                Some(e) => e.insert_point,
                None => return None,
            }
        } else {
            match compute_suppression_insert_point(content, fix.diagnostic_start, fix.diagnostic_end) {
                Some(p) => p,
                None => return None,
            }
        };
        if at.line > 0 && !at.needs_leading_newline {
            if let Some(prev) = content.lines().nth(at.line - 1) {
                if let Some((_, names)) = parse_existing_suppression(prev) {
                    if let Some(names) = names {
                        if names.iter().any(|n| *n == fix.rule_name) {
                            return None;
                        }
                    }
                }
            }
        }
        let pos = if at.needs_leading_newline {
            match byte_offset_to_lsp_position(at.offset, content, snapshot.position_encoding) {
                Ok(p) => p,
                Err(_) => return None,
            }
        } else {
            types::Position::new(at.line as u32, 0)
        };
        let text = format_suppression_comments(&[&fix.rule_name], "<reason>", &at.indent, at.needs_leading_newline);
        Some(spec_code_action(diagnostic, snapshot, types::Range::new(pos, pos), text, types::CodeActionKind::QUICKFIX, false))
    }

    fn spec_diagnostic_to_jarl_ignore_chunk_action(diagnostic: &types::Diagnostic, snapshot: &DocumentSnapshot) -> Option<types::CodeAction> {
        let rmd = match snapshot.file_path() {
            Some(p) => has_rmd_extension(&p),
            None => false,
        };
        if !rmd {
            return None;
        }
        let data = match diagnostic.data.as_ref() {
            Some(d) => d.clone(),
            None => return None,
        };
        let fix: crate::lint::DiagnosticFix = match serde_json::from_value(data) {
            Ok(f) => f,
            Err(_) => return None,
        };
        let content = &snapshot.document.content;
        let chunks = extract_r_chunks(content);
        let chunk = match chunks.iter().find(|c| fix.diagnostic_start >= c.start_byte && fix.diagnostic_start <= c.start_byte + c.code.len()) {
            Some(c) => c,
            None => return None,
        };
        if chunk.code.contains(&format!("jarl-ignore-chunk {}", fix.rule_name)) || chunk.code.contains(&format!("- {}:", fix.rule_name)) {
            return None;
        }
        let pos = match byte_offset_to_lsp_position(chunk.start_byte, content, snapshot.position_encoding) {
            Ok(p) => p,
            Err(_) => return None,
        };
        let text = format!("#| jarl-ignore-chunk:\n#|   - {}: <reason>\n", fix.rule_name);
        Some(spec_code_action(diagnostic, snapshot, types::Range::new(pos, pos), text, types::CodeActionKind::QUICKFIX, false))
    }
}

fn spec_code_action(diagnostic: &types::Diagnostic, snapshot: &DocumentSnapshot, range: types::Range, text: String, kind: types::CodeActionKind, preferred: bool) -> types::CodeAction {
    let edit = types::TextEdit { range: range, new_text: text };
    let mut changes = std::collections::HashMap::new();
    changes.insert(snapshot.key.uri.clone(), vec![edit]);
    types::CodeAction {
        title: String::new(),
        kind: Some(kind),
        diagnostics: Some(vec![diagnostic.clone()]),
        edit: Some(types::WorkspaceEdit { changes: Some(changes), ..Default::default() }),
        command: None,
        is_preferred: Some(preferred),
        disabled: None,
        data: None,
    }
}

fn spec_convert_to_lsp_diagnostic(jarl_diag: &JarlDiagnostic, content: &str, encoding: PositionEncoding) -> Result<Diagnostic> {
    let start: usize = jarl_diag.range.start().into();
    let end: usize = jarl_diag.range.end().into();
    let a = byte_offset_to_lsp_position(start, content, encoding)?;
    let b = byte_offset_to_lsp_position(end, content, encoding)?;
    let fix = DiagnosticFix {
        content: jarl_diag.fix.content.clone(),
        start: jarl_diag.fix.start,
        end: jarl_diag.fix.end,
        is_safe: jarl_diag.has_safe_fix(),
        rule_name: jarl_diag.message.name.clone(),
        diagnostic_start: start,
        diagnostic_end: end,
    };
    Ok(Diagnostic {
        range: Range::new(a, b),
        severity: Some(DiagnosticSeverity::WARNING),
        code: None,
        code_description: None,
        source: Some(DIAGNOSTIC_SOURCE.to_string()),
        message: match &jarl_diag.message.suggestion {
            Some(s) => format!("{} {}", jarl_diag.message.body, s),
            None => jarl_diag.message.body.clone(),
        },
        related_information: None,
        tags: None,
        data: Some(serde_json::to_value(fix).unwrap_or_default()),
    })
}

fn spec_lint_document(snapshot: &DocumentSnapshot) -> Result<LintOutput> {
    let out = run_jarl_linting(&snapshot.document.content, snapshot.file_path().as_deref())?;
    let mut diagnostics = Vec::new();
    for d in out.diagnostics {
        diagnostics.push(convert_to_lsp_diagnostic(&d, &snapshot.document.content, snapshot.position_encoding)?);
    }
    Ok(LintOutput { diagnostics: diagnostics, unused_fn_hidden_count: out.unused_fn_hidden_count })
}
