// C19: linting of R Markdown documents, chunk by chunk
fn spec_lint_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Diagnostic>> {
    struct ChunkState {
        parsed: air_r_parser::Parse,
        suppression: SuppressionManager,
        start_byte: usize,
    }
    let chunks = extract_r_chunks(contents);
    let mut in_file: HashSet<Rule> = HashSet::new();
    let mut comments: Vec<(biome_rowan::TextRange, Rule)> = Vec::new();
    let mut states: Vec<Option<ChunkState>> = Vec::new();
    for (i, chunk) in chunks.iter().enumerate() {
        let parsed = air_r_parser::parse(&chunk.code, RParserOptions::default());
        if parsed.has_error() {
            // this chunk only
            states.push(None);
            continue;
        }
        let mut suppression = SuppressionManager::from_node(&parsed.syntax(), &chunk.code);
        if i > 0 {
            // only the first chunk is the top of the file
            for fs in suppression.file_suppressions.drain(..) {
                suppression.misplaced_file_suppressions.push(fs.comment_range);
            }
        }
        for fs in &suppression.file_suppressions {
            in_file.insert(fs.rule);
            comments.push((
                biome_rowan::TextRange::new(
                    fs.comment_range.start() + TextSize::from(chunk.start_byte as u32),
                    fs.comment_range.end() + TextSize::from(chunk.start_byte as u32),
                ),
                fs.rule,
            ));
        }
        states.push(Some(ChunkState { parsed, suppression, start_byte: chunk.start_byte }));
    }

    let mut all: Vec<Diagnostic> = Vec::new();
    for state in states {
        let Some(ChunkState { parsed, suppression, start_byte }) = state else { continue };
        let expressions = &parsed.tree().expressions();
        let mut checker = Checker {
            diagnostics: Vec::new(),
            rule_set: config.rules_to_apply.clone(),
            minimum_r_version: config.minimum_r_version,
            suppression,
            rule_options: config.rule_options.clone(),
        };
        for expr in expressions {
            check_expression(&expr, &mut checker)?;
        }
        check_document(expressions, &mut checker, &[], &[])?;
        for d in checker.diagnostics {
            // no fix, and a place in the document
            all.push(Diagnostic {
                message: d.message,
                filename: file.to_path_buf(),
                range: biome_rowan::TextRange::new(d.range.start() + TextSize::from(start_byte as u32), d.range.end() + TextSize::from(start_byte as u32)),
                location: d.location,
                fix: Fix::empty(),
            });
        }
    }

    // a file-level comment is of use as soon as any chunk has a violation of its rule
    if !comments.is_empty() {
        let violated: HashSet<Rule> = all
            .iter()
            .filter(|d| d.message.name != "outdated_suppression")
            .filter_map(|d| Rule::from_name(&d.message.name))
            .filter(|r| in_file.contains(r))
            .collect();
        if !violated.is_empty() {
            let used: HashSet<biome_rowan::TextRange> = comments.iter().filter(|(_, rule)| violated.contains(rule)).map(|(range, _)| *range).collect();
            all.retain(|d| !(d.message.name == "outdated_suppression" && used.contains(&d.range)));
        }
    }
    all.retain(|d| match Rule::from_name(&d.message.name) {
        Some(r) => !in_file.contains(&r),
        None => true,
    });
    Ok(compute_lints_location(all, &find_new_lines_from_content(contents)))
}
