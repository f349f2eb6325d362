// C05: suppressions hide exactly what they name; broken and unused ones are reported

/// code before the comment on the comment's own line
fn spec_code_before_on_line(comment_range: TextRange, source: &str) -> bool {
    let start: usize = comment_range.start().into();
    if start == 0 {
        return false;
    }
    let from = match source[..start].rfind('\n') {
        Some(p) => p + 1,
        None => 0,
    };
    source[from..start].chars().any(|c| !c.is_whitespace())
}

/// what one comment means
fn spec_file_comment(text: &str, comment_range: TextRange, node_range: TextRange, collector: &mut CommentCollector, allow_file_suppression: bool, is_trailing: bool, nesting_level: usize) {
    let Some(result) = parse_comment_directive(text) else { return };
    if is_trailing {
        // behind code, whatever the directive
        collector.misplaced_suppressions.push(comment_range);
        return;
    }
    match result {
        DirectiveParseResult::BlanketSuppression => collector.blanket_suppressions.push(comment_range),
        DirectiveParseResult::MissingExplanation => collector.unexplained_suppressions.push(comment_range),
        DirectiveParseResult::InvalidRuleName => collector.misnamed_suppressions.push(comment_range),
        DirectiveParseResult::Valid(d) => {
            collector.has_any_valid_directive = true;
            match d {
                LintDirective::Ignore(rule) => collector.node_suppressions.push(NodeSuppression { node_range, rule, comment_range }),
                LintDirective::IgnoreFile(rule) => {
                    if allow_file_suppression {
                        collector.file_suppressions.push(FileSuppression { rule, comment_range });
                    } else {
                        collector.misplaced_file_suppressions.push(comment_range);
                    }
                }
                LintDirective::IgnoreChunk(_) => collector.invalid_chunk_suppressions.push(comment_range),
                LintDirective::IgnoreStart(rule) => {
                    let key = (rule, nesting_level);
                    if let Some((open, _)) = collector.starts.get(&key) {
                        // never closed: a second start of the same rule replaces it
                        collector.unmatched_start_suppressions.push(*open);
                    }
                    collector.starts.insert(key, (comment_range, comment_range));
                }
                LintDirective::IgnoreEnd(rule) => match collector.starts.remove(&(rule, nesting_level)) {
                    Some((open, _)) => collector.skip_regions.push(SkipRegion {
                        range: TextRange::new(open.start(), comment_range.end()),
                        rule,
                        comment_range: open,
                    }),
                    None => collector.unmatched_end_suppressions.push(comment_range),
                },
            }
        }
    }
}

impl SuppressionManager {
    /// hidden when a suppression of the same rule has it in scope; that suppression is then a used one
    fn spec_is_hidden(&mut self, diag: &Diagnostic) -> bool {
        let Some(rule) = Rule::from_name(&diag.message.name) else { return false };
        if let Some(s) = self.file_suppressions.iter().find(|s| s.rule == rule) {
            self.used_suppressions.insert(s.comment_range);
            return true;
        }
        if let Some(s) = self.chunk_suppressions.iter().find(|s| s.rule == rule) {
            self.used_suppressions.insert(s.comment_range);
            return true;
        }
        if let Some(s) = self.skip_regions.iter().find(|s| s.rule == rule && s.range.contains_range(diag.range)) {
            self.used_suppressions.insert(s.comment_range);
            return true;
        }
        if let Some(s) = self.node_suppressions.iter().find(|s| s.rule == rule && s.node_range.contains_range(diag.range)) {
            self.used_suppressions.insert(s.comment_range);
            return true;
        }
        false
    }

    fn spec_filter(&mut self, diagnostics: Vec<Diagnostic>) -> Vec<Diagnostic> {
        if !self.has_any_suppressions {
            return diagnostics;
        }
        diagnostics.into_iter().filter(|d| !self.is_diagnostic_suppressed(d)).collect()
    }

    fn spec_unused(&self) -> Vec<TextRange> {
        let mut out = Vec::new();
        for s in &self.file_suppressions {
            if !self.used_suppressions.contains(&s.comment_range) {
                out.push(s.comment_range);
            }
        }
        for s in &self.chunk_suppressions {
            if !self.used_suppressions.contains(&s.comment_range) {
                out.push(s.comment_range);
            }
        }
        for s in &self.skip_regions {
            if !self.used_suppressions.contains(&s.comment_range) {
                out.push(s.comment_range);
            }
        }
        for s in &self.node_suppressions {
            if !self.used_suppressions.contains(&s.comment_range) {
                out.push(s.comment_range);
            }
        }
        out
    }

    /// every comment is looked at once, at the node that carries it
    fn spec_from_node(root: &RSyntaxNode, source: &str) -> Self {
        if !source.contains("jarl-ignore") {
            return Self {
                comments: Comments::default(),
                skip_regions: Vec::new(),
                file_suppressions: Vec::new(),
                chunk_suppressions: Vec::new(),
                node_suppressions: Vec::new(),
                has_any_suppressions: false,
                blanket_suppressions: Vec::new(),
                invalid_chunk_suppressions: Vec::new(),
                unmatched_start_suppressions: Vec::new(),
                unmatched_end_suppressions: Vec::new(),
                unexplained_suppressions: Vec::new(),
                misplaced_file_suppressions: Vec::new(),
                misplaced_suppressions: Vec::new(),
                misnamed_suppressions: Vec::new(),
                used_suppressions: HashSet::new(),
            };
        }
        let comments = Comments::from_node(root, &RCommentStyle, None);
        let mut c = CommentCollector {
            starts: HashMap::new(),
            skip_regions: Vec::new(),
            file_suppressions: Vec::new(),
            chunk_suppressions: Vec::new(),
            node_suppressions: Vec::new(),
            blanket_suppressions: Vec::new(),
            invalid_chunk_suppressions: Vec::new(),
            unexplained_suppressions: Vec::new(),
            misplaced_file_suppressions: Vec::new(),
            misplaced_suppressions: Vec::new(),
            misnamed_suppressions: Vec::new(),
            unmatched_start_suppressions: Vec::new(),
            unmatched_end_suppressions: Vec::new(),
            has_any_valid_directive: false,
        };
        SuppressionManager::collect_all_directives(root, &comments, &mut c, true, source, 0);
        // a start that is still open
        for (_, (open, _)) in c.starts.drain() {
            c.unmatched_start_suppressions.push(open);
        }
        let has_any_suppressions =
            !c.skip_regions.is_empty() || !c.file_suppressions.is_empty() || !c.chunk_suppressions.is_empty() || c.has_any_valid_directive;
        Self {
            comments,
            has_any_suppressions,
            skip_regions: c.skip_regions,
            file_suppressions: c.file_suppressions,
            chunk_suppressions: c.chunk_suppressions,
            node_suppressions: c.node_suppressions,
            blanket_suppressions: c.blanket_suppressions,
            invalid_chunk_suppressions: c.invalid_chunk_suppressions,
            unmatched_start_suppressions: c.unmatched_start_suppressions,
            unmatched_end_suppressions: c.unmatched_end_suppressions,
            unexplained_suppressions: c.unexplained_suppressions,
            misplaced_file_suppressions: c.misplaced_file_suppressions,
            misplaced_suppressions: c.misplaced_suppressions,
            misnamed_suppressions: c.misnamed_suppressions,
            used_suppressions: HashSet::new(),
        }
    }

    fn spec_collect(node: &RSyntaxNode, comments: &Comments<RLanguage>, collector: &mut CommentCollector, is_first_expression: bool, source: &str, nesting_level: usize) {
        let scope = node.text_trimmed_range();
        let leading: Vec<_> = comments.leading_comments(node).iter().collect();
        let mut i = 0;
        while i < leading.len() {
            let text = leading[i].piece().text();
            let range = leading[i].piece().text_range();
            if !is_quarto_chunk_array_header(text) {
                SuppressionManager::process_comment(text, range, scope, collector, is_first_expression, false, nesting_level);
                i += 1;
                continue;
            }
            // the items that follow the header of a list
            i += 1;
            let mut any = false;
            while i < leading.len() {
                let item = leading[i].piece().text_range();
                match parse_quarto_chunk_array_item(leading[i].piece().text()) {
                    Some(DirectiveParseResult::Valid(LintDirective::IgnoreChunk(rule))) => {
                        collector.chunk_suppressions.push(ChunkSuppression { rule, comment_range: item });
                        collector.has_any_valid_directive = true;
                    }
                    Some(DirectiveParseResult::MissingExplanation) => collector.unexplained_suppressions.push(item),
                    Some(DirectiveParseResult::InvalidRuleName) => collector.misnamed_suppressions.push(item),
                    _ => break,
                }
                any = true;
                i += 1;
            }
            if !any {
                collector.blanket_suppressions.push(range);
            }
        }
        for comment in comments.trailing_comments(node) {
            let range = comment.piece().text_range();
            SuppressionManager::process_comment(comment.piece().text(), range, scope, collector, false, SuppressionManager::is_same_line_as_code(range, source), nesting_level);
        }
        for comment in comments.dangling_comments(node) {
            SuppressionManager::process_comment(comment.piece().text(), comment.piece().text_range(), scope, collector, false, false, nesting_level);
        }
        // only what comes before all code may cover the whole file
        let mut first = is_first_expression;
        for child in node.children() {
            let level = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS { nesting_level + 1 } else { nesting_level };
            SuppressionManager::collect_all_directives(&child, comments, collector, first, source, level);
            first = false;
        }
    }

    fn spec_node_rules(&self, node: &RSyntaxNode) -> HashSet<Rule> {
        let mut out = HashSet::new();
        for comment in self.comments.leading_comments(node) {
            if let Some(DirectiveParseResult::Valid(LintDirective::Ignore(rule))) = parse_comment_directive(comment.piece().text()) {
                out.insert(rule);
            }
        }
        for comment in self.comments.trailing_comments(node) {
            if let Some(DirectiveParseResult::Valid(LintDirective::Ignore(rule))) = parse_comment_directive(comment.piece().text()) {
                out.insert(rule);
            }
        }
        for comment in self.comments.dangling_comments(node) {
            if let Some(DirectiveParseResult::Valid(LintDirective::Ignore(rule))) = parse_comment_directive(comment.piece().text()) {
                out.insert(rule);
            }
        }
        out
    }

    fn spec_rules_for(&self, node: &RSyntaxNode) -> HashSet<Rule> {
        let mut out = HashSet::new();
        let range = node.text_trimmed_range();
        for region in &self.skip_regions {
            if region.range.contains_range(range) {
                out.insert(region.rule);
            }
        }
        out.extend(self.check_node_comments(node));
        out
    }

    fn spec_should_skip(&self, node: &RSyntaxNode, rule: Rule) -> bool {
        if !self.has_any_suppressions {
            return false;
        }
        self.file_suppressions.iter().any(|s| s.rule == rule)
            || self.chunk_suppressions.iter().any(|s| s.rule == rule)
            || self.skip_regions.iter().any(|s| s.rule == rule && s.range.contains_range(node.text_trimmed_range()))
            || self.check_suppression(node).contains(&rule)
    }
}

impl RCommentStyle {
    /// a comment inside an argument list belongs to the value of the argument that follows
    fn spec_place_comment(&self, comment: DecoratedComment<RLanguage>) -> CommentPlacement<RLanguage> {
        let kind = comment.enclosing_node().kind();
        if kind != RSyntaxKind::R_CALL_ARGUMENTS && kind != RSyntaxKind::R_ARGUMENT_LIST {
            return CommentPlacement::Default(comment);
        }
        let Some(following) = comment.following_node() else { return CommentPlacement::Default(comment) };
        if following.kind() != RSyntaxKind::R_ARGUMENT {
            return CommentPlacement::Default(comment);
        }
        let Some(first) = following.first_child() else { return CommentPlacement::Default(comment) };
        CommentPlacement::leading(first, comment)
    }
}
