// Reference for the application of fixes.  Analysed, never compiled or run.

/// Fix ranges are byte ranges of the old text. They are applied in order; a fix that starts before the end of the
/// text written last (so it overlaps an applied fix or lies before one) is skipped, and reported as such.
pub fn spec_apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
    let old = contents.len() as i32;
    let mut out = contents.to_string();
    let mut now = old;
    let mut pos = 0;
    let mut skipped = false;
    for d in fixes.iter() {
        let start = d.fix.start as i32 + (now - old);
        let end = d.fix.end as i32 + (now - old);
        if start < pos {
            skipped = true;
        } else {
            out.replace_range(start as usize..end as usize, &d.fix.content);
            now = out.len() as i32;
            pos = start + d.fix.content.len() as i32;
        }
    }
    (skipped, out)
}

impl Diagnostic {
    /// the fix can be applied without asking
    fn spec_safe(&self) -> bool {
        !self.fix.to_skip && self.fix.content != "" && match Rule::from_name(&self.message.name) {
            Some(r) => matches!(r.fix_status(), FixStatus::Safe),
            None => false,
        }
    }
    fn spec_unsafe(&self) -> bool {
        !self.fix.to_skip && self.fix.content != "" && match Rule::from_name(&self.message.name) {
            Some(r) => matches!(r.fix_status(), FixStatus::Unsafe),
            None => false,
        }
    }
}

/// a comment lies strictly inside the node: it belongs to a token and is not before the first or after the last one
fn spec_inner_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
    let range = node.text_trimmed_range();
    for t in node.descendants_tokens(Direction::Next) {
        if t.has_leading_comments() && t.text_trimmed_range().start() > range.start() {
            return true;
        }
        if t.has_trailing_comments() && t.text_trimmed_range().end() < range.end() {
            return true;
        }
    }
    false
}

impl Fix {
    /// no fix: nothing to insert, nothing to apply
    fn spec_none() -> Fix {
        Fix { content: String::new(), start: 0, end: 0, to_skip: true }
    }
}
