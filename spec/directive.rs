// Reference for the suppression-comment grammar (docs/using-jarl.md, "Ignoring ...").
// Analysed, never compiled or run.

/// `<rule>: <reason>`
fn spec_item(text: &str, wrap: fn(Rule) -> LintDirective) -> Option<DirectiveParseResult> {
    let (name, reason) = match text.find(':') {
        Some(i) => (&text[..i], Some(&text[i + 1..])),
        None => (text, None),
    };
    let name = name.trim();
    if name.is_empty() {
        return None;
    }
    let rule = match Rule::from_name(name) {
        Some(r) => r,
        None => return Some(DirectiveParseResult::InvalidRuleName),
    };
    match reason {
        Some(r) if !r.trim().is_empty() => Some(DirectiveParseResult::Valid(wrap(rule))),
        _ => Some(DirectiveParseResult::MissingExplanation),
    }
}

pub fn spec_is_quarto_chunk_array_header(text: &str) -> bool {
    text.trim() == "#| jarl-ignore-chunk:"
}

pub fn spec_parse_quarto_chunk_array_item(text: &str) -> Option<DirectiveParseResult> {
    let t = text.trim();
    if !t.starts_with("#|") {
        return None;
    }
    let t = t[2..].trim_start();
    if !t.starts_with('-') {
        return None;
    }
    let t = &t[1..];
    if !(t.is_empty() || t.starts_with(char::is_whitespace)) {
        return None;
    }
    let t = t.trim_start();
    if t.is_empty() {
        return None;
    }
    spec_item(t, LintDirective::IgnoreChunk)
}

pub fn spec_parse_comment_directive(text: &str) -> Option<DirectiveParseResult> {
    let t = text.trim_start();
    let pipe = t.starts_with("#| ");
    let body = if pipe {
        &t[3..]
    } else if t.starts_with("# ") {
        &t[2..]
    } else if t.starts_with("#") {
        &t[1..]
    } else {
        return None;
    };
    if !body.starts_with("jarl-ignore") {
        return None;
    }
    let kind = &body[11..];
    // chunk suppressions: the only ones for which `#|` is accepted
    if kind == "-chunk" || kind.starts_with("-chunk:") || kind.starts_with("-chunk :") {
        return Some(DirectiveParseResult::BlanketSuppression);
    }
    if kind.starts_with("-chunk ") {
        return spec_item(&kind[7..], LintDirective::IgnoreChunk);
    }
    if pipe {
        return None;
    }
    if kind.is_empty() || kind.starts_with(':') || kind.starts_with(" :") {
        return Some(DirectiveParseResult::BlanketSuppression);
    }
    if kind.starts_with(' ') {
        return spec_item(&kind[1..], LintDirective::Ignore);
    }
    if kind.starts_with("-file ") {
        return spec_item(&kind[6..], LintDirective::IgnoreFile);
    }
    if kind.starts_with("-start ") {
        return spec_item(&kind[7..], LintDirective::IgnoreStart);
    }
    if kind.starts_with("-end ") {
        let name = match kind[5..].find(':') {
            Some(i) => kind[5..][..i].trim(),
            None => kind[5..].trim(),
        };
        if name.is_empty() {
            return None;
        }
        return match Rule::from_name(name) {
            Some(r) => Some(DirectiveParseResult::Valid(LintDirective::IgnoreEnd(r))),
            None => Some(DirectiveParseResult::InvalidRuleName),
        };
    }
    None
}
