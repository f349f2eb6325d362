// Reference for rows and columns.  Analysed, never compiled or run.
fn spec_find_new_lines_from_content(content: &str) -> Vec<usize> {
    content.match_indices('\n').map(|(i, _)| i).collect()
}

fn spec_find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
    let before = loc_new_lines.iter().filter(|x| **x < start).collect::<Vec<&usize>>();
    let row = before.len() + 1;
    let col = match before.last() {
        Some(n) => start - **n - 1,
        None => start,
    };
    (row, col)
}

fn spec_compute_lints_location(diagnostics: Vec<Diagnostic>, loc_new_lines: &[usize]) -> Vec<Diagnostic> {
    let mut out = Vec::new();
    for mut d in diagnostics {
        let start: usize = d.range.start().into();
        let (row, col) = find_row_col(start, loc_new_lines);
        d.location = Some(Location { row: row, column: col });
        out.push(d);
    }
    out
}

impl Location {
    fn spec_fmt_with(&self, f: &mut std::fmt::Formatter, e: &impl std::fmt::Display) -> std::fmt::Result {
        write!(f, "{} at line {} column {}", e, self.row, self.column)
    }
    fn spec_new(row: usize, column: usize) -> Location {
        Location { row: row, column: column }
    }
    fn spec_row(&self) -> usize {
        self.row
    }
    fn spec_column(&self) -> usize {
        self.column
    }
}
