// Reference for chunk extraction.  Analysed, never compiled or run.
// blanks, at least three backticks (captured), a brace-enclosed header starting with r or R
static SPEC_OPEN_FENCE: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}").unwrap());

pub fn spec_extract_r_chunks(content: &str) -> Vec<RCodeChunk> {
    let mut chunks = Vec::new();
    let mut offset = 0usize;
    let mut open: Option<String> = None;
    let mut code = String::new();
    let mut start = 0usize;
    for line in content.split_inclusive('\n') {
        let next = offset + line.len();
        match open {
            None => {
                if let Some(caps) = SPEC_OPEN_FENCE.captures(line) {
                    open = Some(caps.get(1).unwrap().as_str().to_string());
                    code = String::new();
                    start = next;
                }
            }
            Some(fence) => {
                if line.trim() == fence {
                    chunks.push(RCodeChunk { code: code, start_byte: start });
                    code = String::new();
                    open = None;
                } else {
                    code.push_str(line);
                }
            }
        }
        offset = next;
    }
    chunks
}
