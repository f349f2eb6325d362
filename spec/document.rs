// Reference for document tracking and position arithmetic.  Analysed, never compiled or run.
impl TextDocument {
    fn spec_new(content: String, version: i32) -> TextDocument {
        let line_starts = spec_line_starts(&content);
        TextDocument { content: content, version: version, language_id: None, line_starts: line_starts }
    }

    /// every edit, in order, against the text its predecessors left; all or nothing
    fn spec_apply_changes(&mut self, changes: Vec<TextDocumentContentChangeEvent>, new_version: i32, encoding: PositionEncoding) -> Result<()> {
        let mut doc = self.clone();
        for change in changes {
            match change.range {
                Some(range) => {
                    let a = doc.position_to_offset(range.start, encoding)?;
                    let b = doc.position_to_offset(range.end, encoding)?;
                    if a > b {
                        return Err(anyhow!("inverted"));
                    }
                    doc.content.replace_range(a..b, &change.text);
                    doc.line_starts = spec_line_starts(&doc.content);
                }
                None => return Err(anyhow!("no range")),
            }
        }
        doc.version = new_version;
        *self = doc;
        Ok(())
    }

    fn spec_position_to_offset(&self, position: Position, encoding: PositionEncoding) -> Result<usize> {
        let line = position.line as usize;
        let character = position.character as usize;
        if line >= self.line_starts.len() {
            return Err(anyhow!("line out of bounds"));
        }
        let start = self.line_starts[line];
        let end = if line + 1 < self.line_starts.len() { self.line_starts[line + 1] - 1 } else { self.content.len() };
        let text = &self.content[start..end];
        let offset = match encoding {
            PositionEncoding::UTF8 => {
                if character > text.len() {
                    return Err(anyhow!("out of bounds"));
                }
                if !text.is_char_boundary(character) {
                    return Err(anyhow!("inside a character"));
                }
                character
            }
            PositionEncoding::UTF16 => {
                let mut units = 0;
                let mut bytes = 0;
                for c in text.chars() {
                    if units >= character {
                        break;
                    }
                    units += c.len_utf16();
                    bytes += c.len_utf8();
                }
                if units > character {
                    return Err(anyhow!("inside a character"));
                }
                bytes
            }
            PositionEncoding::UTF32 => {
                let mut n = 0;
                let mut bytes = 0;
                for c in text.chars() {
                    if n >= character {
                        break;
                    }
                    n += 1;
                    bytes += c.len_utf8();
                }
                bytes
            }
        };
        Ok(start + offset)
    }

    fn spec_offset_to_position(&self, offset: usize, encoding: PositionEncoding) -> Result<Position> {
        if offset > self.content.len() || !self.content.is_char_boundary(offset) {
            return Err(anyhow!("out of bounds"));
        }
        let line = match self.line_starts.binary_search(&offset) {
            Ok(l) => l,
            Err(l) => if l == 0 { 0 } else { l - 1 },
        };
        let start = self.line_starts[line];
        let end = if line + 1 < self.line_starts.len() { self.line_starts[line + 1] - 1 } else { self.content.len() };
        let text = &self.content[start..end];
        let within = offset - start;
        let character = match encoding {
            PositionEncoding::UTF8 => within,
            PositionEncoding::UTF16 => text[..within.min(text.len())].chars().map(|c| c.len_utf16()).sum::<usize>(),
            PositionEncoding::UTF32 => text[..within.min(text.len())].chars().count(),
        };
        Ok(Position::new(line as u32, character as u32))
    }

    fn spec_range_of_text(&self, start: usize, end: usize, encoding: PositionEncoding) -> Result<Range> {
        let a = self.offset_to_position(start, encoding)?;
        let b = self.offset_to_position(end, encoding)?;
        Ok(Range::new(a, b))
    }

    fn spec_line_count(&self) -> usize {
        self.line_starts.len()
    }
}

fn spec_line_starts(content: &str) -> Vec<usize> {
    let mut starts = vec![0];
    for (i, b) in content.bytes().enumerate() {
        if b == b'\n' {
            starts.push(i + 1);
        }
    }
    starts
}

impl Session {
    fn spec_open_document(&mut self, uri: Url, text: String, version: DocumentVersion, language_id: Option<String>) {
        let key = DocumentKey { uri: uri };
        let line_starts = spec_line_starts(&text);
        let doc = TextDocument { content: text, version: version, language_id: language_id, line_starts: line_starts };
        self.documents.insert(key, doc);
    }
}

fn spec_encoding_kind(encoding: PositionEncoding) -> lsp_types::PositionEncodingKind {
    match encoding {
        PositionEncoding::UTF8 => lsp_types::PositionEncodingKind::UTF8,
        PositionEncoding::UTF16 => lsp_types::PositionEncodingKind::UTF16,
        PositionEncoding::UTF32 => lsp_types::PositionEncodingKind::UTF32,
    }
}

fn spec_try_encoding(kind: &lsp_types::PositionEncodingKind) -> Result<PositionEncoding> {
    if *kind == lsp_types::PositionEncodingKind::UTF8 {
        return Ok(PositionEncoding::UTF8);
    }
    if *kind == lsp_types::PositionEncodingKind::UTF16 {
        return Ok(PositionEncoding::UTF16);
    }
    if *kind == lsp_types::PositionEncodingKind::UTF32 {
        return Ok(PositionEncoding::UTF32);
    }
    Err(anyhow!("unsupported"))
}

fn spec_negotiate(client_capabilities: &ClientCapabilities) -> PositionEncoding {
    if let Some(general) = client_capabilities.general.as_ref() {
        if let Some(offered) = general.position_encodings.as_ref() {
            for e in offered {
                if *e == lsp_types::PositionEncodingKind::UTF8 {
                    return PositionEncoding::UTF8;
                }
            }
            return PositionEncoding::UTF16;
        }
    }
    PositionEncoding::UTF16
}

impl Session {
    fn spec_update_document(&mut self, uri: Url, changes: Vec<TextDocumentContentChangeEvent>, version: DocumentVersion) -> LspResult<()> {
        let key = DocumentKey { uri: uri };
        match self.documents.get_mut(&key) {
            None => Err(anyhow!("none")),
            Some(document) => {
                document.apply_changes(changes, version, self.position_encoding)?;
                Ok(())
            }
        }
    }

    fn spec_take_snapshot(&self, uri: Url) -> Option<DocumentSnapshot> {
        spec_snapshot(self, uri)
    }

    /// the encoding in use, and notifications for opened, closed and changed (by ranges) documents
    fn spec_announced(&self) -> ServerCapabilities {
        ServerCapabilities {
            position_encoding: Some(spec_encoding_kind(self.position_encoding)),
            text_document_sync: Some(TextDocumentSyncCapability::Options(TextDocumentSyncOptions {
                open_close: Some(true),
                change: Some(TextDocumentSyncKind::INCREMENTAL),
                will_save: Some(false),
                will_save_wait_until: Some(false),
                save: Some(SaveOptions { include_text: Some(false) }.into()),
            })),
            ..Default::default()
        }
    }
}

fn spec_byte_offset_to_lsp_position(byte_offset: usize, content: &str, encoding: PositionEncoding) -> Result<Position> {
    if byte_offset > content.len() || !content.is_char_boundary(byte_offset) {
        return Err(anyhow!("out of bounds"));
    }
    let mut line = 0;
    let mut start = 0;
    for (i, ch) in content.char_indices() {
        if i >= byte_offset {
            let within = byte_offset - start;
            let rest = &content[start..];
            let text = &rest[..rest.find('\n').unwrap_or(rest.len())];
            let character = match encoding {
                PositionEncoding::UTF8 => within as u32,
                PositionEncoding::UTF16 => text[..within.min(text.len())].chars().map(|c| c.len_utf16()).sum::<usize>() as u32,
                PositionEncoding::UTF32 => text[..within.min(text.len())].chars().count() as u32,
            };
            return Ok(Position::new(line as u32, character));
        }
        if ch == '\n' {
            line += 1;
            start = i + ch.len_utf8();
        }
    }
    let within = byte_offset - start;
    let text = &content[start..];
    let character = match encoding {
        PositionEncoding::UTF8 => within as u32,
        PositionEncoding::UTF16 => text.chars().map(|c| c.len_utf16()).sum::<usize>() as u32,
        PositionEncoding::UTF32 => text.chars().count() as u32,
    };
    Ok(Position::new(line as u32, character))
}
