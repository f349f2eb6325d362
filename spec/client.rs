// Reference for the messages the server sends and the pending-request table.  Analysed, never compiled or run.
impl Client {
    pub fn spec_new(sender: channel::Sender<Message>) -> Client {
        Client {
            sender: sender,
            request_id_counter: AtomicI32::new(1),
            pending_requests: HashMap::new(),
            unused_fn_threshold_notified: AtomicBool::new(false),
        }
    }

    /// a request registers its fresh id as pending and is sent with exactly that id
    pub fn spec_send_request<R>(&self, params: R, _handler: H) -> Result<()> {
        let id = RequestId::from(self.request_id_counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        let mut pending = self.pending_requests.lock().unwrap();
        pending.insert(id.clone(), PendingRequest { method: R::METHOD, sent_at: std::time::Instant::now() });
        let p = serde_json::to_value(params)?;
        self.sender.send(Message::Request(Request { id: id, method: R::METHOD, params: p }))?;
        Ok(())
    }

    pub fn spec_send_notification<N>(&self, params: N) -> Result<()> {
        let p = serde_json::to_value(params)?;
        self.sender.send(Message::Notification(Notification { method: N::METHOD, params: p }))?;
        Ok(())
    }

    pub fn spec_send_response(&self, id: RequestId, result: S) -> Result<()> {
        let v = serde_json::to_value(result)?;
        self.sender.send(Message::Response(Response { id: id, result: Some(v), error: None }))?;
        Ok(())
    }

    pub fn spec_send_error_response(&self, id: RequestId, error: ResponseError) -> Result<()> {
        self.sender.send(Message::Response(Response { id: id, result: None, error: Some(error) }))?;
        Ok(())
    }

    pub fn spec_publish_diagnostics(&self, uri: types::Url, diagnostics: Vec<types::Diagnostic>, version: Option<i32>) -> Result<()> {
        let p = serde_json::to_value(types::PublishDiagnosticsParams { uri: uri, diagnostics: diagnostics, version: version })?;
        self.sender.send(Message::Notification(Notification { method: PublishDiagnostics::METHOD, params: p }))?;
        Ok(())
    }

    pub fn spec_show_message(&self, message: &str, message_type: types::MessageType) -> Result<()> {
        let p = serde_json::to_value(types::ShowMessageParams { typ: message_type, message: message })?;
        self.sender.send(Message::Notification(Notification { method: ShowMessage::METHOD, params: p }))?;
        Ok(())
    }

    pub fn spec_log_message(&self, message: &str, message_type: types::MessageType) -> Result<()> {
        let p = serde_json::to_value(types::LogMessageParams { typ: message_type, message: message })?;
        self.sender.send(Message::Notification(Notification { method: LogMessage::METHOD, params: p }))?;
        Ok(())
    }

    /// sent at most once per session, whatever the outcome of sending
    pub fn spec_notify_unused_fn_threshold_once(&self, hidden_count: usize) -> Result<bool> {
        if self.unused_fn_threshold_notified.swap(true, std::sync::atomic::Ordering::SeqCst) {
            return Ok(false);
        }
        self.show_message(spec_hidden_message(hidden_count), types::MessageType::INFO)?;
        Ok(true)
    }

    /// only the answered request leaves the table
    pub fn spec_handle_response(&self, response: Response) {
        let mut pending = self.pending_requests.lock().unwrap();
        pending.remove(&response.id);
    }

    /// exactly the requests older than the timeout leave the table
    pub fn spec_cleanup_pending_requests(&self, timeout: std::time::Duration) {
        let mut pending = self.pending_requests.lock().unwrap();
        let now = std::time::Instant::now();
        let mut old = Vec::new();
        for (id, request) in pending.iter() {
            if now.duration_since(request.sent_at) > timeout {
                old.push(id.clone());
            }
        }
        for id in old {
            pending.remove(&id);
        }
    }
}

impl anyhow::Error {
    fn spec_to_lsp_error(self) -> ResponseError {
        ResponseError { code: ErrorCode::InternalError as i32, message: self.to_string(), data: None }
    }

    fn spec_to_lsp_error_with_code(self, code: i32) -> ResponseError {
        ResponseError { code: code, message: self.to_string(), data: None }
    }
}

fn spec_hidden_message(n: usize) -> String {
    format!(
        "{} `unused_function` diagnostic{} hidden (likely false positives). Adjust 'threshold-ignore' in `[lint.unused_function]` in jarl.toml to change this.This message is shown once per session.",
        n,
        if n == 1 { "" } else { "s" }
    )
}
