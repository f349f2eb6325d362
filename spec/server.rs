// Reference for what the server does with each incoming message.  Analysed, never compiled or run.
fn spec_response(id: RequestId, result: S) -> Message {
    Message::Response(Response { id: id, result: Some(result), error: None })
}

fn spec_error(id: RequestId, code: i32) -> Message {
    Message::Response(Response { id: id, result: None, error: Some(ResponseError { code: code, message: anyhow!("x").to_string(), data: None }) })
}

fn spec_snapshot(session: &Session, uri: Url) -> Option<DocumentSnapshot> {
    let key = DocumentKey { uri: uri };
    match session.documents.get(&key) {
        Some(d) => Some(DocumentSnapshot {
            document: d.clone(),
            key: key,
            position_encoding: session.position_encoding,
            client_capabilities: session.client_capabilities.clone(),
        }),
        None => None,
    }
}

impl Server {
    /// exactly one answer (directly, or by the one task it is handed to) with the request's own id
    fn spec_handle_request(&self, request: Request, session: &mut Session, task_sender: &channel::Sender<Task>) -> LspResult<()> {
        match request.method.as_str() {
            types::request::Shutdown::METHOD => {
                session.shutdown_requested = true;
                let v = serde_json::to_value(())?;
                session.client.sender.send(spec_response(request.id, v))?;
                Ok(())
            }
            types::request::CodeActionRequest::METHOD => {
                match serde_json::from_value(request.params) {
                    Ok(params) => match spec_snapshot(session, params.text_document.uri) {
                        Some(snapshot) => {
                            task_sender.send(Task::HandleCodeActionRequest {
                                snapshot: snapshot,
                                request_id: request.id,
                                params: params,
                                client: session.client.clone(),
                            })?;
                            Ok(())
                        }
                        None => {
                            session.client.sender.send(spec_error(request.id, ErrorCode::InternalError as i32))?;
                            Ok(())
                        }
                    },
                    Err(_) => {
                        session.client.sender.send(spec_error(request.id, -32602))?;
                        Ok(())
                    }
                }
            }
            _ => {
                session.client.sender.send(spec_error(request.id, -32601))?;
                Ok(())
            }
        }
    }

    fn spec_handle_message(&self, message: Message, session: &mut Session, task_sender: &channel::Sender<Task>) -> LspResult<()> {
        match message {
            Message::Request(request) => self.handle_request(request, session, task_sender),
            Message::Notification(notification) => Server::handle_notification(notification, session, task_sender),
            Message::Response(response) => {
                session.client.handle_response(response);
                Ok(())
            }
        }
    }

    fn spec_handle_notification(notification: Notification, session: &mut Session, task_sender: &channel::Sender<Task>) -> LspResult<()> {
        match notification.method.as_str() {
            types::notification::Exit::METHOD => {
                std::process::exit(0);
            }
            types::notification::DidOpenTextDocument::METHOD => {
                let params: types::DidOpenTextDocumentParams = serde_json::from_value(notification.params)?;
                let document = TextDocument::new(params.text_document.text, params.text_document.version)
                    .with_language_id(&params.text_document.language_id);
                session.documents.insert(DocumentKey { uri: params.text_document.uri.clone() }, document);
                if let Ok(path) = params.text_document.uri.to_file_path() {
                    session.check_and_notify_config(&path);
                }
                Ok(())
            }
            types::notification::DidChangeTextDocument::METHOD => {
                let params: types::DidChangeTextDocumentParams = serde_json::from_value(notification.params)?;
                match session.documents.get_mut(&DocumentKey { uri: params.text_document.uri }) {
                    Some(document) => {
                        document.apply_changes(params.content_changes, params.text_document.version, session.position_encoding)?;
                        Ok(())
                    }
                    None => Err(anyhow!("no such document")),
                }
            }
            types::notification::DidCloseTextDocument::METHOD => {
                let params: types::DidCloseTextDocumentParams = serde_json::from_value(notification.params)?;
                let uri = params.text_document.uri;
                if session.documents.remove(&DocumentKey { uri: uri.clone() }).is_none() {
                    return Err(anyhow!("no such document"));
                }
                session.client.publish_diagnostics(uri, vec![], None)?;
                Ok(())
            }
            types::notification::DidSaveTextDocument::METHOD => {
                let params: types::DidSaveTextDocumentParams = serde_json::from_value(notification.params)?;
                match spec_snapshot(session, params.text_document.uri) {
                    Some(snapshot) => {
                        task_sender.send(Task::LintDocument { snapshot: snapshot, client: session.client.clone() })?;
                        Ok(())
                    }
                    None => Ok(()),
                }
            }
            _ => Ok(()),
        }
    }

    /// every task taken from the queue is carried out, one after the other, until the queue closes
    fn spec_worker_thread(_id: usize, task_receiver: channel::Receiver<Task>, _event_sender: channel::Sender<Event>) {
        while let Ok(task) = task_receiver.recv() {
            match task {
                Task::LintDocument { snapshot, client } => {
                    let _ = Server::handle_lint_task(snapshot, client);
                }
                Task::HandleCodeActionRequest { snapshot, request_id, params, client } => {
                    Server::handle_code_action_request(snapshot, request_id, params, client);
                }
            }
        }
    }

    /// one answer, whether or not the actions could be computed
    fn spec_handle_code_action_request(snapshot: DocumentSnapshot, request_id: RequestId, params: types::CodeActionParams, client: Client) {
        let actions = match Server::generate_code_actions(&snapshot, &params) {
            Ok(a) => a,
            Err(_) => Vec::new(),
        };
        let _ = client.send_response(request_id, actions);
    }

    fn spec_handle_lint_task(snapshot: DocumentSnapshot, client: Client) -> LspResult<()> {
        let output = lint::lint_document(&snapshot)?;
        if output.unused_fn_hidden_count > 0 {
            let _ = client.notify_unused_fn_threshold_once(output.unused_fn_hidden_count);
        }
        client.publish_diagnostics(snapshot.key.uri.clone(), output.diagnostics, Some(snapshot.document.version))?;
        Ok(())
    }
}
