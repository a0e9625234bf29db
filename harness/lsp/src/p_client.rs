use crate::client::*;
use crate::rt::*;
use crossbeam::channel;
use lsp_server::{ErrorCode, Message, RequestId, Response, ResponseError};
use lsp_types as types;

struct Want {
    kind: usize,
    text: &'static str,
    n: usize,
}
/// k operations on a client and a clone of it.
fn history(k: usize) {
    let (tx, rx) = channel::unbounded::<Message>();
    let a = Client::new(tx);
    let b = a.clone();
    let mut ids: Vec<RequestId> = vec![];
    let mut notified = false;
    for _ in 0..k {
        let c = if flag() { &a } else { &b };
        let op = choose(9);
        let n = choose(3);
        note(|| format!("op {op} {n}"));
        let text = ["", "hi", "é\"\n"][n];
        match op {
            0 => {
                let r = c.send_request::<types::request::WorkspaceConfiguration>(types::ConfigurationParams { items: vec![] }, |_| {});
                check(r.is_ok(), "request_is_sent");
                match rx.try_recv() {
                    Ok(Message::Request(r)) => {
                        check(r.method == "workspace/configuration", "request_method");
                        check(!ids.contains(&r.id), "request_ids_are_unique");
                        check(r.params["items"].is_array(), "request_params");
                        ids.push(r.id);
                        reach("request");
                    }
                    _ => check(false, "a_request_is_one_request_message"),
                }
            }
            1 => {
                let (t, v) = [(types::MessageType::ERROR, 1), (types::MessageType::WARNING, 2), (types::MessageType::INFO, 3)][n];
                check(c.show_message(text, t).is_ok(), "message_is_sent");
                notification(&rx, "window/showMessage", text, v);
            }
            2 => {
                let (t, v) = [(types::MessageType::ERROR, 1), (types::MessageType::WARNING, 2), (types::MessageType::LOG, 4)][n];
                check(c.log_message(text, t).is_ok(), "log_is_sent");
                notification(&rx, "window/logMessage", text, v);
            }
            3 => {
                let r = c.notify_unused_fn_threshold_once(n);
                check(r.is_ok_and(|sent| sent != notified), "threshold_notice_reports_whether_it_was_sent");
                if !notified {
                    match rx.try_recv() {
                        Ok(Message::Notification(m)) => {
                            check(m.method == "window/showMessage", "threshold_notice_is_shown");
                            let t = m.params["message"].as_str().unwrap_or("").to_string();
                            let s = if n == 1 { "1 `unused_function` diagnostic hidden" } else { [ "0 `unused_function` diagnostics hidden", "", "2 `unused_function` diagnostics hidden"][n] };
                            check(t.as_bytes().starts_with(s.as_bytes()), "threshold_notice_counts_what_is_hidden");
                            reach("notice");
                        }
                        _ => check(false, "threshold_notice_is_one_message"),
                    }
                } else {
                    reach("notice_again");
                }
                notified = true;
            }
            4 => {
                let id = RequestId::from(n as i32);
                check(c.send_response(id.clone(), text).is_ok(), "response_is_sent");
                match rx.try_recv() {
                    Ok(Message::Response(r)) => {
                        check(r.id == id && r.error.is_none(), "response_answers_its_request");
                        check(r.result.as_ref().and_then(|v| v.as_str()) == Some(text), "response_result");
                        reach("response");
                    }
                    _ => check(false, "a_response_is_one_response_message"),
                }
            }
            5 => {
                let id = RequestId::from(text.to_string());
                let e = anyhow::anyhow!("{text}");
                let (e, code) = if n == 0 { (e.to_lsp_error(), ErrorCode::InternalError as i32) } else { (e.to_lsp_error_with_code(-5 - n as i32), -5 - n as i32) };
                check(e.code == code && e.message == text && e.data.is_none(), "error_conversion");
                check(c.send_error_response(id.clone(), ResponseError { code, message: text.to_string(), data: None }).is_ok(), "error_is_sent");
                match rx.try_recv() {
                    Ok(Message::Response(r)) => {
                        check(r.id == id && r.result.is_none(), "error_answers_its_request");
                        check(r.error.is_some_and(|e| e.code == code && e.message == text), "error_content");
                        reach("error");
                    }
                    _ => check(false, "an_error_is_one_response_message"),
                }
            }
            6 => {
                // A response from the client is never answered; unknown ids are harmless.
                let id = if n < ids.len() { ids[n].clone() } else { RequestId::from(999) };
                let error = if n == 1 { Some(ResponseError { code: 1, message: "m".into(), data: None }) } else { None };
                c.handle_response(Response { id, result: None, error });
                reach("handled");
            }
            7 => {
                let uri: types::Url = types::Url::parse(["file:///a.R", "untitled:x", "file:///b%20c.R"][n]).unwrap();
                let version = if n == 0 { None } else { Some(n as i32) };
                let d = types::Diagnostic { message: text.to_string(), ..Default::default() };
                check(c.publish_diagnostics(uri.clone(), vec![d; n], version).is_ok(), "diagnostics_are_sent");
                match rx.try_recv() {
                    Ok(Message::Notification(m)) => {
                        check(m.method == "textDocument/publishDiagnostics", "diagnostics_method");
                        check(m.params["uri"].as_str() == Some(uri.as_str()), "diagnostics_uri");
                        check(m.params["version"].as_i64() == version.map(|v| v as i64), "diagnostics_version");
                        check(m.params["diagnostics"].as_array().is_some_and(|a| a.len() == n && a.iter().all(|d| d["message"].as_str() == Some(text))), "diagnostics_list");
                        reach("diagnostics");
                    }
                    _ => check(false, "a_publication_is_one_message"),
                }
            }
            _ => {
                c.cleanup_pending_requests(std::time::Duration::from_secs(n as u64));
                reach("cleanup");
            }
        }
        check(rx.is_empty(), "nothing_else_is_sent");
    }
}
fn notification(rx: &channel::Receiver<Message>, method: &str, text: &str, typ: u64) {
    match rx.try_recv() {
        Ok(Message::Notification(m)) => {
            check(m.method == method, "notification_method");
            check(m.params["message"].as_str() == Some(text) && m.params["type"].as_u64() == Some(typ), "notification_params");
            reach("notification");
        }
        _ => check(false, "a_notification_is_one_message"),
    }
}
pub fn run(_i: u32) {
    history(param(0));
}
