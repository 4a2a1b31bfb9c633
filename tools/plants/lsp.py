"""Bugs in the language server."""
FROM = "crates/aether_lsp_utils/src/proto/from_proto.rs"
TO = "crates/aether_lsp_utils/src/proto/to_proto.rs"
EDIT = "crates/aether_lsp_utils/src/text_edit.rs"
SRC = "crates/lsp/src/"


def main(body):
    """A client's side of a conversation."""
    return '#[tokio::main(flavor = "current_thread")]\nasync fn main() {\n' + body.strip("\n") + "\n}\n"


DOCS = """
use aether_lsp_utils::proto::{PositionEncoding, from_proto, to_proto};
use biome_line_index::{LineIndex, WideEncoding};
use tower_lsp::lsp_types;
const UTF16: PositionEncoding = PositionEncoding::Wide(WideEncoding::Utf16);
fn change(start: (u32, u32), end: (u32, u32), text: &str) -> lsp_types::TextDocumentContentChangeEvent {
    lsp_types::TextDocumentContentChangeEvent {
        range: Some(lsp_types::Range::new(lsp_types::Position::new(start.0, start.1), lsp_types::Position::new(end.0, end.1))),
        range_length: None,
        text: text.to_string(),
    }
}
fn changed(text: &str, changes: Vec<lsp_types::TextDocumentContentChangeEvent>) -> String {
    let mut doc = lsp::documents::Document::new(text.to_string(), Some(1), UTF16);
    doc.on_did_change(changes, 2);
    doc.contents
}
"""

LOGS = """
/// The levels of air and of tokio, after asking for the configuration.
async fn levels(c: &mut Client) -> (u8, u8) {
    c.notify("workspace/didChangeConfiguration", json!({"settings": null})).await;
    c.fence().await;
    macro_rules! level {
        ($target:literal) => {
            tracing::enabled!(target: $target, tracing::Level::ERROR) as u8
                + tracing::enabled!(target: $target, tracing::Level::WARN) as u8
                + tracing::enabled!(target: $target, tracing::Level::INFO) as u8
                + tracing::enabled!(target: $target, tracing::Level::DEBUG) as u8
                + tracing::enabled!(target: $target, tracing::Level::TRACE) as u8
        };
    }
    (level!("lsp"), level!("tokio"))
}
"""

BUGS = [
    dict(id="D01-start-not-end", property="D01", area="lsp",
         edits=[(FROM, "if range.end.line >= last_start_line {", "if range.start.line >= last_start_line {")],
         needs="two changes in one notification, the second of which begins above the line the first began on and ends on it or below",
         breaks="the second change is made with the line index of the text before the first one, i.e. ends in the wrong place",
         main=DOCS + """
fn main() {
    let text = "first\\nsecond\\nthird\\n";
    assert_eq!(changed(text, vec![change((1, 0), (1, 6), "2"), change((0, 0), (2, 5), "x")]), "x\\n");
    assert_eq!(changed(text, vec![change((2, 0), (2, 0), "x"), change((0, 0), (1, 6), "x")]), "x\\nxthird\\n");
}
"""),
    dict(id="D01-full-then-first-line", property="D01", area="lsp",
         edits=[(FROM, "(incremental, 0)", "(incremental, 1)")],
         needs="one notification with a change of the whole document and then one within its first line, where the two texts' first lines "
               "differ in characters that aren't ASCII",
         breaks="the second change is made with the line index of the text before the first one",
         main=DOCS + """
fn main() {
    let full = lsp_types::TextDocumentContentChangeEvent { range: None, range_length: None, text: "\\u{e9}\\u{e9}\\u{e9}b\\n".to_string() };
    assert_eq!(changed("abcdef\\n", vec![full.clone(), change((0, 3), (0, 4), "x")]), "\\u{e9}\\u{e9}\\u{e9}x\\n");
    assert_eq!(changed("abcdef\\n", vec![full]), "\\u{e9}\\u{e9}\\u{e9}b\\n");
}
"""),
    dict(id="D02-offset-at-insertion", property="D02", area="lsp",
         edits=[(EDIT, "if indel.delete.start() >= offset {", "if indel.delete.start() > offset {")],
         needs="the offset of a place at which exactly a deletion or an insertion begins",
         breaks="the place where a deletion begins is said to be deleted, and the place of an insertion to be after it",
         main="""
use aether_lsp_utils::text_edit::TextEdit;
fn main() {
    let edit = TextEdit::delete(biome_text_size::TextRange::new(2.into(), 4.into()));
    assert_eq!(edit.apply_to_offset(1.into()), Some(1.into()));
    assert_eq!(edit.apply_to_offset(2.into()), Some(2.into()));
    assert_eq!(edit.apply_to_offset(5.into()), Some(3.into()));
}
"""),
    dict(id="D02-sorted-by-start", property="D02", area="lsp",
         edits=[(EDIT, "indels.sort_by_key(|indel| (indel.delete.start(), indel.delete.end()));",
                 "indels.sort_by_key(|indel| indel.delete.start());")],
         needs="an insertion added to a builder after a deletion that begins at the same place",
         breaks="adding them is taken to be overlapping, which is a panic",
         main="""
use aether_lsp_utils::text_edit::TextEdit;
fn main() {
    let mut builder = TextEdit::builder();
    builder.delete(biome_text_size::TextRange::new(2.into(), 4.into()));
    builder.insert(2.into(), "x".to_string());
    let mut text = "abcdef".to_string();
    builder.finish().apply(&mut text);
    assert_eq!(text, "abxef");
}
"""),
    dict(id="D03-end-by-length", property="D03", area="lsp",
         edits=[(TO, "    let end = position_from_offset(range.end(), line_index, position_encoding)?;\n",
                 "    let mut end = position_from_offset(range.end(), line_index, position_encoding)?;\n"
                 "    if start.line == end.line {\n        end.character = start.character + u32::from(range.len());\n    }\n")],
         needs="an edit that replaces characters that aren't ASCII in one line, and UTF-16 positions",
         breaks="the edit's end is too far to the right",
         main=DOCS + """
use biome_text_size::TextRange;
fn main() {
    let text = "a \\u{e9}\\u{e9} b\\n";
    let got = to_proto::range(TextRange::new(2.into(), 6.into()), &LineIndex::new(text), UTF16).unwrap();
    assert_eq!((got.start.character, got.end.character), (2, 4));
    let got = to_proto::range(TextRange::new(0.into(), 1.into()), &LineIndex::new(text), UTF16).unwrap();
    assert_eq!((got.start.character, got.end.character), (0, 1));
}
"""),
    dict(id="L01-first-encoding", property="L01", area="lsp",
         edits=[(SRC + "handlers_state.rs", ".contains(&lsp_types::PositionEncodingKind::UTF8)",
                 ".first()\n        .is_some_and(|kind| *kind == lsp_types::PositionEncodingKind::UTF8)")],
         needs="a client that offers UTF-8, but not as the first encoding",
         breaks="the server chooses UTF-16",
         main=main("""
    for offered in [json!(["utf-8", "utf-16"]), json!(["utf-16", "utf-8"]), json!(["utf-32", "utf-16", "utf-8"])] {
        let mut says = hello(&[]);
        says["capabilities"]["general"] = json!({"positionEncodings": offered});
        let mut c = start(says).await;
        assert_eq!(c.init["capabilities"]["positionEncoding"], "utf-8");
        c.stop().await;
    }
""")),
    dict(id="L01-files-with-configuration", property="L01", area="lsp",
         edits=[(SRC + "capabilities.rs", """            .and_then(|workspace| workspace.did_change_watched_files)
            .and_then(|watched_files| watched_files.dynamic_registration)
            .unwrap_or_default();
""", """            .and_then(|workspace| workspace.did_change_watched_files)
            .and_then(|watched_files| watched_files.dynamic_registration)
            .unwrap_or(dynamic_registration_for_did_change_configuration);
""")],
         needs="a client that supports dynamic registration for configuration and says nothing of it for watched files",
         breaks="the server asks for watched files, which the client doesn't support",
         main=main("""
    let mut says = hello(&[]);
    says["capabilities"]["workspace"]["didChangeWatchedFiles"] = json!({});
    let mut c = start(says).await;
    assert!(c.registered.iter().any(|r| r["method"] == "workspace/didChangeConfiguration"));
    assert!(c.registered.iter().all(|r| r["method"] != "workspace/didChangeWatchedFiles"));
    c.stop().await;
""")),
    dict(id="L02-short-answer", property="L02", area="lsp",
         edits=[(SRC + "handlers_state.rs", """    if configs.len() != n_items {
        return Err(anyhow!(
            "Unexpected number of retrieved configurations: {}/{}",
            configs.len(),
            n_items
        ));
    }
""", """    assert_eq!(
        configs.len(),
        n_items,
        "Unexpected number of retrieved configurations"
    );
""")],
         needs="a client that answers the request for its configuration with fewer values than it was asked for",
         breaks="the main loop ends, and requests are no longer answered",
         main=main("""
    let mut c = start(hello(&[])).await;
    c.open("file:///tmp/vf-none/a.R", "1").await;
    c.fence().await;
    // The same again, with a client that answers with one value too few
    let id = 4711;
    c.open("file:///tmp/vf-none/b.R", "1").await;
    loop {
        let m = c.receive().await;
        if m["method"] == "workspace/configuration" {
            let n = m["params"]["items"].as_array().unwrap().len();
            let result = vec![Value::Null; n - 1];
            c.send(json!({"jsonrpc": "2.0", "id": m["id"], "result": result})).await;
            break;
        }
    }
    let params = json!({"textDocument": {"uri": "file:///tmp/vf-none/a.R"}, "position": at(0, 0), "kind": "FormatTree"});
    c.send(json!({"jsonrpc": "2.0", "id": id, "method": "air/viewFile", "params": params})).await;
    c.wait(id).await.expect("a result");
    c.stop().await;
""")),
    dict(id="L02-error-before-answer", property="L02", area="lsp",
         edits=[(SRC + "main_loop.rs", """    let response = response.map(into_lsp_response);

    // Ignore errors from a closed channel. This indicates the request has
    // been cancelled on the tower-lsp side.
    let _ = response_tx.send(response);

    out
""", """    if let Ok(response) = response {
        // Ignore errors from a closed channel. This indicates the request has
        // been cancelled on the tower-lsp side.
        let _ = response_tx.send(Ok(into_lsp_response(response)));
    }

    out
""")],
         needs="a request that is an error, e.g. about a document that isn't open",
         breaks="it's never answered",
         main=main("""
    let mut c = start(hello(&[])).await;
    c.open("untitled:a", "1").await;
    c.view("untitled:a").await.expect("a result");
    c.view("untitled:b").await.expect_err("not a document");
    c.view("untitled:a").await.expect("a result");
    c.stop().await;
""")),
    dict(id="L03-broken-keeps-old", property="L03", area="lsp",
         edits=[(SRC + "workspaces.rs", """            // Clear existing settings up front, regardless of what happens when reloading.
            // Done in a tight scope to avoid simultaneous mutable and immutable borrows.
            {
                let workspace_settings_resolver = workspace_match.value_mut();
                workspace_settings_resolver.clear();
            }

""", ""), (SRC + "workspaces.rs", """            let workspace_settings_resolver = workspace_match.value_mut();

            for DiscoveredSettings {""", """            let workspace_settings_resolver = workspace_match.value_mut();
            workspace_settings_resolver.clear();

            for DiscoveredSettings {""")],
         needs="an air.toml that becomes invalid, or unreadable, while the folder is open",
         breaks="the folder keeps the settings of before",
         main=main("""
    write("w/air.toml", "[format]\\nindent-width = 5");
    let mut c = start(hello(&["w"])).await;
    let doc = url("w/a.R");
    c.open(&doc, "{1}").await;
    assert_eq!(c.format(&doc, "{1}").await, "{\\n     1\\n}\\n");
    write("w/air.toml", "[format]\\nindent-width = ");
    c.changed("w/air.toml").await;
    assert_eq!(c.format(&doc, "{1}").await, "{\\n   1\\n}\\n");
    c.stop().await;
""")),
    dict(id="L03-untitled-first", property="L03", area="lsp",
         edits=[(SRC + "workspaces.rs", "self.path_to_settings_resolver.len() == 1 {", "self.path_to_settings_resolver.len() >= 1 {")],
         needs="an untitled document with two open folders, the first of which has an air.toml",
         breaks="it is formatted with the first folder's settings",
         main=main("""
    write("v/air.toml", "[format]\\nindent-width = 5");
    write("w/air.toml", "[format]\\nindent-width = 7");
    let mut c = start(hello(&["v"])).await;
    c.open("untitled:a", "{1}").await;
    assert_eq!(c.format("untitled:a", "{1}").await, "{\\n     1\\n}\\n");
    c.folders(&["w"], &[]).await;
    assert_eq!(c.format("untitled:a", "{1}").await, "{\\n   1\\n}\\n");
    c.stop().await;
""")),
    dict(id="L03-one-broken-folder", property="L03", area="lsp",
         edits=[(SRC + "workspaces.rs", """                    tracing::error!("Failed to reload workspace for '{workspace_path}':\\n{error}");
                    continue;
""", """                    tracing::error!("Failed to reload workspace for '{workspace_path}':\\n{error}");
                    return changed;
""")],
         needs="nested open folders of which one has a broken air.toml, and a change of a file of both",
         breaks="the other folder isn't reloaded",
         main=main("""
    for order in [["w", "w/in"], ["w/in", "w"]] {
        write("w/air.toml", "[format]\\nindent-width = 5");
        write("w/in/air.toml", "[format]\\nindent-width = 6");
        let mut c = start(hello(&order)).await;
        let doc = url("w/in/a.R");
        c.open(&doc, "{1}").await;
        assert_eq!(c.format(&doc, "{1}").await, "{\\n      1\\n}\\n");
        // The outer folder has a broken file, the inner one doesn't
        write("w/air.toml", "[format]\\nindent-width = ");
        write("w/in/air.toml", "[format]\\nindent-width = 7");
        c.changed("w/in/air.toml").await;
        assert_eq!(c.format(&doc, "{1}").await, "{\\n       1\\n}\\n");
        c.stop().await;
    }
""")),
    dict(id="L04-same-words-same-tree", property="L04", area="lsp",
         edits=[(SRC + "documents.rs", """        from_proto::apply_text_changes(
            &mut self.contents,
""", """        // What is typed most are spaces, which mean nothing
        let blank = changes.iter().all(|change| {
            let multiline = change.range.is_none_or(|r| r.start != r.end);
            !multiline && !change.text.is_empty() && change.text.chars().all(|c| c == ' ')
        });

        from_proto::apply_text_changes(
            &mut self.contents,
"""), (SRC + "documents.rs", """        self.parse = air_r_parser::parse(&self.contents, Default::default());
        self.version = Some(new_version);
""", """        if !blank {
            self.parse = air_r_parser::parse(&self.contents, Default::default());
        }
        self.version = Some(new_version);
""")],
         needs="inserting blanks where they mean something, e.g. in a string or between `<` and `-`, before formatting",
         breaks="the document is formatted from the tree of the text before",
         main=main("""
    let mut c = start(hello(&[])).await;
    let uri = "untitled:a";
    c.open(uri, "x  <- \\"ab\\"\\n").await;
    c.change(uri, json!([{"range": {"start": at(0, 8), "end": at(0, 8)}, "text": " "}])).await;
    assert_eq!(c.format(uri, "x  <- \\"a b\\"\\n").await, "x <- \\"a b\\"\\n");
    c.stop().await;
""")),
    dict(id="L04-first-width-kept", property="L04", area="lsp",
         edits=[(SRC + "handlers_state.rs", "doc.settings.indent_width = Some(indent_width_from_usize(opts.tab_size as usize));",
                 "doc.settings\n        .indent_width\n        .get_or_insert(indent_width_from_usize(opts.tab_size as usize));")],
         needs="a second request to format a document with another width, or one after the client told its own",
         breaks="the document is indented as the first one said",
         main=main("""
    let mut c = start(hello(&[])).await;
    let uri = "untitled:a";
    c.open(uri, "{1}").await;
    for (width, want) in [(3, "{\\n   1\\n}\\n"), (2, "{\\n  1\\n}\\n")] {
        let options = json!({"tabSize": width, "insertSpaces": true});
        let edits = c.request("textDocument/formatting", json!({"textDocument": {"uri": uri}, "options": options})).await.unwrap();
        assert_eq!(apply("{1}", &edits), want);
    }
    c.stop().await;
""")),
    dict(id="L05-from-the-comment", property="L05", area="lsp",
         edits=[(SRC + "handlers_format.rs", ".skip_while(|node| !node.text_range_with_trivia().contains(range.start()))",
                 ".skip_while(|node| node.text_trimmed_range().end() < range.start())")],
         needs="a selection that begins in the comment behind a statement",
         breaks="that statement isn't formatted",
         main=main("""
    let mut c = start(hello(&[])).await;
    let text = "1+1 # comment\\n2+2\\n3+3\\n";
    c.open("untitled:a", text).await;
    assert_eq!(c.format_range("untitled:a", text, at(0, 7), at(1, 1)).await, "1 + 1 # comment\\n2 + 2\\n3+3\\n");
    assert_eq!(c.format_range("untitled:a", text, at(0, 1), at(0, 2)).await, "1 + 1 # comment\\n2+2\\n3+3\\n");
    c.stop().await;
""")),
    dict(id="L05-comment-after", property="L05", area="lsp",
         edits=[(SRC + "handlers_format.rs", """        .flat_map(|trivia| trivia.pieces().rev())
        .find_map(|piece| {
            if piece.is_whitespace() || piece.is_newline() {
                None
            } else {
                Some(piece.text_range().end())
            }
        })
        .unwrap_or_else(|| elem.text_trimmed_range().end());
""", """        .flat_map(|trivia| trivia.pieces())
        .take_while(|piece| !piece.is_whitespace() && !piece.is_newline())
        .map(|piece| piece.text_range().end())
        .last()
        .unwrap_or_else(|| elem.text_trimmed_range().end());
""")],
         needs="a selection whose last statement has a comment behind it, after a blank",
         breaks="the comment is there twice",
         main=main("""
    let mut c = start(hello(&[])).await;
    let text = "1+1\\n2+2# b\\n3+3 # c\\n";
    c.open("untitled:a", text).await;
    assert_eq!(c.format_range("untitled:a", text, at(0, 1), at(0, 2)).await, "1 + 1\\n2+2# b\\n3+3 # c\\n");
    assert_eq!(c.format_range("untitled:a", text, at(1, 1), at(2, 2)).await, "1+1\\n2 + 2 # b\\n3 + 3 # c\\n");
    c.stop().await;
""")),
    dict(id="L05-second-list", property="L05", area="lsp",
         edits=[(SRC + "handlers_format.rs", """        .take_while(|pair| pair.0 == pair.1)
        .map(|pair| pair.0)
        .last()
""", """        .filter(|pair| pair.0 == pair.1)
        .map(|pair| pair.0)
        .take(3)
        .last()
""")],
         needs="a selection within braces that are in braces which are in braces",
         breaks="statements around the ones selected are formatted too",
         main=main("""
    let mut c = start(hello(&[])).await;
    let text = "{\\n  a+1\\n  {\\n    b+1\\n    {\\n      c+1\\n      d+1\\n    }\\n  }\\n}\\n";
    c.open("untitled:a", text).await;
    let want = text.replace("d+1", "d + 1");
    assert_eq!(c.format_range("untitled:a", text, at(6, 7), at(6, 8)).await, want);
    let want = text.replace("a+1", "a + 1");
    assert_eq!(c.format_range("untitled:a", text, at(1, 3), at(1, 4)).await, want);
    c.stop().await;
""")),
    dict(id="L06-last-change-wins", property="L06", area="lsp",
         edits=[(SRC + "handlers_state.rs", """        if lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri)
        {
            changed_settings = true;
        }
""", """        changed_settings = lsp_state
            .workspace_settings_resolver
            .reload_workspaces_matched_by_url(&change.uri);
""")],
         needs="a notification of several changed files of which the last isn't a configuration file of an open folder",
         breaks="the client isn't told the new settings",
         main=main("""
    write("w/air.toml", "[format]\\nindent-width = 5");
    let mut c = start(hello(&["w"])).await;
    c.sync = true;
    c.open(&url("w/a.R"), "1").await;
    c.fence().await;
    c.told.clear();
    write("w/air.toml", "[format]\\nindent-width = 6");
    let changes = json!([{"uri": url("w/air.toml"), "type": 2}, {"uri": url("elsewhere/air.toml"), "type": 2}]);
    c.notify("workspace/didChangeWatchedFiles", json!({"changes": changes})).await;
    c.fence().await;
    assert_eq!(c.told.len(), 1, "told once");
    assert_eq!(c.told[0][0]["format"]["indent_width"], 6);
    c.stop().await;
""")),
    dict(id="L06-told-defaults", property="L06", area="lsp",
         edits=[(SRC + "notifications/sync_file_settings.rs", "                    WorkspaceSettings::Fallback(_) => None,\n",
                 "                    WorkspaceSettings::Fallback(_) if url.scheme() != \"file\" => None,\n"
                 "                    WorkspaceSettings::Fallback(settings) => Some(FileSettings {\n"
                 "                        url: url.to_string(),\n"
                 "                        format: FileFormatSettings::from_format_settings(&settings.format),\n"
                 "                    }),\n")],
         needs="a file without air.toml, and a client that wants file settings",
         breaks="the client is told the defaults, which override its own settings",
         main=main("""
    write("w/air.toml", "[format]\\nindent-width = 5");
    write("v/a.R", "1");
    let mut c = start(hello(&["w", "v"])).await;
    c.sync = true;
    c.open(&url("v/a.R"), "1").await;
    c.open(&url("w/a.R"), "1").await;
    c.fence().await;
    let told: Vec<Value> = c.told.iter().flat_map(|t| t.as_array().unwrap().clone()).collect();
    assert!(told.iter().any(|t| t["url"] == url("w/a.R")));
    assert!(told.iter().all(|t| t["url"] != url("v/a.R")));
    c.stop().await;
""")),
    dict(id="L07-kept-directives", property="L07", area="lsp",
         edits=[(SRC + "logging.rs", """                self.dependency_log_levels = dependency_log_levels;
            }
            Err""", """                if dependency_log_levels.is_some() {
                    self.dependency_log_levels = dependency_log_levels;
                }
            }
            Err""")],
         needs="directives for dependencies that are taken back, and later set again as they were",
         breaks="setting them again has no effect",
         main=LOGS + main("""
    tracing::subscriber::LISTEN.set(true);
    let mut c = start(hello(&[])).await;
    c.levels = [json!("error"), json!("tokio=info")];
    assert_eq!(levels(&mut c).await, (1, 3));
    c.levels = [json!("error"), Value::Null];
    assert_eq!(levels(&mut c).await, (1, 0));
    c.levels = [json!("error"), json!("tokio=info")];
    assert_eq!(levels(&mut c).await, (1, 3));
    c.stop().await;
""")),
    dict(id="L07-quiet-dependencies", property="L07", area="lsp",
         edits=[(SRC + "logging.rs", """    // Apply the air log level to each air crate that logs
    for target in crates::AIR_CRATE_NAMES {
        filter = filter.with_target(*target, log_level);
    }
""", """    // Apply the air log level to each air crate that logs
    if filter.default_level() < Some(tracing_subscriber::filter::LevelFilter::from_level(log_level)) {
        for target in crates::AIR_CRATE_NAMES {
            filter = filter.with_target(*target, log_level);
        }
    }
""")],
         needs="a directive for all dependencies with a level at or above that of air",
         breaks="air logs at the level of its dependencies (or as directives for its own crates say)",
         main=LOGS + main("""
    tracing::subscriber::LISTEN.set(true);
    let mut c = start(hello(&[])).await;
    c.levels = [json!("error"), json!("info")];
    assert_eq!(levels(&mut c).await, (1, 3));
    c.levels = [json!("debug"), json!("info")];
    assert_eq!(levels(&mut c).await, (4, 3));
    c.stop().await;
""")),
    dict(id="L07-first-options-whole", property="L07", area="lsp",
         edits=[(SRC + "handlers_state.rs", """        log_tx,
        log_level,
        dependency_log_levels,
        params.client_info.as_ref(),
""", """        log_tx,
        log_level,
        log_level.and(dependency_log_levels),
        params.client_info.as_ref(),
""")],
         needs="directives for dependencies at the start, without a level",
         breaks="the directives count as not given",
         main=LOGS + main("""
    tracing::subscriber::LISTEN.set(true);
    let mut hi = hello(&[]);
    hi["initializationOptions"] = json!({"dependencyLogLevels": "tokio=warn"});
    let mut c = start(hi).await;
    c.answers = false;
    assert_eq!(levels(&mut c).await, (3, 2));
    c.stop().await;
""")),
]
