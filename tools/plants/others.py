BUGS = [
    dict(id="P01-any-case", property="P01", area="patterns",
         edits=[("crates/workspace/src/file_patterns.rs",
                 """        I: IntoIterator<Item = &'str str>,
    {
        let mut builder = GitignoreBuilder::new(root);
""",
                 """        I: IntoIterator<Item = &'str str>,
    {
        let mut builder = GitignoreBuilder::new(root);
        let _ = builder.case_insensitive(cfg!(unix));
""")],
         needs="a path that matches a pattern except for case",
         breaks="patterns match regardless of case",
         main='''fn main() {
    let e = settings::exclude("/w", &["Data/"]);
    assert!(e.matched_path_or_any_parents("/w/data/x.R", false).is_none());
    assert!(e.matched_path_or_any_parents("/w/Data/x.R", false).is_some());
}
'''),
    dict(id="P02-parents-as-asked", property="P02", area="patterns",
         edits=[("crates/workspace/src/file_patterns.rs",
                 """            match self.matched(parent, /* is_directory */ true) {""",
                 """            match self.matched(parent, is_directory || path.extension().is_some()) {""")],
         needs="a file that is two levels below `renv`",
         breaks="only files directly below an excluded directory are excluded when asked for by themselves",
         main='''fn main() {
    let e = settings::DefaultExcludePatterns::default();
    assert!(e.matched_path_or_any_parents("/w/renv/library/x.R", false).is_some());
    assert!(e.matched_path_or_any_parents("/w/x.R", false).is_none());
}
'''),
    dict(id="P02-import-prefix", property="P02", area="patterns",
         edits=[("crates/workspace/src/settings/default_exclude_patterns.rs",
                 """    "**/import-standalone-*.R",""",
                 """    "**/import-standalone*.R",""")],
         needs="a file named `import-standalone.R`",
         breaks="a file that is not generated is excluded",
         main='''fn main() {
    let e = settings::DefaultExcludePatterns::default();
    assert!(e.matched_path_or_any_parents("/w/R/import-standalone.R", false).is_none());
}
'''),
    dict(id="Z01-args-only-with-path", property="Z01", area="zed",
         edits=[("editors/zed/src/lib.rs",
                 """        let binary_args = binary_settings
            .as_ref()
            .and_then(|binary_settings| binary_settings.arguments.clone());
""",
                 """        let binary_args = binary_settings
            .as_ref()
            .and_then(|binary_settings| binary_settings.arguments.clone())
            .filter(|arguments| !arguments.is_empty());
""")],
         needs="arguments configured as an empty list",
         breaks="no arguments at all cannot be configured",
         main='''use zed_extension_api::{Architecture, Extension, GithubRelease, GithubReleaseAsset, LanguageServerId, Os, Worktree, HOST};
fn ask(e: &mut Box<dyn Extension>) -> Result<zed_extension_api::Command, String> {
    e.language_server_command(&LanguageServerId("air".into()), &Worktree(1))
}
fn main() {
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        h.settings.insert("air".into(), r#"{"binary": {"path": "/bin/air", "arguments": []}}"#.into());
    });
    let c = ask(&mut air::__build()).unwrap();
    assert!(c.args.is_empty());
}
'''),
    dict(id="Z02-cached-path-not-checked", property="Z02", area="zed",
         edits=[("editors/zed/src/lib.rs",
                 """            if fs::metadata(path).is_ok_and(|stat| stat.is_file()) {
                return Ok(AirBinary {""",
                 """            if fs::metadata(path).is_ok_and(|stat| stat.is_file()) || path.ends_with("air.exe") {
                return Ok(AirBinary {""")],
         needs="Windows, and a downloaded binary that was removed since",
         breaks="a binary that is not there any more is started",
         main='''use zed_extension_api::{Architecture, Extension, GithubRelease, GithubReleaseAsset, LanguageServerId, Os, Worktree, HOST};
fn ask(e: &mut Box<dyn Extension>) -> Result<zed_extension_api::Command, String> {
    e.language_server_command(&LanguageServerId("air".into()), &Worktree(1))
}
fn main() {
    HOST.with(|h| {
        let mut h = h.borrow_mut();
        h.platform = Some((Os::Windows, Architecture::X8664));
        h.release = Some(GithubRelease { version: "1.0.0".into(), assets: vec![GithubReleaseAsset {
            name: "air-x86_64-pc-windows-msvc.zip".into(), download_url: "u".into() }] });
        h.download = Some(Box::new(|_, dir, _| {
            std::fs::create_dir_all(dir).unwrap();
            std::fs::write(format!("{dir}/air.exe"), "x").unwrap();
            Ok(())
        }));
    });
    let mut e = air::__build();
    let first = ask(&mut e).unwrap().command;
    assert!(std::path::Path::new(&first).exists());
    std::fs::remove_file(&first).unwrap();
    let again = ask(&mut e).unwrap().command;
    assert!(std::path::Path::new(&again).exists());
}
'''),
    dict(id="X01-env-restored-to-empty", property="X01", area="xtask",
         edits=[("xtask/src/glue.rs",
                 """        self.pushenv_stack.push((var.clone(), env::var_os(&var)));""",
                 """        let old = self.pushenv_stack.iter().find(|it| it.0 == var).map(|it| it.1.clone());
        self.pushenv_stack.push((var.clone(), old.unwrap_or_else(|| env::var_os(&var))));""")],
         needs="the same variable set in two nested scopes",
         breaks="leaving the inner scope restores the value from before the outer one",
         main='''fn main() {
    let _a = xtask::pushenv("DEMO_VAR", "1");
    {
        let _b = xtask::pushenv("DEMO_VAR", "2");
    }
    assert_eq!(std::env::var("DEMO_VAR").as_deref(), Ok("1"));
}
'''),
    dict(id="X01-quoted-empty-word", property="X01", area="xtask",
         edits=[("xtask/src/glue.rs",
                 """        if in_quotes {
            res.push(string_piece.to_string())""",
                 """        if in_quotes && !string_piece.trim().is_empty() {
            res.push(string_piece.to_string())""")],
         needs="a quoted argument of white space only",
         breaks="an argument is lost",
         main='''fn main() {
    let out = xtask::run!("printf '<%s>' ' ' x"; echo = false).unwrap();
    assert_eq!(out, "< ><x>");
}
'''),
    dict(id="X02-copy-leaves-directory", property="X02", area="xtask",
         edits=[("xtask/src/glue.rs",
                 """        fs::copy(from, to)
            .with_context""",
                 """        to.parent().map_or(Ok(()), fs::create_dir_all)?;
        fs::copy(from, to)
            .with_context""")],
         needs="copying a missing file into a missing directory",
         breaks="a failing copy leaves directories behind",
         main='''fn main() {
    assert!(xtask::glue::fs2::copy("missing", "new/file").is_err());
    assert!(!std::path::Path::new("new").exists());
}
'''),
    dict(id="P01-trimmed-pattern", property="P01", area="patterns",
         edits=[("crates/workspace/src/settings/exclude_patterns.rs",
                 """        Ok(Self(FilePatterns::try_from_iter(root, patterns)?))""",
                 """        // `./dir` is `/dir`
        let patterns = patterns.into_iter().map(|it| it.trim_start_matches('.'));
        Ok(Self(FilePatterns::try_from_iter(root, patterns)?))""")],
         needs="a pattern that starts with a dot, such as `.Rproj.user`",
         breaks="hidden files and directories cannot be excluded by name",
         main='''fn main() {
    let e = settings::exclude("/w", &[".Rproj.user/"]);
    assert!(e.matched_path_or_any_parents("/w/.Rproj.user/x.R", false).is_some());
}
'''),
]
