BUGS = [
    dict(id="A01-give-up-after-error", property="A01", area="app",
         edits=[("crates/air/src/commands/format/paths.rs",
                 """                        Ok(()) => None,
                        Err(err) => Some(FormatPathError::Write(path, err)),
""",
                 """                        Ok(()) => None,
                        Err(err) if err.kind() == io::ErrorKind::PermissionDenied => None,
                        Err(err) => Some(FormatPathError::Write(path, err)),
""")],
         needs="a file that may be read and not written (and a user who is not root)",
         breaks="a file that could not be written is not reported and the status is 0",
         script="""
chmod 755 .. . ; mkdir p; echo x > p/x.R; chmod 444 p/x.R
setpriv --reuid 65534 --clear-groups "$AIR" format p; [ $? = 255 ] || fail "status without error"
"""),
    dict(id="A01-same-length", property="A01", area="app",
         edits=[("crates/workspace/src/format.rs",
                 """    if source.len() == formatted.len() && source == formatted.as_str() {""",
                 """    if source.trim_end() == formatted.trim_end() {""")],
         needs="a text whose only difference from its formatting is the end of the file",
         breaks="a missing final newline is not added",
         script="""
echo x > x.R; "$AIR" format x.R; printf '%s' "$(cat x.R)" > y.R; "$AIR" format y.R; cmp x.R y.R || fail "final newline"
"""),
    dict(id="A01-detect-on-path", property="A01", area="app",
         edits=[("crates/air/src/commands/format/paths.rs",
                 """        FormattedSource::Changed(changed) => std::fs::write(path, &changed),
""",
                 """        FormattedSource::Changed(changed) => {
            let path = path.as_ref();
            let _ = std::fs::remove_file(path);
            std::fs::write(path, &changed)
        }
""")],
         needs="a symbolic link to an R file",
         breaks="a link is replaced by a file and what it leads to stays as it was",
         script="""
echo x > x.txt; ln -s x.txt x.R; "$AIR" format x.R; [ -L x.R ] || fail "link replaced"
"""),
    dict(id="A02-failure-before-error", property="A02", area="app",
         edits=[("crates/air/src/commands/format/paths.rs",
                 """            if errors.is_empty() {
                if paths.is_empty() {
                    Ok(ExitStatus::Success)
                } else {
                    Ok(ExitStatus::Failure)
                }
            } else {
                Ok(ExitStatus::Error)
            }
""",
                 """            if !paths.is_empty() {
                Ok(ExitStatus::Failure)
            } else if errors.is_empty() {
                Ok(ExitStatus::Success)
            } else {
                Ok(ExitStatus::Error)
            }
""")],
         needs="a file that does not parse next to one that would change",
         breaks="errors are not reflected in the status of --check",
         script="""
echo x > x.R; echo 'SYNTAX ERROR' > y.R; "$AIR" format --check .; [ $? = 255 ] || fail status
"""),
    dict(id="A03-path-as-given", property="A03", area="app",
         edits=[("crates/air/src/commands/format/stdin.rs",
                 """    let path = fs::normalize_path(path);

    let mut resolver""",
                 """    let path = std::path::absolute(path)?;

    let mut resolver""")],
         needs="a path with `..` that leads out of a directory with a configuration or an exclusion",
         breaks="excludes and configurations of directories that the path merely mentions apply",
         script="""
mkdir renv; echo x | "$AIR" format --stdin-file-path renv/../x.R | grep -q '^#:' || fail "not formatted"
"""),
    dict(id="A03-force-keeps-excludes", property="A03", area="app",
         edits=[("crates/air/src/commands/format.rs",
                 """        Some(path) => stdin::format(path, mode, exclude, include),""",
                 """        Some(path) => stdin::format(path, mode, discovery::Exclude::Matched, include),""")],
         needs="--force with an excluded file from stdin",
         breaks="stdin of an excluded file is passed through even if forced",
         script="""
echo x | "$AIR" format --force --stdin-file-path renv/x.R | grep -q '^#:' || fail "not formatted"
"""),
    dict(id="W01-no-parents", property="W01", area="app",
         edits=[("crates/workspace/src/discovery.rs",
                 """    builder.parents(true);""",
                 """    builder.parents(paths.is_empty());""")],
         needs="several directories are asked for, and a .gitignore above them",
         breaks="what git ignores is formatted when two directories are asked for",
         script="""
mkdir .git a b; echo z.R > .gitignore; echo x > a/z.R; echo x > b/z.R; "$AIR" format a b; grep -q '#:' a/z.R b/z.R && fail ignored
exit 0
"""),
    dict(id="W01-directories-alone", property="W01", area="app",
         edits=[("crates/workspace/src/discovery.rs",
                 """        let is_directly_supplied = entry.depth() == 0;

        let is_directory = entry.file_type().is_none_or(|ft| ft.is_dir());
""",
                 """        let is_directory = entry.file_type().is_none_or(|ft| ft.is_dir());
        let is_directly_supplied = entry.depth() == 0 && !is_directory;
""")],
         needs="a directory below an excluded one is asked for",
         breaks="asking for renv/library formats what is in it",
         script="""
mkdir -p renv/library; echo x > renv/library/x.R; "$AIR" format renv/library; grep -q '#:' renv/library/x.R && fail excluded
exit 0
"""),
    dict(id="W02-repository-root", property="W02", area="app",
         edits=[("crates/workspace/src/discovery.rs",
                 """                });
                break;
            }
""",
                 """                });
                break;
            }

            if ancestor.join(".git").is_file() {
                // The root of a worktree or submodule
                break;
            }
""")],
         needs="a `.git` file (a worktree or submodule) between a file and its configuration",
         breaks="the configuration above a submodule does not apply to it",
         script="""
mkdir sub; touch sub/.git; printf '[format]\\nline-width = 20\\n' > air.toml; echo x > sub/x.R; "$AIR" format sub
grep -q '"width":20' sub/x.R || fail configuration
"""),
    dict(id="W02-exists", property="W02", area="app",
         edits=[("crates/workspace/src/toml.rs",
                 """    let toml = path.as_ref().join("air.toml");
    if toml.is_file() {
        return Some(toml);""",
                 """    let toml = path.as_ref().join("air.toml");
    if toml.exists() {
        return Some(toml);""")],
         needs="a directory named air.toml",
         breaks="a directory named air.toml is taken for a configuration, and the run fails",
         script="""
mkdir air.toml; echo x > x.R; "$AIR" format x.R || fail status
"""),
    dict(id="S03-defaults-only-without-excludes", property="S03", area="app",
         edits=[("crates/workspace/src/toml_options.rs",
                 """            exclude: match format.exclude {
                Some(exclude) => {""",
                 """            exclude: match format.exclude.filter(|exclude| exclude.iter().any(|p| !p.starts_with('!'))) {
                Some(exclude) => {"""),
                ("crates/workspace/src/toml_options.rs",
                 """            default_exclude: match format.default_exclude.unwrap_or(true) {""",
                 """            default_exclude: match format.default_exclude.unwrap_or(!matches!(format.skip, Some(_)) || format.line_width.is_none()) {""")],
         needs="a configuration with both `skip` and `line-width` and an excluded path",
         breaks="the default excludes are lost when other options are set",
         script="""
printf '[format]\\nline-width = 20\\nskip = ["a"]\\n' > air.toml; echo x > cpp11.R; "$AIR" format cpp11.R
grep -q '#:' cpp11.R && fail excluded
exit 0
"""),
    dict(id="S03-tables-replaced", property="S03", area="app",
         edits=[("crates/workspace/src/toml_options.rs",
                 """        let table = if format.default_table.unwrap_or(true) {""",
                 """        let table = if format.default_table.unwrap_or(format.table.is_none() || format.skip.is_none()) {""")],
         needs="both `skip` and `table` set, `default-table` not",
         breaks="the default tables are lost",
         script="""
printf '[format]\\ntable = ["a"]\\nskip = ["b"]\\n' > air.toml; echo x > x.R; "$AIR" format x.R
grep -q tribble x.R || fail table
"""),
]
