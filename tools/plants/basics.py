BUGS = [
    dict(id="R01-contiguous-matches", property="R01", area="resolve",
         edits=[("crates/workspace/src/resolve.rs",
                 """        let path: PathBuf = path.into();

        self.items
            .iter()
            .filter(move |item| path.starts_with(item.path()))""",
                 """        let path: PathBuf = path.into();
        let first = self.items.partition_point(|item| !path.starts_with(item.path()) && item.path() < path.as_path());

        self.items[first..]
            .iter()
            .take_while(move |item| path.starts_with(item.path()))""")],
         needs="a sibling directory that sorts between two directories that enclose the file",
         breaks="listing the enclosing settings misses the inner one",
         main='''fn main() {
    let mut r = PathResolver::new(0);
    r.add("/w", 1);
    r.add("/w/a", 2);
    r.add("/w/b", 3);
    assert_eq!(r.matches("/w/b/x.R").map(|i| *i.value()).collect::<Vec<_>>(), [1, 3]);
}
'''),
    dict(id="R01-swap-remove", property="R01", area="resolve",
         edits=[("crates/workspace/src/resolve.rs",
                 """                let item = self.items.remove(index);
                Some(item.value)""",
                 """                let item = self.items.swap_remove(index);
                Some(item.value)""")],
         needs="a removal in front of two directories of which one encloses the other",
         breaks="items lose their order, so an outer directory wins or later additions are duplicated",
         main='''fn main() {
    let mut r = PathResolver::new(0);
    r.add("/w/a", 1);
    r.add("/w/b", 2);
    r.add("/w/b/c", 3);
    assert_eq!(r.remove("/w/a"), Some(1));
    assert_eq!(*r.resolve_or_fallback("/w/b/c/x.R"), 3);
}
'''),
    dict(id="E01-native-is-inferred", property="E01", area="patterns",
         edits=[("crates/workspace/src/settings/line_ending.rs",
                 """            LineEnding::Native => settings::LineEnding::Lf,""",
                 """            LineEnding::Native => line_ending::infer(source.trim_end()),""")],
         needs="`native` with a text of CRLF endings",
         breaks="`native` keeps CRLF on Unix",
         main='''fn main() {
    assert_eq!(settings::ending("native", "a\\r\\nb\\r\\n"), ::settings::LineEnding::Lf);
}
'''),
    dict(id="C01-tab-before-command", property="C01", area="comments",
         edits=[("crates/comments/src/directive.rs",
                 """    let (category, text) = text.split_once(':')?;
    let text = text.trim();
""",
                 """    let (category, text) = text.split_once(':')?;
    let text = text.trim_matches(' ');
""")],
         needs="a tab in front of or behind the command",
         breaks="a directive with a tab is none",
         main='''fn main() {
    assert!(comments::parse_comment_directive("# fmt:\\tskip").is_some());
}
'''),
    dict(id="C01-generated-anywhere", property="C01", area="comments",
         edits=[("crates/comments/src/directive.rs",
                 """    if text.starts_with("Generated by") {""",
                 """    if text.trim_start_matches('%').trim_start().starts_with("Generated by") {""")],
         needs="a comment starting with `% Generated by`, as in Rd files",
         breaks="comments of other forms make a file a skipped one",
         main='''fn main() {
    assert!(comments::parse_special_skip_file("# % Generated by roxygen2").is_none());
}
'''),
    dict(id="F01-dotfile-extension", property="F01", area="fs",
         edits=[("crates/fs/src/lib.rs",
                 """    path.extension()
        .and_then(OsStr::to_str)
        .is_some_and(is_r_extension)""",
                 """    path.file_name()
        .and_then(OsStr::to_str)
        .and_then(|name| name.rsplit_once('.'))
        .is_some_and(|(_, extension)| is_r_extension(extension))""")],
         needs="a hidden file named `.R`",
         breaks="a file without an extension is taken for an R file",
         main='''fn main() {
    assert!(!fs::has_r_extension(std::path::Path::new("dir/.R")));
    assert!(fs::has_r_extension(std::path::Path::new("dir/a.R")));
}
'''),
    dict(id="F01-relative-by-text", property="F01", area="fs",
         edits=[("crates/fs/src/lib.rs",
                 """    if let Ok(path) = path.strip_prefix(cwd) {
        return format!("{}", path.display());
    }""",
                 """    let text = path.display().to_string();
    if let Some(rest) = text.strip_prefix(&cwd.display().to_string()) {
        return rest.trim_start_matches('/').to_string();
    }""")],
         needs="a directory next to the working directory whose name starts with the working directory's",
         breaks="a path elsewhere is shown as if it were below the working directory",
         main='''fn main() {
    let cwd = std::env::current_dir().unwrap();
    let other = format!("{}2/x.R", cwd.display());
    assert_eq!(fs::relativize_path(&other), other);
}
'''),
    dict(id="S01-truncated-usize", property="S01", area="settings",
         edits=[("crates/settings/src/indent_width.rs",
                 """        u8::try_from(value)
            .map_err(|_| IndentWidthFromIntError(value))?
            .try_into()""",
                 """        (value as u8)
            .try_into()
            .map_err(|_: IndentWidthFromIntError| IndentWidthFromIntError(value))""")],
         needs="an indent width beyond 256 given as usize whose low byte is valid",
         breaks="258 is accepted as 2",
         main='''fn main() {
    assert!(settings::IndentWidth::try_from(258usize).is_err());
    assert!(settings::IndentWidth::try_from(2usize).is_ok());
}
'''),
    dict(id="S01-clamped-width", property="S01", area="settings",
         edits=[("crates/settings/src/line_width.rs",
                 """        let value: u16 = serde::Deserialize::deserialize(deserializer)?;
        let line_width = LineWidth::try_from(value).map_err(serde::de::Error::custom)?;
        Ok(line_width)""",
                 """        let value: NonZeroU16 = serde::Deserialize::deserialize(deserializer)?;
        Ok(LineWidth(value.min(NonZeroU16::new(Self::MAX).unwrap())))""")],
         needs="a configured line width beyond 320",
         breaks="a width that is too large is silently clamped instead of rejected",
         main='''fn main() {
    assert!(serde_json::from_str::<settings::LineWidth>("321").is_err());
    assert!(serde_json::from_str::<settings::LineWidth>("320").is_ok());
}
'''),
    dict(id="S02-merge-unsorted", property="S02", area="settings",
         edits=[("crates/settings/src/table.rs",
                 """        let mut names = self.as_slice().to_owned();
        names.extend_from_slice(table.as_slice());
        Table::new(names)""",
                 """        let mut names = self.as_slice().to_owned();
        // Both are sorted already
        let at = names.partition_point(|name| name < table.as_slice().first().unwrap_or(name));
        names.splice(at..at, table.as_slice().iter().cloned());
        Table(SortedStrings::from_sorted(names))"""),
                ("crates/settings/src/sorted_strings.rs",
                 """    /// Returns the sorted slice.""",
                 """    /// From strings that are sorted
    pub(crate) fn from_sorted(strings: Vec<String>) -> Self {
        Self(strings.into())
    }

    /// Returns the sorted slice.""")],
         needs="merging two lists whose names interleave",
         breaks="the merged list is not sorted, so lookups miss names",
         main='''fn main() {
    let t = |names: &[&str]| settings::Table::new(names.iter().map(|n| n.to_string()).collect());
    let m = t(&["a", "f", "g"]).merge(&t(&["b", "z"]));
    assert!(["a", "b", "f", "g", "z"].iter().all(|n| m.contains(n)));
}
'''),
    dict(id="S02-case-insensitive-sort", property="S02", area="settings",
         edits=[("crates/settings/src/sorted_strings.rs",
                 """        strings.sort_unstable();""",
                 """        strings.sort_unstable_by_key(|name| name.to_lowercase());""")],
         needs="names of both cases in one list",
         breaks="binary search is by code points, so some names are not found",
         main='''fn main() {
    let t = settings::Table::new(["a", "B", "c", "D"].iter().map(|n| n.to_string()).collect());
    assert!(["a", "B", "c", "D"].iter().all(|n| t.contains(n)));
}
'''),
    dict(id="U01-comment-column", property="U01", area="ungrammar",
         edits=[("crates/biome_ungrammar/src/lexer.rs",
                 """                self.column = text[idx + 1..].chars().count();""",
                 """                self.column = text[idx..].chars().count();""")],
         needs="an error after a line break",
         breaks="errors are reported one column too far, except on the first line",
         main='''fn main() {
    let e = "A = 'a'\\nB = %".parse::<biome_ungrammar::Grammar>().unwrap_err();
    assert!(e.to_string().starts_with("2:5:"), "{e}");
}
'''),
    dict(id="U01-label-drops-repetition", property="U01", area="ungrammar",
         edits=[("crates/biome_ungrammar/src/parser.rs",
                 """                        return Ok(Some(res));
                    }""",
                 """                        if matches!(p.peek().map(|it| &it.kind), Some(TokenKind::Star)) {
                            p.bump()?;
                        }
                        return Ok(Some(res));
                    }""")],
         needs="a label on something repeated twice (`a:b**`), which is wrong",
         breaks="a wrong grammar is accepted",
         main='''fn main() {
    assert!("A = x:A**".parse::<biome_ungrammar::Grammar>().is_err());
    assert!("A = x:A*".parse::<biome_ungrammar::Grammar>().is_ok());
}
'''),
    dict(id="U01-drops-repeated-alternative", property="U01", area="ungrammar",
         edits=[("crates/biome_ungrammar/src/parser.rs",
                 """        p.bump()?;
        let rule = seq_rule(p)?;
        rules.push(rule)""",
                 """        p.bump()?;
        let rule = seq_rule(p)?;
        if !rules.contains(&rule) {
            rules.push(rule)
        }""")],
         needs="the same alternative twice",
         breaks="alternatives written twice are dropped; with `&&` the meaning changes",
         main='''fn main() {
    let g: biome_ungrammar::Grammar = "A = 'x' && 'x' && 'y'".parse().unwrap();
    let a = g.iter().next().unwrap();
    assert!(matches!(&g[a].rule, biome_ungrammar::Rule::UnorderedAll(r) if r.len() == 3));
}
'''),
]
