use air_r_formatter::context::RFormatOptions;
use serde_json::{Value, json};
use std::path::Path;

/// One file: its text and the `air.toml` that governs it.
#[derive(serde::Deserialize)]
pub struct Case {
    pub text: String,
    #[serde(default)]
    pub toml: String,
}

/// The options that an `air.toml` with this text asks for.
pub fn options(toml: &str, text: &str) -> RFormatOptions {
    let options = workspace::toml::parse_air_inline_toml(toml).expect("a valid air.toml");
    options.into_settings(Path::new("")).expect("settings").format.to_format_options(text)
}

/// What `air format` does with the text of one file: an error, or the new text.
pub fn format(text: &str, toml: &str) -> Result<String, String> {
    match workspace::format::format_source(text, options(toml, text)) {
        Ok(workspace::format::FormattedSource::Changed(new)) => Ok(new),
        Ok(workspace::format::FormattedSource::Unchanged) => Ok(text.to_string()),
        Err(error) => Err(error.to_string()),
    }
}

pub fn run(text: &str, toml: &str) -> Value {
    match vfcommon::guarded(|| format(text, toml)) {
        Ok(Ok(text)) => json!({"text": text}),
        Ok(Err(error)) => json!({"error": error}),
        Err(what) => json!({"panic": what}),
    }
}

/// The choices of an `air.toml`.
pub struct Choice {
    pub width: usize,
    pub indent: usize,
    pub tab: bool,
    pub persist: bool,
    pub assign: &'static str,
    pub ending: &'static str,
    pub skip: Vec<&'static str>,
    pub table: Vec<&'static str>,
    pub default_table: bool,
}
impl Choice {
    pub fn random(rng: &mut vfcommon::Rng) -> Self {
        Self {
            width: *rng.pick(&[16, 24, 32, 40, 60, 80, 80, 120]),
            indent: *rng.pick(&[2, 2, 2, 4, 3]),
            tab: rng.chance(1, 6),
            persist: rng.chance(4, 5),
            assign: *rng.pick(&["arrow", "arrow", "equal", "preserve"]),
            ending: "lf",
            skip: vec![],
            table: vec![],
            default_table: true,
        }
    }
    pub fn naming(rng: &mut vfcommon::Rng) -> Self {
        let mut some = |n| crate::generate::NAMED.iter().copied().filter(|_| rng.chance(1, n)).collect();
        let (skip, table) = (some(8), some(3));
        Self { skip, table, default_table: rng.chance(1, 2), ..Self::random(rng) }
    }
    pub fn toml(&self) -> String {
        format!(
            "[format]\nline-width = {}\nindent-width = {}\nindent-style = \"{}\"\npersistent-line-breaks = {}\nassignment-style = \"{}\"\nline-ending = \"{}\"\nskip = {:?}\ntable = {:?}\ndefault-table = {}\n",
            self.width, self.indent, if self.tab { "tab" } else { "space" }, self.persist, self.assign, self.ending,
            self.skip, self.table, self.default_table
        )
    }
    pub fn json(&self) -> Value {
        json!({"width": self.width, "indent": self.indent, "tab": self.tab, "persist": self.persist, "assign": self.assign,
               "skip": self.skip, "table": self.table, "dtable": self.default_table})
    }
}
