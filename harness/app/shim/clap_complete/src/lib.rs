//! Stand-in: the completion script of a shell names the program.
#[derive(Clone, Copy, Debug, PartialEq, Eq, clap::ValueEnum)]
pub enum Shell { Bash, Elvish, Fish, #[value(name = "powershell")] PowerShell, Zsh }
pub fn generate<S: Into<String>>(shell: Shell, _cmd: &mut clap::Command, bin: S, out: &mut dyn std::io::Write) {
    let _ = writeln!(out, "{shell:?} completions of {}", bin.into());
}
