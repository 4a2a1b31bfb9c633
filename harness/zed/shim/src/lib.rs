//! The host's side of Zed's extension API (0.2.0), played by a record of calls and a script of answers.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;

pub use serde_json;

pub type Result<T, E = String> = core::result::Result<T, E>;

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
pub struct LanguageServerId(pub String);
impl AsRef<str> for LanguageServerId {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for LanguageServerId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Os {
    Mac,
    Linux,
    Windows,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Architecture {
    Aarch64,
    X86,
    X8664,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DownloadedFileType {
    Gzip,
    GzipTar,
    Zip,
    Uncompressed,
}
#[derive(Clone, Debug)]
pub enum LanguageServerInstallationStatus {
    None,
    Downloading,
    CheckingForUpdate,
    Failed(String),
}
#[derive(Clone, Debug)]
pub struct GithubReleaseAsset {
    pub name: String,
    pub download_url: String,
}
#[derive(Clone, Debug)]
pub struct GithubRelease {
    pub version: String,
    pub assets: Vec<GithubReleaseAsset>,
}
#[derive(Clone, Copy, Debug)]
pub struct GithubReleaseOptions {
    pub require_assets: bool,
    pub pre_release: bool,
}
pub type EnvVars = Vec<(String, String)>;
#[derive(Clone, Debug)]
pub struct Command {
    pub command: String,
    pub args: Vec<String>,
    pub env: EnvVars,
}

/// What the host answers, and what it was asked.
#[derive(Default)]
pub struct Host {
    pub which: Option<String>,
    pub shell_env: EnvVars,
    /// The JSON of the settings of a language server, by its name
    pub settings: HashMap<String, String>,
    pub release: Option<GithubRelease>,
    pub platform: Option<(Os, Architecture)>,
    pub calls: Vec<Vec<String>>,
    pub download: Option<Box<dyn FnMut(&str, &str, DownloadedFileType) -> Result<()>>>,
}
thread_local! {
    pub static HOST: RefCell<Host> = RefCell::new(Host::default());
}
fn call(words: &[&str]) {
    HOST.with(|h| h.borrow_mut().calls.push(words.iter().map(|s| s.to_string()).collect()));
}

#[derive(Debug)]
pub struct Worktree(pub u64);
impl Worktree {
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn root_path(&self) -> String {
        "/nowhere".into()
    }
    pub fn read_text_file(&self, _path: &str) -> Result<String> {
        Err("no such file".into())
    }
    pub fn which(&self, name: &str) -> Option<String> {
        if name == "air" { HOST.with(|h| h.borrow().which.clone()) } else { None }
    }
    pub fn shell_env(&self) -> EnvVars {
        HOST.with(|h| h.borrow().shell_env.clone())
    }
}

pub fn set_language_server_installation_status(id: &LanguageServerId, status: &LanguageServerInstallationStatus) {
    let status = match status {
        LanguageServerInstallationStatus::None => "none",
        LanguageServerInstallationStatus::Downloading => "downloading",
        LanguageServerInstallationStatus::CheckingForUpdate => "checking",
        LanguageServerInstallationStatus::Failed(_) => "failed",
    };
    call(&["status", &id.0, status]);
}
pub fn current_platform() -> (Os, Architecture) {
    HOST.with(|h| h.borrow().platform.unwrap())
}
pub fn latest_github_release(repo: &str, options: GithubReleaseOptions) -> Result<GithubRelease> {
    call(&["latest", repo, if options.require_assets { "assets" } else { "any" },
        if options.pre_release { "pre" } else { "final" }]);
    HOST.with(|h| h.borrow().release.clone()).ok_or_else(|| "no network".to_string())
}
pub fn github_release_by_tag_name(repo: &str, tag: &str) -> Result<GithubRelease> {
    call(&["tag", repo, tag]);
    Err("no such tag".into())
}
pub fn download_file(url: &str, path: &str, file_type: DownloadedFileType) -> Result<()> {
    call(&["download", url, path, &format!("{file_type:?}")]);
    let mut f = HOST.with(|h| h.borrow_mut().download.take()).unwrap();
    let r = f(url, path, file_type);
    HOST.with(|h| h.borrow_mut().download = Some(f));
    r
}
pub fn make_file_executable(path: &str) -> Result<()> {
    call(&["executable", path]);
    Ok(())
}

pub mod settings {
    use super::{HOST, Result, Worktree};
    use serde::{Deserialize, Serialize};
    use std::collections::HashMap;
    #[derive(Default, Debug, Serialize, Deserialize)]
    pub struct LspSettings {
        pub binary: Option<CommandSettings>,
        pub initialization_options: Option<serde_json::Value>,
        pub settings: Option<serde_json::Value>,
    }
    #[derive(Debug, Serialize, Deserialize, PartialEq, Eq)]
    pub struct CommandSettings {
        pub path: Option<String>,
        pub arguments: Option<Vec<String>>,
        pub env: Option<HashMap<String, String>>,
    }
    impl LspSettings {
        pub fn for_worktree(name: &str, worktree: &Worktree) -> Result<Self> {
            let _ = worktree.id();
            let json = HOST.with(|h| h.borrow().settings.get(name).cloned()).ok_or("no settings")?;
            serde_json::from_str(&json).map_err(|e| e.to_string())
        }
    }
}

pub trait Extension: Send + Sync {
    fn new() -> Self
    where
        Self: Sized;
    fn language_server_command(&mut self, _: &LanguageServerId, _: &Worktree) -> Result<Command> {
        Err("`language_server_command` not implemented".to_string())
    }
    fn language_server_initialization_options(
        &mut self,
        _: &LanguageServerId,
        _: &Worktree,
    ) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
    fn language_server_workspace_configuration(
        &mut self,
        _: &LanguageServerId,
        _: &Worktree,
    ) -> Result<Option<serde_json::Value>> {
        Ok(None)
    }
}

#[macro_export]
macro_rules! register_extension {
    ($t:ty) => {
        pub fn __build() -> Box<dyn $crate::Extension> {
            Box::new(<$t as $crate::Extension>::new())
        }
    };
}
