//! Stand-in: a server that is told to stop at once.
pub async fn start_lsp<I, O>(_read: I, _write: O) where I: tokio::io::AsyncRead + Unpin, O: tokio::io::AsyncWrite {}
