pub use attrs::IntoStaticStr;
