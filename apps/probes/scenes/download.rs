
/// Accessors for the checker.
pub mod probe {
    use super::*;
    /// A download whose exact size is known in advance.
    pub fn builtin(name: &str, url: &str, size: u64, directory: &Path, limit: u64) -> Result<()> {
        let d = LottieDownload {
            name: name.to_string(),
            url: url.to_string(),
            builtin: Some(BuiltinLottieProps {
                expected_size: size,
                license: "",
                info: "",
            }),
        };
        d.fetch(directory, Byte::from_bytes(limit.into()))
    }
}
