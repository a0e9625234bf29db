//! Stand-in: the user configuration directory is /home/u/.config.
pub trait BaseStrategy {
    fn config_dir(&self) -> std::path::PathBuf;
}
pub mod base_strategy {
    pub use super::BaseStrategy;
    pub struct Xdg;
    impl super::BaseStrategy for Xdg {
        fn config_dir(&self) -> std::path::PathBuf {
            "/home/u/.config".into()
        }
    }
    #[derive(Debug)]
    pub struct HomeDirError;
    pub fn choose_base_strategy() -> Result<Xdg, HomeDirError> {
        Ok(Xdg)
    }
}
pub use base_strategy::choose_base_strategy;
