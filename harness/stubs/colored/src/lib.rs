//! Stand-in: text without colours.
pub trait Colorize: std::fmt::Display + Sized {
    fn red(self) -> ColoredString { ColoredString(self.to_string()) }
    fn green(self) -> ColoredString { ColoredString(self.to_string()) }
    fn white(self) -> ColoredString { ColoredString(self.to_string()) }
    fn yellow(self) -> ColoredString { ColoredString(self.to_string()) }
    fn blue(self) -> ColoredString { ColoredString(self.to_string()) }
    fn cyan(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bold(self) -> ColoredString { ColoredString(self.to_string()) }
    fn black(self) -> ColoredString { ColoredString(self.to_string()) }
    fn magenta(self) -> ColoredString { ColoredString(self.to_string()) }
    fn purple(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_black(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_red(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_green(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_yellow(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_blue(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_magenta(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_cyan(self) -> ColoredString { ColoredString(self.to_string()) }
    fn bright_white(self) -> ColoredString { ColoredString(self.to_string()) }
    fn underline(self) -> ColoredString { ColoredString(self.to_string()) }
    fn italic(self) -> ColoredString { ColoredString(self.to_string()) }
    fn reversed(self) -> ColoredString { ColoredString(self.to_string()) }
    fn strikethrough(self) -> ColoredString { ColoredString(self.to_string()) }
    fn normal(self) -> ColoredString { ColoredString(self.to_string()) }
    fn clear(self) -> ColoredString { ColoredString(self.to_string()) }
    fn hidden(self) -> ColoredString { ColoredString(self.to_string()) }
    fn blink(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_red(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_green(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_yellow(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_blue(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_black(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_white(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_cyan(self) -> ColoredString { ColoredString(self.to_string()) }
    fn on_magenta(self) -> ColoredString { ColoredString(self.to_string()) }
    fn dimmed(self) -> ColoredString { ColoredString(self.to_string()) }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        ColoredString(s.to_string())
    }
}
impl std::fmt::Display for ColoredString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad(&self.0)
    }
}
impl Colorize for ColoredString {}
impl Colorize for &str {}
pub mod control {
    pub fn set_override(_: bool) {}
    pub fn unset_override() {}
}
