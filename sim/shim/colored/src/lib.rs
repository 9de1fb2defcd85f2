//! Stand-in for `colored`: colours are dropped.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl std::fmt::Display for ColoredString {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.pad(&self.0)
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
macro_rules! colors {
    ($($c:ident)*) => {
        pub trait Colorize {
            $(fn $c(self) -> ColoredString where Self: Sized;)*
        }
        impl Colorize for &str {
            $(fn $c(self) -> ColoredString { ColoredString(self.to_string()) })*
        }
        impl Colorize for ColoredString {
            $(fn $c(self) -> ColoredString { self })*
        }
    };
}
colors!(black red green yellow blue magenta cyan white purple bright_red bright_green bright_blue bright_yellow bold dimmed italic underline normal clear);
