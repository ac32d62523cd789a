//! Types used in fields of the generated ones
use std::fmt;

/// Text of even length (in chars)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Even(pub String);
#[derive(Debug)]
pub struct OddLength(usize);
impl fmt::Display for OddLength {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "text of odd length {}", self.0)
    }
}
impl std::error::Error for OddLength {}
impl std::str::FromStr for Even {
    type Err = OddLength;
    fn from_str(x: &str) -> Result<Even, OddLength> {
        let n = x.chars().count();
        if n % 2 == 0 { Ok(Even(x.into())) } else { Err(OddLength(n)) }
    }
}

/// Up to 8 bytes
#[derive(Clone, Debug, Default)]
pub struct Short(pub Vec<u8>);
impl TryFrom<Vec<u8>> for Short {
    type Error = &'static str;
    fn try_from(v: Vec<u8>) -> Result<Short, &'static str> {
        if v.len() <= 8 { Ok(Short(v)) } else { Err("too long") }
    }
}

macro_rules! scalar_enum {
    ($name:ident { $($var:ident = $text:literal),* }) => {
        #[derive(knuffel::DecodeScalar, Debug, Clone, Copy, PartialEq)]
        #[allow(non_camel_case_types)]
        pub enum $name { $($var),* }
        impl crate::dump::Dump for $name {
            fn dump(&self) -> crate::model::Val {
                crate::model::Val::Var(match self { $($name::$var => $text),* }.into(), vec![])
            }
        }
    }
}
pub const COLOR: &[(&str, &str)] = &[("red", "red"), ("dark-blue", "dark-blue"), ("x", "x")];
scalar_enum!(Color { Red = "red", DarkBlue = "dark-blue", X = "x" });
pub const LEVEL: &[(&str, &str)] = &[("low", "low"), ("http-server", "http-server"), ("type2", "type2"), ("very-very-high", "very-very-high"),
    ("v1-beta", "v1-beta"), ("snake-case", "snake-case"), ("type", "type"),
    ("level-high", "level-high"), ("high-level", "high-level"), ("is-x", "is-x"), ("some-kind", "some-kind"), ("a-value", "a-value"), ("level", "level")];
scalar_enum!(Level { Low = "low", HTTPServer = "http-server", Type2 = "type2", VeryVeryHigh = "very-very-high",
    V1Beta = "v1-beta", snake_case = "snake-case", r#type = "type",
    LevelHigh = "level-high", HighLevel = "high-level", IsX = "is-x", SomeKind = "some-kind", AValue = "a-value", Level = "level" });
pub const ONLY: &[(&str, &str)] = &[("one-only", "one-only")];
scalar_enum!(Only { OneOnly = "one-only" });
