//! Derived types: the same definitions for both kinds of spans
use crate::model::Val;
use knuffel::ast::SpannedNode;
use knuffel::errors::DecodeError;
use knuffel::traits::Span as AnySpan;

pub struct Entry<S: AnySpan> {
    pub name: &'static str,
    pub tags: &'static [&'static str],
    pub list: fn(&str, &str) -> Result<Val, knuffel::Error>,
    pub node: fn(&SpannedNode<S>) -> Result<Val, Vec<DecodeError<S>>>,
    pub doc: Option<fn(&str, &str) -> Result<Val, knuffel::Error>>,
    pub doc_box: Option<fn(&str, &str) -> Result<Val, knuffel::Error>>,
}

#[allow(dead_code, unused_imports, unused_mut, unused_variables, non_camel_case_types, non_snake_case)]
pub mod by_span {
    use std::collections::*;
    use std::path::{Path, PathBuf};
    use std::rc::Rc;
    use std::sync::Arc;
    use knuffel::span::{Span, Spanned};
    use super::Entry;
    use crate::custom::*;
    use crate::dump::*;
    use crate::model::{s, some, Val};
    pub type SP = Span;
    include!("types_body.rs");
}

#[allow(dead_code, unused_imports, unused_mut, unused_variables, non_camel_case_types, non_snake_case)]
pub mod by_line {
    use std::collections::*;
    use std::path::{Path, PathBuf};
    use std::rc::Rc;
    use std::sync::Arc;
    use knuffel::span::{Span, Spanned};
    use super::Entry;
    use crate::custom::*;
    use crate::dump::*;
    use crate::model::{s, some, Val};
    pub type SP = knuffel::span::LineSpan;
    include!("types_body.rs");
}
