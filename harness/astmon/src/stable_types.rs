//! A derived type that accepts a lot, for comparing decodes
use std::collections::BTreeMap;
use knuffel::ast::Literal;

#[derive(knuffel::Decode, Debug)]
#[knuffel(span_type=knuffel::span::Span)]
#[allow(dead_code)]
pub struct Loose {
    #[knuffel(type_name)]
    pub ty: Option<String>,
    #[knuffel(node_name)]
    pub name: String,
    #[knuffel(argument)]
    pub first: Option<u8>,
    #[knuffel(arguments)]
    pub args: Vec<Literal>,
    #[knuffel(properties)]
    pub props: BTreeMap<String, Literal>,
    #[knuffel(children)]
    pub children: Vec<Loose>,
}
