// Generated by tools/gen_types.py
use std::collections::HashMap;
use crate::custom::*;
use crate::model::*;

pub fn defs() -> HashMap<&'static str, Def> {
    let mut m = HashMap::new();
    m.insert("Unit", Def::Struct(vec![]));
    m.insert("Arg1", Def::Struct(vec![Field { name: "name", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } }]));
    m.insert("Num", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Int("i32"), opt: false, def: None } }]));
    m.insert("Args", Def::Struct(vec![Field { name: "list", indexed: false, mode: Mode::Args { sc: Sc::Str("String"), set: false } }]));
    m.insert("Props", Def::Struct(vec![Field { name: "map", indexed: false, mode: Mode::Props { sc: Sc::Str("String"), key: Fs::Str } }]));
    m.insert("OptAll", Def::Struct(vec![Field { name: "alpha", indexed: false, mode: Mode::Prop { key: "alpha", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "beta", indexed: false, mode: Mode::Prop { key: "beta", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "flag", indexed: false, mode: Mode::Flag { name: "flag" } }]));
    m.insert("Name", Def::Struct(vec![Field { name: "own", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "typ", indexed: false, mode: Mode::TypeName(Fs::Str, true) },
        Field { name: "args", indexed: false, mode: Mode::Args { sc: Sc::Int("i64"), set: false } }]));
    m.insert("Where", Def::Struct(vec![Field { name: "at", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "bytes", indexed: false, mode: Mode::Span(SpanTy::Byte) },
        Field { name: "own", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "v", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: true, def: None } }]));
    m.insert("Kind", Def::Enum(vec![("alpha", "Alpha", VKind::Unit),
        ("beta-gamma", "BetaGamma", VKind::Unit),
        ("http-server", "HTTPServer", VKind::Nested(Dec::Ty("Arg1"), false)),
        ("maybe", "Maybe", VKind::Nested(Dec::Ty("Num"), true)),
        ("type", "r#type", VKind::Unit),
        ("tup", "Tup", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } }, Field { name: "1", indexed: true, mode: Mode::Prop { key: "label", sc: Sc::Str("String"), opt: true, def: None } }, Field { name: "2", indexed: true, mode: Mode::Rest { dec: Dec::Ty("Unit") } }]))]));
    m.insert("Three", Def::Enum(vec![("one", "One", VKind::Unit),
        ("two2", "Two2", VKind::Nested(Dec::Ty("Args"), false)),
        ("three-four", "ThreeFour", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Args { sc: Sc::Bool, set: false } }, Field { name: "1", indexed: true, mode: Mode::Skip(Val::Int(0)) }]))]));
    m.insert("Many4", Def::Enum(vec![("long-name0", "LongName0", VKind::Unit),
        ("var1", "Var1", VKind::Unit),
        ("var2", "Var2", VKind::Unit),
        ("long-x-name3", "LongXName3", VKind::Unit)]));
    m.insert("Many8", Def::Enum(vec![("long-name0", "LongName0", VKind::Unit),
        ("var1", "Var1", VKind::Unit),
        ("var2", "Var2", VKind::Unit),
        ("long-x-name3", "LongXName3", VKind::Unit),
        ("var4", "Var4", VKind::Unit),
        ("var5", "Var5", VKind::Unit),
        ("long-xx-name6", "LongXXName6", VKind::Unit),
        ("var7", "Var7", VKind::Unit)]));
    m.insert("Many13", Def::Enum(vec![("long-name0", "LongName0", VKind::Unit),
        ("var1", "Var1", VKind::Unit),
        ("var2", "Var2", VKind::Unit),
        ("long-x-name3", "LongXName3", VKind::Unit),
        ("var4", "Var4", VKind::Unit),
        ("var5", "Var5", VKind::Unit),
        ("long-xx-name6", "LongXXName6", VKind::Unit),
        ("var7", "Var7", VKind::Unit),
        ("var8", "Var8", VKind::Unit),
        ("long-xxx-name9", "LongXXXName9", VKind::Unit),
        ("var10", "Var10", VKind::Unit),
        ("var11", "Var11", VKind::Unit),
        ("long-xxxx-name12", "LongXXXXName12", VKind::Unit),
        ("var13", "Var13", VKind::Unit)]));
    m.insert("Many40", Def::Enum(vec![("long-name0", "LongName0", VKind::Unit),
        ("var1", "Var1", VKind::Unit),
        ("var2", "Var2", VKind::Unit),
        ("long-x-name3", "LongXName3", VKind::Unit),
        ("var4", "Var4", VKind::Unit),
        ("var5", "Var5", VKind::Unit),
        ("long-xx-name6", "LongXXName6", VKind::Unit),
        ("var7", "Var7", VKind::Unit),
        ("var8", "Var8", VKind::Unit),
        ("long-xxx-name9", "LongXXXName9", VKind::Unit),
        ("var10", "Var10", VKind::Unit),
        ("var11", "Var11", VKind::Unit),
        ("long-xxxx-name12", "LongXXXXName12", VKind::Unit),
        ("var13", "Var13", VKind::Unit),
        ("var14", "Var14", VKind::Unit),
        ("long-xxxxx-name15", "LongXXXXXName15", VKind::Unit),
        ("var16", "Var16", VKind::Unit),
        ("var17", "Var17", VKind::Unit),
        ("long-xxxxxx-name18", "LongXXXXXXName18", VKind::Unit),
        ("var19", "Var19", VKind::Unit),
        ("var20", "Var20", VKind::Unit),
        ("long-xxxxxxx-name21", "LongXXXXXXXName21", VKind::Unit),
        ("var22", "Var22", VKind::Unit),
        ("var23", "Var23", VKind::Unit),
        ("long-xxxxxxxx-name24", "LongXXXXXXXXName24", VKind::Unit),
        ("var25", "Var25", VKind::Unit),
        ("var26", "Var26", VKind::Unit),
        ("long-xxxxxxxxx-name27", "LongXXXXXXXXXName27", VKind::Unit),
        ("var28", "Var28", VKind::Unit),
        ("var29", "Var29", VKind::Unit),
        ("long-xxxxxxxxxx-name30", "LongXXXXXXXXXXName30", VKind::Unit),
        ("var31", "Var31", VKind::Unit),
        ("var32", "Var32", VKind::Unit),
        ("long-xxxxxxxxxxx-name33", "LongXXXXXXXXXXXName33", VKind::Unit),
        ("var34", "Var34", VKind::Unit),
        ("var35", "Var35", VKind::Unit),
        ("long-xxxxxxxxxxxx-name36", "LongXXXXXXXXXXXXName36", VKind::Unit),
        ("var37", "Var37", VKind::Unit),
        ("var38", "Var38", VKind::Unit),
        ("long-xxxxxxxxxxxxx-name39", "LongXXXXXXXXXXXXXName39", VKind::Unit)]));
    m.insert("Words", Def::Enum(vec![("leaf-node", "LeafNode", VKind::Unit),
        ("node-leaf", "NodeLeaf", VKind::Unit),
        ("node", "Node", VKind::Unit),
        ("node-type", "NodeType", VKind::Unit),
        ("type-name", "TypeName", VKind::Unit),
        ("some-kind", "SomeKind", VKind::Unit),
        ("a-value", "AValue", VKind::Unit),
        ("value-a", "ValueA", VKind::Unit),
        ("words", "Words", VKind::Unit),
        ("words-list", "WordsList", VKind::Unit),
        ("list-words", "ListWords", VKind::Unit),
        ("is-set", "IsSet", VKind::Unit),
        ("has-it", "HasIt", VKind::Unit),
        ("get-it", "GetIt", VKind::Unit),
        ("set-it", "SetIt", VKind::Unit),
        ("item-opt", "ItemOpt", VKind::Unit),
        ("opt-item", "OptItem", VKind::Unit),
        ("new-item", "NewItem", VKind::Unit),
        ("items", "Items", VKind::Unit),
        ("item-enum", "ItemEnum", VKind::Unit),
        ("enum-item", "EnumItem", VKind::Unit),
        ("struct-x", "StructX", VKind::Unit),
        ("my-field", "MyField", VKind::Unit),
        ("variant-one", "VariantOne", VKind::Unit),
        ("child", "Child", VKind::Unit),
        ("children", "Children", VKind::Unit),
        ("a-child", "AChild", VKind::Unit),
        ("the-one", "TheOne", VKind::Unit),
        ("error-case", "ErrorCase", VKind::Unit),
        ("config-item", "ConfigItem", VKind::Unit),
        ("name", "Name", VKind::Unit),
        ("node-name", "NodeName", VKind::Unit),
        ("item-str", "ItemStr", VKind::Unit),
        ("str-item", "StrItem", VKind::Unit),
        ("argument", "Argument", VKind::Unit),
        ("property", "Property", VKind::Unit),
        ("default", "Default", VKind::Unit),
        ("skip", "Skip", VKind::Unit),
        ("span", "Span", VKind::Unit)]));
    m.insert("WordFlags", Def::Struct(vec![Field { name: "leaf_node", indexed: false, mode: Mode::Flag { name: "leaf-node" } },
        Field { name: "node_leaf", indexed: false, mode: Mode::Flag { name: "node-leaf" } },
        Field { name: "node", indexed: false, mode: Mode::Flag { name: "node" } },
        Field { name: "node_type", indexed: false, mode: Mode::Flag { name: "node-type" } },
        Field { name: "type_name", indexed: false, mode: Mode::Flag { name: "type-name" } },
        Field { name: "some_kind", indexed: false, mode: Mode::Flag { name: "some-kind" } },
        Field { name: "a_value", indexed: false, mode: Mode::Flag { name: "a-value" } },
        Field { name: "value_a", indexed: false, mode: Mode::Flag { name: "value-a" } },
        Field { name: "words", indexed: false, mode: Mode::Flag { name: "words" } },
        Field { name: "words_list", indexed: false, mode: Mode::Flag { name: "words-list" } },
        Field { name: "list_words", indexed: false, mode: Mode::Flag { name: "list-words" } },
        Field { name: "is_set", indexed: false, mode: Mode::Flag { name: "is-set" } },
        Field { name: "has_it", indexed: false, mode: Mode::Flag { name: "has-it" } },
        Field { name: "get_it", indexed: false, mode: Mode::Flag { name: "get-it" } },
        Field { name: "set_it", indexed: false, mode: Mode::Flag { name: "set-it" } },
        Field { name: "item_opt", indexed: false, mode: Mode::Flag { name: "item-opt" } },
        Field { name: "opt_item", indexed: false, mode: Mode::Flag { name: "opt-item" } },
        Field { name: "new_item", indexed: false, mode: Mode::Flag { name: "new-item" } },
        Field { name: "items", indexed: false, mode: Mode::Flag { name: "items" } },
        Field { name: "item_enum", indexed: false, mode: Mode::Flag { name: "item-enum" } },
        Field { name: "enum_item", indexed: false, mode: Mode::Flag { name: "enum-item" } },
        Field { name: "struct_x", indexed: false, mode: Mode::Flag { name: "struct-x" } },
        Field { name: "my_field", indexed: false, mode: Mode::Flag { name: "my-field" } },
        Field { name: "variant_one", indexed: false, mode: Mode::Flag { name: "variant-one" } },
        Field { name: "child", indexed: false, mode: Mode::Flag { name: "child" } },
        Field { name: "children", indexed: false, mode: Mode::Flag { name: "children" } },
        Field { name: "a_child", indexed: false, mode: Mode::Flag { name: "a-child" } },
        Field { name: "the_one", indexed: false, mode: Mode::Flag { name: "the-one" } },
        Field { name: "error_case", indexed: false, mode: Mode::Flag { name: "error-case" } },
        Field { name: "config_item", indexed: false, mode: Mode::Flag { name: "config-item" } },
        Field { name: "name", indexed: false, mode: Mode::Flag { name: "name" } },
        Field { name: "node_name", indexed: false, mode: Mode::Flag { name: "node-name" } },
        Field { name: "item_str", indexed: false, mode: Mode::Flag { name: "item-str" } },
        Field { name: "str_item", indexed: false, mode: Mode::Flag { name: "str-item" } },
        Field { name: "argument", indexed: false, mode: Mode::Flag { name: "argument" } },
        Field { name: "property", indexed: false, mode: Mode::Flag { name: "property" } },
        Field { name: "default", indexed: false, mode: Mode::Flag { name: "default" } },
        Field { name: "skip", indexed: false, mode: Mode::Flag { name: "skip" } },
        Field { name: "span", indexed: false, mode: Mode::Flag { name: "span" } }]));
    m.insert("WordProps", Def::Struct(vec![Field { name: "leaf_node", indexed: false, mode: Mode::Prop { key: "leaf-node", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "node_leaf", indexed: false, mode: Mode::Prop { key: "node-leaf", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "node", indexed: false, mode: Mode::Prop { key: "node", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "node_type", indexed: false, mode: Mode::Prop { key: "node-type", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "type_name", indexed: false, mode: Mode::Prop { key: "type-name", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "some_kind", indexed: false, mode: Mode::Prop { key: "some-kind", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "a_value", indexed: false, mode: Mode::Prop { key: "a-value", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "value_a", indexed: false, mode: Mode::Prop { key: "value-a", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "words", indexed: false, mode: Mode::Prop { key: "words", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "words_list", indexed: false, mode: Mode::Prop { key: "words-list", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "list_words", indexed: false, mode: Mode::Prop { key: "list-words", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "is_set", indexed: false, mode: Mode::Prop { key: "is-set", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "has_it", indexed: false, mode: Mode::Prop { key: "has-it", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "get_it", indexed: false, mode: Mode::Prop { key: "get-it", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "set_it", indexed: false, mode: Mode::Prop { key: "set-it", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "item_opt", indexed: false, mode: Mode::Prop { key: "item-opt", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "opt_item", indexed: false, mode: Mode::Prop { key: "opt-item", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "new_item", indexed: false, mode: Mode::Prop { key: "new-item", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "items", indexed: false, mode: Mode::Prop { key: "items", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "item_enum", indexed: false, mode: Mode::Prop { key: "item-enum", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "enum_item", indexed: false, mode: Mode::Prop { key: "enum-item", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "struct_x", indexed: false, mode: Mode::Prop { key: "struct-x", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "my_field", indexed: false, mode: Mode::Prop { key: "my-field", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "variant_one", indexed: false, mode: Mode::Prop { key: "variant-one", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "child", indexed: false, mode: Mode::Prop { key: "child", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "children", indexed: false, mode: Mode::Prop { key: "children", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "a_child", indexed: false, mode: Mode::Prop { key: "a-child", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "the_one", indexed: false, mode: Mode::Prop { key: "the-one", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "error_case", indexed: false, mode: Mode::Prop { key: "error-case", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "config_item", indexed: false, mode: Mode::Prop { key: "config-item", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "name", indexed: false, mode: Mode::Prop { key: "name", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "node_name", indexed: false, mode: Mode::Prop { key: "node-name", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "item_str", indexed: false, mode: Mode::Prop { key: "item-str", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "str_item", indexed: false, mode: Mode::Prop { key: "str-item", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "argument", indexed: false, mode: Mode::Prop { key: "argument", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "property", indexed: false, mode: Mode::Prop { key: "property", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "default", indexed: false, mode: Mode::Prop { key: "default", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "skip", indexed: false, mode: Mode::Prop { key: "skip", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "span", indexed: false, mode: Mode::Prop { key: "span", sc: Sc::Int("u8"), opt: true, def: None } }]));
    m.insert("Pos", Def::Struct(vec![Field { name: "first", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "second", indexed: false, mode: Mode::Arg { sc: Sc::Int("u16"), opt: false, def: None } },
        Field { name: "third", indexed: false, mode: Mode::Arg { sc: Sc::Bool, opt: true, def: None } },
        Field { name: "fourth", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "rest", indexed: false, mode: Mode::Args { sc: Sc::F64, set: false } }]));
    m.insert("PosDef", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: Some(Val::Int(7)) } },
        Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: Some(s("")) } },
        Field { name: "c", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: true, def: Some(some(Val::Int(9))) } },
        Field { name: "d", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: Some(Val::Var("x".into(), vec![])) } }]));
    m.insert("AllInts", Def::Struct(vec![Field { name: "au8", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } },
        Field { name: "ai8", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } },
        Field { name: "au16", indexed: false, mode: Mode::Arg { sc: Sc::Int("u16"), opt: false, def: None } },
        Field { name: "ai16", indexed: false, mode: Mode::Arg { sc: Sc::Int("i16"), opt: false, def: None } },
        Field { name: "au32", indexed: false, mode: Mode::Arg { sc: Sc::Int("u32"), opt: false, def: None } },
        Field { name: "ai32", indexed: false, mode: Mode::Arg { sc: Sc::Int("i32"), opt: false, def: None } },
        Field { name: "au64", indexed: false, mode: Mode::Arg { sc: Sc::Int("u64"), opt: false, def: None } },
        Field { name: "ai64", indexed: false, mode: Mode::Arg { sc: Sc::Int("i64"), opt: false, def: None } },
        Field { name: "ausize", indexed: false, mode: Mode::Arg { sc: Sc::Int("usize"), opt: false, def: None } },
        Field { name: "aisize", indexed: false, mode: Mode::Arg { sc: Sc::Int("isize"), opt: false, def: None } },
        Field { name: "p_u8", indexed: false, mode: Mode::Prop { key: "p-u8", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "p_i8", indexed: false, mode: Mode::Prop { key: "p-i8", sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "p_u16", indexed: false, mode: Mode::Prop { key: "p-u16", sc: Sc::Int("u16"), opt: true, def: None } },
        Field { name: "p_i16", indexed: false, mode: Mode::Prop { key: "p-i16", sc: Sc::Int("i16"), opt: true, def: None } },
        Field { name: "p_u32", indexed: false, mode: Mode::Prop { key: "p-u32", sc: Sc::Int("u32"), opt: true, def: None } },
        Field { name: "p_i32", indexed: false, mode: Mode::Prop { key: "p-i32", sc: Sc::Int("i32"), opt: true, def: None } },
        Field { name: "p_u64", indexed: false, mode: Mode::Prop { key: "p-u64", sc: Sc::Int("u64"), opt: true, def: None } },
        Field { name: "p_i64", indexed: false, mode: Mode::Prop { key: "p-i64", sc: Sc::Int("i64"), opt: true, def: None } },
        Field { name: "p_usize", indexed: false, mode: Mode::Prop { key: "p-usize", sc: Sc::Int("usize"), opt: true, def: None } },
        Field { name: "p_isize", indexed: false, mode: Mode::Prop { key: "p-isize", sc: Sc::Int("isize"), opt: true, def: None } }]));
    m.insert("OptMid", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Arg { sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Arg { sc: Sc::Str("String"), opt: true, def: None } }]));
    m.insert("ArgsSet", Def::Struct(vec![Field { name: "head", indexed: false, mode: Mode::Arg { sc: Sc::Int("i16"), opt: false, def: None } },
        Field { name: "tail", indexed: false, mode: Mode::Args { sc: Sc::Int("i16"), set: true } }]));
    m.insert("PropReq", Def::Struct(vec![Field { name: "host_name", indexed: false, mode: Mode::Prop { key: "host-name", sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "port", indexed: false, mode: Mode::Prop { key: "port", sc: Sc::Int("u16"), opt: false, def: None } },
        Field { name: "type", indexed: false, mode: Mode::Prop { key: "type", sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "odd", indexed: false, mode: Mode::Prop { key: "Odd Name", sc: Sc::Bool, opt: false, def: None } }]));
    m.insert("PropDef", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Prop { key: "a", sc: Sc::Int("u8"), opt: false, def: Some(Val::Int(42)) } },
        Field { name: "b", indexed: false, mode: Mode::Prop { key: "b", sc: Sc::Int("u8"), opt: true, def: Some(some(Val::Int(43))) } },
        Field { name: "c", indexed: false, mode: Mode::Prop { key: "c", sc: Sc::Str("String"), opt: true, def: Some(Val::None) } },
        Field { name: "d", indexed: false, mode: Mode::Prop { key: "d", sc: Sc::F64, opt: false, def: Some(Val::F64(0)) } },
        Field { name: "e", indexed: false, mode: Mode::Prop { key: "e", sc: Sc::Bytes(false), opt: true, def: Some(some(Val::Bytes(b"q".to_vec()))) } },
        Field { name: "f", indexed: false, mode: Mode::Prop { key: "f", sc: Sc::FromStr(Fs::Even), opt: true, def: Some(some(s("zz"))) } }]));
    m.insert("PropRest", Def::Struct(vec![Field { name: "name", indexed: false, mode: Mode::Prop { key: "name", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "size", indexed: false, mode: Mode::Prop { key: "size", sc: Sc::Int("u32"), opt: false, def: None } },
        Field { name: "other", indexed: false, mode: Mode::Props { sc: Sc::Str("String"), key: Fs::Str } }]));
    m.insert("PropKeys", Def::Struct(vec![Field { name: "size", indexed: false, mode: Mode::Prop { key: "size", sc: Sc::Int("u32"), opt: true, def: None } },
        Field { name: "other", indexed: false, mode: Mode::Props { sc: Sc::Opt(Box::new(Sc::Int("i32"))), key: Fs::Even } }]));
    m.insert("Strs", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Addr), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::U16), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Prop { key: "c", sc: Sc::FromStr(Fs::Char), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Prop { key: "d", sc: Sc::FromStr(Fs::Even), opt: true, def: None } },
        Field { name: "more", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::Even), set: false } }]));
    m.insert("StrMap", Def::Struct(vec![Field { name: "map", indexed: false, mode: Mode::Props { sc: Sc::FromStr(Fs::U16), key: Fs::Str } }]));
    m.insert("BytesA", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(false), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Prop { key: "c", sc: Sc::Bytes(false), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Prop { key: "d", sc: Sc::Bytes(false), opt: true, def: None } },
        Field { name: "more", indexed: false, mode: Mode::Args { sc: Sc::Bytes(true), set: false } }]));
    m.insert("BytesMap", Def::Struct(vec![Field { name: "map", indexed: false, mode: Mode::Props { sc: Sc::Bytes(true), key: Fs::Str } }]));
    m.insert("BytesOne", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Bytes(false), opt: false, def: None } }]));
    m.insert("BytesOpt", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Bytes(true), opt: true, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Prop { key: "p", sc: Sc::Bytes(true), opt: false, def: None } }]));
    m.insert("StrUn", Def::Struct(vec![Field { name: "addr", indexed: false, mode: Mode::Child { name: "addr", dec: Dec::Unwrap(Box::new(Field { name: "addr", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Addr), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "short", indexed: false, mode: Mode::Child { name: "short", dec: Dec::Unwrap(Box::new(Field { name: "short", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "evens", indexed: false, mode: Mode::Multi { name: "even", dec: Dec::Unwrap(Box::new(Field { name: "evens", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Even), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "chars", indexed: false, mode: Mode::Multi { name: "chars", dec: Dec::Unwrap(Box::new(Field { name: "chars", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::Char), set: false } })), opt: false, def: None } }]));
    m.insert("Kids", Def::Struct(vec![Field { name: "one", indexed: false, mode: Mode::Child { name: "one", dec: Dec::Ty("Arg1"), opt: false, def: None } },
        Field { name: "two_words", indexed: false, mode: Mode::Child { name: "two-words", dec: Dec::Ty("Arg1"), opt: true, def: None } },
        Field { name: "flag", indexed: false, mode: Mode::Flag { name: "flag" } },
        Field { name: "plugins", indexed: false, mode: Mode::Multi { name: "plugin", dec: Dec::Ty("Arg1"), opt: false, def: None } },
        Field { name: "rest", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } }]));
    m.insert("KidsStrict", Def::Struct(vec![Field { name: "one", indexed: false, mode: Mode::Child { name: "one", dec: Dec::Ty("Arg1"), opt: false, def: None } },
        Field { name: "opt", indexed: false, mode: Mode::Child { name: "opt", dec: Dec::Ty("Num"), opt: true, def: None } },
        Field { name: "dflt", indexed: false, mode: Mode::Child { name: "dflt", dec: Dec::Ty("OptAll"), opt: false, def: Some(Val::Rec("OptAll".into(), vec![("alpha".into(), Val::None), ("beta".into(), Val::None), ("flag".into(), Val::Bool(false))])) } },
        Field { name: "yes", indexed: false, mode: Mode::Flag { name: "yes" } },
        Field { name: "no_way", indexed: false, mode: Mode::Flag { name: "no-way" } },
        Field { name: "many", indexed: false, mode: Mode::Multi { name: "many", dec: Dec::Ty("Num"), opt: false, def: None } },
        Field { name: "some", indexed: false, mode: Mode::Multi { name: "some", dec: Dec::Ty("Arg1"), opt: true, def: None } }]));
    m.insert("Unwraps", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Unwrap(Box::new(Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Unwrap(Box::new(Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Child { name: "c", dec: Dec::Unwrap(Box::new(Field { name: "c", indexed: false, mode: Mode::Args { sc: Sc::Int("i32"), set: false } })), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Child { name: "d", dec: Dec::Unwrap(Box::new(Field { name: "d", indexed: false, mode: Mode::Props { sc: Sc::Bool, key: Fs::Str } })), opt: true, def: None } },
        Field { name: "e", indexed: false, mode: Mode::Child { name: "e", dec: Dec::Unwrap(Box::new(Field { name: "e", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } })), opt: true, def: None } },
        Field { name: "f", indexed: false, mode: Mode::Child { name: "f", dec: Dec::Unwrap(Box::new(Field { name: "f", indexed: false, mode: Mode::Multi { name: "x", dec: Dec::Ty("Arg1"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "g", indexed: false, mode: Mode::Child { name: "g", dec: Dec::Unwrap(Box::new(Field { name: "g", indexed: false, mode: Mode::Prop { key: "size", sc: Sc::Int("u8"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "h", indexed: false, mode: Mode::Child { name: "h", dec: Dec::Unwrap(Box::new(Field { name: "h", indexed: false, mode: Mode::Arg { sc: Sc::Bool, opt: false, def: None } })), opt: false, def: Some(Val::Bool(true)) } },
        Field { name: "i", indexed: false, mode: Mode::Child { name: "i", dec: Dec::Unwrap(Box::new(Field { name: "i", indexed: false, mode: Mode::Arg { sc: Sc::Opt(Box::new(Sc::Int("u8"))), opt: false, def: None } })), opt: false, def: Some(some(Val::Int(3))) } },
        Field { name: "j", indexed: false, mode: Mode::Multi { name: "j", dec: Dec::Unwrap(Box::new(Field { name: "j", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "k", indexed: false, mode: Mode::Child { name: "k", dec: Dec::Unwrap(Box::new(Field { name: "k", indexed: false, mode: Mode::Child { name: "k", dec: Dec::Unwrap(Box::new(Field { name: "k", indexed: false, mode: Mode::Arg { sc: Sc::Int("u16"), opt: false, def: None } })), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "l", indexed: false, mode: Mode::Child { name: "l", dec: Dec::Unwrap(Box::new(Field { name: "l", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: Some(Val::Int(11)) } })), opt: true, def: None } }]));
    m.insert("RestUn", Def::Struct(vec![Field { name: "x", indexed: false, mode: Mode::Child { name: "x", dec: Dec::Ty("Unit"), opt: true, def: None } },
        Field { name: "rest", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "rest", indexed: false, mode: Mode::Arg { sc: Sc::Int("u32"), opt: false, def: None } })) } }]));
    m.insert("Tree", Def::Struct(vec![Field { name: "name", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "label", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "nodes", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Tree") } }]));
    m.insert("TreeE", Def::Enum(vec![("leaf", "Leaf", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Int("i64"), opt: false, def: None } }])),
        ("branch", "Branch", VKind::Nested(Dec::Ty("TreeB"), false)),
        ("link", "Link", VKind::Nested(Dec::Ty("TreeE2"), true))]));
    m.insert("TreeB", Def::Struct(vec![Field { name: "name", indexed: false, mode: Mode::Prop { key: "name", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "nodes", indexed: false, mode: Mode::Rest { dec: Dec::Ty("TreeE") } }]));
    m.insert("TreeE2", Def::Struct(vec![Field { name: "to", indexed: false, mode: Mode::Child { name: "to", dec: Dec::Ty("TreeE"), opt: false, def: None } },
        Field { name: "at", indexed: false, mode: Mode::Flag { name: "at" } }]));
    m.insert("TupKids", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::NodeName(Fs::Str) },
        Field { name: "1", indexed: true, mode: Mode::Multi { name: "x", dec: Dec::Ty("Num"), opt: false, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Rest { dec: Dec::Ty("Kind") } }]));
    m.insert("PartP", Def::Struct(vec![Field { name: "font_size", indexed: false, mode: Mode::Prop { key: "font-size", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "font_name", indexed: false, mode: Mode::Prop { key: "font-name", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "font_key", indexed: false, mode: Mode::Prop { key: "font-key", sc: Sc::FromStr(Fs::Even), opt: true, def: None } }]));
    m.insert("PartC", Def::Struct(vec![Field { name: "left", indexed: false, mode: Mode::Child { name: "left", dec: Dec::Ty("Num"), opt: true, def: None } },
        Field { name: "loop", indexed: false, mode: Mode::Flag { name: "loop" } },
        Field { name: "label", indexed: false, mode: Mode::Child { name: "label", dec: Dec::Unwrap(Box::new(Field { name: "label", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } })), opt: true, def: None } }]));
    m.insert("PartM", Def::Struct(vec![Field { name: "w", indexed: false, mode: Mode::Prop { key: "w", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "bold", indexed: false, mode: Mode::Flag { name: "bold" } },
        Field { name: "sub", indexed: false, mode: Mode::Child { name: "sub", dec: Dec::Ty("Kids"), opt: true, def: None } }]));
    m.insert("PartN", Def::Struct(vec![Field { name: "inner", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "deep", indexed: false, mode: Mode::Prop { key: "deep", sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "pit", indexed: false, mode: Mode::Flag { name: "pit" } }]));
    m.insert("PartT", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "color", sc: Sc::Enum("Color", COLOR), opt: true, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Prop { key: "raw", sc: Sc::Bytes(true), opt: true, def: None } }]));
    m.insert("PartNC", Def::Struct(vec![Field { name: "inner", indexed: false, mode: Mode::Flat { ty: "PartC", child: true, prop: false } },
        Field { name: "x_flag", indexed: false, mode: Mode::Flag { name: "x-flag" } }]));
    m.insert("FlatP", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "font", indexed: false, mode: Mode::Flat { ty: "PartP", child: false, prop: true } },
        Field { name: "own", indexed: false, mode: Mode::Prop { key: "own", sc: Sc::Int("u8"), opt: false, def: None } }]));
    m.insert("FlatC", Def::Struct(vec![Field { name: "c", indexed: false, mode: Mode::Flat { ty: "PartC", child: true, prop: false } },
        Field { name: "other", indexed: false, mode: Mode::Child { name: "other", dec: Dec::Ty("Arg1"), opt: true, def: None } }]));
    m.insert("FlatBoth", Def::Struct(vec![Field { name: "m", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "p", indexed: false, mode: Mode::Flat { ty: "PartP", child: false, prop: true } },
        Field { name: "c", indexed: false, mode: Mode::Flat { ty: "PartC", child: true, prop: false } }]));
    m.insert("FlatDeep", Def::Struct(vec![Field { name: "n", indexed: false, mode: Mode::Flat { ty: "PartN", child: true, prop: true } },
        Field { name: "rest", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } },
        Field { name: "others", indexed: false, mode: Mode::Props { sc: Sc::Str("String"), key: Fs::Str } }]));
    m.insert("FlatHalf", Def::Struct(vec![Field { name: "n", indexed: false, mode: Mode::Flat { ty: "PartN", child: false, prop: true } },
        Field { name: "bold", indexed: false, mode: Mode::Flag { name: "bold" } }]));
    m.insert("FlatHalfC", Def::Struct(vec![Field { name: "n", indexed: false, mode: Mode::Flat { ty: "PartN", child: true, prop: false } },
        Field { name: "w", indexed: false, mode: Mode::Prop { key: "w", sc: Sc::Str("String"), opt: true, def: None } }]));
    m.insert("FlatDoc", Def::Struct(vec![Field { name: "n", indexed: false, mode: Mode::Flat { ty: "PartNC", child: true, prop: false } },
        Field { name: "m", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: false } },
        Field { name: "k", indexed: false, mode: Mode::Multi { name: "k", dec: Dec::Ty("Kind"), opt: false, def: None } }]));
    m.insert("FlatTup", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Flat { ty: "PartT", child: false, prop: true } },
        Field { name: "1", indexed: true, mode: Mode::Flat { ty: "PartC", child: true, prop: false } },
        Field { name: "2", indexed: true, mode: Mode::Span(SpanTy::Byte) }]));
    m.insert("FlatRest", Def::Struct(vec![Field { name: "c", indexed: false, mode: Mode::Flat { ty: "PartC", child: true, prop: false } },
        Field { name: "rest", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } }]));
    m.insert("FlatEnum", Def::Enum(vec![("node", "Node", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Flat { ty: "PartM", child: true, prop: true } }, Field { name: "1", indexed: true, mode: Mode::Flat { ty: "PartT", child: false, prop: true } }])),
        ("other", "Other", VKind::Nested(Dec::Ty("FlatP"), true))]));
    m.insert("OwnFirst", Def::Struct(vec![Field { name: "w", indexed: false, mode: Mode::Prop { key: "w", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "bold", indexed: false, mode: Mode::Child { name: "bold", dec: Dec::Ty("Num"), opt: true, def: None } },
        Field { name: "m", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "z", indexed: false, mode: Mode::Prop { key: "z", sc: Sc::Int("u8"), opt: true, def: None } }]));
    m.insert("PartFirst", Def::Struct(vec![Field { name: "m", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "w", indexed: false, mode: Mode::Prop { key: "w", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "bold", indexed: false, mode: Mode::Child { name: "bold", dec: Dec::Ty("Num"), opt: true, def: None } }]));
    m.insert("PartTwice", Def::Struct(vec![Field { name: "c", indexed: false, mode: Mode::Flat { ty: "PartC", child: true, prop: false } },
        Field { name: "left", indexed: false, mode: Mode::Multi { name: "left", dec: Dec::Ty("Kind"), opt: false, def: None } },
        Field { name: "a", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "b", indexed: false, mode: Mode::Flat { ty: "PartN", child: true, prop: true } }]));
    m.insert("FieldProps", Def::Struct(vec![Field { name: "a__b", indexed: false, mode: Mode::Prop { key: "a-b", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "_c", indexed: false, mode: Mode::Prop { key: "c", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "d_", indexed: false, mode: Mode::Prop { key: "d", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "__e__f__", indexed: false, mode: Mode::Prop { key: "e-f", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "x1", indexed: false, mode: Mode::Prop { key: "x1", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "y_1", indexed: false, mode: Mode::Prop { key: "y-1", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "z1_2z", indexed: false, mode: Mode::Prop { key: "z1-2z", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "fieldName", indexed: false, mode: Mode::Prop { key: "field-name", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "HTTPServer", indexed: false, mode: Mode::Prop { key: "http-server", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "Upper", indexed: false, mode: Mode::Prop { key: "upper", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "someURL_x", indexed: false, mode: Mode::Prop { key: "some-url-x", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "ALL", indexed: false, mode: Mode::Prop { key: "all", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "\u{fc}nder_x", indexed: false, mode: Mode::Prop { key: "\u{fc}nder-x", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "\u{c9}t\u{e9}", indexed: false, mode: Mode::Prop { key: "\u{e9}t\u{e9}", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "async", indexed: false, mode: Mode::Prop { key: "async", sc: Sc::Int("u8"), opt: true, def: None } },
        Field { name: "loop", indexed: false, mode: Mode::Prop { key: "loop", sc: Sc::Int("u8"), opt: true, def: None } }]));
    m.insert("FieldFlags", Def::Struct(vec![Field { name: "a__b", indexed: false, mode: Mode::Flag { name: "a-b" } },
        Field { name: "_c", indexed: false, mode: Mode::Flag { name: "c" } },
        Field { name: "d_", indexed: false, mode: Mode::Flag { name: "d" } },
        Field { name: "__e__f__", indexed: false, mode: Mode::Flag { name: "e-f" } },
        Field { name: "x1", indexed: false, mode: Mode::Flag { name: "x1" } },
        Field { name: "y_1", indexed: false, mode: Mode::Flag { name: "y-1" } },
        Field { name: "z1_2z", indexed: false, mode: Mode::Flag { name: "z1-2z" } },
        Field { name: "fieldName", indexed: false, mode: Mode::Flag { name: "field-name" } },
        Field { name: "HTTPServer", indexed: false, mode: Mode::Flag { name: "http-server" } },
        Field { name: "Upper", indexed: false, mode: Mode::Flag { name: "upper" } },
        Field { name: "someURL_x", indexed: false, mode: Mode::Flag { name: "some-url-x" } },
        Field { name: "ALL", indexed: false, mode: Mode::Flag { name: "all" } },
        Field { name: "\u{fc}nder_x", indexed: false, mode: Mode::Flag { name: "\u{fc}nder-x" } },
        Field { name: "\u{c9}t\u{e9}", indexed: false, mode: Mode::Flag { name: "\u{e9}t\u{e9}" } },
        Field { name: "async", indexed: false, mode: Mode::Flag { name: "async" } },
        Field { name: "loop", indexed: false, mode: Mode::Flag { name: "loop" } }]));
    m.insert("FieldKids", Def::Struct(vec![Field { name: "a__b", indexed: false, mode: Mode::Child { name: "a-b", dec: Dec::Ty("Arg1"), opt: true, def: None } },
        Field { name: "_c", indexed: false, mode: Mode::Child { name: "c", dec: Dec::Ty("Arg1"), opt: true, def: None } },
        Field { name: "loop", indexed: false, mode: Mode::Child { name: "loop", dec: Dec::Ty("Arg1"), opt: true, def: None } },
        Field { name: "fieldName", indexed: false, mode: Mode::Child { name: "field-name", dec: Dec::Ty("Arg1"), opt: true, def: None } },
        Field { name: "w__x", indexed: false, mode: Mode::Child { name: "w-x", dec: Dec::Unwrap(Box::new(Field { name: "w__x", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "_y", indexed: false, mode: Mode::Child { name: "y", dec: Dec::Unwrap(Box::new(Field { name: "_y", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "HTTPServer", indexed: false, mode: Mode::Child { name: "http-server", dec: Dec::Unwrap(Box::new(Field { name: "HTTPServer", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: true, def: None } }]));
    m.insert("Names", Def::Struct(vec![Field { name: "n", indexed: false, mode: Mode::NodeName(Fs::Even) },
        Field { name: "t", indexed: false, mode: Mode::TypeName(Fs::Even, false) },
        Field { name: "s", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "kids", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Names") } }]));
    m.insert("NamesOpt", Def::Struct(vec![Field { name: "n", indexed: false, mode: Mode::NodeName(Fs::Char) },
        Field { name: "n2", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "t", indexed: false, mode: Mode::TypeName(Fs::U16, true) },
        Field { name: "t2", indexed: false, mode: Mode::TypeName(Fs::Str, true) }]));
    m.insert("SpanDeep", Def::Enum(vec![("a", "A", VKind::Nested(Dec::Ty("SpanDeepIn"), false)),
        ("b", "B", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Native) }, Field { name: "1", indexed: true, mode: Mode::NodeName(Fs::Str) }, Field { name: "2", indexed: true, mode: Mode::TypeName(Fs::Str, true) }, Field { name: "3", indexed: true, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Str("String")), SpanTy::Native), opt: false, def: None } }]))]));
    m.insert("SpanDeepIn", Def::Struct(vec![Field { name: "s", indexed: false, mode: Mode::Span(SpanTy::Byte) },
        Field { name: "sub", indexed: false, mode: Mode::Rest { dec: Dec::Ty("SpanDeep") } },
        Field { name: "p", indexed: false, mode: Mode::Prop { key: "p", sc: Sc::Spanned(Box::new(Sc::Int("u8")), SpanTy::Byte), opt: true, def: None } }]));
    m.insert("New", Def::New(Dec::Ty("Arg1"), false));
    m.insert("NewOpt", Def::New(Dec::Ty("Pos"), true));
    m.insert("NewBox", Def::New(Dec::Ty("Kids"), false));
    m.insert("NewOptBox", Def::New(Dec::Ty("Kind"), true));
    m.insert("NewNew", Def::New(Dec::Ty("NewOpt"), false));
    m.insert("NewSp", Def::New(Dec::Ty("Where"), false));
    m.insert("NewSpOpt", Def::New(Dec::Ty("Names"), true));
    m.insert("NewSpKids", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Ty("NewSp"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Ty("NewSpOpt"), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Rest { dec: Dec::Ty("NewSpOpt") } }]));
    m.insert("ListDef", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Multi { name: "m", dec: Dec::Unwrap(Box::new(Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: false, def: Some(Val::List(vec![Val::Int(1), Val::Int(2)])) } },
        Field { name: "b", indexed: false, mode: Mode::Multi { name: "n", dec: Dec::Unwrap(Box::new(Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } })), opt: true, def: Some(some(Val::List(vec![s("q")]))) } },
        Field { name: "c", indexed: false, mode: Mode::Multi { name: "unit", dec: Dec::Ty("Unit"), opt: false, def: Some(Val::List(vec![Val::Rec("Unit".into(), vec![])])) } },
        Field { name: "d", indexed: false, mode: Mode::Multi { name: "k", dec: Dec::Ty("Arg1"), opt: true, def: Some(Val::None) } },
        Field { name: "yes", indexed: false, mode: Mode::Flag { name: "yes" } },
        Field { name: "e", indexed: false, mode: Mode::Multi { name: "set", dec: Dec::Unwrap(Box::new(Field { name: "e", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } })), opt: false, def: Some(Val::List(vec![Val::Int(-3)])) } }]));
    m.insert("KidsDef", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Ty("OptAll"), opt: true, def: Some(Val::None) } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Ty("OptAll"), opt: true, def: Some(some(Val::Rec("OptAll".into(), vec![("alpha".into(), Val::None), ("beta".into(), Val::None), ("flag".into(), Val::Bool(false))]))) } },
        Field { name: "c", indexed: false, mode: Mode::Child { name: "c", dec: Dec::Ty("Unit"), opt: true, def: Some(some(Val::Rec("Unit".into(), vec![]))) } },
        Field { name: "d", indexed: false, mode: Mode::Child { name: "d", dec: Dec::Ty("Arg1"), opt: true, def: Some(Val::None) } },
        Field { name: "converted_name", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } }]));
    m.insert("Hygiene", Def::Struct(vec![Field { name: "converted_name", indexed: false, mode: Mode::Props { sc: Sc::Str("String"), key: Fs::Char } },
        Field { name: "name_str", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } },
        Field { name: "val", indexed: false, mode: Mode::Args { sc: Sc::Int("u8"), set: false } },
        Field { name: "type_name", indexed: false, mode: Mode::TypeName(Fs::Str, true) }]));
    m.insert("WrapS", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::F64), SpanTy::Native), opt: false, def: None } },
        Field { name: "e", indexed: false, mode: Mode::Prop { key: "e", sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "f", indexed: false, mode: Mode::Prop { key: "f", sc: Sc::Spanned(Box::new(Sc::Bool), SpanTy::Byte), opt: true, def: None } },
        Field { name: "g", indexed: false, mode: Mode::Args { sc: Sc::Spanned(Box::new(Sc::Int("u16")), SpanTy::Native), set: false } }]));
    m.insert("WrapSPlain", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Arg { sc: Sc::F64, opt: false, def: None } },
        Field { name: "e", indexed: false, mode: Mode::Prop { key: "e", sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "f", indexed: false, mode: Mode::Prop { key: "f", sc: Sc::Bool, opt: true, def: None } },
        Field { name: "g", indexed: false, mode: Mode::Args { sc: Sc::Int("u16"), set: false } }]));
    m.insert("WrapC", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Ty("Arg1"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Ty("Kids"), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Multi { name: "c", dec: Dec::Ty("Kind"), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } }]));
    m.insert("WrapCPlain", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Ty("Arg1"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Ty("Kids"), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Multi { name: "c", dec: Dec::Ty("Kind"), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Name") } }]));
    m.insert("WrapP", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Prop { key: "a", sc: Sc::Spanned(Box::new(Sc::Int("u32")), SpanTy::Native), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Prop { key: "b", sc: Sc::Spanned(Box::new(Sc::Str("String")), SpanTy::Native), opt: false, def: None } },
        Field { name: "rest", indexed: false, mode: Mode::Props { sc: Sc::Int("i32"), key: Fs::Str } }]));
    m.insert("WrapPPlain", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Prop { key: "a", sc: Sc::Int("u32"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Prop { key: "b", sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "rest", indexed: false, mode: Mode::Props { sc: Sc::Int("i32"), key: Fs::Str } }]));
    m.insert("WrapU", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Unwrap(Box::new(Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Unwrap(Box::new(Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Enum("Level", LEVEL)), SpanTy::Native), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Multi { name: "c", dec: Dec::Unwrap(Box::new(Field { name: "c", indexed: false, mode: Mode::Args { sc: Sc::Str("String"), set: false } })), opt: false, def: None } }]));
    m.insert("WrapUPlain", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Unwrap(Box::new(Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Child { name: "b", dec: Dec::Unwrap(Box::new(Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Level", LEVEL), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Multi { name: "c", dec: Dec::Unwrap(Box::new(Field { name: "c", indexed: false, mode: Mode::Args { sc: Sc::Str("String"), set: false } })), opt: false, def: None } }]));
    m.insert("WrapOpt", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Opt(Box::new(Sc::Int("u8"))), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Opt(Box::new(Sc::Str("String")))), SpanTy::Native), opt: false, def: None } },
        Field { name: "c", indexed: false, mode: Mode::Prop { key: "c", sc: Sc::Opt(Box::new(Sc::Enum("Color", COLOR))), opt: false, def: None } },
        Field { name: "d", indexed: false, mode: Mode::Args { sc: Sc::Opt(Box::new(Sc::Int("i64"))), set: false } }]));
    m.insert("L0", Def::Struct(vec![Field { name: "trail_", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "col", indexed: false, mode: Mode::Props { sc: Sc::Spanned(Box::new(Sc::Int("i64")), SpanTy::Byte), key: Fs::Char } }]));
    m.insert("L1", Def::Struct(vec![Field { name: "log_key", indexed: false, mode: Mode::Prop { key: "data", sc: Sc::Int("isize"), opt: false, def: None } },
        Field { name: "max", indexed: false, mode: Mode::Props { sc: Sc::Str("Arc<Path>"), key: Fs::Str } }]));
    m.insert("L2", Def::Struct(vec![Field { name: "alpha_a", indexed: false, mode: Mode::Args { sc: Sc::Bool, set: false } },
        Field { name: "data", indexed: false, mode: Mode::Prop { key: "data", sc: Sc::FromStr(Fs::Str), opt: false, def: Some(s("")) } },
        Field { name: "node", indexed: false, mode: Mode::NodeName(Fs::Str) }]));
    m.insert("L3", Def::Struct(vec![Field { name: "x_min", indexed: false, mode: Mode::Args { sc: Sc::Opt(Box::new(Sc::Spanned(Box::new(Sc::Str("String")), SpanTy::Byte))), set: false } },
        Field { name: "flag_alpha", indexed: false, mode: Mode::Props { sc: Sc::Str("Arc<Path>"), key: Fs::Str } },
        Field { name: "trail_", indexed: false, mode: Mode::Span(SpanTy::Native) }]));
    m.insert("L4", Def::Struct(vec![Field { name: "host_a", indexed: false, mode: Mode::Prop { key: "user", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "node", indexed: false, mode: Mode::Arg { sc: Sc::Str("Arc<str>"), opt: false, def: Some(s("x y")) } }]));
    m.insert("L5", Def::Struct(vec![Field { name: "a", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "arg", indexed: false, mode: Mode::Prop { key: "arg", sc: Sc::FromStr(Fs::U16), opt: true, def: Some(some(Val::Int(127))) } }]));
    m.insert("L6", Def::Struct(vec![Field { name: "delta", indexed: false, mode: Mode::Prop { key: "delta", sc: Sc::Bool, opt: false, def: None } },
        Field { name: "beta_data", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Str), opt: false, def: Some(s("")) } },
        Field { name: "gamma", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "item", indexed: false, mode: Mode::TypeName(Fs::Str, true) }]));
    m.insert("L7", Def::Struct(vec![Field { name: "s", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "max_y", indexed: false, mode: Mode::Prop { key: "max-y", sc: Sc::Int("i64"), opt: false, def: None } },
        Field { name: "size", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: true, def: Some(Val::None) } }]));
    m.insert("L8", Def::Struct(vec![Field { name: "mode", indexed: false, mode: Mode::Arg { sc: Sc::Bool, opt: false, def: None } }]));
    m.insert("L9", Def::Struct(vec![Field { name: "opt_host", indexed: false, mode: Mode::Prop { key: "opt-host", sc: Sc::Str("Arc<str>"), opt: false, def: None } },
        Field { name: "x_v2", indexed: false, mode: Mode::Prop { key: "x-v2", sc: Sc::FromStr(Fs::Str), opt: false, def: Some(s("x y")) } },
        Field { name: "item", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(false), opt: false, def: None } },
        Field { name: "gamma", indexed: false, mode: Mode::Prop { key: "-", sc: Sc::Bytes(true), opt: true, def: Some(Val::None) } }]));
    m.insert("L10", Def::Struct(vec![Field { name: "key_beta", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Int("u8")), SpanTy::Native), opt: true, def: None } }]));
    m.insert("L11", Def::Struct(vec![Field { name: "alpha_log", indexed: false, mode: Mode::Prop { key: "gamma", sc: Sc::FromStr(Fs::U16), opt: false, def: Some(Val::Int(0)) } },
        Field { name: "flag", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "node_name", indexed: false, mode: Mode::Props { sc: Sc::Spanned(Box::new(Sc::Int("i32")), SpanTy::Native), key: Fs::Even } },
        Field { name: "max", indexed: false, mode: Mode::TypeName(Fs::Even, true) }]));
    m.insert("L12", Def::Struct(vec![Field { name: "alpha", indexed: false, mode: Mode::Prop { key: "alpha", sc: Sc::F32, opt: false, def: None } },
        Field { name: "delta_gamma", indexed: false, mode: Mode::Prop { key: "host", sc: Sc::Str("PathBuf"), opt: false, def: None } },
        Field { name: "item_list", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::U16), set: false } },
        Field { name: "opt", indexed: false, mode: Mode::NodeName(Fs::Str) }]));
    m.insert("L13", Def::Struct(vec![Field { name: "tn", indexed: false, mode: Mode::TypeName(Fs::Str, true) },
        Field { name: "host_kind", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Str("String")), SpanTy::Native), opt: true, def: None } },
        Field { name: "port", indexed: false, mode: Mode::Prop { key: "true", sc: Sc::Int("i8"), opt: false, def: None } },
        Field { name: "port_v2", indexed: false, mode: Mode::Props { sc: Sc::Int("i64"), key: Fs::Char } }]));
    m.insert("RP0", Def::Struct(vec![Field { name: "port_a", indexed: false, mode: Mode::Child { name: "port-a", dec: Dec::Ty("Props"), opt: true, def: None } },
        Field { name: "flag_y", indexed: false, mode: Mode::Child { name: "flag-y", dec: Dec::Unwrap(Box::new(Field { name: "flag_y", indexed: false, mode: Mode::Prop { key: "min", sc: Sc::FromStr(Fs::Even), opt: false, def: None } })), opt: true, def: None } }]));
    m.insert("RP1", Def::Struct(vec![Field { name: "path", indexed: false, mode: Mode::Child { name: "path", dec: Dec::Ty("L5"), opt: true, def: None } },
        Field { name: "x_path", indexed: false, mode: Mode::Prop { key: "x-path", sc: Sc::Int("i32"), opt: true, def: None } },
        Field { name: "_lead", indexed: false, mode: Mode::Prop { key: "lead", sc: Sc::Int("u64"), opt: true, def: None } },
        Field { name: "v2_id", indexed: false, mode: Mode::Prop { key: "row", sc: Sc::Bytes(false), opt: true, def: None } }]));
    m.insert("RP2", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "tag", sc: Sc::Int("isize"), opt: true, def: None } }]));
    m.insert("RP3", Def::Struct(vec![Field { name: "host", indexed: false, mode: Mode::Flag { name: "host" } },
        Field { name: "key_data", indexed: false, mode: Mode::Flat { ty: "PartP", child: false, prop: true } },
        Field { name: "user_id", indexed: false, mode: Mode::Flag { name: "user-id" } }]));
    m.insert("RP4", Def::Struct(vec![Field { name: "key_delta", indexed: false, mode: Mode::Prop { key: "key-delta", sc: Sc::Str("Arc<Path>"), opt: true, def: None } },
        Field { name: "delta", indexed: false, mode: Mode::Child { name: "delta", dec: Dec::Unwrap(Box::new(Field { name: "delta", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::Char), set: false } })), opt: true, def: None } },
        Field { name: "key_col", indexed: false, mode: Mode::Prop { key: "key-col", sc: Sc::Enum("Color", COLOR), opt: true, def: None } },
        Field { name: "host", indexed: false, mode: Mode::Flat { ty: "PartN", child: true, prop: false } },
        Field { name: "beta", indexed: false, mode: Mode::Prop { key: "beta", sc: Sc::Int("i64"), opt: true, def: None } }]));
    m.insert("RP5", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "key", sc: Sc::Bytes(false), opt: true, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Flat { ty: "RP1", child: true, prop: false } }]));
    m.insert("S0", Def::Struct(vec![Field { name: "alpha", indexed: false, mode: Mode::Multi { name: "tab\u{9}here", dec: Dec::Ty("OptAll"), opt: false, def: None } },
        Field { name: "y_data", indexed: false, mode: Mode::Flat { ty: "RP5", child: false, prop: true } },
        Field { name: "path_opt", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(false), opt: true, def: None } },
        Field { name: "arg", indexed: false, mode: Mode::Prop { key: "arg", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "y", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Char), opt: false, def: None } },
        Field { name: "row", indexed: false, mode: Mode::Flat { ty: "RP3", child: false, prop: true } }]));
    m.insert("S1", Def::Struct(vec![Field { name: "host_min", indexed: false, mode: Mode::Child { name: "host-min", dec: Dec::Unwrap(Box::new(Field { name: "host_min", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::U16), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "node_name", indexed: false, mode: Mode::Prop { key: "a\"b", sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "flag", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "iter_args", indexed: false, mode: Mode::Child { name: "iter-args", dec: Dec::Unwrap(Box::new(Field { name: "iter_args", indexed: false, mode: Mode::Prop { key: "flag", sc: Sc::Int("u32"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "col", indexed: false, mode: Mode::Prop { key: "col", sc: Sc::Int("i32"), opt: true, def: None } },
        Field { name: "col_a", indexed: false, mode: Mode::Flat { ty: "PartNC", child: false, prop: true } },
        Field { name: "user", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } },
        Field { name: "kind", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L3") } }]));
    m.insert("S2", Def::Struct(vec![Field { name: "beta_delta", indexed: false, mode: Mode::Flat { ty: "PartP", child: true, prop: false } },
        Field { name: "row", indexed: false, mode: Mode::Span(SpanTy::Byte) },
        Field { name: "path_key", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "beta_size", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "flag_key", indexed: false, mode: Mode::Skip(Val::Int(0)) },
        Field { name: "path_alpha", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::Str), set: false } },
        Field { name: "opt_size", indexed: false, mode: Mode::Child { name: "opt-size", dec: Dec::Ty("L11"), opt: false, def: None } }]));
    m.insert("S3", Def::Struct(vec![Field { name: "gamma_data", indexed: false, mode: Mode::Flat { ty: "RP2", child: true, prop: true } },
        Field { name: "end", indexed: false, mode: Mode::Span(SpanTy::Native) }]));
    m.insert("S4", Def::Struct(vec![Field { name: "user_col", indexed: false, mode: Mode::Child { name: "user-col", dec: Dec::Unwrap(Box::new(Field { name: "user_col", indexed: false, mode: Mode::Props { sc: Sc::Int("u8"), key: Fs::Str } })), opt: true, def: None } },
        Field { name: "v2_size", indexed: false, mode: Mode::Props { sc: Sc::FromStr(Fs::Even), key: Fs::Even } },
        Field { name: "lst", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(false), opt: false, def: None } },
        Field { name: "id_gamma", indexed: false, mode: Mode::NodeName(Fs::Even) },
        Field { name: "y", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "user", indexed: false, mode: Mode::TypeName(Fs::U16, true) }]));
    m.insert("S5", Def::Struct(vec![Field { name: "alpha_delta", indexed: false, mode: Mode::Prop { key: "alpha-delta", sc: Sc::Spanned(Box::new(Sc::Int("i64")), SpanTy::Byte), opt: true, def: None } },
        Field { name: "host_x", indexed: false, mode: Mode::Arg { sc: Sc::Int("i32"), opt: false, def: Some(Val::Int(127)) } }]));
    m.insert("S6", Def::Struct(vec![Field { name: "b_gamma", indexed: false, mode: Mode::Arg { sc: Sc::Str("Arc<Path>"), opt: false, def: None } },
        Field { name: "max_path", indexed: false, mode: Mode::TypeName(Fs::Addr, true) },
        Field { name: "item_beta", indexed: false, mode: Mode::Multi { name: "snake_case", dec: Dec::Ty("Where"), opt: false, def: None } },
        Field { name: "gamma_item", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "x", indexed: false, mode: Mode::Span(SpanTy::Byte) }]));
    m.insert("S7", Def::Struct(vec![Field { name: "id", indexed: false, mode: Mode::Span(SpanTy::Byte) },
        Field { name: "path_id", indexed: false, mode: Mode::Child { name: "path-id", dec: Dec::Unwrap(Box::new(Field { name: "path_id", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Only", ONLY), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "row_alpha", indexed: false, mode: Mode::Prop { key: "row-alpha", sc: Sc::Spanned(Box::new(Sc::F32), SpanTy::Byte), opt: false, def: None } },
        Field { name: "opt", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "none", indexed: false, mode: Mode::Multi { name: "a", dec: Dec::Ty("L3"), opt: true, def: None } },
        Field { name: "list_alpha", indexed: false, mode: Mode::Flat { ty: "RP2", child: true, prop: false } },
        Field { name: "iter_args", indexed: false, mode: Mode::Child { name: "iter-args", dec: Dec::Unwrap(Box::new(Field { name: "iter_args", indexed: false, mode: Mode::Prop { key: "\u{65e5}\u{672c}", sc: Sc::Enum("Level", LEVEL), opt: false, def: None } })), opt: false, def: None } }]));
    m.insert("S8", Def::Struct(vec![Field { name: "fn", indexed: false, mode: Mode::Arg { sc: Sc::Int("usize"), opt: false, def: None } },
        Field { name: "a", indexed: false, mode: Mode::Multi { name: "b", dec: Dec::Ty("OptAll"), opt: false, def: Some(Val::List(vec![Val::Rec("OptAll".into(), vec![("alpha".into(), Val::None), ("beta".into(), Val::None), ("flag".into(), Val::Bool(false))]), Val::Rec("OptAll".into(), vec![("alpha".into(), Val::None), ("beta".into(), Val::None), ("flag".into(), Val::Bool(false))])])) } },
        Field { name: "key", indexed: false, mode: Mode::Child { name: "key", dec: Dec::Ty("L2"), opt: true, def: None } }]));
    m.insert("S9", Def::Struct(vec![Field { name: "delta", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "result", indexed: false, mode: Mode::Flag { name: "result" } },
        Field { name: "path_id", indexed: false, mode: Mode::Prop { key: "camelCase", sc: Sc::FromStr(Fs::U16), opt: true, def: None } },
        Field { name: "opt_min", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Enum("Color", COLOR)), SpanTy::Native), opt: false, def: None } },
        Field { name: "tag", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "key", indexed: false, mode: Mode::Prop { key: "key", sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "beta_path", indexed: false, mode: Mode::TypeName(Fs::Addr, true) }]));
    m.insert("S10", Def::Struct(vec![Field { name: "log", indexed: false, mode: Mode::Child { name: "log", dec: Dec::Ty("Unit"), opt: true, def: None } },
        Field { name: "opt", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "size_col", indexed: false, mode: Mode::Child { name: "size-col", dec: Dec::Ty("OptAll"), opt: false, def: Some(Val::Rec("OptAll".into(), vec![("alpha".into(), Val::None), ("beta".into(), Val::None), ("flag".into(), Val::Bool(false))])) } },
        Field { name: "s", indexed: false, mode: Mode::Flat { ty: "PartM", child: false, prop: true } },
        Field { name: "mode_b", indexed: false, mode: Mode::Multi { name: "list", dec: Dec::Unwrap(Box::new(Field { name: "mode_b", indexed: false, mode: Mode::Props { sc: Sc::Str("String"), key: Fs::Str } })), opt: false, def: None } }]));
    m.insert("S11", Def::Struct(vec![Field { name: "key_end", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Even), opt: false, def: None } },
        Field { name: "min", indexed: false, mode: Mode::Flat { ty: "PartM", child: true, prop: true } },
        Field { name: "mode", indexed: false, mode: Mode::Prop { key: "b", sc: Sc::Bool, opt: false, def: Some(Val::Bool(false)) } },
        Field { name: "item", indexed: false, mode: Mode::Prop { key: "item", sc: Sc::Str("PathBuf"), opt: true, def: None } },
        Field { name: "v2_key", indexed: false, mode: Mode::Prop { key: "v2-key", sc: Sc::FromStr(Fs::U16), opt: true, def: None } },
        Field { name: "name_str", indexed: false, mode: Mode::Child { name: "name-str", dec: Dec::Ty("S5"), opt: true, def: None } },
        Field { name: "key_item", indexed: false, mode: Mode::Prop { key: "key-item", sc: Sc::Bytes(false), opt: false, def: None } }]));
    m.insert("S12", Def::Struct(vec![Field { name: "v", indexed: false, mode: Mode::NodeName(Fs::Even) },
        Field { name: "alpha_list", indexed: false, mode: Mode::Arg { sc: Sc::Int("u16"), opt: true, def: None } },
        Field { name: "item", indexed: false, mode: Mode::TypeName(Fs::Char, false) },
        Field { name: "v2", indexed: false, mode: Mode::Skip(Val::List(vec![])) },
        Field { name: "port_port", indexed: false, mode: Mode::Prop { key: "port-port", sc: Sc::FromStr(Fs::U16), opt: true, def: None } }]));
    m.insert("S13", Def::Struct(vec![Field { name: "end", indexed: false, mode: Mode::Prop { key: "end", sc: Sc::Int("i16"), opt: false, def: None } },
        Field { name: "result", indexed: false, mode: Mode::Multi { name: "\u{fc}ber", dec: Dec::Unwrap(Box::new(Field { name: "result", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "tag", indexed: false, mode: Mode::Multi { name: "camelCase", dec: Dec::Ty("Three"), opt: true, def: None } },
        Field { name: "row", indexed: false, mode: Mode::Skip(Val::None) }]));
    m.insert("S14", Def::Struct(vec![Field { name: "x", indexed: false, mode: Mode::Arg { sc: Sc::Int("i32"), opt: true, def: None } },
        Field { name: "user_item", indexed: false, mode: Mode::Props { sc: Sc::FromStr(Fs::Char), key: Fs::Char } },
        Field { name: "id", indexed: false, mode: Mode::Span(SpanTy::Native) }]));
    m.insert("S15", Def::Struct(vec![Field { name: "key", indexed: false, mode: Mode::Args { sc: Sc::Bytes(false), set: false } },
        Field { name: "size_id", indexed: false, mode: Mode::TypeName(Fs::Str, false) },
        Field { name: "x", indexed: false, mode: Mode::Flat { ty: "RP2", child: true, prop: true } },
        Field { name: "a", indexed: false, mode: Mode::Multi { name: "tag", dec: Dec::Ty("Unit"), opt: false, def: Some(Val::List(vec![Val::Rec("Unit".into(), vec![])])) } },
        Field { name: "tag_a", indexed: false, mode: Mode::Skip(Val::None) }]));
    m.insert("S16", Def::Struct(vec![Field { name: "user", indexed: false, mode: Mode::Flat { ty: "RP1", child: true, prop: true } },
        Field { name: "key", indexed: false, mode: Mode::Child { name: "key", dec: Dec::Unwrap(Box::new(Field { name: "key", indexed: false, mode: Mode::Multi { name: "mode", dec: Dec::Ty("S0"), opt: false, def: None } })), opt: false, def: None } }]));
    m.insert("S17", Def::Struct(vec![Field { name: "host", indexed: false, mode: Mode::TypeName(Fs::Even, true) },
        Field { name: "node_name", indexed: false, mode: Mode::Multi { name: "path", dec: Dec::Unwrap(Box::new(Field { name: "node_name", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "list_row", indexed: false, mode: Mode::Skip(Val::None) }]));
    m.insert("S18", Def::Struct(vec![Field { name: "flag", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "user_v2", indexed: false, mode: Mode::Args { sc: Sc::Int("i16"), set: true } },
        Field { name: "data", indexed: false, mode: Mode::Flag { name: "data" } },
        Field { name: "s", indexed: false, mode: Mode::TypeName(Fs::Char, true) },
        Field { name: "item", indexed: false, mode: Mode::Child { name: "item", dec: Dec::Ty("S6"), opt: false, def: None } },
        Field { name: "none", indexed: false, mode: Mode::Flat { ty: "PartN", child: false, prop: true } }]));
    m.insert("S19", Def::Struct(vec![Field { name: "log_host", indexed: false, mode: Mode::Flag { name: "log-host" } },
        Field { name: "end_kind", indexed: false, mode: Mode::Flat { ty: "PartP", child: true, prop: true } },
        Field { name: "alpha_delta", indexed: false, mode: Mode::TypeName(Fs::Addr, true) }]));
    m.insert("S20", Def::Struct(vec![Field { name: "host_alpha", indexed: false, mode: Mode::Multi { name: "Null", dec: Dec::Ty("S2"), opt: false, def: Some(Val::List(vec![])) } },
        Field { name: "user", indexed: false, mode: Mode::Child { name: "user", dec: Dec::Unwrap(Box::new(Field { name: "user", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Addr), opt: false, def: None } })), opt: true, def: None } }]));
    m.insert("S21", Def::Struct(vec![Field { name: "id_list", indexed: false, mode: Mode::Prop { key: "id-list", sc: Sc::FromStr(Fs::Str), opt: false, def: None } },
        Field { name: "log", indexed: false, mode: Mode::Args { sc: Sc::Int("i16"), set: true } }]));
    m.insert("S22", Def::Struct(vec![Field { name: "min_delta", indexed: false, mode: Mode::TypeName(Fs::Even, false) },
        Field { name: "b", indexed: false, mode: Mode::Multi { name: "3", dec: Dec::Unwrap(Box::new(Field { name: "b", indexed: false, mode: Mode::Multi { name: "kind", dec: Dec::Ty("S2"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "value", indexed: false, mode: Mode::TypeName(Fs::Even, true) },
        Field { name: "val", indexed: false, mode: Mode::Flat { ty: "RP4", child: true, prop: false } },
        Field { name: "size_x", indexed: false, mode: Mode::Props { sc: Sc::Opt(Box::new(Sc::F32)), key: Fs::Even } }]));
    m.insert("S23", Def::Struct(vec![Field { name: "key_list", indexed: false, mode: Mode::Flag { name: "key-list" } },
        Field { name: "alpha_item", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "name", indexed: false, mode: Mode::Arg { sc: Sc::F32, opt: false, def: None } },
        Field { name: "path_v2", indexed: false, mode: Mode::TypeName(Fs::U16, true) },
        Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Unwrap(Box::new(Field { name: "a", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "none", indexed: false, mode: Mode::Args { sc: Sc::Str("String"), set: false } },
        Field { name: "e", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "v2_host", indexed: false, mode: Mode::Multi { name: "flag", dec: Dec::Unwrap(Box::new(Field { name: "v2_host", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Char), opt: false, def: Some(s("c")) } })), opt: true, def: Some(some(Val::List(vec![s("c")]))) } }]));
    m.insert("S24", Def::Struct(vec![Field { name: "id", indexed: false, mode: Mode::Prop { key: "id", sc: Sc::Int("usize"), opt: false, def: Some(Val::Int(1)) } },
        Field { name: "log", indexed: false, mode: Mode::NodeName(Fs::Even) },
        Field { name: "tag_y", indexed: false, mode: Mode::Prop { key: "tag-y", sc: Sc::Spanned(Box::new(Sc::Str("Arc<str>")), SpanTy::Native), opt: true, def: None } },
        Field { name: "v2_row", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Char), opt: false, def: None } },
        Field { name: "lst", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "log_beta", indexed: false, mode: Mode::Multi { name: "host", dec: Dec::Unwrap(Box::new(Field { name: "log_beta", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } })), opt: true, def: Some(Val::None) } },
        Field { name: "host_b", indexed: false, mode: Mode::Skip(Val::List(vec![])) },
        Field { name: "gamma", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "gamma", indexed: false, mode: Mode::Prop { key: "max", sc: Sc::Str("Arc<str>"), opt: false, def: None } })) } }]));
    m.insert("S25", Def::Struct(vec![Field { name: "list_list", indexed: false, mode: Mode::NodeName(Fs::Even) },
        Field { name: "beta_key", indexed: false, mode: Mode::Child { name: "beta-key", dec: Dec::Unwrap(Box::new(Field { name: "beta_key", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "flag_item", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L2") } }]));
    m.insert("S26", Def::Struct(vec![Field { name: "alpha", indexed: false, mode: Mode::TypeName(Fs::Addr, false) },
        Field { name: "mode_beta", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "mode_beta", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } })) } }]));
    m.insert("S27", Def::Struct(vec![Field { name: "host", indexed: false, mode: Mode::Skip(Val::None) },
        Field { name: "host_path", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "flag", indexed: false, mode: Mode::Child { name: "flag", dec: Dec::Ty("Kind"), opt: false, def: None } },
        Field { name: "user_gamma", indexed: false, mode: Mode::Child { name: "user-gamma", dec: Dec::Ty("L13"), opt: false, def: None } },
        Field { name: "min", indexed: false, mode: Mode::Skip(Val::None) },
        Field { name: "gamma_min", indexed: false, mode: Mode::TypeName(Fs::Str, false) },
        Field { name: "list", indexed: false, mode: Mode::Skip(Val::Int(0)) }]));
    m.insert("S28", Def::Struct(vec![Field { name: "type", indexed: false, mode: Mode::Span(SpanTy::Byte) },
        Field { name: "kind_gamma", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L3") } },
        Field { name: "alpha_tag", indexed: false, mode: Mode::Args { sc: Sc::Int("u32"), set: false } }]));
    m.insert("S29", Def::Struct(vec![Field { name: "y_mode", indexed: false, mode: Mode::TypeName(Fs::U16, false) },
        Field { name: "gamma_beta", indexed: false, mode: Mode::Props { sc: Sc::Enum("Color", COLOR), key: Fs::Str } },
        Field { name: "user", indexed: false, mode: Mode::Span(SpanTy::Native) },
        Field { name: "id_gamma", indexed: false, mode: Mode::Multi { name: "x.y", dec: Dec::Ty("L9"), opt: false, def: None } },
        Field { name: "y", indexed: false, mode: Mode::Arg { sc: Sc::Int("u16"), opt: true, def: None } },
        Field { name: "end", indexed: false, mode: Mode::Arg { sc: Sc::Int("u8"), opt: false, def: Some(Val::Int(7)) } }]));
    m.insert("S30", Def::Struct(vec![Field { name: "flag_end", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Str), opt: true, def: None } },
        Field { name: "host", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::Addr), set: false } },
        Field { name: "value", indexed: false, mode: Mode::Skip(Val::None) },
        Field { name: "item", indexed: false, mode: Mode::Prop { key: "item", sc: Sc::Bytes(false), opt: false, def: None } }]));
    m.insert("S31", Def::Struct(vec![Field { name: "id", indexed: false, mode: Mode::Prop { key: "alpha", sc: Sc::Spanned(Box::new(Sc::Enum("Color", COLOR)), SpanTy::Byte), opt: false, def: None } },
        Field { name: "x_opt", indexed: false, mode: Mode::Prop { key: "y", sc: Sc::Spanned(Box::new(Sc::Str("String")), SpanTy::Byte), opt: true, def: None } }]));
    m.insert("S32", Def::Struct(vec![Field { name: "host_row", indexed: false, mode: Mode::Child { name: "host-row", dec: Dec::Unwrap(Box::new(Field { name: "host_row", indexed: false, mode: Mode::Rest { dec: Dec::Ty("Kind") } })), opt: true, def: None } },
        Field { name: "user", indexed: false, mode: Mode::Child { name: "user", dec: Dec::Unwrap(Box::new(Field { name: "user", indexed: false, mode: Mode::Args { sc: Sc::FromStr(Fs::Char), set: false } })), opt: false, def: None } },
        Field { name: "y", indexed: false, mode: Mode::NodeName(Fs::Even) },
        Field { name: "user_size", indexed: false, mode: Mode::Arg { sc: Sc::Int("i64"), opt: false, def: None } },
        Field { name: "flag", indexed: false, mode: Mode::Prop { key: "flag", sc: Sc::Int("usize"), opt: false, def: None } },
        Field { name: "row", indexed: false, mode: Mode::Child { name: "row", dec: Dec::Unwrap(Box::new(Field { name: "row", indexed: false, mode: Mode::Arg { sc: Sc::Int("i32"), opt: false, def: Some(Val::Int(7)) } })), opt: false, def: Some(Val::Int(7)) } }]));
    m.insert("S33", Def::Struct(vec![Field { name: "flag_delta", indexed: false, mode: Mode::Multi { name: "list", dec: Dec::Unwrap(Box::new(Field { name: "flag_delta", indexed: false, mode: Mode::Args { sc: Sc::Enum("Color", COLOR), set: false } })), opt: false, def: None } },
        Field { name: "list_max", indexed: false, mode: Mode::Multi { name: "x.y", dec: Dec::Ty("L13"), opt: false, def: None } },
        Field { name: "two__under", indexed: false, mode: Mode::NodeName(Fs::Str) },
        Field { name: "list_id", indexed: false, mode: Mode::TypeName(Fs::U16, false) },
        Field { name: "log_max", indexed: false, mode: Mode::NodeName(Fs::Even) }]));
    m.insert("T0", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::NodeName(Fs::Str) },
        Field { name: "1", indexed: true, mode: Mode::Prop { key: "port", sc: Sc::Spanned(Box::new(Sc::Spanned(Box::new(Sc::Enum("Level", LEVEL)), SpanTy::Native)), SpanTy::Native), opt: false, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Skip(s("")) },
        Field { name: "3", indexed: true, mode: Mode::Arg { sc: Sc::Str("String"), opt: true, def: None } },
        Field { name: "4", indexed: true, mode: Mode::TypeName(Fs::Str, true) }]));
    m.insert("T1", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Skip(s("")) },
        Field { name: "1", indexed: true, mode: Mode::Arg { sc: Sc::Bytes(false), opt: false, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Flat { ty: "PartT", child: false, prop: true } }]));
    m.insert("T2", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "x", sc: Sc::Int("u32"), opt: false, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Flat { ty: "PartNC", child: false, prop: true } },
        Field { name: "2", indexed: true, mode: Mode::Prop { key: "UPPER", sc: Sc::Enum("Only", ONLY), opt: false, def: None } },
        Field { name: "3", indexed: true, mode: Mode::Span(SpanTy::Byte) },
        Field { name: "4", indexed: true, mode: Mode::Span(SpanTy::Native) },
        Field { name: "5", indexed: true, mode: Mode::Prop { key: "item", sc: Sc::FromStr(Fs::Char), opt: false, def: None } }]));
    m.insert("T3", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "row", sc: Sc::FromStr(Fs::Str), opt: false, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Arg { sc: Sc::FromStr(Fs::Even), opt: false, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Arg { sc: Sc::Str("PathBuf"), opt: true, def: None } }]));
    m.insert("T4", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Str("Arc<str>"), opt: false, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Prop { key: "key", sc: Sc::Enum("Color", COLOR), opt: true, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Rest { dec: Dec::Ty("L6") } }]));
    m.insert("T5", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Flat { ty: "RP2", child: true, prop: true } },
        Field { name: "1", indexed: true, mode: Mode::Span(SpanTy::Byte) }]));
    m.insert("T6", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Native) },
        Field { name: "1", indexed: true, mode: Mode::Prop { key: "log", sc: Sc::Int("u32"), opt: false, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Multi { name: "\u{65e5}\u{672c}", dec: Dec::Ty("L4"), opt: false, def: None } },
        Field { name: "3", indexed: true, mode: Mode::NodeName(Fs::Str) },
        Field { name: "4", indexed: true, mode: Mode::Skip(Val::List(vec![])) }]));
    m.insert("T7", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Flat { ty: "PartC", child: true, prop: true } },
        Field { name: "1", indexed: true, mode: Mode::Flat { ty: "PartM", child: false, prop: true } },
        Field { name: "2", indexed: true, mode: Mode::Skip(Val::List(vec![])) }]));
    m.insert("T8", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::NodeName(Fs::Str) },
        Field { name: "1", indexed: true, mode: Mode::Flat { ty: "RP3", child: false, prop: true } },
        Field { name: "2", indexed: true, mode: Mode::Rest { dec: Dec::Ty("L11") } }]));
    m.insert("T9", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Native) },
        Field { name: "1", indexed: true, mode: Mode::Args { sc: Sc::FromStr(Fs::Even), set: false } }]));
    m.insert("T10", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Args { sc: Sc::FromStr(Fs::Char), set: false } }]));
    m.insert("T11", Def::Struct(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "host", sc: Sc::Spanned(Box::new(Sc::Int("i8")), SpanTy::Byte), opt: false, def: None } },
        Field { name: "1", indexed: true, mode: Mode::Arg { sc: Sc::Str("PathBuf"), opt: false, def: None } },
        Field { name: "2", indexed: true, mode: Mode::Multi { name: "true", dec: Dec::Ty("Three"), opt: true, def: Some(Val::None) } }]));
    m.insert("E0", Def::Enum(vec![("move", "r#move", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Arg { sc: Sc::Int("i32"), opt: true, def: None } }, Field { name: "1", indexed: true, mode: Mode::Arg { sc: Sc::F32, opt: false, def: None } }, Field { name: "2", indexed: true, mode: Mode::Prop { key: "Null", sc: Sc::Bytes(false), opt: true, def: Some(Val::None) } }])),
        ("alpha", "Alpha", VKind::Nested(Dec::Ty("S7"), false)),
        ("two-words-more", "TwoWordsMore", VKind::Nested(Dec::Ty("L6"), true)),
        ("v1-beta", "V1Beta", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "path", sc: Sc::FromStr(Fs::Str), opt: true, def: None } }, Field { name: "1", indexed: true, mode: Mode::NodeName(Fs::Str) }])),
        ("xml-doc", "XMLDoc", VKind::Nested(Dec::Ty("L12"), true)),
        ("abc", "ABC", VKind::Nested(Dec::Ty("S6"), true))]));
    m.insert("E1", Def::Enum(vec![("move", "r#move", VKind::Nested(Dec::Ty("Num"), true)),
        ("xml-doc", "XMLDoc", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Props { sc: Sc::Int("u16"), key: Fs::Str } }])),
        ("alpha", "Alpha", VKind::Unit),
        ("two-words-more", "TwoWordsMore", VKind::Unit)]));
    m.insert("E2", Def::Enum(vec![("d", "D", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Skip(s("")) }, Field { name: "1", indexed: true, mode: Mode::NodeName(Fs::Str) }, Field { name: "2", indexed: true, mode: Mode::Prop { key: "row", sc: Sc::Spanned(Box::new(Sc::Enum("Level", LEVEL)), SpanTy::Native), opt: false, def: None } }, Field { name: "3", indexed: true, mode: Mode::Args { sc: Sc::Opt(Box::new(Sc::Int("i64"))), set: false } }])),
        ("two-words-more", "TwoWordsMore", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::TypeName(Fs::Str, false) }, Field { name: "1", indexed: true, mode: Mode::Prop { key: "row", sc: Sc::Int("i64"), opt: false, def: None } }, Field { name: "2", indexed: true, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: Some(Val::Var("dark-blue".into(), vec![])) } }])),
        ("move", "r#move", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Native) }, Field { name: "1", indexed: true, mode: Mode::Args { sc: Sc::FromStr(Fs::Even), set: false } }])),
        ("under-score", "under_score", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::TypeName(Fs::Addr, true) }, Field { name: "1", indexed: true, mode: Mode::Prop { key: "alpha", sc: Sc::FromStr(Fs::Addr), opt: true, def: None } }])),
        ("abc", "ABC", VKind::Unit)]));
    m.insert("E3", Def::Enum(vec![("xml-doc", "XMLDoc", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "snake_case", sc: Sc::Bytes(false), opt: false, def: None } }, Field { name: "1", indexed: true, mode: Mode::Multi { name: "y", dec: Dec::Unwrap(Box::new(Field { name: "", indexed: false, mode: Mode::Args { sc: Sc::Str("Arc<Path>"), set: false } })), opt: false, def: None } }, Field { name: "2", indexed: true, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } }, Field { name: "3", indexed: true, mode: Mode::Multi { name: "flag", dec: Dec::Ty("Arg1"), opt: false, def: None } }])),
        ("abc", "ABC", VKind::Nested(Dec::Ty("Where"), true)),
        ("d", "D", VKind::Unit)]));
    m.insert("E4", Def::Enum(vec![("xml-doc", "XMLDoc", VKind::Nested(Dec::Ty("L3"), true)),
        ("gamma-ray", "GammaRay", VKind::Unit),
        ("abc", "ABC", VKind::Unit),
        ("v1-beta", "V1Beta", VKind::Nested(Dec::Ty("L4"), false))]));
    m.insert("E5", Def::Enum(vec![("v1-beta", "V1Beta", VKind::Nested(Dec::Ty("Three"), false)),
        ("d", "D", VKind::Nested(Dec::Ty("S2"), true)),
        ("under-score", "under_score", VKind::Nested(Dec::Ty("Args"), false))]));
    m.insert("E6", Def::Enum(vec![("alpha", "Alpha", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::NodeName(Fs::Even) }, Field { name: "1", indexed: true, mode: Mode::Span(SpanTy::Native) }, Field { name: "2", indexed: true, mode: Mode::Flat { ty: "PartT", child: true, prop: true } }, Field { name: "3", indexed: true, mode: Mode::Prop { key: "kind", sc: Sc::Int("i16"), opt: true, def: None } }])),
        ("two-words-more", "TwoWordsMore", VKind::Nested(Dec::Ty("S5"), false)),
        ("xml-doc", "XMLDoc", VKind::Unit),
        ("gamma-ray", "GammaRay", VKind::Nested(Dec::Ty("S7"), true)),
        ("under-score", "under_score", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::NodeName(Fs::Str) }, Field { name: "1", indexed: true, mode: Mode::Prop { key: "list", sc: Sc::Int("usize"), opt: false, def: Some(Val::Int(7)) } }, Field { name: "2", indexed: true, mode: Mode::Flat { ty: "RP4", child: false, prop: true } }, Field { name: "3", indexed: true, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: false, def: None } })) } }]))]));
    m.insert("E7", Def::Enum(vec![("v1-beta", "V1Beta", VKind::Unit),
        ("move", "r#move", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Rest { dec: Dec::Ty("S4") } }]))]));
    m.insert("E8", Def::Enum(vec![("d", "D", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Multi { name: "camelCase", dec: Dec::Ty("S6"), opt: false, def: None } }, Field { name: "1", indexed: true, mode: Mode::Span(SpanTy::Native) }, Field { name: "2", indexed: true, mode: Mode::Span(SpanTy::Byte) }, Field { name: "3", indexed: true, mode: Mode::Prop { key: "a\"b", sc: Sc::FromStr(Fs::Char), opt: false, def: None } }])),
        ("gamma-ray", "GammaRay", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Prop { key: "-", sc: Sc::Int("u8"), opt: true, def: None } }])),
        ("move", "r#move", VKind::Unit)]));
    m.insert("E9", Def::Enum(vec![("beta2", "Beta2", VKind::Nested(Dec::Ty("E4"), true)),
        ("move", "r#move", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Native) }, Field { name: "1", indexed: true, mode: Mode::Skip(Val::Int(0)) }, Field { name: "2", indexed: true, mode: Mode::Flat { ty: "PartT", child: true, prop: false } }]))]));
    m.insert("E10", Def::Enum(vec![("xml-doc", "XMLDoc", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Args { sc: Sc::Enum("Color", COLOR), set: false } }])),
        ("d", "D", VKind::Unit)]));
    m.insert("E11", Def::Enum(vec![("beta2", "Beta2", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Byte) }, Field { name: "1", indexed: true, mode: Mode::Span(SpanTy::Byte) }, Field { name: "2", indexed: true, mode: Mode::Prop { key: "beta", sc: Sc::Int("u32"), opt: false, def: None } }, Field { name: "3", indexed: true, mode: Mode::Multi { name: "a", dec: Dec::Ty("S6"), opt: false, def: Some(Val::List(vec![])) } }]))]));
    m.insert("E12", Def::Enum(vec![("d", "D", VKind::Tuple(vec![Field { name: "0", indexed: true, mode: Mode::Span(SpanTy::Native) }])),
        ("abc", "ABC", VKind::Unit),
        ("alpha", "Alpha", VKind::Nested(Dec::Ty("Num"), false))]));
    m.insert("E13", Def::Enum(vec![("under-score", "under_score", VKind::Unit),
        ("xml-doc", "XMLDoc", VKind::Nested(Dec::Ty("Three"), false)),
        ("alpha", "Alpha", VKind::Nested(Dec::Ty("L8"), true)),
        ("d", "D", VKind::Unit),
        ("move", "r#move", VKind::Nested(Dec::Ty("L9"), false)),
        ("beta2", "Beta2", VKind::Unit)]));
    m.insert("D0", Def::Struct(vec![Field { name: "v", indexed: false, mode: Mode::Child { name: "v", dec: Dec::Unwrap(Box::new(Field { name: "v", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Int("i32")), SpanTy::Native), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "iter_args", indexed: false, mode: Mode::Skip(s("")) },
        Field { name: "y", indexed: false, mode: Mode::Skip(s("")) },
        Field { name: "id", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "id", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } })) } }]));
    m.insert("D1", Def::Struct(vec![Field { name: "host_gamma", indexed: false, mode: Mode::Flag { name: "host-gamma" } },
        Field { name: "match", indexed: false, mode: Mode::Child { name: "match", dec: Dec::Ty("L6"), opt: false, def: None } },
        Field { name: "list_min", indexed: false, mode: Mode::Multi { name: "", dec: Dec::Unwrap(Box::new(Field { name: "list_min", indexed: false, mode: Mode::Arg { sc: Sc::Bool, opt: false, def: None } })), opt: false, def: None } }]));
    m.insert("D2", Def::Struct(vec![Field { name: "alpha", indexed: false, mode: Mode::Child { name: "alpha", dec: Dec::Ty("S5"), opt: false, def: None } },
        Field { name: "size_list", indexed: false, mode: Mode::Child { name: "size-list", dec: Dec::Unwrap(Box::new(Field { name: "size_list", indexed: false, mode: Mode::Props { sc: Sc::Bool, key: Fs::Str } })), opt: false, def: None } },
        Field { name: "x", indexed: false, mode: Mode::Multi { name: "back\\slash", dec: Dec::Unwrap(Box::new(Field { name: "x", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } })), opt: false, def: Some(Val::List(vec![])) } },
        Field { name: "alpha_path", indexed: false, mode: Mode::Child { name: "alpha-path", dec: Dec::Unwrap(Box::new(Field { name: "alpha_path", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Int("u32")), SpanTy::Byte), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "v2_size", indexed: false, mode: Mode::Multi { name: "item", dec: Dec::Ty("S5"), opt: false, def: None } }]));
    m.insert("D3", Def::Struct(vec![Field { name: "key", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L8") } }]));
    m.insert("D4", Def::Struct(vec![Field { name: "key_item", indexed: false, mode: Mode::Multi { name: "snake_case", dec: Dec::Ty("S6"), opt: false, def: None } },
        Field { name: "row_min", indexed: false, mode: Mode::Child { name: "row-min", dec: Dec::Ty("L0"), opt: true, def: None } }]));
    m.insert("D5", Def::Struct(vec![Field { name: "key_end", indexed: false, mode: Mode::Child { name: "key-end", dec: Dec::Ty("S1"), opt: false, def: None } },
        Field { name: "children", indexed: false, mode: Mode::Flag { name: "children" } }]));
    m.insert("D6", Def::Struct(vec![Field { name: "data_host", indexed: false, mode: Mode::Skip(Val::Int(0)) },
        Field { name: "id", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "id", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::U16), opt: false, def: None } })) } }]));
    m.insert("D7", Def::Struct(vec![Field { name: "beta_log", indexed: false, mode: Mode::Skip(s("")) },
        Field { name: "max", indexed: false, mode: Mode::Child { name: "max", dec: Dec::Ty("L0"), opt: false, def: None } },
        Field { name: "flag_y", indexed: false, mode: Mode::Flag { name: "flag-y" } },
        Field { name: "col", indexed: false, mode: Mode::Multi { name: "log", dec: Dec::Ty("S5"), opt: false, def: Some(Val::List(vec![])) } },
        Field { name: "id", indexed: false, mode: Mode::Multi { name: "port", dec: Dec::Unwrap(Box::new(Field { name: "id", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Str("PathBuf")), SpanTy::Native), opt: false, def: None } })), opt: false, def: Some(Val::List(vec![])) } },
        Field { name: "item_path", indexed: false, mode: Mode::Child { name: "item-path", dec: Dec::Unwrap(Box::new(Field { name: "item_path", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Even), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "list_key", indexed: false, mode: Mode::Skip(Val::None) },
        Field { name: "row_a", indexed: false, mode: Mode::Skip(Val::List(vec![])) }]));
    m.insert("D8", Def::Struct(vec![Field { name: "result", indexed: false, mode: Mode::Multi { name: "Null", dec: Dec::Unwrap(Box::new(Field { name: "result", indexed: false, mode: Mode::Props { sc: Sc::Str("String"), key: Fs::Str } })), opt: true, def: None } },
        Field { name: "none", indexed: false, mode: Mode::Skip(Val::List(vec![])) },
        Field { name: "flag", indexed: false, mode: Mode::Child { name: "flag", dec: Dec::Ty("L5"), opt: false, def: None } },
        Field { name: "b", indexed: false, mode: Mode::Flag { name: "b" } }]));
    m.insert("D9", Def::Struct(vec![Field { name: "v2_port", indexed: false, mode: Mode::Multi { name: "UPPER", dec: Dec::Ty("L13"), opt: false, def: None } },
        Field { name: "key", indexed: false, mode: Mode::Flag { name: "key" } },
        Field { name: "row_gamma", indexed: false, mode: Mode::Child { name: "row-gamma", dec: Dec::Ty("Kind"), opt: false, def: None } },
        Field { name: "size", indexed: false, mode: Mode::Child { name: "size", dec: Dec::Unwrap(Box::new(Field { name: "size", indexed: false, mode: Mode::Multi { name: "host", dec: Dec::Ty("L2"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "name_str", indexed: false, mode: Mode::Rest { dec: Dec::Ty("OptAll") } }]));
    m.insert("W0", Def::Struct(vec![Field { name: "none", indexed: false, mode: Mode::Prop { key: "none", sc: Sc::F64, opt: false, def: None } },
        Field { name: "y_data", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "y_data", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L7") } })) } },
        Field { name: "max_delta", indexed: false, mode: Mode::Prop { key: "max-delta", sc: Sc::FromStr(Fs::Char), opt: false, def: Some(s("c")) } },
        Field { name: "log_data", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: true, def: None } },
        Field { name: "result", indexed: false, mode: Mode::Prop { key: "result", sc: Sc::Bool, opt: false, def: None } },
        Field { name: "end_v2", indexed: false, mode: Mode::Args { sc: Sc::Spanned(Box::new(Sc::Int("usize")), SpanTy::Native), set: false } }]));
    m.insert("W0Plain", Def::Struct(vec![Field { name: "none", indexed: false, mode: Mode::Prop { key: "none", sc: Sc::F64, opt: false, def: None } },
        Field { name: "y_data", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "y_data", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L7") } })) } },
        Field { name: "max_delta", indexed: false, mode: Mode::Prop { key: "max-delta", sc: Sc::FromStr(Fs::Char), opt: false, def: Some(s("c")) } },
        Field { name: "log_data", indexed: false, mode: Mode::Arg { sc: Sc::Bytes(true), opt: true, def: None } },
        Field { name: "result", indexed: false, mode: Mode::Prop { key: "result", sc: Sc::Bool, opt: false, def: None } },
        Field { name: "end_v2", indexed: false, mode: Mode::Args { sc: Sc::Int("usize"), set: false } }]));
    m.insert("W1", Def::Struct(vec![Field { name: "error", indexed: false, mode: Mode::Child { name: "error", dec: Dec::Unwrap(Box::new(Field { name: "error", indexed: false, mode: Mode::Arg { sc: Sc::Str("PathBuf"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "id_delta", indexed: false, mode: Mode::Props { sc: Sc::Opt(Box::new(Sc::Str("String"))), key: Fs::Char } },
        Field { name: "e", indexed: false, mode: Mode::Child { name: "e", dec: Dec::Unwrap(Box::new(Field { name: "e", indexed: false, mode: Mode::Props { sc: Sc::Bool, key: Fs::Str } })), opt: true, def: None } }]));
    m.insert("W1Plain", Def::Struct(vec![Field { name: "error", indexed: false, mode: Mode::Child { name: "error", dec: Dec::Unwrap(Box::new(Field { name: "error", indexed: false, mode: Mode::Arg { sc: Sc::Str("PathBuf"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "id_delta", indexed: false, mode: Mode::Props { sc: Sc::Opt(Box::new(Sc::Str("String"))), key: Fs::Char } },
        Field { name: "e", indexed: false, mode: Mode::Child { name: "e", dec: Dec::Unwrap(Box::new(Field { name: "e", indexed: false, mode: Mode::Props { sc: Sc::Bool, key: Fs::Str } })), opt: true, def: None } }]));
    m.insert("W2", Def::Struct(vec![Field { name: "port_user", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "port", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "port", indexed: false, mode: Mode::Arg { sc: Sc::F64, opt: false, def: None } })) } },
        Field { name: "col", indexed: false, mode: Mode::Prop { key: "\u{fc}ber", sc: Sc::Bool, opt: false, def: Some(Val::Bool(false)) } }]));
    m.insert("W2Plain", Def::Struct(vec![Field { name: "port_user", indexed: false, mode: Mode::Arg { sc: Sc::Str("String"), opt: false, def: None } },
        Field { name: "port", indexed: false, mode: Mode::Rest { dec: Dec::Unwrap(Box::new(Field { name: "port", indexed: false, mode: Mode::Arg { sc: Sc::F64, opt: false, def: None } })) } },
        Field { name: "col", indexed: false, mode: Mode::Prop { key: "\u{fc}ber", sc: Sc::Bool, opt: false, def: Some(Val::Bool(false)) } }]));
    m.insert("W3", Def::Struct(vec![Field { name: "args", indexed: false, mode: Mode::Args { sc: Sc::Int("i16"), set: true } },
        Field { name: "item", indexed: false, mode: Mode::Child { name: "item", dec: Dec::Unwrap(Box::new(Field { name: "item", indexed: false, mode: Mode::Multi { name: "path", dec: Dec::Ty("Three"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "size_beta", indexed: false, mode: Mode::Props { sc: Sc::Enum("Color", COLOR), key: Fs::Str } }]));
    m.insert("W3Plain", Def::Struct(vec![Field { name: "args", indexed: false, mode: Mode::Args { sc: Sc::Int("i16"), set: true } },
        Field { name: "item", indexed: false, mode: Mode::Child { name: "item", dec: Dec::Unwrap(Box::new(Field { name: "item", indexed: false, mode: Mode::Multi { name: "path", dec: Dec::Ty("Three"), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "size_beta", indexed: false, mode: Mode::Props { sc: Sc::Enum("Color", COLOR), key: Fs::Str } }]));
    m.insert("W4", Def::Struct(vec![Field { name: "tag", indexed: false, mode: Mode::Props { sc: Sc::Int("i16"), key: Fs::Even } },
        Field { name: "size", indexed: false, mode: Mode::Child { name: "size", dec: Dec::Unwrap(Box::new(Field { name: "size", indexed: false, mode: Mode::Multi { name: "id", dec: Dec::Ty("Unit"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "port_a", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } }]));
    m.insert("W4Plain", Def::Struct(vec![Field { name: "tag", indexed: false, mode: Mode::Props { sc: Sc::Int("i16"), key: Fs::Even } },
        Field { name: "size", indexed: false, mode: Mode::Child { name: "size", dec: Dec::Unwrap(Box::new(Field { name: "size", indexed: false, mode: Mode::Multi { name: "id", dec: Dec::Ty("Unit"), opt: false, def: None } })), opt: false, def: None } },
        Field { name: "port_a", indexed: false, mode: Mode::Arg { sc: Sc::Int("i8"), opt: false, def: None } }]));
    m.insert("W5", Def::Struct(vec![Field { name: "type", indexed: false, mode: Mode::Prop { key: "type", sc: Sc::Int("isize"), opt: false, def: None } },
        Field { name: "tn", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Ty("L4"), opt: true, def: None } },
        Field { name: "gamma_key", indexed: false, mode: Mode::Multi { name: "gamma", dec: Dec::Unwrap(Box::new(Field { name: "gamma_key", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Char), opt: false, def: None } })), opt: false, def: None } }]));
    m.insert("W5Plain", Def::Struct(vec![Field { name: "type", indexed: false, mode: Mode::Prop { key: "type", sc: Sc::Int("isize"), opt: false, def: None } },
        Field { name: "tn", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Color", COLOR), opt: false, def: None } },
        Field { name: "a", indexed: false, mode: Mode::Child { name: "a", dec: Dec::Ty("L4"), opt: true, def: None } },
        Field { name: "gamma_key", indexed: false, mode: Mode::Multi { name: "gamma", dec: Dec::Unwrap(Box::new(Field { name: "gamma_key", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Char), opt: false, def: None } })), opt: false, def: None } }]));
    m.insert("W6", Def::Struct(vec![Field { name: "node_name", indexed: false, mode: Mode::Arg { sc: Sc::Int("usize"), opt: false, def: None } },
        Field { name: "value", indexed: false, mode: Mode::Props { sc: Sc::Spanned(Box::new(Sc::Bool), SpanTy::Native), key: Fs::Str } },
        Field { name: "min_size", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L13") } }]));
    m.insert("W6Plain", Def::Struct(vec![Field { name: "node_name", indexed: false, mode: Mode::Arg { sc: Sc::Int("usize"), opt: false, def: None } },
        Field { name: "value", indexed: false, mode: Mode::Props { sc: Sc::Bool, key: Fs::Str } },
        Field { name: "min_size", indexed: false, mode: Mode::Rest { dec: Dec::Ty("L13") } }]));
    m.insert("W7", Def::Struct(vec![Field { name: "a_id", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::F32), SpanTy::Byte), opt: true, def: None } },
        Field { name: "x_max", indexed: false, mode: Mode::Child { name: "x-max", dec: Dec::Ty("Unit"), opt: false, def: None } },
        Field { name: "size", indexed: false, mode: Mode::Prop { key: "size", sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "arg", indexed: false, mode: Mode::Multi { name: "camelCase", dec: Dec::Ty("L1"), opt: false, def: None } },
        Field { name: "type", indexed: false, mode: Mode::Child { name: "type", dec: Dec::Unwrap(Box::new(Field { name: "type", indexed: false, mode: Mode::Arg { sc: Sc::Spanned(Box::new(Sc::Enum("Only", ONLY)), SpanTy::Byte), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "item", indexed: false, mode: Mode::Child { name: "item", dec: Dec::Unwrap(Box::new(Field { name: "item", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Addr), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "list", indexed: false, mode: Mode::Props { sc: Sc::FromStr(Fs::Even), key: Fs::Even } }]));
    m.insert("W7Plain", Def::Struct(vec![Field { name: "a_id", indexed: false, mode: Mode::Arg { sc: Sc::F32, opt: true, def: None } },
        Field { name: "x_max", indexed: false, mode: Mode::Child { name: "x-max", dec: Dec::Ty("Unit"), opt: false, def: None } },
        Field { name: "size", indexed: false, mode: Mode::Prop { key: "size", sc: Sc::Int("i8"), opt: true, def: None } },
        Field { name: "arg", indexed: false, mode: Mode::Multi { name: "camelCase", dec: Dec::Ty("L1"), opt: false, def: None } },
        Field { name: "type", indexed: false, mode: Mode::Child { name: "type", dec: Dec::Unwrap(Box::new(Field { name: "type", indexed: false, mode: Mode::Arg { sc: Sc::Enum("Only", ONLY), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "item", indexed: false, mode: Mode::Child { name: "item", dec: Dec::Unwrap(Box::new(Field { name: "item", indexed: false, mode: Mode::Arg { sc: Sc::FromStr(Fs::Addr), opt: false, def: None } })), opt: true, def: None } },
        Field { name: "list", indexed: false, mode: Mode::Props { sc: Sc::FromStr(Fs::Even), key: Fs::Even } }]));
    m
}
