// Generated by tools/gen_types.py
#[derive(knuffel::Decode, Default)]
pub struct Unit;
impl Dump for Unit {
    fn dump(&self) -> Val {
        Val::Rec("Unit".into(), vec![])
    }
}
#[derive(knuffel::Decode)]
pub struct Arg1 {
    #[knuffel(argument)] name: String,
}
impl Dump for Arg1 {
    fn dump(&self) -> Val {
        Val::Rec("Arg1".into(), vec![("name".into(), (&self.name).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Num(
    #[knuffel(argument)] i32,
);
impl Dump for Num {
    fn dump(&self) -> Val {
        Val::Rec("Num".into(), vec![("0".into(), (&self.0).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Args {
    #[knuffel(arguments)] list: Vec<String>,
}
impl Dump for Args {
    fn dump(&self) -> Val {
        Val::Rec("Args".into(), vec![("list".into(), Val::List((&self.list).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct Props {
    #[knuffel(properties)] map: HashMap<String, String>,
}
impl Dump for Props {
    fn dump(&self) -> Val {
        Val::Rec("Props".into(), vec![("map".into(), (&self.map).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct OptAll {
    #[knuffel(property)] alpha: Option<u8>,
    #[knuffel(property)] beta: Option<String>,
    #[knuffel(child)] flag: bool,
}
impl Dump for OptAll {
    fn dump(&self) -> Val {
        Val::Rec("OptAll".into(), vec![("alpha".into(), (&self.alpha).dump()), ("beta".into(), (&self.beta).dump()), ("flag".into(), (&self.flag).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Name {
    #[knuffel(node_name)] own: String,
    #[knuffel(type_name)] typ: Option<String>,
    #[knuffel(arguments)] args: Vec<i64>,
}
impl Dump for Name {
    fn dump(&self) -> Val {
        Val::Rec("Name".into(), vec![("own".into(), (&self.own).dump()), ("typ".into(), (&self.typ).dump()), ("args".into(), Val::List((&self.args).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct Where {
    #[knuffel(span)] at: SP,
    #[knuffel(span)] bytes: Span,
    #[knuffel(node_name)] own: String,
    #[knuffel(argument)] v: Option<String>,
}
impl Dump for Where {
    fn dump(&self) -> Val {
        Val::Rec("Where".into(), vec![("at".into(), (&self.at).dump()), ("bytes".into(), (&self.bytes).dump()), ("own".into(), (&self.own).dump()), ("v".into(), (&self.v).dump())])
    }
}
#[derive(knuffel::Decode)]
pub enum Kind {
    Alpha,
    BetaGamma,
    HTTPServer(Arg1),
    Maybe(Option<Num>),
    r#type,
    Tup(#[knuffel(argument)] u8, #[knuffel(property(name="label"))] Option<String>, #[knuffel(children)] Vec<Unit>),
    #[knuffel(skip)]
    Hidden,
}
impl Dump for Kind {
    fn dump(&self) -> Val {
        match self {
            Kind::Alpha => Val::Var("Alpha".into(), vec![]),
            Kind::BetaGamma => Val::Var("BetaGamma".into(), vec![]),
            Kind::HTTPServer(x) => Val::Var("HTTPServer".into(), vec![x.dump()]),
            Kind::Maybe(x) => Val::Var("Maybe".into(), vec![x.dump()]),
            Kind::r#type => Val::Var("r#type".into(), vec![]),
            Kind::Tup(x0, x1, x2) => Val::Var("Tup".into(), vec![x0.dump(), x1.dump(), x2.dump()]),
            Kind::Hidden => Val::Var("Hidden".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum Three {
    One,
    Two2(Box<Args>),
    #[knuffel(skip)]
    SkipMe,
    ThreeFour(#[knuffel(arguments)] Vec<bool>, u8),
}
impl Dump for Three {
    fn dump(&self) -> Val {
        match self {
            Three::One => Val::Var("One".into(), vec![]),
            Three::Two2(x) => Val::Var("Two2".into(), vec![x.dump()]),
            Three::SkipMe => Val::Var("SkipMe".into(), vec![]),
            Three::ThreeFour(x0, x1) => Val::Var("ThreeFour".into(), vec![Val::List(x0.iter().map(|x| x.dump()).collect()), x1.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum Many4 {
    LongName0,
    Var1,
    Var2,
    LongXName3,
}
impl Dump for Many4 {
    fn dump(&self) -> Val {
        match self {
            Many4::LongName0 => Val::Var("LongName0".into(), vec![]),
            Many4::Var1 => Val::Var("Var1".into(), vec![]),
            Many4::Var2 => Val::Var("Var2".into(), vec![]),
            Many4::LongXName3 => Val::Var("LongXName3".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum Many8 {
    LongName0,
    Var1,
    Var2,
    LongXName3,
    Var4,
    Var5,
    LongXXName6,
    Var7,
}
impl Dump for Many8 {
    fn dump(&self) -> Val {
        match self {
            Many8::LongName0 => Val::Var("LongName0".into(), vec![]),
            Many8::Var1 => Val::Var("Var1".into(), vec![]),
            Many8::Var2 => Val::Var("Var2".into(), vec![]),
            Many8::LongXName3 => Val::Var("LongXName3".into(), vec![]),
            Many8::Var4 => Val::Var("Var4".into(), vec![]),
            Many8::Var5 => Val::Var("Var5".into(), vec![]),
            Many8::LongXXName6 => Val::Var("LongXXName6".into(), vec![]),
            Many8::Var7 => Val::Var("Var7".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum Many13 {
    LongName0,
    Var1,
    Var2,
    LongXName3,
    Var4,
    Var5,
    #[knuffel(skip)]
    Gone,
    LongXXName6,
    Var7,
    Var8,
    LongXXXName9,
    Var10,
    Var11,
    LongXXXXName12,
    Var13,
}
impl Dump for Many13 {
    fn dump(&self) -> Val {
        match self {
            Many13::LongName0 => Val::Var("LongName0".into(), vec![]),
            Many13::Var1 => Val::Var("Var1".into(), vec![]),
            Many13::Var2 => Val::Var("Var2".into(), vec![]),
            Many13::LongXName3 => Val::Var("LongXName3".into(), vec![]),
            Many13::Var4 => Val::Var("Var4".into(), vec![]),
            Many13::Var5 => Val::Var("Var5".into(), vec![]),
            Many13::Gone => Val::Var("Gone".into(), vec![]),
            Many13::LongXXName6 => Val::Var("LongXXName6".into(), vec![]),
            Many13::Var7 => Val::Var("Var7".into(), vec![]),
            Many13::Var8 => Val::Var("Var8".into(), vec![]),
            Many13::LongXXXName9 => Val::Var("LongXXXName9".into(), vec![]),
            Many13::Var10 => Val::Var("Var10".into(), vec![]),
            Many13::Var11 => Val::Var("Var11".into(), vec![]),
            Many13::LongXXXXName12 => Val::Var("LongXXXXName12".into(), vec![]),
            Many13::Var13 => Val::Var("Var13".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum Many40 {
    LongName0,
    Var1,
    Var2,
    LongXName3,
    Var4,
    Var5,
    LongXXName6,
    Var7,
    Var8,
    LongXXXName9,
    Var10,
    Var11,
    LongXXXXName12,
    Var13,
    Var14,
    LongXXXXXName15,
    Var16,
    Var17,
    LongXXXXXXName18,
    Var19,
    Var20,
    LongXXXXXXXName21,
    Var22,
    Var23,
    LongXXXXXXXXName24,
    Var25,
    Var26,
    LongXXXXXXXXXName27,
    Var28,
    Var29,
    LongXXXXXXXXXXName30,
    Var31,
    Var32,
    LongXXXXXXXXXXXName33,
    Var34,
    Var35,
    LongXXXXXXXXXXXXName36,
    Var37,
    Var38,
    LongXXXXXXXXXXXXXName39,
}
impl Dump for Many40 {
    fn dump(&self) -> Val {
        match self {
            Many40::LongName0 => Val::Var("LongName0".into(), vec![]),
            Many40::Var1 => Val::Var("Var1".into(), vec![]),
            Many40::Var2 => Val::Var("Var2".into(), vec![]),
            Many40::LongXName3 => Val::Var("LongXName3".into(), vec![]),
            Many40::Var4 => Val::Var("Var4".into(), vec![]),
            Many40::Var5 => Val::Var("Var5".into(), vec![]),
            Many40::LongXXName6 => Val::Var("LongXXName6".into(), vec![]),
            Many40::Var7 => Val::Var("Var7".into(), vec![]),
            Many40::Var8 => Val::Var("Var8".into(), vec![]),
            Many40::LongXXXName9 => Val::Var("LongXXXName9".into(), vec![]),
            Many40::Var10 => Val::Var("Var10".into(), vec![]),
            Many40::Var11 => Val::Var("Var11".into(), vec![]),
            Many40::LongXXXXName12 => Val::Var("LongXXXXName12".into(), vec![]),
            Many40::Var13 => Val::Var("Var13".into(), vec![]),
            Many40::Var14 => Val::Var("Var14".into(), vec![]),
            Many40::LongXXXXXName15 => Val::Var("LongXXXXXName15".into(), vec![]),
            Many40::Var16 => Val::Var("Var16".into(), vec![]),
            Many40::Var17 => Val::Var("Var17".into(), vec![]),
            Many40::LongXXXXXXName18 => Val::Var("LongXXXXXXName18".into(), vec![]),
            Many40::Var19 => Val::Var("Var19".into(), vec![]),
            Many40::Var20 => Val::Var("Var20".into(), vec![]),
            Many40::LongXXXXXXXName21 => Val::Var("LongXXXXXXXName21".into(), vec![]),
            Many40::Var22 => Val::Var("Var22".into(), vec![]),
            Many40::Var23 => Val::Var("Var23".into(), vec![]),
            Many40::LongXXXXXXXXName24 => Val::Var("LongXXXXXXXXName24".into(), vec![]),
            Many40::Var25 => Val::Var("Var25".into(), vec![]),
            Many40::Var26 => Val::Var("Var26".into(), vec![]),
            Many40::LongXXXXXXXXXName27 => Val::Var("LongXXXXXXXXXName27".into(), vec![]),
            Many40::Var28 => Val::Var("Var28".into(), vec![]),
            Many40::Var29 => Val::Var("Var29".into(), vec![]),
            Many40::LongXXXXXXXXXXName30 => Val::Var("LongXXXXXXXXXXName30".into(), vec![]),
            Many40::Var31 => Val::Var("Var31".into(), vec![]),
            Many40::Var32 => Val::Var("Var32".into(), vec![]),
            Many40::LongXXXXXXXXXXXName33 => Val::Var("LongXXXXXXXXXXXName33".into(), vec![]),
            Many40::Var34 => Val::Var("Var34".into(), vec![]),
            Many40::Var35 => Val::Var("Var35".into(), vec![]),
            Many40::LongXXXXXXXXXXXXName36 => Val::Var("LongXXXXXXXXXXXXName36".into(), vec![]),
            Many40::Var37 => Val::Var("Var37".into(), vec![]),
            Many40::Var38 => Val::Var("Var38".into(), vec![]),
            Many40::LongXXXXXXXXXXXXXName39 => Val::Var("LongXXXXXXXXXXXXXName39".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum Words {
    LeafNode,
    NodeLeaf,
    Node,
    NodeType,
    TypeName,
    SomeKind,
    AValue,
    ValueA,
    Words,
    WordsList,
    ListWords,
    IsSet,
    HasIt,
    GetIt,
    SetIt,
    ItemOpt,
    OptItem,
    NewItem,
    Items,
    ItemEnum,
    EnumItem,
    StructX,
    MyField,
    VariantOne,
    Child,
    Children,
    AChild,
    TheOne,
    ErrorCase,
    ConfigItem,
    Name,
    NodeName,
    ItemStr,
    StrItem,
    Argument,
    Property,
    Default,
    Skip,
    Span,
}
impl Dump for Words {
    fn dump(&self) -> Val {
        match self {
            Words::LeafNode => Val::Var("LeafNode".into(), vec![]),
            Words::NodeLeaf => Val::Var("NodeLeaf".into(), vec![]),
            Words::Node => Val::Var("Node".into(), vec![]),
            Words::NodeType => Val::Var("NodeType".into(), vec![]),
            Words::TypeName => Val::Var("TypeName".into(), vec![]),
            Words::SomeKind => Val::Var("SomeKind".into(), vec![]),
            Words::AValue => Val::Var("AValue".into(), vec![]),
            Words::ValueA => Val::Var("ValueA".into(), vec![]),
            Words::Words => Val::Var("Words".into(), vec![]),
            Words::WordsList => Val::Var("WordsList".into(), vec![]),
            Words::ListWords => Val::Var("ListWords".into(), vec![]),
            Words::IsSet => Val::Var("IsSet".into(), vec![]),
            Words::HasIt => Val::Var("HasIt".into(), vec![]),
            Words::GetIt => Val::Var("GetIt".into(), vec![]),
            Words::SetIt => Val::Var("SetIt".into(), vec![]),
            Words::ItemOpt => Val::Var("ItemOpt".into(), vec![]),
            Words::OptItem => Val::Var("OptItem".into(), vec![]),
            Words::NewItem => Val::Var("NewItem".into(), vec![]),
            Words::Items => Val::Var("Items".into(), vec![]),
            Words::ItemEnum => Val::Var("ItemEnum".into(), vec![]),
            Words::EnumItem => Val::Var("EnumItem".into(), vec![]),
            Words::StructX => Val::Var("StructX".into(), vec![]),
            Words::MyField => Val::Var("MyField".into(), vec![]),
            Words::VariantOne => Val::Var("VariantOne".into(), vec![]),
            Words::Child => Val::Var("Child".into(), vec![]),
            Words::Children => Val::Var("Children".into(), vec![]),
            Words::AChild => Val::Var("AChild".into(), vec![]),
            Words::TheOne => Val::Var("TheOne".into(), vec![]),
            Words::ErrorCase => Val::Var("ErrorCase".into(), vec![]),
            Words::ConfigItem => Val::Var("ConfigItem".into(), vec![]),
            Words::Name => Val::Var("Name".into(), vec![]),
            Words::NodeName => Val::Var("NodeName".into(), vec![]),
            Words::ItemStr => Val::Var("ItemStr".into(), vec![]),
            Words::StrItem => Val::Var("StrItem".into(), vec![]),
            Words::Argument => Val::Var("Argument".into(), vec![]),
            Words::Property => Val::Var("Property".into(), vec![]),
            Words::Default => Val::Var("Default".into(), vec![]),
            Words::Skip => Val::Var("Skip".into(), vec![]),
            Words::Span => Val::Var("Span".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
pub struct WordFlags {
    #[knuffel(child)] leaf_node: bool,
    #[knuffel(child)] node_leaf: bool,
    #[knuffel(child)] node: bool,
    #[knuffel(child)] node_type: bool,
    #[knuffel(child)] type_name: bool,
    #[knuffel(child)] some_kind: bool,
    #[knuffel(child)] a_value: bool,
    #[knuffel(child)] value_a: bool,
    #[knuffel(child)] words: bool,
    #[knuffel(child)] words_list: bool,
    #[knuffel(child)] list_words: bool,
    #[knuffel(child)] is_set: bool,
    #[knuffel(child)] has_it: bool,
    #[knuffel(child)] get_it: bool,
    #[knuffel(child)] set_it: bool,
    #[knuffel(child)] item_opt: bool,
    #[knuffel(child)] opt_item: bool,
    #[knuffel(child)] new_item: bool,
    #[knuffel(child)] items: bool,
    #[knuffel(child)] item_enum: bool,
    #[knuffel(child)] enum_item: bool,
    #[knuffel(child)] struct_x: bool,
    #[knuffel(child)] my_field: bool,
    #[knuffel(child)] variant_one: bool,
    #[knuffel(child)] child: bool,
    #[knuffel(child)] children: bool,
    #[knuffel(child)] a_child: bool,
    #[knuffel(child)] the_one: bool,
    #[knuffel(child)] error_case: bool,
    #[knuffel(child)] config_item: bool,
    #[knuffel(child)] name: bool,
    #[knuffel(child)] node_name: bool,
    #[knuffel(child)] item_str: bool,
    #[knuffel(child)] str_item: bool,
    #[knuffel(child)] argument: bool,
    #[knuffel(child)] property: bool,
    #[knuffel(child)] default: bool,
    #[knuffel(child)] skip: bool,
    #[knuffel(child)] span: bool,
}
impl Dump for WordFlags {
    fn dump(&self) -> Val {
        Val::Rec("WordFlags".into(), vec![("leaf_node".into(), (&self.leaf_node).dump()), ("node_leaf".into(), (&self.node_leaf).dump()), ("node".into(), (&self.node).dump()), ("node_type".into(), (&self.node_type).dump()), ("type_name".into(), (&self.type_name).dump()), ("some_kind".into(), (&self.some_kind).dump()), ("a_value".into(), (&self.a_value).dump()), ("value_a".into(), (&self.value_a).dump()), ("words".into(), (&self.words).dump()), ("words_list".into(), (&self.words_list).dump()), ("list_words".into(), (&self.list_words).dump()), ("is_set".into(), (&self.is_set).dump()), ("has_it".into(), (&self.has_it).dump()), ("get_it".into(), (&self.get_it).dump()), ("set_it".into(), (&self.set_it).dump()), ("item_opt".into(), (&self.item_opt).dump()), ("opt_item".into(), (&self.opt_item).dump()), ("new_item".into(), (&self.new_item).dump()), ("items".into(), (&self.items).dump()), ("item_enum".into(), (&self.item_enum).dump()), ("enum_item".into(), (&self.enum_item).dump()), ("struct_x".into(), (&self.struct_x).dump()), ("my_field".into(), (&self.my_field).dump()), ("variant_one".into(), (&self.variant_one).dump()), ("child".into(), (&self.child).dump()), ("children".into(), (&self.children).dump()), ("a_child".into(), (&self.a_child).dump()), ("the_one".into(), (&self.the_one).dump()), ("error_case".into(), (&self.error_case).dump()), ("config_item".into(), (&self.config_item).dump()), ("name".into(), (&self.name).dump()), ("node_name".into(), (&self.node_name).dump()), ("item_str".into(), (&self.item_str).dump()), ("str_item".into(), (&self.str_item).dump()), ("argument".into(), (&self.argument).dump()), ("property".into(), (&self.property).dump()), ("default".into(), (&self.default).dump()), ("skip".into(), (&self.skip).dump()), ("span".into(), (&self.span).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct WordProps {
    #[knuffel(property)] leaf_node: Option<u8>,
    #[knuffel(property)] node_leaf: Option<u8>,
    #[knuffel(property)] node: Option<u8>,
    #[knuffel(property)] node_type: Option<u8>,
    #[knuffel(property)] type_name: Option<u8>,
    #[knuffel(property)] some_kind: Option<u8>,
    #[knuffel(property)] a_value: Option<u8>,
    #[knuffel(property)] value_a: Option<u8>,
    #[knuffel(property)] words: Option<u8>,
    #[knuffel(property)] words_list: Option<u8>,
    #[knuffel(property)] list_words: Option<u8>,
    #[knuffel(property)] is_set: Option<u8>,
    #[knuffel(property)] has_it: Option<u8>,
    #[knuffel(property)] get_it: Option<u8>,
    #[knuffel(property)] set_it: Option<u8>,
    #[knuffel(property)] item_opt: Option<u8>,
    #[knuffel(property)] opt_item: Option<u8>,
    #[knuffel(property)] new_item: Option<u8>,
    #[knuffel(property)] items: Option<u8>,
    #[knuffel(property)] item_enum: Option<u8>,
    #[knuffel(property)] enum_item: Option<u8>,
    #[knuffel(property)] struct_x: Option<u8>,
    #[knuffel(property)] my_field: Option<u8>,
    #[knuffel(property)] variant_one: Option<u8>,
    #[knuffel(property)] child: Option<u8>,
    #[knuffel(property)] children: Option<u8>,
    #[knuffel(property)] a_child: Option<u8>,
    #[knuffel(property)] the_one: Option<u8>,
    #[knuffel(property)] error_case: Option<u8>,
    #[knuffel(property)] config_item: Option<u8>,
    #[knuffel(property)] name: Option<u8>,
    #[knuffel(property)] node_name: Option<u8>,
    #[knuffel(property)] item_str: Option<u8>,
    #[knuffel(property)] str_item: Option<u8>,
    #[knuffel(property)] argument: Option<u8>,
    #[knuffel(property)] property: Option<u8>,
    #[knuffel(property)] default: Option<u8>,
    #[knuffel(property)] skip: Option<u8>,
    #[knuffel(property)] span: Option<u8>,
}
impl Dump for WordProps {
    fn dump(&self) -> Val {
        Val::Rec("WordProps".into(), vec![("leaf_node".into(), (&self.leaf_node).dump()), ("node_leaf".into(), (&self.node_leaf).dump()), ("node".into(), (&self.node).dump()), ("node_type".into(), (&self.node_type).dump()), ("type_name".into(), (&self.type_name).dump()), ("some_kind".into(), (&self.some_kind).dump()), ("a_value".into(), (&self.a_value).dump()), ("value_a".into(), (&self.value_a).dump()), ("words".into(), (&self.words).dump()), ("words_list".into(), (&self.words_list).dump()), ("list_words".into(), (&self.list_words).dump()), ("is_set".into(), (&self.is_set).dump()), ("has_it".into(), (&self.has_it).dump()), ("get_it".into(), (&self.get_it).dump()), ("set_it".into(), (&self.set_it).dump()), ("item_opt".into(), (&self.item_opt).dump()), ("opt_item".into(), (&self.opt_item).dump()), ("new_item".into(), (&self.new_item).dump()), ("items".into(), (&self.items).dump()), ("item_enum".into(), (&self.item_enum).dump()), ("enum_item".into(), (&self.enum_item).dump()), ("struct_x".into(), (&self.struct_x).dump()), ("my_field".into(), (&self.my_field).dump()), ("variant_one".into(), (&self.variant_one).dump()), ("child".into(), (&self.child).dump()), ("children".into(), (&self.children).dump()), ("a_child".into(), (&self.a_child).dump()), ("the_one".into(), (&self.the_one).dump()), ("error_case".into(), (&self.error_case).dump()), ("config_item".into(), (&self.config_item).dump()), ("name".into(), (&self.name).dump()), ("node_name".into(), (&self.node_name).dump()), ("item_str".into(), (&self.item_str).dump()), ("str_item".into(), (&self.str_item).dump()), ("argument".into(), (&self.argument).dump()), ("property".into(), (&self.property).dump()), ("default".into(), (&self.default).dump()), ("skip".into(), (&self.skip).dump()), ("span".into(), (&self.span).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Pos {
    #[knuffel(argument)] first: String,
    #[knuffel(argument)] second: u16,
    #[knuffel(argument)] third: Option<bool>,
    #[knuffel(argument)] fourth: Option<i8>,
    #[knuffel(arguments)] rest: Vec<f64>,
}
impl Dump for Pos {
    fn dump(&self) -> Val {
        Val::Rec("Pos".into(), vec![("first".into(), (&self.first).dump()), ("second".into(), (&self.second).dump()), ("third".into(), (&self.third).dump()), ("fourth".into(), (&self.fourth).dump()), ("rest".into(), Val::List((&self.rest).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct PosDef {
    #[knuffel(argument, default=7)] a: u8,
    #[knuffel(argument, default)] b: String,
    #[knuffel(argument, default=Some(9))] c: Option<u8>,
    #[knuffel(argument, default=Color::X)] d: Color,
}
impl Dump for PosDef {
    fn dump(&self) -> Val {
        Val::Rec("PosDef".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct AllInts {
    #[knuffel(argument)] au8: u8,
    #[knuffel(argument)] ai8: i8,
    #[knuffel(argument)] au16: u16,
    #[knuffel(argument)] ai16: i16,
    #[knuffel(argument)] au32: u32,
    #[knuffel(argument)] ai32: i32,
    #[knuffel(argument)] au64: u64,
    #[knuffel(argument)] ai64: i64,
    #[knuffel(argument)] ausize: usize,
    #[knuffel(argument)] aisize: isize,
    #[knuffel(property)] p_u8: Option<u8>,
    #[knuffel(property)] p_i8: Option<i8>,
    #[knuffel(property)] p_u16: Option<u16>,
    #[knuffel(property)] p_i16: Option<i16>,
    #[knuffel(property)] p_u32: Option<u32>,
    #[knuffel(property)] p_i32: Option<i32>,
    #[knuffel(property)] p_u64: Option<u64>,
    #[knuffel(property)] p_i64: Option<i64>,
    #[knuffel(property)] p_usize: Option<usize>,
    #[knuffel(property)] p_isize: Option<isize>,
}
impl Dump for AllInts {
    fn dump(&self) -> Val {
        Val::Rec("AllInts".into(), vec![("au8".into(), (&self.au8).dump()), ("ai8".into(), (&self.ai8).dump()), ("au16".into(), (&self.au16).dump()), ("ai16".into(), (&self.ai16).dump()), ("au32".into(), (&self.au32).dump()), ("ai32".into(), (&self.ai32).dump()), ("au64".into(), (&self.au64).dump()), ("ai64".into(), (&self.ai64).dump()), ("ausize".into(), (&self.ausize).dump()), ("aisize".into(), (&self.aisize).dump()), ("p_u8".into(), (&self.p_u8).dump()), ("p_i8".into(), (&self.p_i8).dump()), ("p_u16".into(), (&self.p_u16).dump()), ("p_i16".into(), (&self.p_i16).dump()), ("p_u32".into(), (&self.p_u32).dump()), ("p_i32".into(), (&self.p_i32).dump()), ("p_u64".into(), (&self.p_u64).dump()), ("p_i64".into(), (&self.p_i64).dump()), ("p_usize".into(), (&self.p_usize).dump()), ("p_isize".into(), (&self.p_isize).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct OptMid(
    #[knuffel(argument)] Option<u8>,
    #[knuffel(argument)] Option<u8>,
    #[knuffel(argument)] Option<String>,
);
impl Dump for OptMid {
    fn dump(&self) -> Val {
        Val::Rec("OptMid".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct ArgsSet {
    #[knuffel(argument)] head: i16,
    #[knuffel(arguments)] tail: BTreeSet<i16>,
}
impl Dump for ArgsSet {
    fn dump(&self) -> Val {
        Val::Rec("ArgsSet".into(), vec![("head".into(), (&self.head).dump()), ("tail".into(), Val::List((&self.tail).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct PropReq {
    #[knuffel(property)] host_name: String,
    #[knuffel(property)] port: u16,
    #[knuffel(property)] r#type: Color,
    #[knuffel(property(name="Odd Name"))] odd: bool,
}
impl Dump for PropReq {
    fn dump(&self) -> Val {
        Val::Rec("PropReq".into(), vec![("host_name".into(), (&self.host_name).dump()), ("port".into(), (&self.port).dump()), ("type".into(), (&self.r#type).dump()), ("odd".into(), (&self.odd).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct PropDef {
    #[knuffel(property, default=42)] a: u8,
    #[knuffel(property, default=Some(43))] b: Option<u8>,
    #[knuffel(property, default)] c: Option<String>,
    #[knuffel(property, default)] d: f64,
    #[knuffel(property, bytes, default=Some(b"q".to_vec()))] e: Option<Vec<u8>>,
    #[knuffel(property, str, default=Some(Even("zz".into())))] f: Option<Even>,
}
impl Dump for PropDef {
    fn dump(&self) -> Val {
        Val::Rec("PropDef".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("e".into(), (&self.e).as_ref().map_or(Val::None, |b| some(bytes(b)))), ("f".into(), (&self.f).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct PropRest {
    #[knuffel(property)] name: Option<String>,
    #[knuffel(property)] size: u32,
    #[knuffel(properties)] other: BTreeMap<String, String>,
}
impl Dump for PropRest {
    fn dump(&self) -> Val {
        Val::Rec("PropRest".into(), vec![("name".into(), (&self.name).dump()), ("size".into(), (&self.size).dump()), ("other".into(), (&self.other).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct PropKeys {
    #[knuffel(property)] size: Option<u32>,
    #[knuffel(properties)] other: HashMap<Even, Option<i32>>,
}
impl Dump for PropKeys {
    fn dump(&self) -> Val {
        Val::Rec("PropKeys".into(), vec![("size".into(), (&self.size).dump()), ("other".into(), (&self.other).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Strs {
    #[knuffel(argument, str)] a: std::net::SocketAddr,
    #[knuffel(argument, str)] b: Option<u16>,
    #[knuffel(property, str)] c: char,
    #[knuffel(property, str)] d: Option<Even>,
    #[knuffel(arguments, str)] more: Vec<Even>,
}
impl Dump for Strs {
    fn dump(&self) -> Val {
        Val::Rec("Strs".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("more".into(), Val::List((&self.more).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct StrMap {
    #[knuffel(properties, str)] map: BTreeMap<String, u16>,
}
impl Dump for StrMap {
    fn dump(&self) -> Val {
        Val::Rec("StrMap".into(), vec![("map".into(), (&self.map).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct BytesA {
    #[knuffel(argument, bytes)] a: Vec<u8>,
    #[knuffel(argument, bytes)] b: Option<Short>,
    #[knuffel(property, bytes)] c: Box<[u8]>,
    #[knuffel(property, bytes)] d: Option<Vec<u8>>,
    #[knuffel(arguments, bytes)] more: Vec<Short>,
}
impl Dump for BytesA {
    fn dump(&self) -> Val {
        Val::Rec("BytesA".into(), vec![("a".into(), bytes((&self.a))), ("b".into(), (&self.b).dump()), ("c".into(), bytes((&self.c))), ("d".into(), (&self.d).as_ref().map_or(Val::None, |b| some(bytes(b)))), ("more".into(), Val::List((&self.more).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct BytesMap {
    #[knuffel(properties, bytes)] map: HashMap<String, Short>,
}
impl Dump for BytesMap {
    fn dump(&self) -> Val {
        Val::Rec("BytesMap".into(), vec![("map".into(), (&self.map).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct BytesOne(
    #[knuffel(argument, bytes)] Vec<u8>,
);
impl Dump for BytesOne {
    fn dump(&self) -> Val {
        Val::Rec("BytesOne".into(), vec![("0".into(), bytes((&self.0)))])
    }
}
#[derive(knuffel::Decode)]
pub struct BytesOpt(
    #[knuffel(argument, bytes)] Option<Short>,
    #[knuffel(property(name="p"), bytes)] Short,
);
impl Dump for BytesOpt {
    fn dump(&self) -> Val {
        Val::Rec("BytesOpt".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct StrUn {
    #[knuffel(child, unwrap(argument, str))] addr: std::net::SocketAddr,
    #[knuffel(child, unwrap(argument, bytes))] short: Option<Short>,
    #[knuffel(children(name="even"), unwrap(argument, str))] evens: Vec<Even>,
    #[knuffel(children(name="chars"), unwrap(arguments, str))] chars: Vec<Vec<char>>,
}
impl Dump for StrUn {
    fn dump(&self) -> Val {
        Val::Rec("StrUn".into(), vec![("addr".into(), (&self.addr).dump()), ("short".into(), (&self.short).dump()), ("evens".into(), (&self.evens).dump()), ("chars".into(), (&self.chars).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Kids {
    #[knuffel(child)] one: Arg1,
    #[knuffel(child)] two_words: Option<Arg1>,
    #[knuffel(child)] flag: bool,
    #[knuffel(children(name="plugin"))] plugins: Vec<Arg1>,
    #[knuffel(children)] rest: Vec<Name>,
}
impl Dump for Kids {
    fn dump(&self) -> Val {
        Val::Rec("Kids".into(), vec![("one".into(), (&self.one).dump()), ("two_words".into(), (&self.two_words).dump()), ("flag".into(), (&self.flag).dump()), ("plugins".into(), (&self.plugins).dump()), ("rest".into(), (&self.rest).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct KidsStrict {
    #[knuffel(child)] one: Arg1,
    #[knuffel(child)] opt: Option<Num>,
    #[knuffel(child, default)] dflt: OptAll,
    #[knuffel(child)] yes: bool,
    #[knuffel(child)] no_way: bool,
    #[knuffel(children(name="many"))] many: Vec<Num>,
    #[knuffel(children(name="some"))] some: Option<Vec<Arg1>>,
}
impl Dump for KidsStrict {
    fn dump(&self) -> Val {
        Val::Rec("KidsStrict".into(), vec![("one".into(), (&self.one).dump()), ("opt".into(), (&self.opt).dump()), ("dflt".into(), (&self.dflt).dump()), ("yes".into(), (&self.yes).dump()), ("no_way".into(), (&self.no_way).dump()), ("many".into(), (&self.many).dump()), ("some".into(), (&self.some).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Unwraps {
    #[knuffel(child, unwrap(argument))] a: String,
    #[knuffel(child, unwrap(argument))] b: Option<u8>,
    #[knuffel(child, unwrap(arguments))] c: Vec<i32>,
    #[knuffel(child, unwrap(properties))] d: Option<BTreeMap<String, bool>>,
    #[knuffel(child, unwrap(children))] e: Option<Vec<Name>>,
    #[knuffel(child, unwrap(children(name="x")))] f: Option<Vec<Arg1>>,
    #[knuffel(child, unwrap(property(name="size")))] g: Option<u8>,
    #[knuffel(child, unwrap(argument), default=true)] h: bool,
    #[knuffel(child, unwrap(argument), default=Some(3))] i: Option<u8>,
    #[knuffel(children(name="j"), unwrap(argument))] j: Vec<i8>,
    #[knuffel(child, unwrap(child, unwrap(argument)))] k: Option<u16>,
    #[knuffel(child, unwrap(argument, default=11))] l: Option<u8>,
}
impl Dump for Unwraps {
    fn dump(&self) -> Val {
        Val::Rec("Unwraps".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("e".into(), (&self.e).dump()), ("f".into(), (&self.f).dump()), ("g".into(), (&self.g).dump()), ("h".into(), (&self.h).dump()), ("i".into(), (&self.i).dump()), ("j".into(), (&self.j).dump()), ("k".into(), (&self.k).dump()), ("l".into(), (&self.l).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct RestUn {
    #[knuffel(child)] x: Option<Unit>,
    #[knuffel(children, unwrap(argument))] rest: Vec<u32>,
}
impl Dump for RestUn {
    fn dump(&self) -> Val {
        Val::Rec("RestUn".into(), vec![("x".into(), (&self.x).dump()), ("rest".into(), (&self.rest).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Tree {
    #[knuffel(node_name)] name: String,
    #[knuffel(argument)] label: Option<String>,
    #[knuffel(children)] nodes: Vec<Tree>,
}
impl Dump for Tree {
    fn dump(&self) -> Val {
        Val::Rec("Tree".into(), vec![("name".into(), (&self.name).dump()), ("label".into(), (&self.label).dump()), ("nodes".into(), (&self.nodes).dump())])
    }
}
#[derive(knuffel::Decode)]
pub enum TreeE {
    Leaf(#[knuffel(argument)] i64),
    Branch(TreeB),
    Link(Option<Box<TreeE2>>),
}
impl Dump for TreeE {
    fn dump(&self) -> Val {
        match self {
            TreeE::Leaf(x0) => Val::Var("Leaf".into(), vec![x0.dump()]),
            TreeE::Branch(x) => Val::Var("Branch".into(), vec![x.dump()]),
            TreeE::Link(x) => Val::Var("Link".into(), vec![x.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub struct TreeB {
    #[knuffel(property)] name: Option<String>,
    #[knuffel(children)] nodes: Vec<TreeE>,
}
impl Dump for TreeB {
    fn dump(&self) -> Val {
        Val::Rec("TreeB".into(), vec![("name".into(), (&self.name).dump()), ("nodes".into(), (&self.nodes).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct TreeE2 {
    #[knuffel(child)] to: Box<TreeE>,
    #[knuffel(child)] at: bool,
}
impl Dump for TreeE2 {
    fn dump(&self) -> Val {
        Val::Rec("TreeE2".into(), vec![("to".into(), (&self.to).dump()), ("at".into(), (&self.at).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct TupKids(
    #[knuffel(node_name)] String,
    #[knuffel(children(name="x"))] Vec<Num>,
    #[knuffel(children)] Vec<Kind>,
);
impl Dump for TupKids {
    fn dump(&self) -> Val {
        Val::Rec("TupKids".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct PartP {
    #[knuffel(property)] font_size: Option<u8>,
    #[knuffel(property)] font_name: Option<String>,
    #[knuffel(property, str)] font_key: Option<Even>,
}
impl Dump for PartP {
    fn dump(&self) -> Val {
        Val::Rec("PartP".into(), vec![("font_size".into(), (&self.font_size).dump()), ("font_name".into(), (&self.font_name).dump()), ("font_key".into(), (&self.font_key).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct PartC {
    #[knuffel(child)] left: Option<Num>,
    #[knuffel(child)] r#loop: bool,
    #[knuffel(child, unwrap(argument))] label: Option<String>,
}
impl Dump for PartC {
    fn dump(&self) -> Val {
        Val::Rec("PartC".into(), vec![("left".into(), (&self.left).dump()), ("loop".into(), (&self.r#loop).dump()), ("label".into(), (&self.label).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct PartM {
    #[knuffel(property)] w: Option<u8>,
    #[knuffel(child)] bold: bool,
    #[knuffel(child)] sub: Option<Box<Kids>>,
}
impl Dump for PartM {
    fn dump(&self) -> Val {
        Val::Rec("PartM".into(), vec![("w".into(), (&self.w).dump()), ("bold".into(), (&self.bold).dump()), ("sub".into(), (&self.sub).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct PartN {
    #[knuffel(flatten(child, property))] inner: PartM,
    #[knuffel(property)] deep: Option<i8>,
    #[knuffel(child)] pit: bool,
}
impl Dump for PartN {
    fn dump(&self) -> Val {
        Val::Rec("PartN".into(), vec![("inner".into(), (&self.inner).dump()), ("deep".into(), (&self.deep).dump()), ("pit".into(), (&self.pit).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct PartT(
    #[knuffel(property(name="color"))] Option<Color>,
    #[knuffel(property(name="raw"), bytes)] Option<Short>,
);
impl Dump for PartT {
    fn dump(&self) -> Val {
        Val::Rec("PartT".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct PartNC {
    #[knuffel(flatten(child))] inner: Box<PartC>,
    #[knuffel(child)] x_flag: bool,
}
impl Dump for PartNC {
    fn dump(&self) -> Val {
        Val::Rec("PartNC".into(), vec![("inner".into(), (&self.inner).dump()), ("x_flag".into(), (&self.x_flag).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatP {
    #[knuffel(argument)] a: Option<u8>,
    #[knuffel(flatten(property))] font: PartP,
    #[knuffel(property)] own: u8,
}
impl Dump for FlatP {
    fn dump(&self) -> Val {
        Val::Rec("FlatP".into(), vec![("a".into(), (&self.a).dump()), ("font".into(), (&self.font).dump()), ("own".into(), (&self.own).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatC {
    #[knuffel(flatten(child))] c: PartC,
    #[knuffel(child)] other: Option<Arg1>,
}
impl Dump for FlatC {
    fn dump(&self) -> Val {
        Val::Rec("FlatC".into(), vec![("c".into(), (&self.c).dump()), ("other".into(), (&self.other).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatBoth {
    #[knuffel(flatten(child, property))] m: PartM,
    #[knuffel(flatten(property))] p: Box<PartP>,
    #[knuffel(flatten(child))] c: Arc<PartC>,
}
impl Dump for FlatBoth {
    fn dump(&self) -> Val {
        Val::Rec("FlatBoth".into(), vec![("m".into(), (&self.m).dump()), ("p".into(), (&self.p).dump()), ("c".into(), (&self.c).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatDeep {
    #[knuffel(flatten(child, property))] n: PartN,
    #[knuffel(children)] rest: Vec<Name>,
    #[knuffel(properties)] others: BTreeMap<String, String>,
}
impl Dump for FlatDeep {
    fn dump(&self) -> Val {
        Val::Rec("FlatDeep".into(), vec![("n".into(), (&self.n).dump()), ("rest".into(), (&self.rest).dump()), ("others".into(), (&self.others).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatHalf {
    #[knuffel(flatten(property))] n: PartN,
    #[knuffel(child)] bold: bool,
}
impl Dump for FlatHalf {
    fn dump(&self) -> Val {
        Val::Rec("FlatHalf".into(), vec![("n".into(), (&self.n).dump()), ("bold".into(), (&self.bold).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatHalfC {
    #[knuffel(flatten(child))] n: PartN,
    #[knuffel(property)] w: Option<String>,
}
impl Dump for FlatHalfC {
    fn dump(&self) -> Val {
        Val::Rec("FlatHalfC".into(), vec![("n".into(), (&self.n).dump()), ("w".into(), (&self.w).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatDoc {
    #[knuffel(flatten(child))] n: Rc<PartNC>,
    #[knuffel(flatten(child))] m: PartM,
    #[knuffel(children(name="k"))] k: Vec<Kind>,
}
impl Dump for FlatDoc {
    fn dump(&self) -> Val {
        Val::Rec("FlatDoc".into(), vec![("n".into(), (&self.n).dump()), ("m".into(), (&self.m).dump()), ("k".into(), (&self.k).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct FlatTup(
    #[knuffel(flatten(property))] PartT,
    #[knuffel(flatten(child))] PartC,
    #[knuffel(span)] Span,
);
impl Dump for FlatTup {
    fn dump(&self) -> Val {
        Val::Rec("FlatTup".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FlatRest {
    #[knuffel(flatten(child))] c: PartC,
    #[knuffel(children)] rest: Vec<Name>,
}
impl Dump for FlatRest {
    fn dump(&self) -> Val {
        Val::Rec("FlatRest".into(), vec![("c".into(), (&self.c).dump()), ("rest".into(), (&self.rest).dump())])
    }
}
#[derive(knuffel::Decode)]
pub enum FlatEnum {
    Node(#[knuffel(flatten(child, property))] PartM, #[knuffel(flatten(property))] PartT),
    Other(Option<FlatP>),
}
impl Dump for FlatEnum {
    fn dump(&self) -> Val {
        match self {
            FlatEnum::Node(x0, x1) => Val::Var("Node".into(), vec![x0.dump(), x1.dump()]),
            FlatEnum::Other(x) => Val::Var("Other".into(), vec![x.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub struct OwnFirst {
    #[knuffel(property)] w: Option<String>,
    #[knuffel(child)] bold: Option<Num>,
    #[knuffel(flatten(child, property))] m: PartM,
    #[knuffel(property)] z: Option<u8>,
}
impl Dump for OwnFirst {
    fn dump(&self) -> Val {
        Val::Rec("OwnFirst".into(), vec![("w".into(), (&self.w).dump()), ("bold".into(), (&self.bold).dump()), ("m".into(), (&self.m).dump()), ("z".into(), (&self.z).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct PartFirst {
    #[knuffel(flatten(child, property))] m: PartM,
    #[knuffel(property)] w: Option<String>,
    #[knuffel(child)] bold: Option<Num>,
}
impl Dump for PartFirst {
    fn dump(&self) -> Val {
        Val::Rec("PartFirst".into(), vec![("m".into(), (&self.m).dump()), ("w".into(), (&self.w).dump()), ("bold".into(), (&self.bold).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct PartTwice {
    #[knuffel(flatten(child))] c: PartC,
    #[knuffel(children(name="left"))] left: Vec<Kind>,
    #[knuffel(flatten(child, property))] a: Box<PartM>,
    #[knuffel(flatten(child, property))] b: PartN,
}
impl Dump for PartTwice {
    fn dump(&self) -> Val {
        Val::Rec("PartTwice".into(), vec![("c".into(), (&self.c).dump()), ("left".into(), (&self.left).dump()), ("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FieldProps {
    #[knuffel(property)] a__b: Option<u8>,
    #[knuffel(property)] _c: Option<u8>,
    #[knuffel(property)] d_: Option<u8>,
    #[knuffel(property)] __e__f__: Option<u8>,
    #[knuffel(property)] x1: Option<u8>,
    #[knuffel(property)] y_1: Option<u8>,
    #[knuffel(property)] z1_2z: Option<u8>,
    #[knuffel(property)] fieldName: Option<u8>,
    #[knuffel(property)] HTTPServer: Option<u8>,
    #[knuffel(property)] Upper: Option<u8>,
    #[knuffel(property)] someURL_x: Option<u8>,
    #[knuffel(property)] ALL: Option<u8>,
    #[knuffel(property)] ünder_x: Option<u8>,
    #[knuffel(property)] Été: Option<u8>,
    #[knuffel(property)] r#async: Option<u8>,
    #[knuffel(property)] r#loop: Option<u8>,
}
impl Dump for FieldProps {
    fn dump(&self) -> Val {
        Val::Rec("FieldProps".into(), vec![("a__b".into(), (&self.a__b).dump()), ("_c".into(), (&self._c).dump()), ("d_".into(), (&self.d_).dump()), ("__e__f__".into(), (&self.__e__f__).dump()), ("x1".into(), (&self.x1).dump()), ("y_1".into(), (&self.y_1).dump()), ("z1_2z".into(), (&self.z1_2z).dump()), ("fieldName".into(), (&self.fieldName).dump()), ("HTTPServer".into(), (&self.HTTPServer).dump()), ("Upper".into(), (&self.Upper).dump()), ("someURL_x".into(), (&self.someURL_x).dump()), ("ALL".into(), (&self.ALL).dump()), ("\u{fc}nder_x".into(), (&self.ünder_x).dump()), ("\u{c9}t\u{e9}".into(), (&self.Été).dump()), ("async".into(), (&self.r#async).dump()), ("loop".into(), (&self.r#loop).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FieldFlags {
    #[knuffel(child)] a__b: bool,
    #[knuffel(child)] _c: bool,
    #[knuffel(child)] d_: bool,
    #[knuffel(child)] __e__f__: bool,
    #[knuffel(child)] x1: bool,
    #[knuffel(child)] y_1: bool,
    #[knuffel(child)] z1_2z: bool,
    #[knuffel(child)] fieldName: bool,
    #[knuffel(child)] HTTPServer: bool,
    #[knuffel(child)] Upper: bool,
    #[knuffel(child)] someURL_x: bool,
    #[knuffel(child)] ALL: bool,
    #[knuffel(child)] ünder_x: bool,
    #[knuffel(child)] Été: bool,
    #[knuffel(child)] r#async: bool,
    #[knuffel(child)] r#loop: bool,
}
impl Dump for FieldFlags {
    fn dump(&self) -> Val {
        Val::Rec("FieldFlags".into(), vec![("a__b".into(), (&self.a__b).dump()), ("_c".into(), (&self._c).dump()), ("d_".into(), (&self.d_).dump()), ("__e__f__".into(), (&self.__e__f__).dump()), ("x1".into(), (&self.x1).dump()), ("y_1".into(), (&self.y_1).dump()), ("z1_2z".into(), (&self.z1_2z).dump()), ("fieldName".into(), (&self.fieldName).dump()), ("HTTPServer".into(), (&self.HTTPServer).dump()), ("Upper".into(), (&self.Upper).dump()), ("someURL_x".into(), (&self.someURL_x).dump()), ("ALL".into(), (&self.ALL).dump()), ("\u{fc}nder_x".into(), (&self.ünder_x).dump()), ("\u{c9}t\u{e9}".into(), (&self.Été).dump()), ("async".into(), (&self.r#async).dump()), ("loop".into(), (&self.r#loop).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct FieldKids {
    #[knuffel(child)] a__b: Option<Arg1>,
    #[knuffel(child)] _c: Option<Arg1>,
    #[knuffel(child)] r#loop: Option<Arg1>,
    #[knuffel(child)] fieldName: Option<Arg1>,
    #[knuffel(child, unwrap(argument))] w__x: Option<u8>,
    #[knuffel(child, unwrap(argument))] _y: Option<u8>,
    #[knuffel(child, unwrap(argument))] HTTPServer: Option<u8>,
}
impl Dump for FieldKids {
    fn dump(&self) -> Val {
        Val::Rec("FieldKids".into(), vec![("a__b".into(), (&self.a__b).dump()), ("_c".into(), (&self._c).dump()), ("loop".into(), (&self.r#loop).dump()), ("fieldName".into(), (&self.fieldName).dump()), ("w__x".into(), (&self.w__x).dump()), ("_y".into(), (&self._y).dump()), ("HTTPServer".into(), (&self.HTTPServer).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct Names {
    #[knuffel(node_name)] n: Even,
    #[knuffel(type_name)] t: Even,
    #[knuffel(span)] s: SP,
    #[knuffel(children)] kids: Vec<Names>,
}
impl Dump for Names {
    fn dump(&self) -> Val {
        Val::Rec("Names".into(), vec![("n".into(), (&self.n).dump()), ("t".into(), (&self.t).dump()), ("s".into(), (&self.s).dump()), ("kids".into(), (&self.kids).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct NamesOpt {
    #[knuffel(node_name)] n: char,
    #[knuffel(node_name)] n2: String,
    #[knuffel(type_name)] t: Option<u16>,
    #[knuffel(type_name)] t2: Option<String>,
}
impl Dump for NamesOpt {
    fn dump(&self) -> Val {
        Val::Rec("NamesOpt".into(), vec![("n".into(), (&self.n).dump()), ("n2".into(), (&self.n2).dump()), ("t".into(), (&self.t).dump()), ("t2".into(), (&self.t2).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum SpanDeep {
    A(SpanDeepIn),
    B(#[knuffel(span)] SP, #[knuffel(node_name)] String, #[knuffel(type_name)] Option<String>, #[knuffel(argument)] Spanned<String, SP>),
}
impl Dump for SpanDeep {
    fn dump(&self) -> Val {
        match self {
            SpanDeep::A(x) => Val::Var("A".into(), vec![x.dump()]),
            SpanDeep::B(x0, x1, x2, x3) => Val::Var("B".into(), vec![x0.dump(), x1.dump(), x2.dump(), x3.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct SpanDeepIn {
    #[knuffel(span)] s: Span,
    #[knuffel(children)] sub: Vec<SpanDeep>,
    #[knuffel(property)] p: Option<Spanned<u8, Span>>,
}
impl Dump for SpanDeepIn {
    fn dump(&self) -> Val {
        Val::Rec("SpanDeepIn".into(), vec![("s".into(), (&self.s).dump()), ("sub".into(), (&self.sub).dump()), ("p".into(), (&self.p).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct New(Arg1);
impl Dump for New {
    fn dump(&self) -> Val {
        Val::Rec("New".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct NewOpt(Option<Pos>);
impl Dump for NewOpt {
    fn dump(&self) -> Val {
        Val::Rec("NewOpt".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct NewBox(Arc<Kids>);
impl Dump for NewBox {
    fn dump(&self) -> Val {
        Val::Rec("NewBox".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct NewOptBox(Option<Rc<Kind>>);
impl Dump for NewOptBox {
    fn dump(&self) -> Val {
        Val::Rec("NewOptBox".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct NewNew(Box<NewOpt>);
impl Dump for NewNew {
    fn dump(&self) -> Val {
        Val::Rec("NewNew".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct NewSp(Where);
impl Dump for NewSp {
    fn dump(&self) -> Val {
        Val::Rec("NewSp".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct NewSpOpt(Option<Box<Names>>);
impl Dump for NewSpOpt {
    fn dump(&self) -> Val {
        Val::Rec("NewSpOpt".into(), vec![("0".into(), self.0.dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct NewSpKids {
    #[knuffel(child)] a: NewSp,
    #[knuffel(child)] b: Option<NewSpOpt>,
    #[knuffel(children)] c: Vec<NewSpOpt>,
}
impl Dump for NewSpKids {
    fn dump(&self) -> Val {
        Val::Rec("NewSpKids".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct ListDef {
    #[knuffel(children(name="m"), unwrap(argument), default=vec![1, 2])] a: Vec<u8>,
    #[knuffel(children(name="n"), unwrap(argument), default=Some(vec!["q".into()]))] b: Option<Vec<String>>,
    #[knuffel(children(name="unit"), default=vec![Unit])] c: Vec<Unit>,
    #[knuffel(children(name="k"), default)] d: Option<Vec<Arg1>>,
    #[knuffel(child)] yes: bool,
    #[knuffel(children(name="set"), unwrap(argument), default=[-3i8].into_iter().collect())] e: VecDeque<i8>,
}
impl Dump for ListDef {
    fn dump(&self) -> Val {
        Val::Rec("ListDef".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("yes".into(), (&self.yes).dump()), ("e".into(), (&self.e).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct KidsDef {
    #[knuffel(child, default)] a: Option<OptAll>,
    #[knuffel(child, default=Some(OptAll::default()))] b: Option<OptAll>,
    #[knuffel(child, default=Some(Box::new(Unit)))] c: Option<Box<Unit>>,
    #[knuffel(child, default=None)] d: Option<Arg1>,
    #[knuffel(children)] converted_name: Vec<Name>,
}
impl Dump for KidsDef {
    fn dump(&self) -> Val {
        Val::Rec("KidsDef".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("converted_name".into(), (&self.converted_name).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct Hygiene {
    #[knuffel(properties)] converted_name: BTreeMap<char, String>,
    #[knuffel(children)] name_str: Vec<Name>,
    #[knuffel(arguments)] val: Vec<u8>,
    #[knuffel(type_name)] type_name: Option<String>,
}
impl Dump for Hygiene {
    fn dump(&self) -> Val {
        Val::Rec("Hygiene".into(), vec![("converted_name".into(), (&self.converted_name).dump()), ("name_str".into(), (&self.name_str).dump()), ("val".into(), Val::List((&self.val).iter().map(|x| x.dump()).collect())), ("type_name".into(), (&self.type_name).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapS {
    #[knuffel(argument)] a: Box<u8>,
    #[knuffel(argument)] b: Rc<String>,
    #[knuffel(argument)] c: Arc<Color>,
    #[knuffel(argument)] d: Spanned<f64, SP>,
    #[knuffel(property)] e: Option<Box<i8>>,
    #[knuffel(property)] f: Option<Spanned<bool, Span>>,
    #[knuffel(arguments)] g: Vec<Box<Rc<Spanned<u16, SP>>>>,
}
impl Dump for WrapS {
    fn dump(&self) -> Val {
        Val::Rec("WrapS".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("e".into(), (&self.e).dump()), ("f".into(), (&self.f).dump()), ("g".into(), Val::List((&self.g).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapSPlain {
    #[knuffel(argument)] a: u8,
    #[knuffel(argument)] b: String,
    #[knuffel(argument)] c: Color,
    #[knuffel(argument)] d: f64,
    #[knuffel(property)] e: Option<i8>,
    #[knuffel(property)] f: Option<bool>,
    #[knuffel(arguments)] g: Vec<u16>,
}
impl Dump for WrapSPlain {
    fn dump(&self) -> Val {
        Val::Rec("WrapSPlain".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump()), ("e".into(), (&self.e).dump()), ("f".into(), (&self.f).dump()), ("g".into(), Val::List((&self.g).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct WrapC {
    #[knuffel(child)] a: Box<Arg1>,
    #[knuffel(child)] b: Option<Rc<Kids>>,
    #[knuffel(children(name="c"))] c: Vec<Arc<Kind>>,
    #[knuffel(children)] d: Vec<Box<Name>>,
}
impl Dump for WrapC {
    fn dump(&self) -> Val {
        Val::Rec("WrapC".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct WrapCPlain {
    #[knuffel(child)] a: Arg1,
    #[knuffel(child)] b: Option<Kids>,
    #[knuffel(children(name="c"))] c: Vec<Kind>,
    #[knuffel(children)] d: Vec<Name>,
}
impl Dump for WrapCPlain {
    fn dump(&self) -> Val {
        Val::Rec("WrapCPlain".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), (&self.d).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapP {
    #[knuffel(property)] a: Spanned<u32, SP>,
    #[knuffel(property)] b: Spanned<Box<String>, SP>,
    #[knuffel(properties)] rest: BTreeMap<String, Arc<i32>>,
}
impl Dump for WrapP {
    fn dump(&self) -> Val {
        Val::Rec("WrapP".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("rest".into(), (&self.rest).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapPPlain {
    #[knuffel(property)] a: u32,
    #[knuffel(property)] b: String,
    #[knuffel(properties)] rest: BTreeMap<String, i32>,
}
impl Dump for WrapPPlain {
    fn dump(&self) -> Val {
        Val::Rec("WrapPPlain".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("rest".into(), (&self.rest).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapU {
    #[knuffel(child, unwrap(argument))] a: Box<u8>,
    #[knuffel(child, unwrap(argument))] b: Option<Spanned<Level, SP>>,
    #[knuffel(children(name="c"), unwrap(arguments))] c: Vec<Vec<Rc<String>>>,
}
impl Dump for WrapU {
    fn dump(&self) -> Val {
        Val::Rec("WrapU".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapUPlain {
    #[knuffel(child, unwrap(argument))] a: u8,
    #[knuffel(child, unwrap(argument))] b: Option<Level>,
    #[knuffel(children(name="c"), unwrap(arguments))] c: Vec<Vec<String>>,
}
impl Dump for WrapUPlain {
    fn dump(&self) -> Val {
        Val::Rec("WrapUPlain".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct WrapOpt {
    #[knuffel(argument)] a: Box<Option<u8>>,
    #[knuffel(argument)] b: Spanned<Option<String>, SP>,
    #[knuffel(property)] c: Rc<Option<Color>>,
    #[knuffel(arguments)] d: Vec<Option<i64>>,
}
impl Dump for WrapOpt {
    fn dump(&self) -> Val {
        Val::Rec("WrapOpt".into(), vec![("a".into(), (&self.a).dump()), ("b".into(), (&self.b).dump()), ("c".into(), (&self.c).dump()), ("d".into(), Val::List((&self.d).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct L0 {
    #[knuffel(node_name)] trail_: String,
    #[knuffel(properties)] col: Vec<(char, Spanned<i64, Span>)>,
}
impl Dump for L0 {
    fn dump(&self) -> Val {
        Val::Rec("L0".into(), vec![("trail_".into(), (&self.trail_).dump()), ("col".into(), pairs((&self.col)))])
    }
}
#[derive(knuffel::Decode)]
pub struct L1 {
    #[knuffel(property(name="data"))] log_key: isize,
    #[knuffel(properties)] max: Vec<(String, Arc<Path>)>,
}
impl Dump for L1 {
    fn dump(&self) -> Val {
        Val::Rec("L1".into(), vec![("log_key".into(), (&self.log_key).dump()), ("max".into(), pairs((&self.max)))])
    }
}
#[derive(knuffel::Decode)]
pub struct L2 {
    #[knuffel(arguments)] alpha_a: LinkedList<bool>,
    #[knuffel(property, str, default="".into())] data: String,
    #[knuffel(node_name)] node: String,
}
impl Dump for L2 {
    fn dump(&self) -> Val {
        Val::Rec("L2".into(), vec![("alpha_a".into(), Val::List((&self.alpha_a).iter().map(|x| x.dump()).collect())), ("data".into(), (&self.data).dump()), ("node".into(), (&self.node).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct L3 {
    #[knuffel(arguments)] x_min: LinkedList<Option<Spanned<String, Span>>>,
    #[knuffel(properties)] flag_alpha: BTreeMap<String, Arc<Path>>,
    #[knuffel(span)] trail_: SP,
}
impl Dump for L3 {
    fn dump(&self) -> Val {
        Val::Rec("L3".into(), vec![("x_min".into(), Val::List((&self.x_min).iter().map(|x| x.dump()).collect())), ("flag_alpha".into(), (&self.flag_alpha).dump()), ("trail_".into(), (&self.trail_).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L4 {
    #[knuffel(property(name="user"))] host_a: Option<Arc<Rc<String>>>,
    #[knuffel(argument, default="x y".into())] node: Arc<str>,
}
impl Dump for L4 {
    fn dump(&self) -> Val {
        Val::Rec("L4".into(), vec![("host_a".into(), (&self.host_a).dump()), ("node".into(), (&self.node).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L5 {
    #[knuffel(node_name)] a: String,
    #[knuffel(property, str, default=Some(127))] arg: Option<u16>,
}
impl Dump for L5 {
    fn dump(&self) -> Val {
        Val::Rec("L5".into(), vec![("a".into(), (&self.a).dump()), ("arg".into(), (&self.arg).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L6 {
    #[knuffel(property)] delta: Arc<bool>,
    #[knuffel(argument, str, default="".into())] beta_data: String,
    #[knuffel(argument)] gamma: Color,
    #[knuffel(type_name)] item: Option<String>,
}
impl Dump for L6 {
    fn dump(&self) -> Val {
        Val::Rec("L6".into(), vec![("delta".into(), (&self.delta).dump()), ("beta_data".into(), (&self.beta_data).dump()), ("gamma".into(), (&self.gamma).dump()), ("item".into(), (&self.item).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L7 {
    #[knuffel(argument)] s: Rc<String>,
    #[knuffel(property)] max_y: i64,
    #[knuffel(argument, default)] size: Option<String>,
}
impl Dump for L7 {
    fn dump(&self) -> Val {
        Val::Rec("L7".into(), vec![("s".into(), (&self.s).dump()), ("max_y".into(), (&self.max_y).dump()), ("size".into(), (&self.size).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L8 {
    #[knuffel(argument)] mode: bool,
}
impl Dump for L8 {
    fn dump(&self) -> Val {
        Val::Rec("L8".into(), vec![("mode".into(), (&self.mode).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L9 {
    #[knuffel(property)] opt_host: Arc<str>,
    #[knuffel(property, str, default="x y".into())] x_v2: String,
    #[knuffel(argument, bytes)] item: Box<[u8]>,
    #[knuffel(property(name="-"), bytes, default)] gamma: Option<Short>,
}
impl Dump for L9 {
    fn dump(&self) -> Val {
        Val::Rec("L9".into(), vec![("opt_host".into(), (&self.opt_host).dump()), ("x_v2".into(), (&self.x_v2).dump()), ("item".into(), bytes((&self.item))), ("gamma".into(), (&self.gamma).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct L10 {
    #[knuffel(argument)] key_beta: Option<Spanned<u8, SP>>,
}
impl Dump for L10 {
    fn dump(&self) -> Val {
        Val::Rec("L10".into(), vec![("key_beta".into(), (&self.key_beta).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct L11 {
    #[knuffel(property(name="gamma"), str, default)] alpha_log: u16,
    #[knuffel(span)] flag: SP,
    #[knuffel(properties)] node_name: BTreeMap<Even, Spanned<i32, SP>>,
    #[knuffel(type_name)] max: Option<Even>,
}
impl Dump for L11 {
    fn dump(&self) -> Val {
        Val::Rec("L11".into(), vec![("alpha_log".into(), (&self.alpha_log).dump()), ("flag".into(), (&self.flag).dump()), ("node_name".into(), (&self.node_name).dump()), ("max".into(), (&self.max).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct L12 {
    #[knuffel(property)] alpha: Rc<f32>,
    #[knuffel(property(name="host"))] delta_gamma: PathBuf,
    #[knuffel(arguments, str)] item_list: LinkedList<u16>,
    #[knuffel(node_name)] opt: String,
}
impl Dump for L12 {
    fn dump(&self) -> Val {
        Val::Rec("L12".into(), vec![("alpha".into(), (&self.alpha).dump()), ("delta_gamma".into(), (&self.delta_gamma).dump()), ("item_list".into(), Val::List((&self.item_list).iter().map(|x| x.dump()).collect())), ("opt".into(), (&self.opt).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct L13 {
    #[knuffel(type_name)] tn: Option<String>,
    #[knuffel(argument)] host_kind: Option<Spanned<String, SP>>,
    #[knuffel(property(name="true"))] port: i8,
    #[knuffel(properties)] port_v2: BTreeMap<char, i64>,
}
impl Dump for L13 {
    fn dump(&self) -> Val {
        Val::Rec("L13".into(), vec![("tn".into(), (&self.tn).dump()), ("host_kind".into(), (&self.host_kind).dump()), ("port".into(), (&self.port).dump()), ("port_v2".into(), (&self.port_v2).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct RP0 {
    #[knuffel(child)] port_a: Option<Box<Props>>,
    #[knuffel(child, unwrap(property(name="min"), str))] flag_y: Option<Even>,
}
impl Dump for RP0 {
    fn dump(&self) -> Val {
        Val::Rec("RP0".into(), vec![("port_a".into(), (&self.port_a).dump()), ("flag_y".into(), (&self.flag_y).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct RP1 {
    #[knuffel(child)] path: Option<Box<L5>>,
    #[knuffel(property)] x_path: Option<i32>,
    #[knuffel(property)] _lead: Option<u64>,
    #[knuffel(property(name="row"), bytes)] v2_id: Option<Vec<u8>>,
}
impl Dump for RP1 {
    fn dump(&self) -> Val {
        Val::Rec("RP1".into(), vec![("path".into(), (&self.path).dump()), ("x_path".into(), (&self.x_path).dump()), ("_lead".into(), (&self._lead).dump()), ("v2_id".into(), (&self.v2_id).as_ref().map_or(Val::None, |b| some(bytes(b))))])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct RP2(
    #[knuffel(property(name="tag"))] Option<isize>,
);
impl Dump for RP2 {
    fn dump(&self) -> Val {
        Val::Rec("RP2".into(), vec![("0".into(), (&self.0).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct RP3 {
    #[knuffel(child)] host: bool,
    #[knuffel(flatten(property))] key_data: PartP,
    #[knuffel(child)] user_id: bool,
}
impl Dump for RP3 {
    fn dump(&self) -> Val {
        Val::Rec("RP3".into(), vec![("host".into(), (&self.host).dump()), ("key_data".into(), (&self.key_data).dump()), ("user_id".into(), (&self.user_id).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct RP4 {
    #[knuffel(property)] key_delta: Option<Arc<Path>>,
    #[knuffel(child, unwrap(arguments, str))] delta: Option<Vec<char>>,
    #[knuffel(property)] key_col: Option<Color>,
    #[knuffel(flatten(child))] host: PartN,
    #[knuffel(property)] beta: Option<i64>,
}
impl Dump for RP4 {
    fn dump(&self) -> Val {
        Val::Rec("RP4".into(), vec![("key_delta".into(), (&self.key_delta).dump()), ("delta".into(), (&self.delta).dump()), ("key_col".into(), (&self.key_col).dump()), ("host".into(), (&self.host).dump()), ("beta".into(), (&self.beta).dump())])
    }
}
#[derive(knuffel::Decode, Default)]
pub struct RP5(
    #[knuffel(property(name="key"), bytes)] Option<Vec<u8>>,
    #[knuffel(flatten(child))] Box<RP1>,
);
impl Dump for RP5 {
    fn dump(&self) -> Val {
        Val::Rec("RP5".into(), vec![("0".into(), (&self.0).as_ref().map_or(Val::None, |b| some(bytes(b)))), ("1".into(), (&self.1).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S0 {
    #[knuffel(children(name="tab\u{9}here"))] alpha: Vec<Box<OptAll>>,
    #[knuffel(flatten(property))] y_data: RP5,
    #[knuffel(argument, bytes)] path_opt: Option<Box<[u8]>>,
    #[knuffel(property)] arg: Option<String>,
    #[knuffel(argument, str)] y: char,
    #[knuffel(flatten(property))] row: RP3,
}
impl Dump for S0 {
    fn dump(&self) -> Val {
        Val::Rec("S0".into(), vec![("alpha".into(), (&self.alpha).dump()), ("y_data".into(), (&self.y_data).dump()), ("path_opt".into(), (&self.path_opt).as_ref().map_or(Val::None, |b| some(bytes(b)))), ("arg".into(), (&self.arg).dump()), ("y".into(), (&self.y).dump()), ("row".into(), (&self.row).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S1 {
    #[knuffel(child, unwrap(argument, str))] host_min: Option<u16>,
    #[knuffel(property(name="a\"b"))] node_name: Color,
    #[knuffel(flatten(child, property))] flag: PartM,
    #[knuffel(child, unwrap(property(name="flag")))] iter_args: u32,
    #[knuffel(property)] col: Option<i32>,
    #[knuffel(flatten(property))] col_a: Box<PartNC>,
    #[knuffel(argument)] user: i8,
    #[knuffel(children)] kind: LinkedList<L3>,
}
impl Dump for S1 {
    fn dump(&self) -> Val {
        Val::Rec("S1".into(), vec![("host_min".into(), (&self.host_min).dump()), ("node_name".into(), (&self.node_name).dump()), ("flag".into(), (&self.flag).dump()), ("iter_args".into(), (&self.iter_args).dump()), ("col".into(), (&self.col).dump()), ("col_a".into(), (&self.col_a).dump()), ("user".into(), (&self.user).dump()), ("kind".into(), (&self.kind).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S2 {
    #[knuffel(flatten(child))] beta_delta: PartP,
    #[knuffel(span)] row: Span,
    #[knuffel(span)] path_key: SP,
    #[knuffel(span)] beta_size: SP,
    flag_key: u32,
    #[knuffel(arguments, str)] path_alpha: LinkedList<String>,
    #[knuffel(child)] opt_size: L11,
}
impl Dump for S2 {
    fn dump(&self) -> Val {
        Val::Rec("S2".into(), vec![("beta_delta".into(), (&self.beta_delta).dump()), ("row".into(), (&self.row).dump()), ("path_key".into(), (&self.path_key).dump()), ("beta_size".into(), (&self.beta_size).dump()), ("flag_key".into(), (&self.flag_key).dump()), ("path_alpha".into(), Val::List((&self.path_alpha).iter().map(|x| x.dump()).collect())), ("opt_size".into(), (&self.opt_size).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S3 {
    #[knuffel(flatten(child, property))] gamma_data: RP2,
    #[knuffel(span)] end: SP,
}
impl Dump for S3 {
    fn dump(&self) -> Val {
        Val::Rec("S3".into(), vec![("gamma_data".into(), (&self.gamma_data).dump()), ("end".into(), (&self.end).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S4 {
    #[knuffel(child, unwrap(properties))] user_col: Option<BTreeMap<String, u8>>,
    #[knuffel(properties, str)] v2_size: HashMap<Even, Even>,
    #[knuffel(argument, bytes)] lst: Box<[u8]>,
    #[knuffel(node_name)] id_gamma: Even,
    #[knuffel(node_name)] y: String,
    #[knuffel(type_name)] user: Option<u16>,
}
impl Dump for S4 {
    fn dump(&self) -> Val {
        Val::Rec("S4".into(), vec![("user_col".into(), (&self.user_col).dump()), ("v2_size".into(), (&self.v2_size).dump()), ("lst".into(), bytes((&self.lst))), ("id_gamma".into(), (&self.id_gamma).dump()), ("y".into(), (&self.y).dump()), ("user".into(), (&self.user).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S5 {
    #[knuffel(property)] alpha_delta: Option<Spanned<i64, Span>>,
    #[knuffel(argument, default=127)] host_x: i32,
}
impl Dump for S5 {
    fn dump(&self) -> Val {
        Val::Rec("S5".into(), vec![("alpha_delta".into(), (&self.alpha_delta).dump()), ("host_x".into(), (&self.host_x).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S6 {
    #[knuffel(argument)] b_gamma: Arc<Path>,
    #[knuffel(type_name)] max_path: Option<std::net::SocketAddr>,
    #[knuffel(children(name="snake_case"))] item_beta: LinkedList<Where>,
    #[knuffel(span)] gamma_item: SP,
    #[knuffel(span)] x: Span,
}
impl Dump for S6 {
    fn dump(&self) -> Val {
        Val::Rec("S6".into(), vec![("b_gamma".into(), (&self.b_gamma).dump()), ("max_path".into(), (&self.max_path).dump()), ("item_beta".into(), (&self.item_beta).dump()), ("gamma_item".into(), (&self.gamma_item).dump()), ("x".into(), (&self.x).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S7 {
    #[knuffel(span)] id: Span,
    #[knuffel(child, unwrap(argument))] path_id: Option<Only>,
    #[knuffel(property)] row_alpha: Spanned<f32, Span>,
    #[knuffel(span)] opt: SP,
    #[knuffel(children(name="a"))] none: Option<Vec<Box<L3>>>,
    #[knuffel(flatten(child))] list_alpha: Arc<RP2>,
    #[knuffel(child, unwrap(property(name="\u{65e5}\u{672c}")))] iter_args: Level,
}
impl Dump for S7 {
    fn dump(&self) -> Val {
        Val::Rec("S7".into(), vec![("id".into(), (&self.id).dump()), ("path_id".into(), (&self.path_id).dump()), ("row_alpha".into(), (&self.row_alpha).dump()), ("opt".into(), (&self.opt).dump()), ("none".into(), (&self.none).dump()), ("list_alpha".into(), (&self.list_alpha).dump()), ("iter_args".into(), (&self.iter_args).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S8 {
    #[knuffel(argument)] r#fn: usize,
    #[knuffel(children(name="b"), default=[OptAll::default(), OptAll::default()].into_iter().collect())] a: Vec<OptAll>,
    #[knuffel(child)] key: Option<L2>,
}
impl Dump for S8 {
    fn dump(&self) -> Val {
        Val::Rec("S8".into(), vec![("fn".into(), (&self.r#fn).dump()), ("a".into(), (&self.a).dump()), ("key".into(), (&self.key).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S9 {
    #[knuffel(node_name)] delta: String,
    #[knuffel(child)] result: bool,
    #[knuffel(property(name="camelCase"), str)] path_id: Option<u16>,
    #[knuffel(argument)] opt_min: Spanned<Color, SP>,
    #[knuffel(span)] tag: SP,
    #[knuffel(property)] key: Option<Rc<String>>,
    #[knuffel(type_name)] beta_path: Option<std::net::SocketAddr>,
}
impl Dump for S9 {
    fn dump(&self) -> Val {
        Val::Rec("S9".into(), vec![("delta".into(), (&self.delta).dump()), ("result".into(), (&self.result).dump()), ("path_id".into(), (&self.path_id).dump()), ("opt_min".into(), (&self.opt_min).dump()), ("tag".into(), (&self.tag).dump()), ("key".into(), (&self.key).dump()), ("beta_path".into(), (&self.beta_path).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S10 {
    #[knuffel(child)] log: Option<Unit>,
    #[knuffel(node_name)] opt: String,
    #[knuffel(child, default)] size_col: OptAll,
    #[knuffel(flatten(property))] s: PartM,
    #[knuffel(children(name="list"), unwrap(properties))] mode_b: VecDeque<BTreeMap<String, String>>,
}
impl Dump for S10 {
    fn dump(&self) -> Val {
        Val::Rec("S10".into(), vec![("log".into(), (&self.log).dump()), ("opt".into(), (&self.opt).dump()), ("size_col".into(), (&self.size_col).dump()), ("s".into(), (&self.s).dump()), ("mode_b".into(), (&self.mode_b).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S11 {
    #[knuffel(argument, str)] key_end: Even,
    #[knuffel(flatten(child, property))] min: Rc<PartM>,
    #[knuffel(property(name="b"), default)] mode: bool,
    #[knuffel(property)] item: Option<PathBuf>,
    #[knuffel(property, str)] v2_key: Option<u16>,
    #[knuffel(child)] name_str: Option<Arc<S5>>,
    #[knuffel(property, bytes)] key_item: Box<[u8]>,
}
impl Dump for S11 {
    fn dump(&self) -> Val {
        Val::Rec("S11".into(), vec![("key_end".into(), (&self.key_end).dump()), ("min".into(), (&self.min).dump()), ("mode".into(), (&self.mode).dump()), ("item".into(), (&self.item).dump()), ("v2_key".into(), (&self.v2_key).dump()), ("name_str".into(), (&self.name_str).dump()), ("key_item".into(), bytes((&self.key_item)))])
    }
}
#[derive(knuffel::Decode)]
pub struct S12 {
    #[knuffel(node_name)] v: Even,
    #[knuffel(argument)] alpha_list: Option<Arc<u16>>,
    #[knuffel(type_name)] item: char,
    v2: Vec<u16>,
    #[knuffel(property, str)] port_port: Option<u16>,
}
impl Dump for S12 {
    fn dump(&self) -> Val {
        Val::Rec("S12".into(), vec![("v".into(), (&self.v).dump()), ("alpha_list".into(), (&self.alpha_list).dump()), ("item".into(), (&self.item).dump()), ("v2".into(), (&self.v2).dump()), ("port_port".into(), (&self.port_port).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S13 {
    #[knuffel(property)] end: i16,
    #[knuffel(children(name="\u{fc}ber"), unwrap(argument))] result: LinkedList<Arc<String>>,
    #[knuffel(children(name="camelCase"))] tag: Option<VecDeque<Box<Three>>>,
    row: Option<u8>,
}
impl Dump for S13 {
    fn dump(&self) -> Val {
        Val::Rec("S13".into(), vec![("end".into(), (&self.end).dump()), ("result".into(), (&self.result).dump()), ("tag".into(), (&self.tag).dump()), ("row".into(), (&self.row).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S14 {
    #[knuffel(argument)] x: Option<Rc<i32>>,
    #[knuffel(properties, str)] user_item: Vec<(char, char)>,
    #[knuffel(span)] id: SP,
}
impl Dump for S14 {
    fn dump(&self) -> Val {
        Val::Rec("S14".into(), vec![("x".into(), (&self.x).dump()), ("user_item".into(), pairs((&self.user_item))), ("id".into(), (&self.id).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S15 {
    #[knuffel(arguments, bytes)] key: LinkedList<Box<[u8]>>,
    #[knuffel(type_name)] size_id: String,
    #[knuffel(flatten(child, property))] x: Box<RP2>,
    #[knuffel(children(name="tag"), default=[Unit::default()].into_iter().collect())] a: VecDeque<Unit>,
    tag_a: Option<u8>,
}
impl Dump for S15 {
    fn dump(&self) -> Val {
        Val::Rec("S15".into(), vec![("key".into(), Val::List((&self.key).iter().map(|x| bytes(x)).collect())), ("size_id".into(), (&self.size_id).dump()), ("x".into(), (&self.x).dump()), ("a".into(), (&self.a).dump()), ("tag_a".into(), (&self.tag_a).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S16 {
    #[knuffel(flatten(child, property))] user: Rc<RP1>,
    #[knuffel(child, unwrap(children(name="mode")))] key: Vec<S0>,
}
impl Dump for S16 {
    fn dump(&self) -> Val {
        Val::Rec("S16".into(), vec![("user".into(), (&self.user).dump()), ("key".into(), (&self.key).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S17 {
    #[knuffel(type_name)] host: Option<Even>,
    #[knuffel(children(name="path"), unwrap(argument, bytes))] node_name: Vec<Short>,
    list_row: Option<u8>,
}
impl Dump for S17 {
    fn dump(&self) -> Val {
        Val::Rec("S17".into(), vec![("host".into(), (&self.host).dump()), ("node_name".into(), (&self.node_name).dump()), ("list_row".into(), (&self.list_row).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S18 {
    #[knuffel(span)] flag: SP,
    #[knuffel(arguments)] user_v2: BTreeSet<i16>,
    #[knuffel(child)] data: bool,
    #[knuffel(type_name)] s: Option<char>,
    #[knuffel(child)] item: S6,
    #[knuffel(flatten(property))] none: Box<PartN>,
}
impl Dump for S18 {
    fn dump(&self) -> Val {
        Val::Rec("S18".into(), vec![("flag".into(), (&self.flag).dump()), ("user_v2".into(), Val::List((&self.user_v2).iter().map(|x| x.dump()).collect())), ("data".into(), (&self.data).dump()), ("s".into(), (&self.s).dump()), ("item".into(), (&self.item).dump()), ("none".into(), (&self.none).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S19 {
    #[knuffel(child)] log_host: bool,
    #[knuffel(flatten(child, property))] end_kind: Arc<PartP>,
    #[knuffel(type_name)] alpha_delta: Option<std::net::SocketAddr>,
}
impl Dump for S19 {
    fn dump(&self) -> Val {
        Val::Rec("S19".into(), vec![("log_host".into(), (&self.log_host).dump()), ("end_kind".into(), (&self.end_kind).dump()), ("alpha_delta".into(), (&self.alpha_delta).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S20 {
    #[knuffel(children(name="Null"), default)] host_alpha: VecDeque<Box<S2>>,
    #[knuffel(child, unwrap(argument, str))] user: Option<std::net::SocketAddr>,
}
impl Dump for S20 {
    fn dump(&self) -> Val {
        Val::Rec("S20".into(), vec![("host_alpha".into(), (&self.host_alpha).dump()), ("user".into(), (&self.user).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S21 {
    #[knuffel(property, str)] id_list: String,
    #[knuffel(arguments)] log: BTreeSet<i16>,
}
impl Dump for S21 {
    fn dump(&self) -> Val {
        Val::Rec("S21".into(), vec![("id_list".into(), (&self.id_list).dump()), ("log".into(), Val::List((&self.log).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S22 {
    #[knuffel(type_name)] min_delta: Even,
    #[knuffel(children(name="3"), unwrap(children(name="kind")))] b: Vec<Vec<S2>>,
    #[knuffel(type_name)] value: Option<Even>,
    #[knuffel(flatten(child))] val: RP4,
    #[knuffel(properties)] size_x: HashMap<Even, Option<f32>>,
}
impl Dump for S22 {
    fn dump(&self) -> Val {
        Val::Rec("S22".into(), vec![("min_delta".into(), (&self.min_delta).dump()), ("b".into(), (&self.b).dump()), ("value".into(), (&self.value).dump()), ("val".into(), (&self.val).dump()), ("size_x".into(), (&self.size_x).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S23 {
    #[knuffel(child)] key_list: bool,
    #[knuffel(span)] alpha_item: SP,
    #[knuffel(argument)] name: f32,
    #[knuffel(type_name)] path_v2: Option<u16>,
    #[knuffel(child, unwrap(argument))] a: Option<Color>,
    #[knuffel(arguments)] none: Vec<String>,
    #[knuffel(node_name)] e: String,
    #[knuffel(children(name="flag"), unwrap(argument, str, default='c'), default=Some(['c'].into_iter().collect()))] v2_host: Option<VecDeque<char>>,
}
impl Dump for S23 {
    fn dump(&self) -> Val {
        Val::Rec("S23".into(), vec![("key_list".into(), (&self.key_list).dump()), ("alpha_item".into(), (&self.alpha_item).dump()), ("name".into(), (&self.name).dump()), ("path_v2".into(), (&self.path_v2).dump()), ("a".into(), (&self.a).dump()), ("none".into(), Val::List((&self.none).iter().map(|x| x.dump()).collect())), ("e".into(), (&self.e).dump()), ("v2_host".into(), (&self.v2_host).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S24 {
    #[knuffel(property, default=1)] id: usize,
    #[knuffel(node_name)] log: Even,
    #[knuffel(property)] tag_y: Option<Spanned<Arc<str>, SP>>,
    #[knuffel(argument, str)] v2_row: char,
    #[knuffel(node_name)] lst: String,
    #[knuffel(children(name="host"), unwrap(argument, bytes), default)] log_beta: Option<Vec<Short>>,
    host_b: Vec<u16>,
    #[knuffel(children, unwrap(property(name="max")))] gamma: Vec<Arc<str>>,
}
impl Dump for S24 {
    fn dump(&self) -> Val {
        Val::Rec("S24".into(), vec![("id".into(), (&self.id).dump()), ("log".into(), (&self.log).dump()), ("tag_y".into(), (&self.tag_y).dump()), ("v2_row".into(), (&self.v2_row).dump()), ("lst".into(), (&self.lst).dump()), ("log_beta".into(), (&self.log_beta).dump()), ("host_b".into(), (&self.host_b).dump()), ("gamma".into(), (&self.gamma).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S25 {
    #[knuffel(node_name)] list_list: Even,
    #[knuffel(child, unwrap(argument, bytes))] beta_key: Option<Short>,
    #[knuffel(children)] flag_item: VecDeque<L2>,
}
impl Dump for S25 {
    fn dump(&self) -> Val {
        Val::Rec("S25".into(), vec![("list_list".into(), (&self.list_list).dump()), ("beta_key".into(), (&self.beta_key).dump()), ("flag_item".into(), (&self.flag_item).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S26 {
    #[knuffel(type_name)] alpha: std::net::SocketAddr,
    #[knuffel(children, unwrap(argument, bytes))] mode_beta: Vec<Short>,
}
impl Dump for S26 {
    fn dump(&self) -> Val {
        Val::Rec("S26".into(), vec![("alpha".into(), (&self.alpha).dump()), ("mode_beta".into(), (&self.mode_beta).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S27 {
    host: Option<u8>,
    #[knuffel(span)] host_path: SP,
    #[knuffel(child)] flag: Kind,
    #[knuffel(child)] user_gamma: L13,
    min: Option<u8>,
    #[knuffel(type_name)] gamma_min: String,
    list: u32,
}
impl Dump for S27 {
    fn dump(&self) -> Val {
        Val::Rec("S27".into(), vec![("host".into(), (&self.host).dump()), ("host_path".into(), (&self.host_path).dump()), ("flag".into(), (&self.flag).dump()), ("user_gamma".into(), (&self.user_gamma).dump()), ("min".into(), (&self.min).dump()), ("gamma_min".into(), (&self.gamma_min).dump()), ("list".into(), (&self.list).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S28 {
    #[knuffel(span)] r#type: Span,
    #[knuffel(children)] kind_gamma: Vec<L3>,
    #[knuffel(arguments)] alpha_tag: Vec<u32>,
}
impl Dump for S28 {
    fn dump(&self) -> Val {
        Val::Rec("S28".into(), vec![("type".into(), (&self.r#type).dump()), ("kind_gamma".into(), (&self.kind_gamma).dump()), ("alpha_tag".into(), Val::List((&self.alpha_tag).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S29 {
    #[knuffel(type_name)] y_mode: u16,
    #[knuffel(properties)] gamma_beta: HashMap<String, Color>,
    #[knuffel(span)] user: SP,
    #[knuffel(children(name="x.y"))] id_gamma: Vec<L9>,
    #[knuffel(argument)] y: Option<Rc<u16>>,
    #[knuffel(argument, default=7)] end: u8,
}
impl Dump for S29 {
    fn dump(&self) -> Val {
        Val::Rec("S29".into(), vec![("y_mode".into(), (&self.y_mode).dump()), ("gamma_beta".into(), (&self.gamma_beta).dump()), ("user".into(), (&self.user).dump()), ("id_gamma".into(), (&self.id_gamma).dump()), ("y".into(), (&self.y).dump()), ("end".into(), (&self.end).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S30 {
    #[knuffel(argument, str)] flag_end: Option<String>,
    #[knuffel(arguments, str)] host: Vec<std::net::SocketAddr>,
    value: Option<u8>,
    #[knuffel(property, bytes)] item: Box<[u8]>,
}
impl Dump for S30 {
    fn dump(&self) -> Val {
        Val::Rec("S30".into(), vec![("flag_end".into(), (&self.flag_end).dump()), ("host".into(), Val::List((&self.host).iter().map(|x| x.dump()).collect())), ("value".into(), (&self.value).dump()), ("item".into(), bytes((&self.item)))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S31 {
    #[knuffel(property(name="alpha"))] id: Spanned<Color, Span>,
    #[knuffel(property(name="y"))] x_opt: Option<Spanned<String, Span>>,
}
impl Dump for S31 {
    fn dump(&self) -> Val {
        Val::Rec("S31".into(), vec![("id".into(), (&self.id).dump()), ("x_opt".into(), (&self.x_opt).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct S32 {
    #[knuffel(child, unwrap(children))] host_row: Option<Vec<Kind>>,
    #[knuffel(child, unwrap(arguments, str))] user: Vec<char>,
    #[knuffel(node_name)] y: Even,
    #[knuffel(argument)] user_size: i64,
    #[knuffel(property)] flag: usize,
    #[knuffel(child, unwrap(argument, default=7), default=7)] row: i32,
}
impl Dump for S32 {
    fn dump(&self) -> Val {
        Val::Rec("S32".into(), vec![("host_row".into(), (&self.host_row).dump()), ("user".into(), (&self.user).dump()), ("y".into(), (&self.y).dump()), ("user_size".into(), (&self.user_size).dump()), ("flag".into(), (&self.flag).dump()), ("row".into(), (&self.row).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct S33 {
    #[knuffel(children(name="list"), unwrap(arguments))] flag_delta: VecDeque<Vec<Color>>,
    #[knuffel(children(name="x.y"))] list_max: Vec<L13>,
    #[knuffel(node_name)] two__under: String,
    #[knuffel(type_name)] list_id: u16,
    #[knuffel(node_name)] log_max: Even,
}
impl Dump for S33 {
    fn dump(&self) -> Val {
        Val::Rec("S33".into(), vec![("flag_delta".into(), (&self.flag_delta).dump()), ("list_max".into(), (&self.list_max).dump()), ("two__under".into(), (&self.two__under).dump()), ("list_id".into(), (&self.list_id).dump()), ("log_max".into(), (&self.log_max).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T0(
    #[knuffel(node_name)] String,
    #[knuffel(property(name="port"))] Spanned<Spanned<Level, SP>, SP>,
    String,
    #[knuffel(argument)] Option<String>,
    #[knuffel(type_name)] Option<String>,
);
impl Dump for T0 {
    fn dump(&self) -> Val {
        Val::Rec("T0".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump()), ("3".into(), (&self.3).dump()), ("4".into(), (&self.4).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct T1(
    String,
    #[knuffel(argument, bytes)] Box<[u8]>,
    #[knuffel(flatten(property))] Box<PartT>,
);
impl Dump for T1 {
    fn dump(&self) -> Val {
        Val::Rec("T1".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), bytes((&self.1))), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T2(
    #[knuffel(property(name="x"))] Box<u32>,
    #[knuffel(flatten(property))] Arc<PartNC>,
    #[knuffel(property(name="UPPER"))] Only,
    #[knuffel(span)] Span,
    #[knuffel(span)] SP,
    #[knuffel(property(name="item"), str)] char,
);
impl Dump for T2 {
    fn dump(&self) -> Val {
        Val::Rec("T2".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump()), ("3".into(), (&self.3).dump()), ("4".into(), (&self.4).dump()), ("5".into(), (&self.5).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct T3(
    #[knuffel(property(name="row"), str)] String,
    #[knuffel(argument, str)] Even,
    #[knuffel(argument)] Option<PathBuf>,
);
impl Dump for T3 {
    fn dump(&self) -> Val {
        Val::Rec("T3".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct T4(
    #[knuffel(argument)] Arc<str>,
    #[knuffel(property(name="key"))] Option<Color>,
    #[knuffel(children)] Vec<L6>,
);
impl Dump for T4 {
    fn dump(&self) -> Val {
        Val::Rec("T4".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T5(
    #[knuffel(flatten(child, property))] Box<RP2>,
    #[knuffel(span)] Span,
);
impl Dump for T5 {
    fn dump(&self) -> Val {
        Val::Rec("T5".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T6(
    #[knuffel(span)] SP,
    #[knuffel(property(name="log"))] u32,
    #[knuffel(children(name="\u{65e5}\u{672c}"))] Vec<L4>,
    #[knuffel(node_name)] String,
    Vec<u16>,
);
impl Dump for T6 {
    fn dump(&self) -> Val {
        Val::Rec("T6".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump()), ("3".into(), (&self.3).dump()), ("4".into(), (&self.4).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct T7(
    #[knuffel(flatten(child, property))] Box<PartC>,
    #[knuffel(flatten(property))] Box<PartM>,
    Vec<u16>,
);
impl Dump for T7 {
    fn dump(&self) -> Val {
        Val::Rec("T7".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T8(
    #[knuffel(node_name)] String,
    #[knuffel(flatten(property))] Box<RP3>,
    #[knuffel(children)] LinkedList<L11>,
);
impl Dump for T8 {
    fn dump(&self) -> Val {
        Val::Rec("T8".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T9(
    #[knuffel(span)] SP,
    #[knuffel(arguments, str)] LinkedList<Even>,
);
impl Dump for T9 {
    fn dump(&self) -> Val {
        Val::Rec("T9".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), Val::List((&self.1).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct T10(
    #[knuffel(arguments, str)] Vec<char>,
);
impl Dump for T10 {
    fn dump(&self) -> Val {
        Val::Rec("T10".into(), vec![("0".into(), Val::List((&self.0).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct T11(
    #[knuffel(property(name="host"))] Box<Spanned<i8, Span>>,
    #[knuffel(argument)] PathBuf,
    #[knuffel(children(name="true"), default)] Option<LinkedList<Three>>,
);
impl Dump for T11 {
    fn dump(&self) -> Val {
        Val::Rec("T11".into(), vec![("0".into(), (&self.0).dump()), ("1".into(), (&self.1).dump()), ("2".into(), (&self.2).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E0 {
    r#move(#[knuffel(argument)] Option<i32>, #[knuffel(argument)] f32, #[knuffel(property(name="Null"), bytes, default)] Option<Vec<u8>>),
    Alpha(S7),
    TwoWordsMore(Option<L6>),
    V1Beta(#[knuffel(property(name="path"), str)] Option<String>, #[knuffel(node_name)] String),
    XMLDoc(Option<Arc<L12>>),
    ABC(Option<S6>),
}
impl Dump for E0 {
    fn dump(&self) -> Val {
        match self {
            E0::r#move(x0, x1, x2) => Val::Var("r#move".into(), vec![x0.dump(), x1.dump(), x2.as_ref().map_or(Val::None, |b| some(bytes(b)))]),
            E0::Alpha(x) => Val::Var("Alpha".into(), vec![x.dump()]),
            E0::TwoWordsMore(x) => Val::Var("TwoWordsMore".into(), vec![x.dump()]),
            E0::V1Beta(x0, x1) => Val::Var("V1Beta".into(), vec![x0.dump(), x1.dump()]),
            E0::XMLDoc(x) => Val::Var("XMLDoc".into(), vec![x.dump()]),
            E0::ABC(x) => Val::Var("ABC".into(), vec![x.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum E1 {
    r#move(Option<Num>),
    XMLDoc(#[knuffel(properties)] HashMap<String, u16>),
    Alpha,
    #[knuffel(skip)]
    D,
    TwoWordsMore,
}
impl Dump for E1 {
    fn dump(&self) -> Val {
        match self {
            E1::r#move(x) => Val::Var("r#move".into(), vec![x.dump()]),
            E1::XMLDoc(x0) => Val::Var("XMLDoc".into(), vec![x0.dump()]),
            E1::Alpha => Val::Var("Alpha".into(), vec![]),
            E1::D => Val::Var("D".into(), vec![]),
            E1::TwoWordsMore => Val::Var("TwoWordsMore".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E2 {
    D(String, #[knuffel(node_name)] String, #[knuffel(property(name="row"))] Spanned<Level, SP>, #[knuffel(arguments)] LinkedList<Option<i64>>),
    TwoWordsMore(#[knuffel(type_name)] String, #[knuffel(property(name="row"))] i64, #[knuffel(argument, default=Color::DarkBlue)] Color),
    #[knuffel(skip)]
    Beta2,
    r#move(#[knuffel(span)] SP, #[knuffel(arguments, str)] Vec<Even>),
    under_score(#[knuffel(type_name)] Option<std::net::SocketAddr>, #[knuffel(property(name="alpha"), str)] Option<std::net::SocketAddr>),
    ABC,
}
impl Dump for E2 {
    fn dump(&self) -> Val {
        match self {
            E2::D(x0, x1, x2, x3) => Val::Var("D".into(), vec![x0.dump(), x1.dump(), x2.dump(), Val::List(x3.iter().map(|x| x.dump()).collect())]),
            E2::TwoWordsMore(x0, x1, x2) => Val::Var("TwoWordsMore".into(), vec![x0.dump(), x1.dump(), x2.dump()]),
            E2::Beta2 => Val::Var("Beta2".into(), vec![]),
            E2::r#move(x0, x1) => Val::Var("r#move".into(), vec![x0.dump(), Val::List(x1.iter().map(|x| x.dump()).collect())]),
            E2::under_score(x0, x1) => Val::Var("under_score".into(), vec![x0.dump(), x1.dump()]),
            E2::ABC => Val::Var("ABC".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E3 {
    XMLDoc(#[knuffel(property(name="snake_case"), bytes)] Box<[u8]>, #[knuffel(children(name="y"), unwrap(arguments))] LinkedList<Vec<Arc<Path>>>, #[knuffel(argument, bytes)] Short, #[knuffel(children(name="flag"))] Vec<Arg1>),
    ABC(Option<Where>),
    D,
}
impl Dump for E3 {
    fn dump(&self) -> Val {
        match self {
            E3::XMLDoc(x0, x1, x2, x3) => Val::Var("XMLDoc".into(), vec![bytes(x0), x1.dump(), x2.dump(), x3.dump()]),
            E3::ABC(x) => Val::Var("ABC".into(), vec![x.dump()]),
            E3::D => Val::Var("D".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E4 {
    XMLDoc(Option<Box<L3>>),
    GammaRay,
    ABC,
    V1Beta(Arc<L4>),
    #[knuffel(skip)]
    under_score,
}
impl Dump for E4 {
    fn dump(&self) -> Val {
        match self {
            E4::XMLDoc(x) => Val::Var("XMLDoc".into(), vec![x.dump()]),
            E4::GammaRay => Val::Var("GammaRay".into(), vec![]),
            E4::ABC => Val::Var("ABC".into(), vec![]),
            E4::V1Beta(x) => Val::Var("V1Beta".into(), vec![x.dump()]),
            E4::under_score => Val::Var("under_score".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E5 {
    V1Beta(Rc<Three>),
    D(Option<S2>),
    under_score(Rc<Args>),
}
impl Dump for E5 {
    fn dump(&self) -> Val {
        match self {
            E5::V1Beta(x) => Val::Var("V1Beta".into(), vec![x.dump()]),
            E5::D(x) => Val::Var("D".into(), vec![x.dump()]),
            E5::under_score(x) => Val::Var("under_score".into(), vec![x.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E6 {
    Alpha(#[knuffel(node_name)] Even, #[knuffel(span)] SP, #[knuffel(flatten(child, property))] PartT, #[knuffel(property(name="kind"))] Option<Box<i16>>),
    TwoWordsMore(S5),
    XMLDoc,
    GammaRay(Option<Rc<S7>>),
    under_score(#[knuffel(node_name)] String, #[knuffel(property(name="list"), default=7)] usize, #[knuffel(flatten(property))] RP4, #[knuffel(children, unwrap(argument, bytes))] VecDeque<Short>),
}
impl Dump for E6 {
    fn dump(&self) -> Val {
        match self {
            E6::Alpha(x0, x1, x2, x3) => Val::Var("Alpha".into(), vec![x0.dump(), x1.dump(), x2.dump(), x3.dump()]),
            E6::TwoWordsMore(x) => Val::Var("TwoWordsMore".into(), vec![x.dump()]),
            E6::XMLDoc => Val::Var("XMLDoc".into(), vec![]),
            E6::GammaRay(x) => Val::Var("GammaRay".into(), vec![x.dump()]),
            E6::under_score(x0, x1, x2, x3) => Val::Var("under_score".into(), vec![x0.dump(), x1.dump(), x2.dump(), x3.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum E7 {
    V1Beta,
    r#move(#[knuffel(children)] Vec<Box<S4>>),
}
impl Dump for E7 {
    fn dump(&self) -> Val {
        match self {
            E7::V1Beta => Val::Var("V1Beta".into(), vec![]),
            E7::r#move(x0) => Val::Var("r#move".into(), vec![x0.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E8 {
    D(#[knuffel(children(name="camelCase"))] Vec<Box<S6>>, #[knuffel(span)] SP, #[knuffel(span)] Span, #[knuffel(property(name="a\"b"), str)] char),
    #[knuffel(skip)]
    Alpha,
    GammaRay(#[knuffel(property(name="-"))] Option<u8>),
    r#move,
}
impl Dump for E8 {
    fn dump(&self) -> Val {
        match self {
            E8::D(x0, x1, x2, x3) => Val::Var("D".into(), vec![x0.dump(), x1.dump(), x2.dump(), x3.dump()]),
            E8::Alpha => Val::Var("Alpha".into(), vec![]),
            E8::GammaRay(x0) => Val::Var("GammaRay".into(), vec![x0.dump()]),
            E8::r#move => Val::Var("r#move".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E9 {
    Beta2(Option<Arc<E4>>),
    r#move(#[knuffel(span)] SP, u32, #[knuffel(flatten(child))] PartT),
}
impl Dump for E9 {
    fn dump(&self) -> Val {
        match self {
            E9::Beta2(x) => Val::Var("Beta2".into(), vec![x.dump()]),
            E9::r#move(x0, x1, x2) => Val::Var("r#move".into(), vec![x0.dump(), x1.dump(), x2.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum E10 {
    XMLDoc(#[knuffel(arguments)] LinkedList<Color>),
    #[knuffel(skip)]
    under_score,
    D,
}
impl Dump for E10 {
    fn dump(&self) -> Val {
        match self {
            E10::XMLDoc(x0) => Val::Var("XMLDoc".into(), vec![Val::List(x0.iter().map(|x| x.dump()).collect())]),
            E10::under_score => Val::Var("under_score".into(), vec![]),
            E10::D => Val::Var("D".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E11 {
    Beta2(#[knuffel(span)] Span, #[knuffel(span)] Span, #[knuffel(property(name="beta"))] u32, #[knuffel(children(name="a"), default)] Vec<S6>),
}
impl Dump for E11 {
    fn dump(&self) -> Val {
        match self {
            E11::Beta2(x0, x1, x2, x3) => Val::Var("Beta2".into(), vec![x0.dump(), x1.dump(), x2.dump(), x3.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub enum E12 {
    D(#[knuffel(span)] SP),
    ABC,
    Alpha(Box<Num>),
}
impl Dump for E12 {
    fn dump(&self) -> Val {
        match self {
            E12::D(x0) => Val::Var("D".into(), vec![x0.dump()]),
            E12::ABC => Val::Var("ABC".into(), vec![]),
            E12::Alpha(x) => Val::Var("Alpha".into(), vec![x.dump()]),
        }
    }
}
#[derive(knuffel::Decode)]
pub enum E13 {
    under_score,
    XMLDoc(Three),
    Alpha(Option<Rc<L8>>),
    D,
    r#move(Box<L9>),
    Beta2,
}
impl Dump for E13 {
    fn dump(&self) -> Val {
        match self {
            E13::under_score => Val::Var("under_score".into(), vec![]),
            E13::XMLDoc(x) => Val::Var("XMLDoc".into(), vec![x.dump()]),
            E13::Alpha(x) => Val::Var("Alpha".into(), vec![x.dump()]),
            E13::D => Val::Var("D".into(), vec![]),
            E13::r#move(x) => Val::Var("r#move".into(), vec![x.dump()]),
            E13::Beta2 => Val::Var("Beta2".into(), vec![]),
        }
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct D0 {
    #[knuffel(child, unwrap(argument))] v: Box<Spanned<i32, SP>>,
    iter_args: String,
    y: String,
    #[knuffel(children, unwrap(argument))] id: LinkedList<Rc<i8>>,
}
impl Dump for D0 {
    fn dump(&self) -> Val {
        Val::Rec("D0".into(), vec![("v".into(), (&self.v).dump()), ("iter_args".into(), (&self.iter_args).dump()), ("y".into(), (&self.y).dump()), ("id".into(), (&self.id).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct D1 {
    #[knuffel(child)] host_gamma: bool,
    #[knuffel(child)] r#match: L6,
    #[knuffel(children(name=""), unwrap(argument))] list_min: VecDeque<bool>,
}
impl Dump for D1 {
    fn dump(&self) -> Val {
        Val::Rec("D1".into(), vec![("host_gamma".into(), (&self.host_gamma).dump()), ("match".into(), (&self.r#match).dump()), ("list_min".into(), (&self.list_min).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct D2 {
    #[knuffel(child)] alpha: S5,
    #[knuffel(child, unwrap(properties))] size_list: BTreeMap<String, bool>,
    #[knuffel(children(name="back\\slash"), unwrap(argument), default)] x: VecDeque<Color>,
    #[knuffel(child, unwrap(argument))] alpha_path: Option<Spanned<u32, Span>>,
    #[knuffel(children(name="item"))] v2_size: Vec<Arc<S5>>,
}
impl Dump for D2 {
    fn dump(&self) -> Val {
        Val::Rec("D2".into(), vec![("alpha".into(), (&self.alpha).dump()), ("size_list".into(), (&self.size_list).dump()), ("x".into(), (&self.x).dump()), ("alpha_path".into(), (&self.alpha_path).dump()), ("v2_size".into(), (&self.v2_size).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct D3 {
    #[knuffel(children)] key: Vec<L8>,
}
impl Dump for D3 {
    fn dump(&self) -> Val {
        Val::Rec("D3".into(), vec![("key".into(), (&self.key).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct D4 {
    #[knuffel(children(name="snake_case"))] key_item: Vec<S6>,
    #[knuffel(child)] row_min: Option<L0>,
}
impl Dump for D4 {
    fn dump(&self) -> Val {
        Val::Rec("D4".into(), vec![("key_item".into(), (&self.key_item).dump()), ("row_min".into(), (&self.row_min).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct D5 {
    #[knuffel(child)] key_end: S1,
    #[knuffel(child)] children: bool,
}
impl Dump for D5 {
    fn dump(&self) -> Val {
        Val::Rec("D5".into(), vec![("key_end".into(), (&self.key_end).dump()), ("children".into(), (&self.children).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct D6 {
    data_host: u32,
    #[knuffel(children, unwrap(argument, str))] id: Vec<u16>,
}
impl Dump for D6 {
    fn dump(&self) -> Val {
        Val::Rec("D6".into(), vec![("data_host".into(), (&self.data_host).dump()), ("id".into(), (&self.id).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct D7 {
    beta_log: String,
    #[knuffel(child)] max: L0,
    #[knuffel(child)] flag_y: bool,
    #[knuffel(children(name="log"), default)] col: Vec<S5>,
    #[knuffel(children(name="port"), unwrap(argument), default)] id: Vec<Spanned<PathBuf, SP>>,
    #[knuffel(child, unwrap(argument, str))] item_path: Even,
    list_key: Option<u8>,
    row_a: Vec<u16>,
}
impl Dump for D7 {
    fn dump(&self) -> Val {
        Val::Rec("D7".into(), vec![("beta_log".into(), (&self.beta_log).dump()), ("max".into(), (&self.max).dump()), ("flag_y".into(), (&self.flag_y).dump()), ("col".into(), (&self.col).dump()), ("id".into(), (&self.id).dump()), ("item_path".into(), (&self.item_path).dump()), ("list_key".into(), (&self.list_key).dump()), ("row_a".into(), (&self.row_a).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct D8 {
    #[knuffel(children(name="Null"), unwrap(properties))] result: Option<Vec<BTreeMap<String, String>>>,
    none: Vec<u16>,
    #[knuffel(child)] flag: Arc<L5>,
    #[knuffel(child)] b: bool,
}
impl Dump for D8 {
    fn dump(&self) -> Val {
        Val::Rec("D8".into(), vec![("result".into(), (&self.result).dump()), ("none".into(), (&self.none).dump()), ("flag".into(), (&self.flag).dump()), ("b".into(), (&self.b).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct D9 {
    #[knuffel(children(name="UPPER"))] v2_port: Vec<L13>,
    #[knuffel(child)] key: bool,
    #[knuffel(child)] row_gamma: Kind,
    #[knuffel(child, unwrap(children(name="host")))] size: Vec<L2>,
    #[knuffel(children)] name_str: Vec<OptAll>,
}
impl Dump for D9 {
    fn dump(&self) -> Val {
        Val::Rec("D9".into(), vec![("v2_port".into(), (&self.v2_port).dump()), ("key".into(), (&self.key).dump()), ("row_gamma".into(), (&self.row_gamma).dump()), ("size".into(), (&self.size).dump()), ("name_str".into(), (&self.name_str).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct W0 {
    #[knuffel(property)] none: Arc<f64>,
    #[knuffel(children, unwrap(children))] y_data: VecDeque<Vec<L7>>,
    #[knuffel(property, str, default='c')] max_delta: char,
    #[knuffel(argument, bytes)] log_data: Option<Short>,
    #[knuffel(property)] result: Arc<bool>,
    #[knuffel(arguments)] end_v2: LinkedList<Spanned<usize, SP>>,
}
impl Dump for W0 {
    fn dump(&self) -> Val {
        Val::Rec("W0".into(), vec![("none".into(), (&self.none).dump()), ("y_data".into(), (&self.y_data).dump()), ("max_delta".into(), (&self.max_delta).dump()), ("log_data".into(), (&self.log_data).dump()), ("result".into(), (&self.result).dump()), ("end_v2".into(), Val::List((&self.end_v2).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct W0Plain {
    #[knuffel(property)] none: f64,
    #[knuffel(children, unwrap(children))] y_data: VecDeque<Vec<L7>>,
    #[knuffel(property, str, default='c')] max_delta: char,
    #[knuffel(argument, bytes)] log_data: Option<Short>,
    #[knuffel(property)] result: bool,
    #[knuffel(arguments)] end_v2: LinkedList<usize>,
}
impl Dump for W0Plain {
    fn dump(&self) -> Val {
        Val::Rec("W0Plain".into(), vec![("none".into(), (&self.none).dump()), ("y_data".into(), (&self.y_data).dump()), ("max_delta".into(), (&self.max_delta).dump()), ("log_data".into(), (&self.log_data).dump()), ("result".into(), (&self.result).dump()), ("end_v2".into(), Val::List((&self.end_v2).iter().map(|x| x.dump()).collect()))])
    }
}
#[derive(knuffel::Decode)]
pub struct W1 {
    #[knuffel(child, unwrap(argument))] error: Option<Arc<Arc<PathBuf>>>,
    #[knuffel(properties)] id_delta: BTreeMap<char, Option<Rc<String>>>,
    #[knuffel(child, unwrap(properties))] e: Option<BTreeMap<String, Rc<bool>>>,
}
impl Dump for W1 {
    fn dump(&self) -> Val {
        Val::Rec("W1".into(), vec![("error".into(), (&self.error).dump()), ("id_delta".into(), (&self.id_delta).dump()), ("e".into(), (&self.e).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W1Plain {
    #[knuffel(child, unwrap(argument))] error: Option<PathBuf>,
    #[knuffel(properties)] id_delta: BTreeMap<char, Option<String>>,
    #[knuffel(child, unwrap(properties))] e: Option<BTreeMap<String, bool>>,
}
impl Dump for W1Plain {
    fn dump(&self) -> Val {
        Val::Rec("W1Plain".into(), vec![("error".into(), (&self.error).dump()), ("id_delta".into(), (&self.id_delta).dump()), ("e".into(), (&self.e).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W2 {
    #[knuffel(argument)] port_user: Box<String>,
    #[knuffel(children, unwrap(argument))] port: Vec<Arc<f64>>,
    #[knuffel(property(name="\u{fc}ber"), default)] col: bool,
}
impl Dump for W2 {
    fn dump(&self) -> Val {
        Val::Rec("W2".into(), vec![("port_user".into(), (&self.port_user).dump()), ("port".into(), (&self.port).dump()), ("col".into(), (&self.col).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W2Plain {
    #[knuffel(argument)] port_user: String,
    #[knuffel(children, unwrap(argument))] port: Vec<f64>,
    #[knuffel(property(name="\u{fc}ber"), default)] col: bool,
}
impl Dump for W2Plain {
    fn dump(&self) -> Val {
        Val::Rec("W2Plain".into(), vec![("port_user".into(), (&self.port_user).dump()), ("port".into(), (&self.port).dump()), ("col".into(), (&self.col).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W3 {
    #[knuffel(arguments)] args: BTreeSet<i16>,
    #[knuffel(child, unwrap(children(name="path")))] item: Option<Vec<Three>>,
    #[knuffel(properties)] size_beta: BTreeMap<String, Rc<Arc<Color>>>,
}
impl Dump for W3 {
    fn dump(&self) -> Val {
        Val::Rec("W3".into(), vec![("args".into(), Val::List((&self.args).iter().map(|x| x.dump()).collect())), ("item".into(), (&self.item).dump()), ("size_beta".into(), (&self.size_beta).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W3Plain {
    #[knuffel(arguments)] args: BTreeSet<i16>,
    #[knuffel(child, unwrap(children(name="path")))] item: Option<Vec<Three>>,
    #[knuffel(properties)] size_beta: BTreeMap<String, Color>,
}
impl Dump for W3Plain {
    fn dump(&self) -> Val {
        Val::Rec("W3Plain".into(), vec![("args".into(), Val::List((&self.args).iter().map(|x| x.dump()).collect())), ("item".into(), (&self.item).dump()), ("size_beta".into(), (&self.size_beta).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W4 {
    #[knuffel(properties)] tag: Vec<(Even, Rc<i16>)>,
    #[knuffel(child, unwrap(children(name="id")))] size: Vec<Unit>,
    #[knuffel(argument)] port_a: Rc<i8>,
}
impl Dump for W4 {
    fn dump(&self) -> Val {
        Val::Rec("W4".into(), vec![("tag".into(), pairs((&self.tag))), ("size".into(), (&self.size).dump()), ("port_a".into(), (&self.port_a).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W4Plain {
    #[knuffel(properties)] tag: Vec<(Even, i16)>,
    #[knuffel(child, unwrap(children(name="id")))] size: Vec<Unit>,
    #[knuffel(argument)] port_a: i8,
}
impl Dump for W4Plain {
    fn dump(&self) -> Val {
        Val::Rec("W4Plain".into(), vec![("tag".into(), pairs((&self.tag))), ("size".into(), (&self.size).dump()), ("port_a".into(), (&self.port_a).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W5 {
    #[knuffel(property)] r#type: Arc<Box<isize>>,
    #[knuffel(argument)] tn: Box<Color>,
    #[knuffel(child)] a: Option<L4>,
    #[knuffel(children(name="gamma"), unwrap(argument, str))] gamma_key: VecDeque<char>,
}
impl Dump for W5 {
    fn dump(&self) -> Val {
        Val::Rec("W5".into(), vec![("type".into(), (&self.r#type).dump()), ("tn".into(), (&self.tn).dump()), ("a".into(), (&self.a).dump()), ("gamma_key".into(), (&self.gamma_key).dump())])
    }
}
#[derive(knuffel::Decode)]
pub struct W5Plain {
    #[knuffel(property)] r#type: isize,
    #[knuffel(argument)] tn: Color,
    #[knuffel(child)] a: Option<L4>,
    #[knuffel(children(name="gamma"), unwrap(argument, str))] gamma_key: VecDeque<char>,
}
impl Dump for W5Plain {
    fn dump(&self) -> Val {
        Val::Rec("W5Plain".into(), vec![("type".into(), (&self.r#type).dump()), ("tn".into(), (&self.tn).dump()), ("a".into(), (&self.a).dump()), ("gamma_key".into(), (&self.gamma_key).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct W6 {
    #[knuffel(argument)] node_name: Arc<usize>,
    #[knuffel(properties)] value: Vec<(String, Spanned<bool, SP>)>,
    #[knuffel(children)] min_size: VecDeque<L13>,
}
impl Dump for W6 {
    fn dump(&self) -> Val {
        Val::Rec("W6".into(), vec![("node_name".into(), (&self.node_name).dump()), ("value".into(), pairs((&self.value))), ("min_size".into(), (&self.min_size).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct W6Plain {
    #[knuffel(argument)] node_name: usize,
    #[knuffel(properties)] value: Vec<(String, bool)>,
    #[knuffel(children)] min_size: VecDeque<L13>,
}
impl Dump for W6Plain {
    fn dump(&self) -> Val {
        Val::Rec("W6Plain".into(), vec![("node_name".into(), (&self.node_name).dump()), ("value".into(), pairs((&self.value))), ("min_size".into(), (&self.min_size).dump())])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct W7 {
    #[knuffel(argument)] a_id: Option<Spanned<f32, Span>>,
    #[knuffel(child)] x_max: Unit,
    #[knuffel(property)] size: Option<Arc<Rc<i8>>>,
    #[knuffel(children(name="camelCase"))] arg: Vec<L1>,
    #[knuffel(child, unwrap(argument))] r#type: Option<Spanned<Only, Span>>,
    #[knuffel(child, unwrap(argument, str))] item: Option<std::net::SocketAddr>,
    #[knuffel(properties, str)] list: Vec<(Even, Even)>,
}
impl Dump for W7 {
    fn dump(&self) -> Val {
        Val::Rec("W7".into(), vec![("a_id".into(), (&self.a_id).dump()), ("x_max".into(), (&self.x_max).dump()), ("size".into(), (&self.size).dump()), ("arg".into(), (&self.arg).dump()), ("type".into(), (&self.r#type).dump()), ("item".into(), (&self.item).dump()), ("list".into(), pairs((&self.list)))])
    }
}
#[derive(knuffel::Decode)]
#[knuffel(span_type=SP)]
pub struct W7Plain {
    #[knuffel(argument)] a_id: Option<f32>,
    #[knuffel(child)] x_max: Unit,
    #[knuffel(property)] size: Option<i8>,
    #[knuffel(children(name="camelCase"))] arg: Vec<L1>,
    #[knuffel(child, unwrap(argument))] r#type: Option<Only>,
    #[knuffel(child, unwrap(argument, str))] item: Option<std::net::SocketAddr>,
    #[knuffel(properties, str)] list: Vec<(Even, Even)>,
}
impl Dump for W7Plain {
    fn dump(&self) -> Val {
        Val::Rec("W7Plain".into(), vec![("a_id".into(), (&self.a_id).dump()), ("x_max".into(), (&self.x_max).dump()), ("size".into(), (&self.size).dump()), ("arg".into(), (&self.arg).dump()), ("type".into(), (&self.r#type).dump()), ("item".into(), (&self.item).dump()), ("list".into(), pairs((&self.list)))])
    }
}
pub fn entries() -> Vec<Entry<SP>> {
    vec![
        Entry { name: "Unit", tags: &[],
            list: |t, f| knuffel::parse_with_context::<Vec<Unit>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Unit, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<Unit, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<Unit>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "Arg1", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<Arg1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Arg1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Num", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<Num>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Num, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Args", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<Args>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Args, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Props", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<Props>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Props, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "OptAll", tags: &["C11", "C12", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<OptAll>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<OptAll, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Name", tags: &["C11", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<Name>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Name, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Where", tags: &["C11", "C16", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<Where>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Where, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Kind", tags: &["C11", "C12", "C14", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<Kind>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Kind, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Three", tags: &["C11", "C14", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<Three>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Three, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Many4", tags: &["C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<Many4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Many4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Many8", tags: &["C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<Many8>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Many8, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Many13", tags: &["C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<Many13>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Many13, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Many40", tags: &["C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<Many40>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Many40, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Words", tags: &["C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<Words>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Words, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "WordFlags", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<WordFlags>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WordFlags, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<WordFlags, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<WordFlags>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "WordProps", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<WordProps>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WordProps, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Pos", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<Pos>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Pos, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PosDef", tags: &["C11", "C14", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<PosDef>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PosDef, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "AllInts", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<AllInts>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<AllInts, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "OptMid", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<OptMid>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<OptMid, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "ArgsSet", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<ArgsSet>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<ArgsSet, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PropReq", tags: &["C11", "C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<PropReq>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PropReq, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PropDef", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<PropDef>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PropDef, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PropRest", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<PropRest>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PropRest, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PropKeys", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<PropKeys>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PropKeys, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "Strs", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<Strs>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Strs, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "StrMap", tags: &["C11", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<StrMap>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<StrMap, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "BytesA", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<BytesA>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<BytesA, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "BytesMap", tags: &["C11", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<BytesMap>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<BytesMap, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "BytesOne", tags: &["C11", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<BytesOne>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<BytesOne, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "BytesOpt", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<BytesOpt>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<BytesOpt, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "StrUn", tags: &["C12", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<StrUn>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<StrUn, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<StrUn, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<StrUn>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "Kids", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<Kids>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Kids, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<Kids, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<Kids>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "KidsStrict", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<KidsStrict>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<KidsStrict, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<KidsStrict, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<KidsStrict>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "Unwraps", tags: &["C12", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<Unwraps>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Unwraps, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<Unwraps, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<Unwraps>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "RestUn", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<RestUn>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RestUn, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<RestUn, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<RestUn>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "Tree", tags: &["C11", "C12", "C16", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<Tree>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Tree, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "TreeE", tags: &["C11", "C14", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<TreeE>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<TreeE, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "TreeB", tags: &["C11", "C12", "C22o", "inner"],
            list: |t, f| knuffel::parse_with_context::<Vec<TreeB>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<TreeB, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "TreeE2", tags: &["C12", "C22", "inner"],
            list: |t, f| knuffel::parse_with_context::<Vec<TreeE2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<TreeE2, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<TreeE2, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<TreeE2>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "TupKids", tags: &["C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<TupKids>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<TupKids, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartP", tags: &["C11", "C15", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartP>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartP, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartC", tags: &["C12", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartC>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartC, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<PartC, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<PartC>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "PartM", tags: &["C11", "C12", "C22", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartM>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartM, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartN", tags: &["C11", "C12", "C13", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartN>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartN, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartT", tags: &["C11", "C14", "C15", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartT>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartT, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartNC", tags: &["C12", "C13", "C22", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartNC>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartNC, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<PartNC, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<PartNC>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "FlatP", tags: &["C11", "C13", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatP>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatP, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FlatC", tags: &["C12", "C13"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatC>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatC, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<FlatC, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<FlatC>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "FlatBoth", tags: &["C13", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatBoth>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatBoth, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FlatDeep", tags: &["C11", "C12", "C13"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatDeep>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatDeep, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FlatHalf", tags: &["C12", "C13"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatHalf>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatHalf, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FlatHalfC", tags: &["C11", "C13", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatHalfC>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatHalfC, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FlatDoc", tags: &["C12", "C13", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatDoc>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatDoc, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<FlatDoc, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<FlatDoc>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "FlatTup", tags: &["C13", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatTup>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatTup, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FlatRest", tags: &["C12", "C13"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatRest>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatRest, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<FlatRest, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<FlatRest>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "FlatEnum", tags: &["C13", "C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<FlatEnum>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FlatEnum, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "OwnFirst", tags: &["C11", "C12", "C13", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<OwnFirst>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<OwnFirst, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartFirst", tags: &["C11", "C12", "C13", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartFirst>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartFirst, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "PartTwice", tags: &["C12", "C13", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<PartTwice>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<PartTwice, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FieldProps", tags: &["C11", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<FieldProps>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FieldProps, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "FieldFlags", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<FieldFlags>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FieldFlags, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<FieldFlags, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<FieldFlags>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "FieldKids", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<FieldKids>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<FieldKids, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<FieldKids, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<FieldKids>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "Names", tags: &["C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<Names>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Names, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NamesOpt", tags: &["C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<NamesOpt>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NamesOpt, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "SpanDeep", tags: &["C11", "C14", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<SpanDeep>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<SpanDeep, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "SpanDeepIn", tags: &["C11", "C12", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<SpanDeepIn>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<SpanDeepIn, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "New", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<New>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<New, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewOpt", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewOpt>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewOpt, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewBox", tags: &["C12", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewBox>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewBox, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewOptBox", tags: &["C12", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewOptBox>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewOptBox, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewNew", tags: &["C12", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewNew>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewNew, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewSp", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewSp>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewSp, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewSpOpt", tags: &["C12", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewSpOpt>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewSpOpt, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "NewSpKids", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<NewSpKids>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<NewSpKids, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<NewSpKids, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<NewSpKids>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "ListDef", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<ListDef>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<ListDef, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<ListDef, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<ListDef>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "KidsDef", tags: &["C12", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<KidsDef>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<KidsDef, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<KidsDef, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<KidsDef>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "Hygiene", tags: &["C11", "C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<Hygiene>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<Hygiene, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "WrapS", tags: &["C11", "C14", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapS>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapS, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "WrapSPlain", tags: &["C11", "C14", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapSPlain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapSPlain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "WrapC", tags: &["C12", "C22", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapC>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapC, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<WrapC, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<WrapC>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "WrapCPlain", tags: &["C12", "C22", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapCPlain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapCPlain, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<WrapCPlain, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<WrapCPlain>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "WrapP", tags: &["C11", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapP>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapP, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "WrapPPlain", tags: &["C11", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapPPlain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapPPlain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "WrapU", tags: &["C12", "C14", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapU>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapU, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<WrapU, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<WrapU>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "WrapUPlain", tags: &["C12", "C14", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapUPlain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapUPlain, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<WrapUPlain, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<WrapUPlain>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "WrapOpt", tags: &["C11", "C14", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<WrapOpt>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<WrapOpt, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L0", tags: &["C11", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L0, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L1", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<L1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L2", tags: &["C11", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<L2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L2, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L3", tags: &["C11", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L3, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L4", tags: &["C11", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L5", tags: &["C11", "C15", "C16", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L5, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L6", tags: &["C11", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L6>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L6, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L7", tags: &["C11", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L7>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L7, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L8", tags: &["C11"],
            list: |t, f| knuffel::parse_with_context::<Vec<L8>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L8, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L9", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L9>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L9, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L10", tags: &["C11", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L10>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L10, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L11", tags: &["C11", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L11>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L11, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L12", tags: &["C11", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L12>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L12, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "L13", tags: &["C11", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<L13>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<L13, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "RP0", tags: &["C12", "C15", "C22", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<RP0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RP0, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<RP0, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<RP0>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "RP1", tags: &["C11", "C12", "C15", "C22", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<RP1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RP1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "RP2", tags: &["C11", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<RP2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RP2, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "RP3", tags: &["C12", "C13", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<RP3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RP3, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "RP4", tags: &["C11", "C12", "C13", "C14", "C15", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<RP4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RP4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "RP5", tags: &["C11", "C13", "C15", "C22", "C22o", "part"],
            list: |t, f| knuffel::parse_with_context::<Vec<RP5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<RP5, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S0", tags: &["C11", "C12", "C13", "C15", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S0, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S1", tags: &["C11", "C12", "C13", "C14", "C15", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S2", tags: &["C11", "C12", "C13", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S2, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S3", tags: &["C13", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S3, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S4", tags: &["C11", "C12", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S5", tags: &["C11", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S5, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S6", tags: &["C11", "C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S6>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S6, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S7", tags: &["C11", "C12", "C13", "C14", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S7>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S7, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S8", tags: &["C11", "C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<S8>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S8, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S9", tags: &["C11", "C12", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S9>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S9, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S10", tags: &["C12", "C13", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S10>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S10, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S11", tags: &["C11", "C12", "C13", "C15", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S11>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S11, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S12", tags: &["C11", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S12>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S12, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S13", tags: &["C11", "C12", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S13>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S13, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S14", tags: &["C11", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S14>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S14, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S15", tags: &["C11", "C12", "C13", "C15", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<S15>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S15, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S16", tags: &["C12", "C13", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<S16>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S16, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S17", tags: &["C12", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S17>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S17, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S18", tags: &["C11", "C12", "C13", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<S18>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S18, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S19", tags: &["C12", "C13", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<S19>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S19, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S20", tags: &["C12", "C15", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<S20>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S20, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<S20, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<S20>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "S21", tags: &["C11", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<S21>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S21, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S22", tags: &["C11", "C12", "C13", "C16", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S22>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S22, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S23", tags: &["C11", "C12", "C14", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S23>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S23, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S24", tags: &["C11", "C12", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S24>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S24, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S25", tags: &["C12", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S25>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S25, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S26", tags: &["C12", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S26>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S26, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S27", tags: &["C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S27>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S27, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S28", tags: &["C11", "C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S28>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S28, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S29", tags: &["C11", "C12", "C14", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S29>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S29, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S30", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S30>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S30, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S31", tags: &["C11", "C14", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<S31>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S31, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S32", tags: &["C11", "C12", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S32>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S32, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "S33", tags: &["C12", "C14", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<S33>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<S33, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T0", tags: &["C11", "C14", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<T0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T0, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T1", tags: &["C11", "C13", "C15", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<T1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T2", tags: &["C11", "C13", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<T2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T2, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T3", tags: &["C11", "C15", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<T3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T3, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T4", tags: &["C11", "C12", "C14", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<T4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T5", tags: &["C13", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<T5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T5, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T6", tags: &["C11", "C12", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<T6>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T6, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T7", tags: &["C13", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<T7>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T7, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T8", tags: &["C12", "C13", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<T8>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T8, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T9", tags: &["C11", "C15", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<T9>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T9, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T10", tags: &["C11", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<T10>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T10, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "T11", tags: &["C11", "C12", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<T11>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<T11, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E0", tags: &["C11", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<E0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E0, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E1", tags: &["C11", "C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<E1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E2", tags: &["C11", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<E2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E2, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E3", tags: &["C11", "C12", "C14", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<E3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E3, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E4", tags: &["C14", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<E4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E5", tags: &["C14", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<E5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E5, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E6", tags: &["C11", "C12", "C13", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<E6>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E6, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E7", tags: &["C12", "C14", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<E7>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E7, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E8", tags: &["C11", "C12", "C14", "C15", "C16", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<E8>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E8, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E9", tags: &["C13", "C14", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<E9>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E9, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E10", tags: &["C11", "C14"],
            list: |t, f| knuffel::parse_with_context::<Vec<E10>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E10, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E11", tags: &["C11", "C12", "C14", "C16"],
            list: |t, f| knuffel::parse_with_context::<Vec<E11>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E11, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E12", tags: &["C14", "C16", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<E12>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E12, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "E13", tags: &["C14", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<E13>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<E13, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "D0", tags: &["C12", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<D0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D0, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D0, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<D0>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D1", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<D1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D1, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D1, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<D1>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D2", tags: &["C12", "C14", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<D2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D2, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D2, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<D2>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D3", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<D3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D3, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D3, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<D3>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D4", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<D4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D4, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D4, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<D4>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D5", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<D5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D5, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D5, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<D5>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D6", tags: &["C12", "C15"],
            list: |t, f| knuffel::parse_with_context::<Vec<D6>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D6, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D6, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<D6>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D7", tags: &["C12", "C15", "C22", "C22o"],
            list: |t, f| knuffel::parse_with_context::<Vec<D7>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D7, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D7, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Arc<D7>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D8", tags: &["C12", "C22"],
            list: |t, f| knuffel::parse_with_context::<Vec<D8>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D8, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D8, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Rc<D8>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "D9", tags: &["C12"],
            list: |t, f| knuffel::parse_with_context::<Vec<D9>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<D9, SP>(n).map(|v| v.dump()),
            doc: Some(|t, f| knuffel::parse_with_context::<D9, SP, _>(f, t, |_| {}).map(|v| v.dump())),
            doc_box: Some(|t, f| knuffel::parse_with_context::<Box<D9>, SP, _>(f, t, |_| {}).map(|v| v.dump())) },
        Entry { name: "W0", tags: &["C11", "C12", "C15", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W0>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W0, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W0Plain", tags: &["C11", "C12", "C15", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W0Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W0Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W1", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W1>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W1, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W1Plain", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W1Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W1Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W2", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W2>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W2, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W2Plain", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W2Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W2Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W3", tags: &["C11", "C12", "C14", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W3>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W3, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W3Plain", tags: &["C11", "C12", "C14", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W3Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W3Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W4", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W4>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W4, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W4Plain", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W4Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W4Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W5", tags: &["C11", "C12", "C14", "C15", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W5>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W5, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W5Plain", tags: &["C11", "C12", "C14", "C15", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W5Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W5Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W6", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W6>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W6, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W6Plain", tags: &["C11", "C12", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W6Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W6Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W7", tags: &["C11", "C12", "C14", "C15", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W7>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W7, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
        Entry { name: "W7Plain", tags: &["C11", "C12", "C14", "C15", "C22", "C22o", "twin"],
            list: |t, f| knuffel::parse_with_context::<Vec<W7Plain>, SP, _>(f, t, |_| {}).map(|v| v.dump()),
            node: |n| knuffel::decode::node::<W7Plain, SP>(n).map(|v| v.dump()),
            doc: None,
            doc_box: None },
    ]
}
