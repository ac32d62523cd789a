"""C26: which declarations the derive macros accept.

Runs the real macros (in rustc) on random declarations and watches the diagnostics: a declaration
that follows the documentation has to expand and to type-check, one that contradicts itself has to
be rejected with an error at that declaration and without a panic of the macro.
"""
import json
import os
import random
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(ROOT, "target", "declmon")

PRELUDE = """#![allow(dead_code, unused_imports, non_camel_case_types, unreachable_patterns, non_snake_case, unused_variables, deprecated)]
pub mod base {
use knuffel::{Decode, DecodeScalar};
#[derive(Decode, Debug, Default, Clone)] pub struct In { #[knuffel(argument)] a: u8 }
#[derive(Decode, Debug, Default, Clone)] pub struct Unit;
// names that look like the ones the macros know
#[derive(Decode, Debug, Default, Clone)] pub struct Bool { #[knuffel(argument)] a: u8 }
#[derive(Decode, Debug, Default, Clone)] pub struct BOOL;
#[derive(Decode, Debug, Default, Clone)] pub struct OptionIn { #[knuffel(property)] a: Option<u8> }
pub mod odd { pub type Maybe<T> = std::option::Option<T>; pub use super::{In as Option, Unit as bool, Part as Vec}; }
#[derive(Decode, Debug, Clone)] pub enum Act { Start, StopNow(In), Go(#[knuffel(argument)] u8) }
#[derive(DecodeScalar, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum Color { Red, DarkBlue }
#[derive(Decode, Debug, Default, Clone)] pub struct Part { #[knuffel(child)] pa: Option<In>, #[knuffel(property)] pp: Option<u8>, #[knuffel(child)] pb: bool }
#[derive(Decode, Debug, Default, Clone)] pub struct Props { #[knuffel(property, str)] q: Option<u16>, #[knuffel(property(name="qq"))] r: Option<String> }
#[derive(Decode, Debug)] #[knuffel(span_type=knuffel::span::Span)] pub struct SpIn { #[knuffel(span)] a: knuffel::span::Span }
pub fn node<T: knuffel::Decode<knuffel::span::Span>>() {}
pub fn any_span<S: knuffel::traits::ErrorSpan, T: knuffel::Decode<S>>() {}
pub fn scalar<T: knuffel::DecodeScalar<knuffel::span::Span>>() {}
pub fn document<T: knuffel::DecodeChildren<knuffel::span::Span>>() {}
pub fn partial<T: knuffel::traits::DecodePartial<knuffel::span::Span>>() {}
}
"""
USES = ("use knuffel::{Decode, DecodeScalar, span::{Span, LineSpan, Spanned}}; use crate::base::*; "
        "use std::{sync::Arc, rc::Rc, path::PathBuf, net::{SocketAddr, IpAddr}, collections::{HashMap, BTreeMap, VecDeque, LinkedList, HashSet, BTreeSet}};")

PLAIN = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "bool", "String", "PathBuf", "Arc<str>", "Color"]
HAS_DEFAULT = {t for t in PLAIN if t not in ("Color", "Arc<str>")} | {"Vec<u8>", "Box<[u8]>"}
VALUES = {"u8": "7", "i64": "-5", "f64": "1.5", "bool": "true", "String": '"x, y".into()', "PathBuf": 'PathBuf::from("/a")', "Color": "Color::Red",
          "u16": "1 + 2", "SocketAddr": "([127, 0, 0, 1], 80).into()", "char": "'c'", "Vec<u8>": "vec![1, 2]", "Arc<str>": '"z".into()'}
NAMES = """a b c d value name_str name val node ctx child children type_name node_name e s tn typ arg iter_args converted_name r#type r#fn r#match r#if r#else r#use
 default_value span field0 seen_a unwrap_a my_long_name x1 http2_server UPPER camelCase _under double__under trailing_ knuffel option result some none ok err self_ args props
 err_span insert_child insert_property decode key item text literal span_ty trait_gen""".split()


class Gen:
    def __init__(self, rng):
        self.r = rng

    def c(self, *a):
        return self.r.choice(a)

    def p(self, x):
        return self.r.random() < x

    # -- scalars

    def scalar(self, st, mode=None, opt=True):
        """(type, mode attributes, default attribute or None, is it an Option)"""
        mode = self.c("", "", "", "str", "bytes") if mode is None else mode
        if mode == "str":
            b = self.c("u16", "SocketAddr", "IpAddr", "char", "String", "bool")
        elif mode == "bytes":
            b = self.c("Vec<u8>", "Box<[u8]>")
        else:
            b = self.r.choice(PLAIN)
        t, wrapped = b, False
        while mode == "" and self.p(0.15):
            w = self.c("Box", "Rc", "Arc") if st is None or self.p(0.6) else "Spanned"
            t, wrapped = ("Spanned<%s, %s>" % (t, st) if w == "Spanned" else "%s<%s>" % (w, t)), True
        o = opt and self.p(0.3)
        if o:
            t = "Option<%s>" % t
        d = None
        if self.p(0.3):
            if o:
                d = self.c("default", "default=None") if wrapped or b not in VALUES or self.p(0.5) else "default=Some(%s)" % VALUES[b]
            elif not wrapped and b in VALUES and self.p(0.6):
                d = "default=" + VALUES[b]
            elif not wrapped and b in HAS_DEFAULT:
                d = "default"
        return t, mode, d, o

    def attrs(self, items):
        """#[knuffel(..)] in one of the possible notations, order of items is free"""
        items = [i for i in items if i]
        self.r.shuffle(items)
        if not items:
            return ""
        if len(items) > 1 and self.p(0.15):
            s = " ".join("#[knuffel(%s)]" % i for i in items)
        else:
            s = "#[knuffel(%s%s)]" % (", ".join(items), self.c("", "", "", ","))
        if self.p(0.1):
            s = self.c("#[allow(unused)] " + s, s + " #[doc=\"x\"]", "/** doc */ " + s, "#[cfg(all())] " + s)
        return s

    def coll(self, t):
        return self.c("Vec<%s>", "Vec<%s>", "Vec<%s>", "VecDeque<%s>", "LinkedList<%s>", "Box<[%s]>") % t

    def child_type(self, st):
        t = self.c("In", "In", "Unit", "Act", "Part")
        if self.p(0.12):
            t = self.c("Bool", "BOOL", "OptionIn", "crate::base::In", "odd::Option", "odd::bool", "odd::Vec")
        if st == "Span" and self.p(0.2):
            t = "SpIn"
        while self.p(0.12):
            t = "%s<%s>" % (self.c("Box", "Rc", "Arc"), t)
        return t

    def unwrap(self, st, depth=0):
        """(type, attributes inside of unwrap)"""
        k = self.r.random()
        if k < 0.4:
            t, m, d, _ = self.scalar(st, opt=False)
            return t, ["argument", m, d if self.p(0.5) else None]
        if k < 0.5:
            t, m, _, _ = self.scalar(st, opt=False)
            return self.coll(t), ["arguments", m]
        if k < 0.6:
            t, m, _, _ = self.scalar(st, opt=False)
            return t, [self.c("property", 'property(name="x-y")'), m]
        if k < 0.68:
            t, m, _, _ = self.scalar(st, opt=False)
            return "%s<String, %s>" % (self.c("HashMap", "BTreeMap"), t), ["properties", m]
        if k < 0.76 and depth < 2:
            if self.p(0.5):
                return self.child_type(st), ["child"]
            t, a = self.unwrap(st, depth + 1)
            return t, ["child", "unwrap(%s)" % self.join(a)]
        if depth < 2 and self.p(0.4):
            t, a = self.unwrap(st, depth + 1)
            return self.coll(t), [self.c("children", 'children(name="it")'), "unwrap(%s)" % self.join(a)]
        return self.coll(self.child_type(st)), [self.c("children", 'children(name="it")')]

    def join(self, a):
        a = [i for i in a if i]
        self.r.shuffle(a)
        return ", ".join(a)

    # -- fields

    def fields(self, st, tuple_, only=None, n=None):
        """list of (attribute items, type, kind); facts about the struct"""
        r = self.r
        out, closed, counts = [], set(), {}
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]) if n is None else n
        facts = dict(document=True, partial=True)
        kinds = only or ["argument"] * 4 + ["arguments", "properties", "children"] + ["property"] * 4 + ["child"] * 6 + ["named"] * 2 + \
            ["flatten", "node_name", "type_name", "span", "extra"]
        while len(out) < n:
            k = r.choice(kinds)
            if k == "argument" and "arguments" not in closed:
                t, m, d, _ = self.scalar(st)
                out.append((["argument", m, d], t, k))
                facts["document"] = facts["partial"] = False
            elif k == "arguments" and "arguments" not in closed:
                t, m, _, _ = self.scalar(st, opt=False)
                out.append((["arguments", m], self.coll(t), k))
                closed.add("arguments")
                facts["document"] = facts["partial"] = False
            elif k == "property" and "properties" not in closed:
                t, m, d, o = self.scalar(st)
                nm = "property" if not tuple_ and self.p(0.7) else 'property(name="p-%d")' % len(out)
                out.append(([nm, m, d], t, k))
                facts["document"] = False
                facts["partial"] &= o
            elif k == "properties" and "properties" not in closed:
                t, m, _, _ = self.scalar(st, opt=False)
                out.append((["properties", m], self.c("HashMap<String, %s>", "BTreeMap<String, %s>", "Vec<(String, %s)>") % t, k))
                closed.add("properties")
                facts["document"] = facts["partial"] = False
            elif k == "child" and "children" not in closed and not tuple_:
                x = r.random()
                if x < 0.2:
                    out.append((["child"], "bool", k))
                elif x < 0.6:
                    t = self.child_type(st)
                    o = self.p(0.4)
                    plain = t in ("In", "Unit", "Part")
                    d = self.c("default", "default=" + (t if t == "Unit" else "%s::default()" % t)) if plain and not o and self.p(0.3) else \
                        self.c("default", "default=None", "default=Some(%s::default())" % t) if plain and o and self.p(0.3) else None
                    out.append((["child", d], "Option<%s>" % t if o else t, k))
                    facts["partial"] &= o
                else:
                    t, a = self.unwrap(st)
                    o = self.p(0.3)
                    out.append((["child", "unwrap(%s)" % self.join(a)], "Option<%s>" % t if o else t, k))
                    facts["partial"] &= o
            elif k == "named" and "children" not in closed:
                nm = 'children(name="n-%d")' % len(out)
                if self.p(0.3):
                    t, a = self.unwrap(st)
                    t, items = self.coll(t), [nm, "unwrap(%s)" % self.join(a)]
                else:
                    t, items = self.coll(self.child_type(st)), [nm]
                if self.p(0.2):
                    t = "Option<%s>" % t
                elif self.p(0.2) and t.startswith("Vec<"):
                    items.append(self.c("default", "default=vec![]"))
                out.append((items, t, k))
                facts["partial"] = False
            elif k == "children" and "children" not in closed:
                if self.p(0.3):
                    t, a = self.unwrap(st)
                    out.append((["children", "unwrap(%s)" % self.join(a)], self.coll(t), k))
                else:
                    out.append((["children"], self.coll(self.child_type(st)), k))
                closed.add("children")
                facts["partial"] = False
            elif k == "flatten" and not closed & {"children", "properties"}:
                t, fl = self.c(("Part", "child"), ("Part", "property"), ("Part", "child, property"), ("Part", "property, child"), ("Props", "property"))
                w = self.c("%s", "%s", "%s", "Box<%s>")
                out.append((["flatten(%s)" % fl], w % t, k))
                facts["document"] &= "property" not in fl
            elif k == "node_name" and k not in counts:
                out.append((["node_name"], self.c("String", "u16", "char", "PathBuf"), k))
                facts["document"] = facts["partial"] = False
            elif k == "type_name" and k not in counts:
                out.append((["type_name"], self.c("String", "Option<String>", "Option<u16>", "char"), k))
                facts["document"] = facts["partial"] = False
            elif k == "span" and st:
                out.append((["span"], "LineSpan" if st == "LineSpan" else "Span", k))
                facts["document"] = facts["partial"] = False
            elif k == "extra":
                out.append(([], self.c("u8", "String", "Option<Color>", "Vec<std::cell::Cell<u8>>", "std::marker::PhantomData<dyn std::any::Any>"), k))
            else:
                if only:
                    break
                continue
            counts[k] = counts.get(k, 0) + 1
        return out, facts

    def names(self, n):
        return self.r.sample(NAMES, n)

    def render(self, fields, tuple_, pub=True):
        vis = lambda: self.c("", "", "pub ", "pub(crate) ") if pub else ""
        if tuple_:
            return "(%s)" % ", ".join("%s %s%s" % (self.attrs(a), vis(), t) for a, t, _ in fields)
        return "{ %s%s }" % (", ".join("%s %s%s: %s" % (self.attrs(a), vis(), n, t) for (a, t, _), n in zip(fields, self.names(len(fields)))),
                             self.c("", ",") if fields else "")

    def head(self, st):
        return "#[derive(%s)] %s" % (self.c("Decode", "Decode", "knuffel::Decode"), "#[knuffel(span_type=%s)] " % st if st else "")

    def variant(self, st):
        x = self.r.random()
        if x < 0.25:
            return ""
        if x < 0.4:
            return "(%s)" % self.c("In", "Part", "Box<In>", "Unit", "Bool", "OptionIn", "odd::Option", "odd::bool")
        if x < 0.5:
            return "(Option<%s>)" % self.c("In", "Part", "Box<In>")
        f, _ = self.fields(st, True, n=self.r.randint(1, 5))
        if len(f) == 1 and not f[0][0]:
            f.append((["argument"], "u8", "argument"))
        return self.render(f, True, pub=False)

    def valid(self):
        """a declaration that follows the documentation: (text of items, uses that have to type-check, uses that must not)"""
        r = self.r
        st = self.c(None, None, None, "Span", "Span", "LineSpan")
        x = r.random()
        ok, bad = [], []
        if x < 0.5:
            tuple_ = self.p(0.25)
            only = self.c(None, None, None, ["child", "named", "extra", "flatten"], ["child", "property", "flatten", "extra"])
            f, facts = self.fields(st, tuple_, only)
            if tuple_ and len(f) == 1 and not f[0][0]:
                f.append((["argument"], "u8", "argument"))
                facts = dict(document=False, partial=False)
            body = self.render(f, tuple_)
            if not f and not tuple_ and self.p(0.5):
                body = ""
            text = self.head(st) + self.c("", "pub ") + "struct W%s%s" % (" " if body.startswith("{") else "", body) + (";" if tuple_ or not body else "")
            kind = "tuple struct" if tuple_ else "struct"
            for trait in ("document", "partial"):
                if st == "LineSpan":
                    continue
                (ok if facts[trait] else bad).append(trait)
        elif x < 0.6:
            inner = self.child_type(st)
            if self.p(0.3):
                inner = "Option<%s>" % inner
            if self.p(0.3):
                st = st or "Span"
                text, kind = self.head(st) + "struct W<T: Decode<%s>>(%s);" % (st, self.c("T", "Option<T>", "Box<T>")), "generic new type"
                return kind, text, ["W<%s>" % self.c("In", "Unit")], st, ok, bad
            text, kind = self.head(st) + "struct W(%s%s);" % (self.c("", "pub "), inner), "new type"
        elif x < 0.8:
            names = r.sample("Create PrintString Finish HTTPServer A1 Internal_Action r#Type Xyz VeryLongVariantName B Go Stop".split(), r.randint(0, 8))
            vs = []
            for n in names:
                if self.p(0.12):
                    vs.append("#[knuffel(skip)] %s%s" % (n, self.c("", "(u8, String)", "{ a: u8 }", "(Vec<std::cell::Cell<u8>>)")))
                else:
                    vs.append(n + self.variant(st))
            text, kind = self.head(st) + self.c("", "pub ") + "enum W { %s }" % ", ".join(vs), "enum"
        elif x < 0.9:
            names = r.sample("Red DarkBlue InfraRed X1 HTTPServer r#Type B_c Abc".split(), r.randint(0, 7))
            vals = [n + (" = %d" % (i * 3) if self.p(0.1) else "") for i, n in enumerate(names)]
            text = "#[derive(%s)] %s enum W { %s }" % (self.c("DecodeScalar", "knuffel::DecodeScalar"), self.c("", "pub", "#[derive(Debug)]"), ", ".join(vals))
            return "scalar enum", text, ["W"], "scalar", ok, bad
        else:
            st = st or "Span"
            if self.p(0.4):
                return self.generic_enum(st) + (ok, bad)
            f, _ = self.fields(st, False, n=r.randint(0, 4), only=["property", "child", "named", "extra"])
            extra, params, args = self.c(
                ("#[knuffel(argument)] tt: T", "<T: knuffel::DecodeScalar<%s>>" % st, "<u8>"),
                ("#[knuffel(child)] tt: T", "<T: Decode<%s>>" % st, "<In>"),
                ("#[knuffel(child)] tt: Option<T>", "<T> where T: Decode<%s>" % st, "<In>"),
                ("#[knuffel(children)] tt: Vec<T>, #[knuffel(argument)] uu: U", "<T, U> where T: Decode<%s>, U: knuffel::DecodeScalar<%s>" % (st, st), "<In, String>"),
                ("#[knuffel(argument)] tt: u8, uu: Vec<T>", "<T>", "<u8>"),
                ("#[knuffel(argument)] tt: u8, uu: Option<&'a T>", "<'a, T: 'a>", "<'static, u8>"),
                ("#[knuffel(arguments)] tt: Vec<T>, uu: Option<[u8; N]>", "<T: knuffel::DecodeScalar<%s>, const N: usize>" % st, "<u8, 3>"),
                ("#[knuffel(argument, str)] tt: T", "<T: std::str::FromStr> where T::Err: std::error::Error + Send + Sync + 'static", "<u16>"),
            )
            p, w = (params.split(" where ") + [""])[:2]
            body = self.render(f, False)[1:-1].strip().rstrip(",")
            text = self.head(st) + "struct W%s%s { %s%s }" % (p, " where " + w if w else "", body + ", " if body else "", extra)
            return "generic struct", text, ["W" + args], st, ok, bad
        return kind, text, ["W"], st, ok, bad

    def generic_enum(self, st):
        r = self.r
        vs, params, args = self.c(
            (["(T)"], "<T: Decode<%s>>" % st, "<In>"),
            (["(T)", "(Option<T>)", "(Box<T>)"], "<T> where T: Decode<%s>" % st, "<In>"),
            (["(#[knuffel(children)] Vec<T>)", "(#[knuffel(argument)] U, #[knuffel(property(name=\"z\"))] Option<U>)"],
             "<T, U> where T: Decode<%s>, U: knuffel::DecodeScalar<%s>" % (st, st), "<In, String>"),
            (["(#[knuffel(argument, str)] T)"], "<T> where T: std::str::FromStr, T::Err: std::error::Error + Send + Sync + 'static", "<u16>"),
            (["(#[knuffel(arguments)] Vec<T>, Option<[u8; N]>)"], "<T: knuffel::DecodeScalar<%s>, const N: usize>" % st, "<u8, 3>"),
            (["(#[knuffel(argument)] u8, Option<&'a T>)"], "<'a, T: 'a>", "<'static, u8>"),
            (["(#[knuffel(argument)] u8, Option<&'a T>)"], "<'a, T> where T: Copy + 'a", "<'static, u8>"),
        )
        vs = vs + [self.variant(st) for _ in range(r.randint(0, 4))]
        r.shuffle(vs)
        p, w = (params.split(" where ") + [""])[:2]
        names = r.sample("Create PrintString Finish HTTPServer A1 Internal_Action r#Type Xyz B Go Stop".split(), len(vs))
        text = self.head(st) + self.c("", "pub ") + "enum W%s%s { %s }" % (p, " where " + w if w else "", ", ".join(n + v for n, v in zip(names, vs)))
        return "generic enum", text, ["W" + args], st

    # -- contradictions

    def clash(self):
        """(what is wrong, declaration)"""
        r = self.r
        st = self.c(None, "Span")
        tuple_ = self.p(0.3)
        scal = lambda: self.scalar(None, mode="")[0]
        S = lambda: "Vec<u8>"
        modes = ["argument", "property", 'property(name="z")', "arguments", "properties", "children", 'children(name="z")', "node_name", "type_name"] + \
            ([] if tuple_ else ["child"]) + (["span"] if st else [])
        x = r.randrange(17)
        f, _ = self.fields(st, tuple_, n=r.randint(0, 5))
        have = lambda *ks: [i for i, q in enumerate(f) if q[2] in ks]
        put = lambda item: f.insert(r.randint(0, len(f)), item)
        drop = lambda *ks: f.__setitem__(slice(None), [q for q in f if q[2] not in ks])

        def two(a, b):
            """a somewhere before b"""
            i = r.randint(0, len(f))
            f.insert(i, a)
            f.insert(r.randint(i + 1, len(f)), b)
        if x == 0:
            a, b = r.choice(modes), r.choice(modes)
            drop("arguments", "properties", "children")
            put(([a, b], scal(), "bad"))
            what = "two modes"
        elif x == 1:
            a = self.c("argument", 'property(name="z")', "arguments", "properties")
            drop("arguments", "properties", "children")
            put(([a, *self.c(("str", "bytes"), ("str", "str"), ("bytes", "bytes"))], S(), "bad"))
            what = "two decode modes"
        elif x == 2:
            drop("arguments", "properties", "children")
            put(([self.c("argument", 'property(name="z")'), "default", self.c("default", "default=3")], "u8", "bad"))
            what = "two defaults"
        elif x == 3:
            drop("arguments", "properties", "children")
            put(([self.c('children(name="z")', "children" if tuple_ else "child"), "unwrap(argument)", self.c("unwrap(argument)", "unwrap(arguments)")], "Vec<u8>", "bad"))
            what = "two unwraps"
        elif x == 4:
            drop("argument", "arguments")
            two((["arguments"], "Vec<u8>", "x"), ([self.c("argument", "arguments")], "Vec<u8>" if self.p(0.5) else "u8", "bad"))
            what = "argument after arguments"
        elif x == 5:
            drop("property", "properties", "flatten")
            two((["properties"], "HashMap<String, u8>", "x"), self.c((["properties"], "HashMap<String, u8>", "bad"), (['property(name="z")'], "u8", "bad"),
                                                                    (["flatten(property)"], "Props", "bad")))
            what = "property after properties"
        elif x == 6:
            drop("child", "children", "named", "flatten")
            later = [(["children"], "Vec<In>", "bad"), (['children(name="z")'], "Vec<In>", "bad"), (["flatten(child)"], "Part", "bad")]
            if not tuple_:
                later += [(["child"], "In", "bad"), (["child"], "bool", "bad"), (["child", "unwrap(argument)"], "u8", "bad")]
            two((["children"], "Vec<In>", "x"), r.choice(later))
            what = "child after children"
        elif x == 7:
            drop("properties", "children")
            m = ["children", 'children(name="z")', "node_name", "type_name", "flatten(child)", "flatten(property)"] + (["span"] if st else []) + ([] if tuple_ else ["child"])
            m = r.choice(m)
            ty = {"span": "Span", "node_name": "String", "type_name": "String", "child": "In"}.get(m, "Part" if m.startswith("flatten") else "Vec<In>")
            items = [m, self.c("str", "bytes")]
            if m in ("child", "children", 'children(name="z")') and self.p(0.4):
                items.append("unwrap(argument)")
                ty = "Vec<u8>"
            put((items, ty, "bad"))
            what = "decode mode on " + m.split("(")[0]
        elif x == 8:
            tuple_ = True
            f, _ = self.fields(st, True, n=r.randint(0, 4))
            f = [q for q in f if q[2] not in ("properties", "children")]
            f.insert(r.randint(0, len(f)), self.c((["property"], "u8", "bad"), (["child"], "In", "bad"), (["child"], "bool", "bad"), (["child", "unwrap(argument)"], "u8", "bad")))
            what = "unnamed property or child in a tuple"
        elif x == 9:
            drop("properties", "children")
            put((["flatten(%s)" % self.c("child", "property", "child, property")], "Option<Part>", "bad"))
            what = "optional flatten"
        elif x == 10:
            drop("properties", "children", "arguments")
            bad = self.c("skip", "span_type=Span", "rename", "arg", "argument()", "properties()", 'property(nam="x")', "property()", 'children("x")', "children(name=x)", "property(name=3)",
                         "flatten", "flatten(argument)", "unwrap", "default(3)", 'name="x"', "argument = 3", "unwrap(argument, foo)", "str = 3", "flatten(child) child", '"argument"',
                         "unwrap(skip)", "unwrap(span_type=Span)", "child(name=\"x\")")
            items = [bad] if bad.split("(")[0].split(" ")[0].rstrip("()") in ("argument", "properties", "property", "children", "flatten", "arg", "child") or self.p(0.3) else \
                [self.c("argument", 'property(name="zz")', "node_name", 'children(name="zz")'), bad]
            put((items, "u8", "bad"))
            what = "unknown or malformed attribute"
        elif x == 11:
            drop("arguments", "properties", "children")
            inner = self.c(["argument", "property"], ["argument", "arguments"], ["child", "str"], ["children", "bytes"], ["argument", "str", "bytes"], ["argument", "default", "default"],
                           ["properties", "children"], ["child", "unwrap(argument, property)"], ["child", "unwrap(child, str)"], ["children", "unwrap(argument)", "unwrap(argument)"], ["node_name", "str"],
                           ["flatten(property)", "bytes"], ["type_name", "argument"])
            put(([self.c('children(name="z")', 'children(name="z")' if tuple_ else "child"), "unwrap(%s)" % self.join(inner)], "u8", "bad"))
            what = "contradiction inside of unwrap"
        elif x == 12:
            a = self.c("argument", "skip", "property", "children", "str", "default", "unwrap(argument)", "unknown", "span", "flatten(child)", 'name="x"', "span_type", "skip, argument", "rename_all")
            kw = self.c("struct W { a: u8 }", "struct W;", "struct W(In);", "enum W { A, B }", "struct W(#[knuffel(argument)] u8);")
            return "container attribute " + a.split("=")[0], "#[derive(Decode)] #[knuffel(%s)] %s" % (a, kw)
        elif x == 13:
            a = self.c("argument", "property", "children", "str", "default", "unknown", "span_type=Span", "unwrap(argument)", 'name="b"', "skip, argument", "skip = 1", "bytes")
            vs = ["A", "#[knuffel(%s)] B%s" % (a, self.c("", "(In)", "(#[knuffel(argument)] u8)")), "C(In)"]
            r.shuffle(vs)
            return "variant attribute " + a.split("=")[0], "#[derive(Decode)] enum W { %s }" % ", ".join(vs)
        elif x == 14:
            return self.c(
                ("Decode for a union", "#[derive(Decode)] union W { a: u8, b: u16 }"),
                ("DecodeScalar for a struct", "#[derive(DecodeScalar)] struct W%s" % self.c(";", "(u8);", " { a: u8 }")),
                ("DecodeScalar for a union", "#[derive(DecodeScalar)] union W { a: u8 }"),
                ("DecodeScalar with data", "#[derive(DecodeScalar)] enum W { A, %s }" % self.c("B(u8), C", "C { x: u8 }", "D, E()", "B(), C", "X {}, Y", "Z(#[knuffel(argument)] u8)")))
        elif x == 15:
            # the same inside of a variant
            inner = self.c("#[knuffel(arguments)] Vec<u8>, #[knuffel(argument)] u8", "#[knuffel(properties)] HashMap<String, u8>, #[knuffel(property(name=\"x\"))] u8",
                           "#[knuffel(children)] Vec<In>, #[knuffel(children(name=\"x\"))] Vec<In>", "#[knuffel(children)] Vec<In>, #[knuffel(children)] Vec<In>",
                           "#[knuffel(property)] u8", "#[knuffel(child)] In", "#[knuffel(argument, property(name=\"x\"))] u8", "#[knuffel(argument, str, bytes)] Vec<u8>",
                           "#[knuffel(flatten(property))] Option<Props>", "#[knuffel(node_name, str)] String, u8", "#[knuffel(foo)] u8", "#[knuffel(argument, default, default)] u8",
                           "#[knuffel(skip)] u8", "u8, #[knuffel(children, bytes)] Vec<In>")
            vs = ["A%s" % self.variant(None), "B(%s)" % inner, "C"]
            r.shuffle(vs)
            return "contradiction inside of a variant", "#[derive(Decode)] enum W { %s }" % ", ".join(vs)
        else:
            drop("properties", "children", "arguments")
            put((["flatten(child, property)", self.c("argument", "children", 'property(name="q")', "node_name")], "Part", "bad"))
            what = "flatten and another mode"
        text = self.head(st) + "struct W%s%s" % (self.render(f, tuple_), ";" if tuple_ else "")
        return what, text


def cargo_check(name, src, env):
    d = os.path.join(WORK, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nknuffel = { path = "/repo" }\n[workspace]\n' % name)
    shutil.copy(os.path.join(ROOT, "harness", "decmon", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(src)
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    errors = []      # (line or None, text)
    built = False
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "knuffel":
            built = True
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        if m["target"]["name"] != name:
            continue
        msg = m["message"]
        lines = set()
        for s in msg["spans"]:
            while s is not None:
                if s["file_name"] == "src/lib.rs" and (s["is_primary"] or s.get("expansion")):
                    lines.add(s["line_start"])
                s = (s.get("expansion") or {}).get("span")
        if msg["message"].startswith("aborting due to") or msg["message"].startswith("could not compile"):
            continue
        errors.append((lines, msg["message"], msg.get("rendered") or msg["message"]))
    return r, built, errors


def run(check):
    t0 = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(ROOT, "target"))
    env.pop("RUSTFLAGS", None)
    rounds, n_ok, n_bad = (1, 700, 600) if check.tier == "quick" else (12, 1500, 1500)
    obs, samples, texts, problems = {}, [], set(), 0

    def count(k, n=1):
        obs[k] = obs.get(k, 0) + n

    def report(what, text, name):
        nonlocal problems
        problems += 1
        if problems <= 5:
            check.violation(what + "\n--- declaration\n" + text + "\n--- is used together with\n" + PRELUDE + USES, name)

    for rnd in range(rounds):
        g = Gen(random.Random("declmon %d %d" % (check.seed, rnd)))
        start = PRELUDE.count("\n") + 1
        # 1. valid declarations type-check; each has a line of its own
        good, out, lines, traits = [], [PRELUDE], {}, []
        for i in range(n_ok):
            kind, text, tys, st, ok, bad = g.valid()
            fn = "scalar" if st == "scalar" else "node"
            use = "".join("fn u() { %s } " % ("crate::base::any_span::<%s, %s>()" % (st, t) if fn == "node" and st else "crate::base::%s::<%s>()" % (fn, t)) for t in tys[:1])
            use += "".join("fn v%d() { crate::base::%s::<W>() } " % (j, t) for j, t in enumerate(ok))
            out.append("mod m%d { %s %s %s }\n" % (i, USES, text, use))
            lines[start + i] = (kind, text)
            good.append((kind, text))
            if bad:
                traits.append((kind, text, bad))
            for t in ok:
                count("type-checked as " + t)
            count("valid: " + kind)
            texts.add(text)
        r, built, errors = cargo_check("declgood", "".join(out), env)
        if not built:
            print(r.stderr[-3000:])
            print("error: /repo does not build")
            check.error = True
            return
        for ls, msg, rendered in errors:
            hit = sorted(l for l in ls if l in lines)
            if hit:
                report("a documented declaration (%s) is rejected:\n%s" % (lines[hit[0]][0], rendered), lines[hit[0]][1], "valid-%d-%d" % (rnd, hit[0]))
            else:
                report("documented declarations are rejected:\n" + rendered, "(see the message)", "valid-%d" % rnd)
        if r.returncode != 0 and not errors:
            report("cargo check fails on documented declarations:\n" + r.stderr[-3000:], "(all)", "valid-%d" % rnd)
        # 2. traits that the documentation excludes are not implemented
        out, lines = [PRELUDE], {}
        start2 = start
        i = 0
        for kind, text, bad in traits[: n_ok]:
            for t in bad:
                out.append("mod m%d { %s %s fn v() { crate::base::%s::<W>() } }\n" % (i, USES, text, t))
                lines[start2 + i] = (kind, text, t)
                i += 1
        r, built, errors = cargo_check("decltraits", "".join(out), env)
        hit = set()
        for ls, msg, rendered in errors:
            hit |= ls
        for l, (kind, text, t) in lines.items():
            count("refused as " + t)
            if l not in hit and not problems:
                report("a %s that cannot be used as %s is accepted as one" % (kind, t), text, "trait-%d-%d" % (rnd, l))
        # 3. contradictory ones are rejected, the valid ones between them are not
        out, lines = [PRELUDE], {}
        bads = 0
        for i in range(n_bad + n_bad // 5):
            if i % 6 == 5:
                kind, text = g.r.choice(good)
                lines[start + i] = (None, text)
            else:
                kind, text = g.clash()
                lines[start + i] = (kind, text)
                count("rejected: " + kind)
                texts.add(text)
                bads += 1
                if len(samples) < 8 and i % 7 == 0:
                    samples.append("%s: %s" % (kind, text))
            out.append("mod m%d { %s %s }\n" % (i, USES, text))
        r, built, errors = cargo_check("declbad", "".join(out), env)
        hit = {}
        for ls, msg, rendered in errors:
            for l in ls:
                hit.setdefault(l, []).append((msg, rendered))
        for l, (kind, text) in lines.items():
            got = hit.get(l, [])
            if kind is None:
                if got:
                    report("a valid declaration is rejected next to invalid ones:\n" + got[0][1], text, "mixed-%d-%d" % (rnd, l))
            elif not got:
                report("a contradictory declaration (%s) is accepted" % kind, text, "clash-%d-%d" % (rnd, l))
            elif any("panicked" in m for m, _ in got):
                report("the macro panics on a contradictory declaration (%s):\n%s" % (kind, got[0][1]), text, "panic-%d-%d" % (rnd, l))
            else:
                count("error messages seen", len(got))
    n = sum(v for k, v in obs.items() if k.split(":")[0] in ("valid", "rejected") or k.startswith(("refused", "type-checked")))
    check.parts.append(("declmon", {"violations": problems, "wall_s": time.time() - t0, "coverage": {
        "evaluations": n, "distinct_nontrivial": len(texts), "observed": dict(sorted(obs.items())),
        "rule": "distinct texts of declarations given to the macros inside of rustc, each judged by the diagnostics on its own line",
        "samples": samples}}))
