//! A second, independent reader of Mabo schema texts, written from the language's documentation.
//! It is lenient (callers use it on texts the real parser accepts) and reports where every name and
//! lexeme lies, and what each definition means, free of layout.

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Name {
    pub text: String,
    pub at: usize,
}

impl Name {
    #[must_use]
    pub fn end(&self) -> usize {
        self.at + self.text.len()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Keyword,
    ModuleName,
    StructName,
    EnumName,
    VariantName,
    AliasName,
    ConstName,
    FieldName,
    GenericName,
    Segment,
    TypeRef,
    Builtin,
    Number,
    Bool,
    Text,
    Id,
    Comment,
    Punct,
    Attribute,
}

/// One lexeme: byte range and what it is.
#[derive(Clone, Copy, Debug)]
pub struct Lexeme {
    pub start: usize,
    pub end: usize,
    pub class: Class,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub comment: Vec<String>,
    pub name: Option<Name>,
    pub ty: Ty,
    pub id: Option<u32>,
    /// From the name (or type) to the end of the type or id.
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub enum Fields {
    Named(Vec<Field>),
    Unnamed(Vec<Field>),
    Unit,
}

impl Fields {
    #[must_use]
    pub fn list(&self) -> &[Field] {
        match self {
            Self::Named(f) | Self::Unnamed(f) => f,
            Self::Unit => &[],
        }
    }

    /// The id of every field, defaults filled in: one more than its predecessor's, from 1.
    #[must_use]
    pub fn ids(&self) -> Vec<u64> {
        fill_ids(self.list().iter().map(|f| f.id))
    }
}

pub fn fill_ids(ids: impl Iterator<Item = Option<u32>>) -> Vec<u64> {
    let mut next = 1u64;
    ids.map(|id| {
        let id = id.map_or(next, u64::from);
        next = id + 1;
        id
    })
    .collect()
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub comment: Vec<String>,
    pub name: Name,
    pub fields: Fields,
    pub id: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Bool(bool),
    Int(i128),
    /// Bits of the number.
    Float(u64),
    Text(String),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Attr {
    pub name: String,
    pub value: AttrValue,
}

#[derive(Clone, Debug, PartialEq)]
pub enum AttrValue {
    Unit,
    Single(Value),
    Multi(Vec<Attr>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Basic(String),
    Wrap(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u64),
    Ext(Vec<String>, String, Vec<Ty>),
}

#[derive(Clone, Debug)]
pub enum Body {
    Module(Vec<Def>),
    Struct(Vec<Name>, Fields),
    Enum(Vec<Name>, Vec<Variant>),
    Alias(Vec<Name>, Ty),
    Const(Ty, Value),
    /// Path segments and element; the name of the definition spans all of them.
    Import(Vec<Name>, Option<Name>),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub comment: Vec<String>,
    pub attrs: Vec<Attr>,
    pub name: Name,
    pub body: Body,
}

#[derive(Debug)]
pub struct File {
    pub comment: Vec<String>,
    pub defs: Vec<Def>,
    pub lexemes: Vec<Lexeme>,
}

struct R<'a> {
    s: &'a str,
    at: usize,
    lexemes: Vec<Lexeme>,
}

type Res<T> = Result<T, String>;

/// # Errors
///
/// The text is not a schema as far as this reader understands.
pub fn read(s: &str) -> Res<File> {
    let mut r = R { s, at: 0, lexemes: Vec::new() };
    // a comment block followed by an empty line belongs to the file
    let mut comment = Vec::new();
    let block = r.comments();
    let rest = &s[r.at..];
    if !block.is_empty() && rest.starts_with('\n') {
        comment = block;
    } else {
        r.at = 0;
        r.lexemes.clear();
    }
    let defs = r.defs(false)?;
    Ok(File { comment, defs, lexemes: r.lexemes })
}

const BASIC: &[&str] = &[
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "bytes",
];

impl<'a> R<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.at..]
    }

    fn space(&mut self) {
        while self.rest().starts_with([' ', '\t', '\r', '\n']) {
            self.at += 1;
        }
    }

    fn err<T>(&self, what: &str) -> Res<T> {
        let around: String = self.rest().chars().take(20).collect();
        Err(format!("{what} expected at byte {}: {around:?}", self.at))
    }

    fn lex(&mut self, start: usize, class: Class) {
        self.lexemes.push(Lexeme { start, end: self.at, class });
    }

    fn peek(&mut self, p: &str) -> bool {
        self.space();
        self.rest().starts_with(p)
    }

    fn eat(&mut self, p: &str) -> bool {
        if self.peek(p) {
            let start = self.at;
            self.at += p.len();
            self.lex(start, Class::Punct);
            true
        } else {
            false
        }
    }

    fn need(&mut self, p: &str) -> Res<()> {
        if self.eat(p) { Ok(()) } else { self.err(p) }
    }

    fn word_at(&self) -> &'a str {
        let rest = self.rest();
        let n = rest.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(rest.len());
        &rest[..n]
    }

    fn word(&mut self, class: Class) -> Res<Name> {
        self.space();
        let w = self.word_at();
        if w.is_empty() {
            return self.err("name");
        }
        let start = self.at;
        self.at += w.len();
        self.lex(start, class);
        Ok(Name { text: w.to_owned(), at: start })
    }

    fn comments(&mut self) -> Vec<String> {
        let mut out = Vec::new();
        loop {
            let before = self.at;
            if out.is_empty() {
                self.space();
            } else {
                // the lines of one comment follow each other
                while self.rest().starts_with([' ', '\t']) {
                    self.at += 1;
                }
            }
            if !self.rest().starts_with("///") {
                self.at = before;
                return out;
            }
            let slashes = self.at;
            self.at += 3;
            while self.rest().starts_with([' ', '\t']) {
                self.at += 1;
            }
            let start = self.at;
            let n = self.rest().find('\n').unwrap_or(self.rest().len());
            self.at += n;
            self.lex(slashes, Class::Comment);
            out.push(self.s[start..self.at].trim_end_matches('\r').to_owned());
            self.at = (self.at + 1).min(self.s.len());
        }
    }

    fn defs(&mut self, inner: bool) -> Res<Vec<Def>> {
        let mut out = Vec::new();
        loop {
            self.space();
            if self.rest().is_empty() {
                return if inner { self.err("}") } else { Ok(out) };
            }
            if inner && self.eat("}") {
                return Ok(out);
            }
            out.push(self.def()?);
        }
    }

    fn def(&mut self) -> Res<Def> {
        let comment = self.comments();
        let mut attrs = Vec::new();
        while self.peek("#[") {
            let start = self.at;
            let kept = self.lexemes.len();
            self.at += 2;
            attrs.extend(self.attrs(']')?);
            self.lexemes.truncate(kept);
            self.lex(start, Class::Attribute);
        }
        let kw = self.word(Class::Keyword)?;
        let (name, body) = match kw.text.as_str() {
            "mod" => {
                let n = self.word(Class::ModuleName)?;
                self.need("{")?;
                (n, Body::Module(self.defs(true)?))
            }
            "struct" => {
                let n = self.word(Class::StructName)?;
                let g = self.generics()?;
                (n, Body::Struct(g, self.fields()?))
            }
            "enum" => {
                let n = self.word(Class::EnumName)?;
                let g = self.generics()?;
                self.need("{")?;
                let mut variants = Vec::new();
                loop {
                    let comment = self.comments();
                    if self.eat("}") {
                        break;
                    }
                    let name = self.word(Class::VariantName)?;
                    let fields = self.fields()?;
                    let id = self.id()?;
                    variants.push(Variant { comment, name, fields, id });
                    if !self.eat(",") {
                        self.need("}")?;
                        break;
                    }
                }
                (n, Body::Enum(g, variants))
            }
            "type" => {
                let n = self.word(Class::AliasName)?;
                let g = self.generics()?;
                self.need("=")?;
                let ty = self.ty()?;
                self.need(";")?;
                (n, Body::Alias(g, ty))
            }
            "const" => {
                let n = self.word(Class::ConstName)?;
                self.need(":")?;
                let ty = self.ty()?;
                self.need("=")?;
                let v = self.value()?;
                self.need(";")?;
                (n, Body::Const(ty, v))
            }
            "use" => {
                let mut segments = Vec::new();
                let mut element = None;
                loop {
                    self.space();
                    if self.rest().starts_with(|c: char| c.is_ascii_uppercase()) {
                        element = Some(self.word(Class::TypeRef)?);
                        break;
                    }
                    segments.push(self.word(Class::Segment)?);
                    if !self.eat("::") {
                        break;
                    }
                }
                self.need(";")?;
                let mut name = segments.first().cloned().unwrap_or(Name { text: String::new(), at: self.at });
                for n in segments.iter().skip(1).chain(&element) {
                    let _ = write!(name.text, "::{}", n.text);
                }
                (name, Body::Import(segments, element))
            }
            _ => return self.err("definition"),
        };
        Ok(Def { comment, attrs, name, body })
    }

    fn attrs(&mut self, close: char) -> Res<Vec<Attr>> {
        let mut out = Vec::new();
        let close = close.to_string();
        loop {
            if self.eat(&close) {
                return Ok(out);
            }
            let name = self.word(Class::Attribute)?.text;
            let value = if self.rest().starts_with('(') {
                self.at += 1;
                AttrValue::Multi(self.attrs(')')?)
            } else if self.eat("=") {
                AttrValue::Single(self.value()?)
            } else {
                AttrValue::Unit
            };
            out.push(Attr { name, value });
            if !self.eat(",") {
                self.need(&close)?;
                return Ok(out);
            }
        }
    }

    fn generics(&mut self) -> Res<Vec<Name>> {
        let mut out = Vec::new();
        if !self.eat("<") {
            return Ok(out);
        }
        loop {
            if self.eat(">") {
                return Ok(out);
            }
            out.push(self.word(Class::GenericName)?);
            if !self.eat(",") {
                self.need(">")?;
                return Ok(out);
            }
        }
    }

    fn id(&mut self) -> Res<Option<u32>> {
        let before = self.at;
        if !self.peek("@") {
            self.at = before;
            return Ok(None);
        }
        let start = self.at;
        self.at += 1;
        let digits = self.word_at();
        self.at += digits.len();
        self.lex(start, Class::Id);
        digits.parse::<u32>().map(Some).map_err(|e| e.to_string())
    }

    fn fields(&mut self) -> Res<Fields> {
        let before = self.at;
        let named = if self.eat("{") {
            true
        } else if self.eat("(") {
            false
        } else {
            self.at = before;
            return Ok(Fields::Unit);
        };
        let close = if named { "}" } else { ")" };
        let mut out = Vec::new();
        loop {
            let comment = self.comments();
            if self.eat(close) {
                break;
            }
            self.space();
            let start = self.at;
            let name = if named {
                let n = self.word(Class::FieldName)?;
                self.need(":")?;
                Some(n)
            } else {
                None
            };
            let ty = self.ty()?;
            let mut end = self.at;
            let id = self.id()?;
            if id.is_some() {
                end = self.at;
            }
            out.push(Field { comment, name, ty, id, start, end });
            if !self.eat(",") {
                self.need(close)?;
                break;
            }
        }
        Ok(if named { Fields::Named(out) } else { Fields::Unnamed(out) })
    }

    fn list(&mut self, close: &str) -> Res<Vec<Ty>> {
        let mut out = Vec::new();
        loop {
            if self.eat(close) {
                return Ok(out);
            }
            out.push(self.ty()?);
            if !self.eat(",") {
                self.need(close)?;
                return Ok(out);
            }
        }
    }

    fn ty(&mut self) -> Res<Ty> {
        self.space();
        if self.eat("(") {
            return Ok(Ty::Tuple(self.list(")")?));
        }
        if self.eat("[") {
            let t = self.ty()?;
            self.need(";")?;
            let n = self.word(Class::Number)?;
            self.need("]")?;
            return Ok(Ty::Array(Box::new(t), n.text.parse().map_err(|_| "array size")?));
        }
        let start = self.at;
        let rest = self.rest();
        for whole in ["&string", "&bytes", "box<string>", "box<bytes>"] {
            if rest.starts_with(whole) {
                self.at += whole.len();
                self.lex(start, Class::Builtin);
                return Ok(Ty::Basic(whole.to_owned()));
            }
        }
        let w = self.word_at();
        if BASIC.contains(&w) {
            self.at += w.len();
            self.lex(start, Class::Builtin);
            return Ok(Ty::Basic(w.to_owned()));
        }
        if ["vec", "hash_map", "hash_set", "option", "non_zero"].contains(&w) && rest[w.len()..].starts_with('<') {
            self.at += w.len();
            self.lex(start, Class::Builtin);
            self.need("<")?;
            return Ok(Ty::Wrap(w.to_owned(), self.list(">")?));
        }
        let mut path = Vec::new();
        loop {
            self.space();
            if self.rest().starts_with(|c: char| c.is_ascii_uppercase()) {
                break;
            }
            path.push(self.word(Class::Segment)?.text);
            self.need("::")?;
        }
        let name = self.word(Class::TypeRef)?.text;
        let generics = if self.rest().starts_with('<') {
            self.need("<")?;
            self.list(">")?
        } else {
            Vec::new()
        };
        Ok(Ty::Ext(path, name, generics))
    }

    fn value(&mut self) -> Res<Value> {
        self.space();
        let start = self.at;
        let rest = self.rest();
        if rest.starts_with('"') {
            self.at += 1;
            let mut out = String::new();
            loop {
                let Some(c) = self.rest().chars().next() else { return self.err("end of string") };
                self.at += c.len_utf8();
                match c {
                    '"' => break,
                    '\\' => {
                        let Some(e) = self.rest().chars().next() else { return self.err("escape") };
                        self.at += e.len_utf8();
                        match e {
                            'n' => out.push('\n'),
                            'r' => out.push('\r'),
                            't' => out.push('\t'),
                            'b' => out.push('\u{8}'),
                            'f' => out.push('\u{c}'),
                            'u' => {
                                let close = self.rest().find('}').ok_or("}")?;
                                let hex = &self.rest()[1..close];
                                let n = u32::from_str_radix(hex, 16).map_err(|e| e.to_string())?;
                                out.push(char::from_u32(n).ok_or("scalar value")?);
                                self.at += close + 1;
                            }
                            c if c.is_ascii_whitespace() => self.space(),
                            other => out.push(other),
                        }
                    }
                    c => out.push(c),
                }
            }
            self.lex(start, Class::Text);
            return Ok(Value::Text(out));
        }
        if rest.starts_with('[') {
            let end = rest.find(']').ok_or("]")?;
            let inner = &rest[1..end];
            self.at += end + 1;
            self.lex(start, Class::Text);
            return inner
                .split(',')
                .map(str::trim)
                .filter(|x| !x.is_empty())
                .map(|x| x.parse().map_err(|_| format!("byte {x}")))
                .collect::<Res<Vec<u8>>>()
                .map(Value::Bytes);
        }
        let n = rest.find(|c: char| !c.is_ascii_alphanumeric() && !matches!(c, '+' | '-' | '.')).unwrap_or(rest.len());
        let w = &rest[..n];
        self.at += n;
        if w == "true" || w == "false" {
            self.lex(start, Class::Bool);
            return Ok(Value::Bool(w == "true"));
        }
        self.lex(start, Class::Number);
        if w.contains('.') {
            return w.parse::<f64>().map(|f| Value::Float(f.to_bits())).map_err(|e| e.to_string());
        }
        w.parse::<i128>().map(Value::Int).map_err(|e| format!("{w:?}: {e}"))
    }
}

impl File {
    /// What the schema means, independent of layout: one line per item.
    #[must_use]
    pub fn meaning(&self) -> Vec<String> {
        let mut out = vec![format!("file {:?}", self.comment)];
        for d in &self.defs {
            d.meaning("", &mut out);
        }
        out
    }
}

fn names(g: &[Name]) -> String {
    g.iter().map(|n| n.text.as_str()).collect::<Vec<_>>().join(",")
}

impl Def {
    fn meaning(&self, path: &str, out: &mut Vec<String>) {
        let name = format!("{path}/{}", self.name.text);
        let head = format!("{name} comment={:?} attrs={:?}", self.comment, self.attrs);
        let fields = |prefix: &str, f: &Fields, out: &mut Vec<String>| {
            let kind = match f {
                Fields::Named(_) => "named",
                Fields::Unnamed(_) => "unnamed",
                Fields::Unit => "unit",
            };
            out.push(format!("{prefix} fields {kind}"));
            for f in f.list() {
                out.push(format!(
                    "{prefix}.{} : {:?} @{:?} comment={:?}",
                    f.name.as_ref().map_or("_", |n| &n.text),
                    f.ty,
                    f.id,
                    f.comment
                ));
            }
        };
        match &self.body {
            Body::Module(defs) => {
                out.push(format!("mod {head}"));
                for d in defs {
                    d.meaning(&name, out);
                }
                out.push(format!("end {name}"));
            }
            Body::Struct(g, f) => {
                out.push(format!("struct {head} <{}>", names(g)));
                fields(&name, f, out);
            }
            Body::Enum(g, vs) => {
                out.push(format!("enum {head} <{}>", names(g)));
                for v in vs {
                    let p = format!("{name}.{}", v.name.text);
                    out.push(format!("{p} @{:?} comment={:?}", v.id, v.comment));
                    fields(&p, &v.fields, out);
                }
            }
            Body::Alias(g, t) => out.push(format!("type {head} <{}> = {t:?}", names(g))),
            Body::Const(t, v) => out.push(format!("const {head}: {t:?} = {v:?}")),
            Body::Import(..) => out.push(format!("use {head}")),
        }
    }
}
