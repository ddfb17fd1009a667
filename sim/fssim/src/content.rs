//! Whether generated files hold what the schemas say. The schemas are read by the independent
//! reader, the outputs by a Rust parser (Rust), or as texts of a known shape (Go, HTML).

use std::collections::BTreeMap;

use heck::{ToLowerCamelCase, ToUpperCamelCase};
use schemaread::{Body, Def, Field, Fields, Ty, Value};
use syn::{Expr, Item, Lit};

type Res = Result<(), String>;

/// All `mabo/STEM.rs`.
pub fn rust(file: &schemaread::File, text: &str, bytes: bool) -> Res {
    let code = syn::parse_file(text).map_err(|e| e.to_string())?;
    rust_defs(&file.defs, &code.items, bytes, "")
}

fn rust_defs(defs: &[Def], items: &[Item], bytes: bool, at: &str) -> Res {
    for d in defs {
        let name = &d.name.text;
        let here = format!("{at}{name}");
        let lost = |kind: &str| format!("no {kind} {here}");
        match &d.body {
            Body::Import(..) => {}
            Body::Module(inner) => {
                let m = items
                    .iter()
                    .find_map(|i| match i {
                        Item::Mod(m) if m.ident == name => Some(m),
                        _ => None,
                    })
                    .ok_or_else(|| lost("module"))?;
                docs(&d.comment, &m.attrs, &here)?;
                let inner_items = m.content.as_ref().map(|c| &c.1[..]).unwrap_or_default();
                rust_defs(inner, inner_items, bytes, &format!("{here}::"))?;
            }
            Body::Struct(g, f) => {
                let s = items
                    .iter()
                    .find_map(|i| match i {
                        Item::Struct(s) if s.ident == name => Some(s),
                        _ => None,
                    })
                    .ok_or_else(|| lost("struct"))?;
                docs(&d.comment, &s.attrs, &here)?;
                rust_generics(g, &s.generics, &here)?;
                rust_fields(f, &s.fields, bytes, &here)?;
            }
            Body::Enum(g, vs) => {
                let e = items
                    .iter()
                    .find_map(|i| match i {
                        Item::Enum(s) if s.ident == name => Some(s),
                        _ => None,
                    })
                    .ok_or_else(|| lost("enum"))?;
                docs(&d.comment, &e.attrs, &here)?;
                rust_generics(g, &e.generics, &here)?;
                if e.variants.len() != vs.len() {
                    return Err(format!("{here} has {} of {} variants", e.variants.len(), vs.len()));
                }
                for v in vs {
                    let there = format!("{here}::{}", v.name.text);
                    let x = e.variants.iter().find(|x| x.ident == v.name.text).ok_or_else(|| format!("no variant {there}"))?;
                    docs(&v.comment, &x.attrs, &there)?;
                    rust_fields(&v.fields, &x.fields, bytes, &there)?;
                }
            }
            Body::Alias(g, t) => {
                let a = items
                    .iter()
                    .find_map(|i| match i {
                        Item::Type(s) if s.ident == name => Some(s),
                        _ => None,
                    })
                    .ok_or_else(|| lost("type"))?;
                docs(&d.comment, &a.attrs, &here)?;
                rust_generics(g, &a.generics, &here)?;
                same(&here, &rust_type(t, bytes), &seen_type(&a.ty))?;
            }
            Body::Const(t, v) => {
                let c = items
                    .iter()
                    .find_map(|i| match i {
                        Item::Const(s) if s.ident == name => Some(s),
                        _ => None,
                    })
                    .ok_or_else(|| lost("const"))?;
                docs(&d.comment, &c.attrs, &here)?;
                let want = match t {
                    Ty::Basic(b) if b.ends_with("string") => "&str".to_owned(),
                    Ty::Basic(b) if b.ends_with("bytes") => "&[u8]".to_owned(),
                    t => rust_type(t, bytes),
                };
                same(&here, &want, &seen_type(&c.ty))?;
                if !rust_value(v, &c.expr) {
                    return Err(format!("the value of {here} isn't {v:?}"));
                }
            }
        }
    }
    Ok(())
}

fn same(what: &str, want: &str, have: &str) -> Res {
    if want == have { Ok(()) } else { Err(format!("{what} is {have:?} instead of {want:?}")) }
}

fn docs(want: &[String], attrs: &[syn::Attribute], what: &str) -> Res {
    let mut have = Vec::new();
    for a in attrs {
        if let syn::Meta::NameValue(nv) = &a.meta {
            if nv.path.is_ident("doc") {
                if let Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    have.push(s.value().trim().to_owned());
                }
            }
        }
    }
    let want: Vec<&str> = want.iter().map(|l| l.trim()).collect();
    if want == have { Ok(()) } else { Err(format!("the comment of {what} is {have:?} instead of {want:?}")) }
}

fn rust_generics(want: &[schemaread::Name], have: &syn::Generics, what: &str) -> Res {
    let have: Vec<String> = have.type_params().map(|p| p.ident.to_string()).collect();
    let want: Vec<String> = want.iter().map(|n| n.text.clone()).collect();
    if want == have { Ok(()) } else { Err(format!("{what} has generics {have:?} instead of {want:?}")) }
}

fn rust_fields(want: &Fields, have: &syn::Fields, bytes: bool, what: &str) -> Res {
    match (want, have) {
        (Fields::Unit, syn::Fields::Unit) => Ok(()),
        (Fields::Named(w), syn::Fields::Named(h)) if w.len() == h.named.len() => {
            for f in w {
                let name = f.name.as_ref().map_or("", |n| &n.text);
                let there = format!("{what}.{name}");
                let x = h
                    .named
                    .iter()
                    .find(|x| x.ident.as_ref().is_some_and(|i| i == name))
                    .ok_or_else(|| format!("no field {there}"))?;
                same(&there, &rust_type(&f.ty, bytes), &seen_type(&x.ty))?;
                docs(&f.comment, &x.attrs, &there)?;
            }
            Ok(())
        }
        (Fields::Unnamed(w), syn::Fields::Unnamed(h)) if w.len() == h.unnamed.len() => {
            for (i, (f, x)) in w.iter().zip(&h.unnamed).enumerate() {
                same(&format!("{what}.{i}"), &rust_type(&f.ty, bytes), &seen_type(&x.ty))?;
            }
            Ok(())
        }
        _ => Err(format!("{what} has {} fields ({}) instead of {}", have.len(), kind(have), want.list().len())),
    }
}

fn kind(f: &syn::Fields) -> &'static str {
    match f {
        syn::Fields::Unit => "unit",
        syn::Fields::Named(_) => "named",
        syn::Fields::Unnamed(_) => "unnamed",
    }
}

fn rust_type(t: &Ty, bytes: bool) -> String {
    let all = |ts: &[Ty]| ts.iter().map(|t| rust_type(t, bytes)).collect::<Vec<_>>().join(", ");
    let buffer = if bytes { "Bytes" } else { "Vec<u8>" };
    match t {
        Ty::Basic(b) => match b.as_str() {
            "string" | "&string" => "String".into(),
            "bytes" | "&bytes" => buffer.into(),
            "box<string>" => "Box<str>".into(),
            "box<bytes>" => "Box<[u8]>".into(),
            other => other.into(),
        },
        Ty::Wrap(w, ts) => match w.as_str() {
            "vec" => format!("Vec<{}>", all(ts)),
            "hash_map" => format!("HashMap<{}>", all(ts)),
            "hash_set" => format!("HashSet<{}>", all(ts)),
            "option" => format!("Option<{}>", all(ts)),
            _ => match ts.first() {
                Some(Ty::Basic(b)) if b.ends_with("string") => "NonZeroString".into(),
                Some(Ty::Basic(b)) if b.ends_with("bytes") => {
                    if bytes { "NonZero<Bytes>".into() } else { "NonZeroBytes".into() }
                }
                Some(Ty::Basic(b)) => format!("NonZero{}", b.to_ascii_uppercase()),
                Some(Ty::Wrap(w, ts)) => format!("NonZero{}<{}>", w.to_upper_camel_case(), all(ts)),
                _ => "?".into(),
            },
        },
        Ty::Tuple(ts) => format!("({})", all(ts)),
        Ty::Array(t, n) => format!("[{}; {n}]", rust_type(t, bytes)),
        Ty::Ext(path, name, ts) => {
            let mut s = path.iter().map(|p| format!("{p}::")).collect::<String>() + name;
            if !ts.is_empty() {
                s += &format!("<{}>", all(ts));
            }
            s
        }
    }
}

/// The same form for a type of the generated code: of absolute paths only the last segment.
fn seen_type(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let n = p.path.segments.len();
            let skip = if p.path.leading_colon.is_some() { n - 1 } else { 0 };
            let mut s = String::new();
            for (i, seg) in p.path.segments.iter().enumerate().skip(skip) {
                s += &seg.ident.to_string();
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    let args: Vec<String> = a
                        .args
                        .iter()
                        .map(|a| match a {
                            syn::GenericArgument::Type(t) => seen_type(t),
                            _ => "?".into(),
                        })
                        .collect();
                    s += &format!("<{}>", args.join(", "));
                }
                if i + 1 < n {
                    s += "::";
                }
            }
            s
        }
        syn::Type::Tuple(t) => format!("({})", t.elems.iter().map(seen_type).collect::<Vec<_>>().join(", ")),
        syn::Type::Array(a) => {
            let n = match &a.len {
                Expr::Lit(syn::ExprLit { lit: Lit::Int(i), .. }) => i.base10_digits().to_owned(),
                _ => "?".into(),
            };
            format!("[{}; {n}]", seen_type(&a.elem))
        }
        syn::Type::Slice(s) => format!("[{}]", seen_type(&s.elem)),
        syn::Type::Reference(r) => format!("&{}", seen_type(&r.elem)),
        syn::Type::Paren(p) => seen_type(&p.elem),
        _ => "?".into(),
    }
}

fn rust_value(want: &Value, have: &Expr) -> bool {
    let (neg, e) = match have {
        Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => (true, &**expr),
        e => (false, e),
    };
    let Expr::Lit(syn::ExprLit { lit, .. }) = e else { return false };
    match (want, lit) {
        (Value::Bool(w), Lit::Bool(h)) => *w == h.value,
        (Value::Int(w), Lit::Int(h)) => {
            let digits = format!("{}{}", if neg { "-" } else { "" }, h.base10_digits());
            digits.parse() == Ok(*w)
        }
        (Value::Float(w), Lit::Float(h)) => {
            let digits = format!("{}{}", if neg { "-" } else { "" }, h.base10_digits());
            digits.parse::<f64>().is_ok_and(|f| f.to_bits() == *w)
        }
        (Value::Text(w), Lit::Str(h)) => *w == h.value(),
        (Value::Bytes(w), Lit::ByteStr(h)) => *w == h.value(),
        _ => false,
    }
}

/// Go files of one directory taken together.
pub struct Go {
    lines: Vec<String>,
}

impl Go {
    pub fn new(files: &BTreeMap<String, Vec<u8>>, dir: &str) -> Self {
        let lines = files
            .iter()
            .filter(|(p, _)| p.strip_prefix(dir).is_some_and(|f| f.ends_with(".go") && !f.contains('/')))
            .flat_map(|(_, c)| {
                String::from_utf8_lossy(c).split('\n').map(|l| l.trim_end().to_owned()).collect::<Vec<_>>()
            })
            .collect();
        Self { lines }
    }

    /// The lines after each one for which `head` holds, up to the closing brace.
    fn blocks(&self, head: impl Fn(&str) -> bool) -> Vec<&[String]> {
        let mut out = Vec::new();
        for (i, l) in self.lines.iter().enumerate() {
            if !head(l) {
                continue;
            }
            let n = if l.ends_with('{') {
                self.lines[i + 1..].iter().position(|l| l == "}").unwrap_or(self.lines.len() - i - 1)
            } else {
                0
            };
            out.push(&self.lines[i + 1..=i + n]);
        }
        out
    }

    fn one(&self, what: &str, head: impl Fn(&str) -> bool, want: &[String], got: impl Fn(&[String]) -> Vec<String>) -> Res {
        let all: Vec<Vec<String>> = self.blocks(head).iter().map(|b| got(b)).collect();
        if all.iter().any(|h| h == want) {
            return Ok(());
        }
        Err(format!("{what} has {all:?} instead of {want:?}"))
    }

    /// The comment above line `i`.
    fn above(&self, i: usize) -> Vec<String> {
        let mut c: Vec<String> = self.lines[..i].iter().rev().map_while(|l| Some(l.strip_prefix("//")?.trim().to_owned())).collect();
        c.reverse();
        c
    }

    /// Is one of the lines for which `head` holds below this comment? There may be several ones, if
    /// names differ in nothing that Go names tell apart.
    fn comment(&self, what: &str, comment: &[String], head: impl Fn(&str) -> bool) -> Res {
        let want: Vec<String> = comment.iter().map(|l| l.trim().to_owned()).collect();
        let all: Vec<Vec<String>> = (0..self.lines.len()).filter(|i| head(&self.lines[*i])).map(|i| self.above(i)).collect();
        if all.iter().any(|c| *c == want) {
            return Ok(());
        }
        Err(format!("{what} has the comment {all:?} instead of {want:?}"))
    }

    fn fields(&self, name: &str, comment: &[String], fields: &Fields) -> Res {
        let mut want = Vec::new();
        let mut params = Vec::new();
        for (i, f) in fields.list().iter().enumerate() {
            want.extend(f.comment.iter().map(|l| format!("// {}", l.trim()).trim_end().to_owned()));
            let (upper, lower) = f.name.as_ref().map_or_else(
                || (format!("N{i}"), format!("n{i}")),
                |n| (n.text.to_upper_camel_case(), n.text.to_lower_camel_case()),
            );
            want.push(format!("{upper} {}", go_type(&f.ty)));
            params.push(format!("{lower} {},", go_type(&f.ty)));
        }
        let words = |l: &str| l.split_whitespace().collect::<Vec<_>>().join(" ");
        let is_type = |l: &str| {
            l.strip_prefix("type ").and_then(|l| l.strip_prefix(name)).is_some_and(|l| {
                (l.starts_with(" struct") || l.starts_with('[')) && (l.contains("] struct") || !l.starts_with('['))
            })
        };
        self.comment(&format!("Go type {name}"), comment, is_type)?;
        self.one(&format!("Go type {name}"), is_type, &want, |b| {
            b.iter()
                .map(|l| match l.trim_start().strip_prefix("//") {
                    Some(c) => format!("// {}", c.trim()).trim_end().to_owned(),
                    None => words(l),
                })
                .filter(|l| !l.is_empty())
                .collect()
        })?;
        let is_new = |l: &str| {
            l.strip_prefix("func New").and_then(|l| l.strip_prefix(name)).is_some_and(|l| l.starts_with('(') || l.starts_with('['))
        };
        let news: Vec<Vec<String>> = (0..self.lines.len())
            .filter(|i| is_new(&self.lines[*i]))
            .map(|i| self.lines[i + 1..].iter().take_while(|l| !l.starts_with(')') && !l.starts_with("\treturn")).map(|l| words(l)).collect())
            .collect();
        if !news.contains(&params) {
            return Err(format!("New of Go type {name} takes {news:?} instead of {params:?}"));
        }
        let ids: Vec<String> = fields.ids().iter().map(ToString::to_string).collect();
        let method = |l: &str, m: &str| {
            l.strip_prefix("func (v *").and_then(|l| l.strip_prefix(name)).is_some_and(|l| {
                l.find(") ").is_some_and(|i| (i == 0 || l.starts_with('[')) && l[i + 2..].starts_with(m))
            })
        };
        let after = |l: &str, what: &str, open: &str| -> Option<String> {
            let rest = &l[l.find(what)? + what.len()..];
            let rest = &rest[rest.find(open)? + open.len()..];
            Some(rest[..rest.find(',')?].to_owned())
        };
        self.one(&format!("Encode of Go type {name}"), |l| method(l, "Encode("), &ids, |b| {
            b.iter().filter_map(|l| after(l, "buf.EncodeField", "(w, ")).collect()
        })?;
        self.one(&format!("Size of Go type {name}"), |l| method(l, "Size("), &ids, |b| {
            b.iter().filter_map(|l| after(l, "buf.SizeField", "(")).collect()
        })?;
        self.one(&format!("Decode of Go type {name}"), |l| method(l, "Decode("), &ids, |b| {
            b.iter()
                .filter_map(|l| l.trim_start().strip_prefix("case ")?.strip_suffix(':'))
                .filter(|l| l.bytes().all(|b| b.is_ascii_digit()))
                .map(ToOwned::to_owned)
                .collect()
        })?;
        for verb in ["Encode", "Size", "Decode"] {
            let mut want = Vec::new();
            for f in fields.list() {
                match &f.ty {
                    Ty::Wrap(w, ts) if w == "option" && verb != "Decode" => {
                        want.push("FieldOption".to_owned());
                        ts.iter().for_each(|t| go_calls(t, verb, &mut want));
                    }
                    t => {
                        if verb != "Decode" {
                            want.push("Field".to_owned());
                        }
                        go_calls(t, verb, &mut want);
                    }
                }
            }
            self.one(&format!("{verb} of Go type {name}"), |l| method(l, &format!("{verb}(")), &want, |b| {
                b.iter().filter(|l| !l.contains("buf.EndMarker")).flat_map(|l| calls_of(l, verb)).filter(|c| c != "ID").collect()
            })?;
        }
        Ok(())
    }

    /// All definitions (but those of modules) of one schema or module.
    pub fn check(&self, defs: &[Def]) -> Res {
        for d in defs {
            let name = d.name.text.to_upper_camel_case();
            match &d.body {
                Body::Struct(_, f) => self.fields(&name, &d.comment, f)?,
                Body::Enum(_, vs) => {
                    let line = format!("type {name} {name}Variant");
                    self.comment(&format!("Go type {name}"), &d.comment, |l| l == line)?;
                    for v in vs {
                        self.fields(&format!("{name}_{}", v.name.text.to_upper_camel_case()), &v.comment, &v.fields)?;
                    }
                }
                Body::Const(t, v) => {
                    let declared = |l: &'_ str| -> Option<usize> {
                        let n = l.len();
                        let l = l.strip_prefix("const ").or_else(|| l.strip_prefix("var "))?;
                        let l = l.strip_prefix(name.as_str())?.strip_prefix(' ')?.strip_prefix(go_type(t).as_str())?;
                        Some(n - l.strip_prefix(" =")?.len())
                    };
                    self.comment(&format!("Go constant {name}"), &d.comment, |l| declared(l).is_some())?;
                    let values: Vec<&str> = self.lines.iter().filter_map(|l| Some(l[declared(l)?..].trim())).collect();
                    let fits = |h: &&str| match v {
                        Value::Bool(b) => *h == b.to_string(),
                        Value::Int(i) => h.parse() == Ok(*i),
                        Value::Float(f) => h.parse::<f64>().is_ok_and(|h| h.to_bits() == *f),
                        Value::Text(t) => **h == format!("{t:?}"),
                        Value::Bytes(b) if b.is_empty() => h.is_empty(),
                        Value::Bytes(b) => {
                            let b: Vec<String> = b.iter().map(ToString::to_string).collect();
                            **h == format!("[]byte{{{}}}", b.join(", "))
                        }
                    };
                    if !values.iter().any(fits) {
                        return Err(format!("Go constant {name} is {values:?} instead of {v:?}"));
                    }
                }
                Body::Alias(_, t) => {
                    let line = format!("type {name} {}", go_type(t));
                    self.comment(&format!("Go alias {name} of {}", go_type(t)), &d.comment, |l| l == line)?;
                }
                Body::Module(_) | Body::Import(..) => {}
            }
        }
        Ok(())
    }
}

/// Functions of the Go library a line calls to encode, decode or size something, in order.
fn calls_of(line: &str, verb: &str) -> Vec<String> {
    let mut out = Vec::new();
    for (i, _) in line.match_indices(verb) {
        let rest = &line[i + verb.len()..];
        if line[..i].ends_with("buf.") {
            out.push(rest.chars().take_while(char::is_ascii_alphanumeric).collect());
        } else if line[..i].ends_with('.') && rest.starts_with('(') {
            out.push("()".to_owned());
        }
    }
    out
}

fn go_calls(t: &Ty, verb: &str, out: &mut Vec<String>) {
    let basic = |b: &str| match b.trim_start_matches('&') {
        "box<string>" => "String".to_owned(),
        "box<bytes>" => "Bytes".to_owned(),
        b => b.to_upper_camel_case(),
    };
    match t {
        Ty::Basic(b) => out.push(basic(b)),
        Ty::Wrap(w, ts) => {
            let (name, ts) = match (w.as_str(), ts.first()) {
                ("non_zero", Some(Ty::Basic(b))) => (basic(b), &[][..]),
                ("non_zero", Some(Ty::Wrap(w, ts))) => (w.to_upper_camel_case(), &ts[..]),
                (w, _) => (w.to_upper_camel_case(), &ts[..]),
            };
            out.push(if w == "non_zero" && verb == "Decode" { format!("NonZero{name}") } else { name });
            ts.iter().for_each(|t| go_calls(t, verb, out));
        }
        Ty::Tuple(ts) => ts.iter().for_each(|t| go_calls(t, verb, out)),
        Ty::Array(t, n) => {
            out.push(format!("Array{n}"));
            go_calls(t, verb, out);
        }
        Ty::Ext(..) => out.push("()".to_owned()),
    }
}

fn go_type(t: &Ty) -> String {
    let all = |ts: &[Ty]| ts.iter().map(go_type).collect::<Vec<_>>().join(", ");
    let list = |ts: &[Ty]| if ts.is_empty() { String::new() } else { format!("[{}]", all(ts)) };
    match t {
        Ty::Basic(b) => match b.as_str() {
            "u128" | "i128" => "*big.Int".into(),
            "string" | "&string" | "box<string>" => "string".into(),
            "bytes" | "&bytes" | "box<bytes>" => "[]byte".into(),
            "f32" => "float32".into(),
            "f64" => "float64".into(),
            b if b.starts_with('u') => b.replace('u', "uint"),
            b if b.starts_with('i') => b.replace('i', "int"),
            other => other.into(),
        },
        Ty::Wrap(w, ts) => match w.as_str() {
            "vec" => format!("[]{}", all(ts)),
            "hash_map" if ts.len() == 2 => format!("map[{}]{}", go_type(&ts[0]), go_type(&ts[1])),
            "hash_set" => format!("map[{}]struct{{}}", all(ts)),
            "option" => format!("*{}", all(ts)),
            _ => match ts.first() {
                Some(Ty::Basic(b)) if b.ends_with("string") => "mabo.NonZeroString".into(),
                Some(Ty::Basic(b)) if b.ends_with("bytes") => "mabo.NonZeroBytes".into(),
                Some(Ty::Basic(b)) => format!("mabo.NonZero{}", b.to_ascii_uppercase()),
                Some(Ty::Wrap(w, ts)) => format!("mabo.NonZero{}[{}]", w.to_upper_camel_case(), all(ts)),
                _ => "?".into(),
            },
        },
        Ty::Tuple(ts) => format!("mabo.Tuple{}{}", ts.len(), list(ts)),
        Ty::Array(t, n) => format!("[{n}]{}", go_type(t)),
        Ty::Ext(path, name, ts) => {
            let of = path.last().map(|p| format!("{p}.")).unwrap_or_default();
            format!("{of}{}{}", name.to_upper_camel_case(), list(ts))
        }
    }
}

/// The text a browser would show, white space collapsed.
fn plain(html: &str) -> String {
    let body = html.find("<main>").map_or(html, |i| &html[i..]);
    let mut out = String::new();
    let mut rest = body;
    while let Some(c) = rest.chars().next() {
        if c == '<' {
            let Some(end) = rest.find('>') else { break };
            rest = &rest[end + 1..];
            continue;
        }
        if c == '&' {
            if let Some(end) = rest.find(';').filter(|e| *e < 10) {
                let e = &rest[1..end];
                let decoded = match e {
                    "lt" => Some('<'),
                    "gt" => Some('>'),
                    "amp" => Some('&'),
                    "quot" => Some('"'),
                    "apos" => Some('\''),
                    _ => e.strip_prefix('#').and_then(|n| match n.strip_prefix(['x', 'X']) {
                        Some(h) => u32::from_str_radix(h, 16).ok(),
                        None => n.parse().ok(),
                    }).and_then(char::from_u32),
                };
                if let Some(d) = decoded {
                    out.push(d);
                    rest = &rest[end + 1..];
                    continue;
                }
            }
        }
        if c.is_ascii_whitespace() {
            if !out.ends_with(' ') {
                out.push(' ');
            }
        } else {
            out.push(c);
        }
        rest = &rest[c.len_utf8()..];
    }
    out
}

fn doc_type(t: &Ty) -> String {
    let all = |ts: &[Ty]| ts.iter().map(doc_type).collect::<Vec<_>>().join(", ");
    match t {
        Ty::Basic(b) => b.clone(),
        Ty::Wrap(w, ts) => format!("{w}<{}>", all(ts)),
        Ty::Tuple(ts) => format!("({})", all(ts)),
        Ty::Array(t, n) => format!("[{}; {n}]", doc_type(t)),
        Ty::Ext(path, name, ts) => {
            let mut s = path.iter().map(|p| format!("{p}::")).collect::<String>() + name;
            if !ts.is_empty() {
                s += &format!("<{}>", all(ts));
            }
            s
        }
    }
}

struct Page {
    text: String,
    at: usize,
    path: String,
}

impl Page {
    fn open(files: &BTreeMap<String, Vec<u8>>, path: String) -> Result<Self, String> {
        let c = files.get(&path).ok_or_else(|| format!("{path} does not exist"))?;
        Ok(Self { text: plain(&String::from_utf8_lossy(c)), at: 0, path })
    }

    /// The text follows somewhere after what was found before.
    fn next(&mut self, what: &str) -> Res {
        match self.text[self.at..].find(what) {
            Some(i) => {
                self.at += i + what.len();
                Ok(())
            }
            None => Err(format!("{} says nothing about {what:?} (in this place)", self.path)),
        }
    }

    fn words(&self, comment: &[String]) -> Res {
        for w in comment.iter().flat_map(|l| l.split(' ')) {
            if w.len() > 1 && w.bytes().all(|b| b.is_ascii_alphabetic()) && !self.text.contains(w) {
                return Err(format!("{} lacks {w:?} of a comment", self.path));
            }
        }
        Ok(())
    }

    fn field(&mut self, f: &Field, id: u64, named: bool) -> Res {
        let ty = doc_type(&f.ty);
        match &f.name {
            Some(n) if named => self.next(&format!(" {}: {ty} @{id}", n.text))?,
            _ => self.next(&format!("{ty} @{id}"))?,
        }
        self.words(&f.comment)
    }
}

fn generics(g: &[schemaread::Name]) -> String {
    if g.is_empty() {
        return String::new();
    }
    format!("<{}>", g.iter().map(|n| n.text.as_str()).collect::<Vec<_>>().join(", "))
}

/// The pages of one schema or module, in `dir`.
pub fn doc(files: &BTreeMap<String, Vec<u8>>, dir: &str, comment: &[String], defs: &[Def]) -> Res {
    let index = Page::open(files, format!("{dir}/index.html"))?;
    index.words(comment)?;
    for d in defs {
        let name = &d.name.text;
        let kind = match &d.body {
            Body::Import(..) => continue,
            Body::Module(inner) => {
                doc(files, &format!("{dir}/{name}"), &d.comment, inner)?;
                "module"
            }
            Body::Struct(..) => "struct",
            Body::Enum(..) => "enum",
            Body::Alias(..) => "alias",
            Body::Const(..) => "constant",
        };
        if !index.text.contains(name.as_str()) {
            return Err(format!("{} does not list {kind} {name}", index.path));
        }
        if kind == "module" {
            continue;
        }
        let mut page = Page::open(files, format!("{dir}/{kind}.{name}.html"))?;
        page.words(&d.comment)?;
        match &d.body {
            Body::Struct(g, f) => {
                page.next(&format!("struct {name}{}", generics(g)))?;
                for (x, id) in f.list().iter().zip(f.ids()) {
                    page.field(x, id, matches!(f, Fields::Named(_)))?;
                }
            }
            Body::Enum(g, vs) => {
                page.next(&format!("enum {name}{}", generics(g)))?;
                for (v, id) in vs.iter().zip(schemaread::fill_ids(vs.iter().map(|v| v.id))) {
                    page.next(&format!(" {}", v.name.text))?;
                    for (x, id) in v.fields.list().iter().zip(v.fields.ids()) {
                        page.field(x, id, matches!(v.fields, Fields::Named(_)))?;
                    }
                    page.next(&format!(" @{id},"))?;
                    page.words(&v.comment)?;
                }
            }
            Body::Alias(g, t) => page.next(&format!("type {name}{} = {};", generics(g), doc_type(t)))?,
            Body::Const(t, v) => {
                page.next(&format!("const {name}: {} =", doc_type(t)))?;
                let rest = &page.text[page.at..];
                let have = rest.trim_start();
                let ok = match v {
                    Value::Bool(b) => have.starts_with(&format!("{b};")),
                    Value::Int(i) => have.starts_with(&format!("{i};")),
                    Value::Float(f) => have
                        .split(';')
                        .next()
                        .and_then(|h| h.parse::<f64>().ok())
                        .is_some_and(|h| h.to_bits() == *f),
                    Value::Text(_) => have.starts_with('"'),
                    Value::Bytes(b) => have.starts_with(&format!("{b:?};")),
                };
                if !ok {
                    let have: String = have.chars().take(40).collect();
                    return Err(format!("{} shows {have:?} instead of {v:?}", page.path));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
