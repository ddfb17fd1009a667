//! What the server's answers about a text have to be, from the text alone.

use schemaread::{Body, Class, Def, Fields, File, Ty};
use serde_json::Value;

use crate::text::{Enc, Pos, exact, offset};

pub type Verdict = Result<(), (String, String)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hov {
    pub next: bool,
    pub size: bool,
}

pub enum Judged {
    Valid,
    /// Message chain and the places the compiler blames.
    Bad { syntax: bool, spans: Vec<(usize, usize)> },
}

fn labels(e: &dyn mabo_parser::Diagnostic) -> Vec<(usize, usize)> {
    let mut out: Vec<_> =
        e.labels().into_iter().flatten().map(|l| (l.offset(), l.offset() + l.len())).collect();
    if let Some(inner) = e.diagnostic_source() {
        out.extend(labels(inner));
    }
    out
}

/// Every place the parser's error mentions anywhere in its chain of causes.
fn mentioned(e: &dyn std::fmt::Debug, len: usize) -> Vec<(usize, usize)> {
    let text = format!("{e:?}");
    let num = |s: &str| s.parse::<usize>().ok().filter(|n| *n <= len);
    let mut out = Vec::new();
    for w in text.split(|c: char| !c.is_ascii_digit() && c != '.') {
        if let Some((a, b)) = w.split_once("..") {
            if let (Some(a), Some(b)) = (num(a), num(b)) {
                out.push((a, b));
            }
        } else if let Some(n) = num(w) {
            out.push((n, n));
        }
    }
    out
}

pub fn judge(text: &str) -> Judged {
    match mabo_parser::Schema::parse(text, None) {
        Err(e) => {
            let mut spans = labels(&e);
            spans.extend(mentioned(&e, text.len()));
            Judged::Bad { syntax: true, spans }
        }
        Ok(s) => match mabo_compiler::validate_schema(&s) {
            Ok(()) => Judged::Valid,
            Err(e) => Judged::Bad { syntax: false, spans: labels(&e) },
        },
    }
}

pub fn valid(text: &str) -> bool {
    matches!(judge(text), Judged::Valid)
}

fn pos(v: &Value) -> Option<Pos> {
    Some((u32::try_from(v["line"].as_u64()?).ok()?, u32::try_from(v["character"].as_u64()?).ok()?))
}

/// The byte range a protocol range designates; positions must exist in the text.
fn slice(text: &str, enc: Enc, range: &Value) -> Result<(usize, usize), String> {
    let get = |name: &str| -> Result<usize, String> {
        let p = pos(&range[name]).ok_or_else(|| format!("bad range {range}"))?;
        exact(text, enc, p).ok_or_else(|| format!("{name} {p:?} is not a position of the text"))
    };
    let (a, b) = (get("start")?, get("end")?);
    if a > b {
        return Err(format!("reversed range {range}"));
    }
    Ok((a, b))
}

fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, (String, String)> {
    Err((class.to_owned(), detail.into()))
}

pub fn diagnostics(text: &str, enc: Enc, uri: &str, list: &Value) -> Verdict {
    let Some(list) = list.as_array() else { return bad("diagnostics", "no diagnostics array") };
    match judge(text) {
        Judged::Valid => {
            if !list.is_empty() {
                return bad("diagnostics", format!("a valid document has diagnostics {list:?}"));
            }
        }
        Judged::Bad { syntax, spans } => {
            if list.is_empty() {
                return bad("diagnostics", format!("an invalid document (syntax error: {syntax}) has no diagnostics"));
            }
            for d in list {
                let r = match slice(text, enc, &d["range"]) {
                    Ok(r) => r,
                    Err(e) => return bad("diagnostic-range", e),
                };
                if d["message"].as_str().is_none_or(str::is_empty) {
                    return bad("diagnostics", "a diagnostic without message");
                }
                let blamed = |r: (usize, usize)| spans.iter().any(|s| *s == r);
                if syntax {
                    // syntax errors are reported at a point
                    if !spans.is_empty() && !blamed(r) {
                        return bad("diagnostic-range", format!("syntax error reported at bytes {r:?}, but it is at {spans:?}"));
                    }
                } else {
                    if !blamed(r) {
                        return bad("diagnostic-range", format!("error reported at bytes {r:?}, but it is at {spans:?}"));
                    }
                    for rel in d["relatedInformation"].as_array().into_iter().flatten() {
                        if rel["location"]["uri"] != uri {
                            return bad("diagnostic-range", format!("related location in {}", rel["location"]["uri"]));
                        }
                        match slice(text, enc, &rel["location"]["range"]) {
                            Ok(q) if blamed(q) && q != r => {}
                            other => {
                                return bad(
                                    "diagnostic-range",
                                    format!("related place {other:?} next to {r:?}, blamed places are {spans:?}"),
                                );
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

struct Sym {
    name: String,
    kind: u64,
    start: usize,
    end: usize,
    /// The range may include the blanks around it.
    loose: bool,
    children: Vec<Sym>,
}

fn field_syms(f: &Fields) -> Vec<Sym> {
    f.list()
        .iter()
        .enumerate()
        .map(|(i, f)| match &f.name {
            Some(n) => Sym { name: n.text.clone(), kind: 7, start: n.at, end: n.end(), loose: false, children: vec![] },
            None => Sym { name: i.to_string(), kind: 7, start: f.start, end: f.end, loose: true, children: vec![] },
        })
        .collect()
}

fn sym(d: &Def) -> Sym {
    let (kind, children) = match &d.body {
        Body::Module(defs) => (2, defs.iter().map(sym).collect()),
        Body::Struct(_, f) => (23, field_syms(f)),
        Body::Enum(_, vs) => (
            10,
            vs.iter()
                .map(|v| Sym {
                    name: v.name.text.clone(),
                    kind: 22,
                    start: v.name.at,
                    end: v.name.end(),
                    loose: false,
                    children: field_syms(&v.fields),
                })
                .collect(),
        ),
        Body::Alias(..) => (13, vec![]),
        Body::Const(..) => (14, vec![]),
        Body::Import(..) => (1, vec![]),
    };
    Sym { name: d.name.text.clone(), kind, start: d.name.at, end: d.name.end(), loose: false, children }
}

fn read(text: &str) -> Result<Option<File>, (String, String)> {
    if !valid(text) {
        return Ok(None);
    }
    match schemaread::read(text) {
        Ok(f) => Ok(Some(f)),
        Err(e) => bad("harness", format!("the second reader rejects a text the parser accepts: {e}\n{text}")),
    }
}

fn symbols_match(text: &str, enc: Enc, want: &[Sym], got: &Value, path: &str) -> Verdict {
    let empty = Vec::new();
    let got = got.as_array().unwrap_or(&empty);
    if want.len() != got.len() {
        return bad("symbols", format!("{path}: {} symbols expected, got {got:?}", want.len()));
    }
    for (w, g) in want.iter().zip(got) {
        let here = format!("{path}/{}", w.name);
        if g["name"] != w.name.as_str() || g["kind"] != w.kind {
            return bad("symbols", format!("{here}: got symbol {} of kind {}", g["name"], g["kind"]));
        }
        for which in ["range", "selectionRange"] {
            let (mut a, mut b) = match slice(text, enc, &g[which]) {
                Ok(r) => r,
                Err(e) => return bad("symbols", format!("{here}: {which}: {e}")),
            };
            if w.loose {
                let s = &text[a..b];
                a += s.len() - s.trim_start().len();
                b = a + text[a..b].trim_end().len();
            }
            let ok = if which == "range" { a <= w.start && w.end <= b } else { (a, b) == (w.start, w.end) };
            if !ok {
                return bad(
                    "symbols",
                    format!("{here}: {which} {} designates {:?}, not {:?}", g[which], &text[a..b], &text[w.start..w.end]),
                );
            }
        }
        symbols_match(text, enc, &w.children, &g["children"], &here)?;
    }
    Ok(())
}

pub fn symbols(text: &str, enc: Enc, result: &Value) -> Verdict {
    let want: Vec<Sym> = read(text)?.map(|f| f.defs.iter().map(sym).collect()).unwrap_or_default();
    symbols_match(text, enc, &want, result, "")
}

fn fits(ty: &str, class: Class, s: &str) -> bool {
    match ty {
        "namespace" => matches!(class, Class::ModuleName | Class::Segment),
        "type" => class == Class::TypeRef,
        "enum" => class == Class::EnumName,
        "struct" => class == Class::StructName,
        "typeParameter" => class == Class::GenericName,
        "variable" => class == Class::ConstName,
        "property" => class == Class::FieldName,
        "enumMember" => class == Class::VariantName,
        "keyword" => class == Class::Keyword,
        "comment" => class == Class::Comment,
        "number" => class == Class::Number,
        "boolean" => class == Class::Bool,
        "string" => class == Class::Text,
        "builtinType" => class == Class::Builtin,
        "identifier" => class == Class::Id,
        "typeAlias" => class == Class::AliasName,
        "comma" => s == ",",
        "colon" => s == ":",
        "semicolon" => s == ";",
        "doubleColon" => s == "::",
        "equal" => s == "=",
        "brace" => s == "{" || s == "}",
        "bracket" => s == "[" || s == "]",
        "parenthesis" => s == "(" || s == ")",
        "angle" => s == "<" || s == ">",
        "pound" => s == "#",
        _ => true,
    }
}

pub struct Legend {
    pub types: Vec<String>,
    pub modifiers: Vec<String>,
}

pub fn tokens(text: &str, enc: Enc, legend: &Legend, result: &Value) -> Verdict {
    let empty = Vec::new();
    let data = result["data"].as_array().unwrap_or(&empty);
    let Some(file) = read(text)? else {
        if !data.is_empty() {
            return bad("tokens", "tokens for an invalid document");
        }
        return Ok(());
    };
    if data.len() % 5 != 0 {
        return bad("tokens", "token data is not a multiple of five");
    }
    let n: Vec<u64> = data.iter().map(|v| v.as_u64().unwrap_or(u64::MAX)).collect();
    let (mut line, mut col) = (0u64, 0u64);
    let mut last_end = 0;
    let mut seen = std::collections::BTreeMap::new();
    for (i, t) in n.chunks(5).enumerate() {
        if t[0] > 0 {
            line += t[0];
            col = t[1];
        } else {
            col += t[1];
        }
        let at = |c: u64| -> Option<usize> { exact(text, enc, (u32::try_from(line).ok()?, u32::try_from(c).ok()?)) };
        let (Some(a), Some(b)) = (at(col), at(col + t[2])) else {
            return bad("tokens", format!("token {i} at {line}:{col}+{} is not a place in the text", t[2]));
        };
        let Some(ty) = legend.types.get(t[3] as usize) else {
            return bad("tokens", format!("token {i} has type {} beyond the legend", t[3]));
        };
        if i > 0 && a < last_end {
            return bad("tokens", format!("token {i} {:?} overlaps its predecessor", &text[a..b]));
        }
        last_end = b;
        let Some(l) = file.lexemes.iter().find(|l| l.start == a) else {
            return bad("tokens", format!("token {i} of type {ty} designates {:?}, no lexeme starts there", &text[a..b]));
        };
        let lexeme = text[l.start..l.end].trim_end_matches('\r');
        if text[a..b].trim_end_matches('\r') != lexeme || !fits(ty, l.class, lexeme) {
            return bad("tokens", format!("token {i} of type {ty} designates {:?}, the lexeme is {lexeme:?} ({:?})", &text[a..b], l.class));
        }
        let decl = legend.modifiers.iter().position(|m| m == "declaration").is_some_and(|p| t[4] >> p & 1 == 1);
        let declares = matches!(
            l.class,
            Class::ModuleName
                | Class::StructName
                | Class::EnumName
                | Class::VariantName
                | Class::AliasName
                | Class::ConstName
                | Class::FieldName
                | Class::GenericName
        );
        if declares != decl {
            return bad("tokens", format!("token {i} {lexeme:?}: declaration modifier {decl}"));
        }
        seen.insert(l.start, ());
    }
    for l in &file.lexemes {
        let required = !matches!(
            l.class,
            Class::Punct | Class::Text | Class::Attribute | Class::Comment | Class::Number
        );
        if required && !seen.contains_key(&l.start) {
            return bad("tokens", format!("no token for {:?} ({:?}) at byte {}", &text[l.start..l.end], l.class, l.start));
        }
    }
    Ok(())
}

/// Something hovering tells about.
pub struct Item {
    pub start: usize,
    pub end: usize,
    pub name: String,
    comment: Vec<String>,
    /// Next free id, where there is one.
    next: Option<u64>,
    /// Type of a field, whose size on the wire is told.
    ty: Option<Ty>,
}

struct Size {
    label: String,
    min: u64,
    max: Option<u64>,
    inner: Vec<(String, Option<Size>)>,
}

impl Size {
    fn print(&self, indent: usize) -> String {
        let bounds = match self.max {
            Some(m) if m == self.min => m.to_string(),
            Some(m) => format!("{}..{m}", self.min),
            None => format!("{}..", self.min),
        };
        let mut s = format!("**{}** `{bounds}`", self.label);
        for (name, size) in &self.inner {
            let size = size.as_ref().map_or_else(|| "_unknown_".to_owned(), |w| w.print(indent + 2));
            s.push_str(&format!("\n{:indent$}- {name}: {size}", ""));
        }
        s
    }
}

fn varint(v: u64) -> u64 {
    u64::from(64 - v.leading_zeros()).div_ceil(7).max(1)
}

/// The bounds hovering tells for the encoded size of a type. `exact`: the length of an array counts
/// its bytes and not its elements, and that of a tuple is part of it.
fn wire_size(ty: &Ty, exact: bool) -> Option<Size> {
    let leaf = |label: &str, min, max| Some(Size { label: label.into(), min, max, inner: Vec::new() });
    // number of seven-bit groups of a variable-length integer
    let int = |label: &str| {
        let bits: u64 = label[1..].parse().unwrap_or(0);
        leaf(label, 1, Some(if bits == 8 { 1 } else { bits.div_ceil(7) }))
    };
    let add = |a: Option<u64>, b: Option<u64>| Some(a?.saturating_add(b?));
    match ty {
        Ty::Basic(b) => match b.as_str() {
            "bool" => leaf(b, 1, Some(1)),
            "f32" => leaf(b, 4, Some(4)),
            "f64" => leaf(b, 8, Some(8)),
            _ if b.contains("string") || b.contains("bytes") => leaf(b, 1, None),
            _ => int(b),
        },
        Ty::Wrap(w, of) => {
            let mut inner: Vec<_> = of.iter().map(|t| wire_size(t, exact)).collect();
            let names: &[&str] = match w.as_str() {
                "vec" | "hash_set" => &["element"],
                "hash_map" => &["key", "value"],
                _ => {
                    let value = inner.pop().flatten();
                    let one = u64::from(!(exact && w == "non_zero"));
                    let max = add(value.as_ref().and_then(|v| v.max), Some(one));
                    let min = if one == 0 { value.as_ref().map_or(0, |v| v.min) } else { 0 };
                    return Some(Size { label: w.clone(), min, max, inner: vec![("value".into(), value)] });
                }
            };
            let mut list = vec![("length".to_owned(), int("u64"))];
            list.extend(names.iter().map(|n| (*n).to_owned()).zip(inner));
            Some(Size { label: w.clone(), min: 1, max: None, inner: list })
        }
        Ty::Tuple(of) => {
            let inner: Vec<_> = of.iter().enumerate().map(|(i, t)| (i.to_string(), wire_size(t, exact))).collect();
            let mut min = inner.iter().filter_map(|i| i.1.as_ref()).fold(0u64, |a, w| a.saturating_add(w.min));
            let mut max = inner.iter().fold(Some(0), |a, i| add(a, i.1.as_ref().and_then(|w| w.max)));
            if exact {
                min = min.saturating_add(varint(min));
                max = add(max, max.map(varint));
            }
            Some(Size { label: "tuple".into(), min, max, inner })
        }
        Ty::Array(of, n) => {
            let of = wire_size(of, exact);
            let content = (
                of.as_ref().map_or(0, |w| w.min).saturating_mul(*n),
                of.as_ref().and_then(|w| w.max).map(|m| m.saturating_mul(*n)),
            );
            let length = if exact {
                (varint(content.0), content.1.map_or(Some(10), |m| Some(varint(m))))
            } else {
                (varint(*n), Some(varint(*n)))
            };
            Some(Size {
                label: "array".into(),
                min: content.0.saturating_add(length.0),
                max: add(content.1, length.1),
                inner: vec![("length".into(), leaf("u64", length.0, length.1)), ("element".into(), of)],
            })
        }
        Ty::Ext(..) => None,
    }
}

fn field_items(f: &Fields, out: &mut Vec<Item>) {
    for f in f.list() {
        if let Some(n) = &f.name {
            out.push(Item {
                start: n.at,
                end: n.end(),
                name: n.text.clone(),
                comment: f.comment.clone(),
                next: None,
                ty: Some(f.ty.clone()),
            });
        }
    }
}

fn next_of(f: &Fields) -> Option<u64> {
    match f {
        Fields::Unit => None,
        _ => Some(f.ids().into_iter().max().unwrap_or(0) + 1),
    }
}

fn items_of(d: &Def, out: &mut Vec<Item>) {
    let mut item = |next| {
        out.push(Item {
            start: d.name.at,
            end: d.name.end(),
            name: d.name.text.clone(),
            comment: d.comment.clone(),
            next,
            ty: None,
        });
    };
    match &d.body {
        Body::Module(defs) => {
            item(None);
            for d in defs {
                items_of(d, out);
            }
        }
        Body::Struct(_, f) => {
            item(next_of(f));
            field_items(f, out);
        }
        Body::Enum(_, vs) => {
            item(Some(schemaread::fill_ids(vs.iter().map(|v| v.id)).into_iter().max().unwrap_or(0) + 1));
            for v in vs {
                out.push(Item {
                    start: v.name.at,
                    end: v.name.end(),
                    name: v.name.text.clone(),
                    comment: v.comment.clone(),
                    next: next_of(&v.fields),
                    ty: None,
                });
                field_items(&v.fields, out);
            }
        }
        Body::Alias(..) | Body::Const(..) => item(None),
        Body::Import(..) => {}
    }
}

pub fn items(text: &str) -> Vec<Item> {
    let mut out = Vec::new();
    if let Ok(Some(f)) = read(text) {
        for d in &f.defs {
            items_of(d, &mut out);
        }
    }
    out
}

/// Checks a hover result; the settings in force are one of `settings` (empty: unknown).
pub fn hover(text: &str, enc: Enc, at: Pos, settings: &[Hov], result: &Value) -> Verdict {
    let items = items(text);
    let off = offset(text, enc, at);
    let hit = off.and_then(|o| items.iter().find(|i| i.start <= o && o < i.end));
    let edge = off.and_then(|o| items.iter().find(|i| i.end == o));
    if result.is_null() {
        return match hit {
            Some(i) => bad("hover-item", format!("no hover on {} at {at:?}", i.name)),
            None => Ok(()),
        };
    }
    let Some(i) = hit.or(edge) else {
        return bad("hover-item", format!("hover where there is nothing, at {at:?} (byte {off:?}): {result}"));
    };
    if !result["range"].is_null() {
        match slice(text, enc, &result["range"]) {
            Ok(r) if r == (i.start, i.end) => {}
            other => {
                return bad("hover-item", format!("hover on {} has range {} = {other:?}", i.name, result["range"]));
            }
        }
    }
    let Some(shown) = result["contents"]["value"].as_str() else {
        return bad("hover-item", format!("hover without text: {result}"));
    };
    let mut rest = shown;
    for line in &i.comment {
        let line = line.trim_end();
        match rest.find('\n') {
            Some(n) if rest[..n].trim_end() == line => rest = &rest[n + 1..],
            _ => return bad("hover-item", format!("hover on {} lacks comment line {line:?}: {shown:?}", i.name)),
        }
    }
    let next = rest.lines().find_map(|l| l.strip_prefix("- next ID: `")).map(|l| l.trim_end_matches('`').to_owned());
    if let (Some(shown), Some(want)) = (&next, i.next) {
        // ids end with the 32-bit range; nothing follows the last one
        if *shown != want.to_string() && want <= u64::from(u32::MAX) {
            return bad("hover-item", format!("hover on {}: next id {shown}, expected {want}", i.name));
        }
    }
    let size = rest.contains("### Wire size");
    if next.is_some() && i.next.is_none() || size && i.ty.is_none() {
        return bad("hover-item", format!("hover on {} shows {rest:?}", i.name));
    }
    if let (true, Some(ty)) = (size, &i.ty) {
        let told = rest.trim_start().strip_prefix("### Wire size").unwrap_or(rest).trim();
        let want = |exact| wire_size(ty, exact).map_or_else(|| "_unknown_".to_owned(), |w| w.print(2));
        if told != want(false) && told != want(true) {
            return bad("wire-size", format!("hover on {} tells {told:?}, expected {:?}", i.name, want(false)));
        }
    }
    let free = i.next.is_some_and(|n| n > u64::from(u32::MAX));
    let fits = |s: &Hov| {
        (free || i.next.is_none() || next.is_some() == s.next) && (i.ty.is_none() || size == s.size)
    };
    if !settings.is_empty() && !settings.iter().any(fits) {
        return bad("settings", format!("hover on {} shows {rest:?}, settings in force are {settings:?}", i.name));
    }
    Ok(())
}
