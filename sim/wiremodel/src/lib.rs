//! Independent model of Mabo schemas, values and the wire format. Nothing in here uses code of the
//! repository: it is the oracle the real runtime and the real code generator are compared with.

pub mod codec;
pub mod generate;
pub mod value;

pub use codec::*;
pub use generate::{Family, Model, model};
pub use value::*;

pub type DefId = usize;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ty {
    Bool,
    Int { signed: bool, bits: u8 },
    F32,
    F64,
    Str,
    StrRef,
    Bytes,
    BytesRef,
    BoxStr,
    BoxBytes,
    Vec(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    Opt(Box<Ty>),
    Nz(Box<Ty>),
    Tuple(Vec<Ty>),
    Arr(Box<Ty>, u32),
    Named(DefId, Vec<Ty>),
    Param(usize),
}

pub const fn uint(bits: u8) -> Ty {
    Ty::Int { signed: false, bits }
}

pub const fn sint(bits: u8) -> Ty {
    Ty::Int { signed: true, bits }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub explicit: bool,
    pub id: u32,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub enum Fields {
    Named(Vec<Field>),
    Unnamed(Vec<Field>),
    Unit,
}

impl Fields {
    pub fn list(&self) -> &[Field] {
        match self {
            Fields::Named(f) | Fields::Unnamed(f) => f,
            Fields::Unit => &[],
        }
    }

    pub fn list_mut(&mut self) -> Option<&mut Vec<Field>> {
        match self {
            Fields::Named(f) | Fields::Unnamed(f) => Some(f),
            Fields::Unit => None,
        }
    }

    pub fn is_named(&self) -> bool {
        matches!(self, Fields::Named(_))
    }

    pub fn is_unit(&self) -> bool {
        matches!(self, Fields::Unit)
    }
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub explicit: bool,
    pub id: u32,
    pub fields: Fields,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Struct(Fields),
    Enum(Vec<Variant>),
    Alias(Ty),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub stem: String,
    pub path: Vec<String>,
    pub name: String,
    pub generics: Vec<String>,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
pub enum Item {
    Def(DefId),
    Mod(String, Vec<Item>),
    Import { stem: String, path: Vec<String>, name: String },
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct File {
    pub stem: String,
    pub items: Vec<Item>,
}

/// Substitute generic parameters.
pub fn subst(ty: &Ty, args: &[Ty]) -> Ty {
    let b = |t: &Ty| Box::new(subst(t, args));
    match ty {
        Ty::Param(i) => args[*i].clone(),
        Ty::Vec(t) => Ty::Vec(b(t)),
        Ty::Map(k, v) => Ty::Map(b(k), b(v)),
        Ty::Set(t) => Ty::Set(b(t)),
        Ty::Opt(t) => Ty::Opt(b(t)),
        Ty::Nz(t) => Ty::Nz(b(t)),
        Ty::Arr(t, n) => Ty::Arr(b(t), *n),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(|t| subst(t, args)).collect()),
        Ty::Named(d, a) => Ty::Named(*d, a.iter().map(|t| subst(t, args)).collect()),
        other => other.clone(),
    }
}

impl Model {
    /// The schema text of one file.
    pub fn print_file(&self, file: &File) -> String {
        let mut out = String::new();
        self.print_items(&mut out, &file.stem, &[], &file.items, 0);
        out
    }

    fn print_items(&self, out: &mut String, stem: &str, path: &[String], items: &[Item], ind: usize) {
        let pad = "    ".repeat(ind);
        for item in items {
            match item {
                Item::Mod(name, items) => {
                    out.push_str(&format!("{pad}/// Module {name}.\n{pad}mod {name} {{\n"));
                    let mut p = path.to_vec();
                    p.push(name.clone());
                    self.print_items(out, stem, &p, items, ind + 1);
                    out.push_str(&format!("{pad}}}\n\n"));
                }
                Item::Import { stem, path, name } => {
                    let mut segs = vec![stem.clone()];
                    segs.extend(path.iter().cloned());
                    out.push_str(&format!("{pad}use {}::{name};\n\n", segs.join("::")));
                }
                Item::Raw(text) => out.push_str(&format!("{pad}{text}\n\n")),
                Item::Def(d) => {
                    let def = &self.defs[*d];
                    let gens = if def.generics.is_empty() {
                        String::new()
                    } else {
                        format!("<{}>", def.generics.join(", "))
                    };
                    out.push_str(&format!("{pad}/// Type {}.\n", def.name));
                    let ty = |t: &Ty| self.print_ty(t, stem, path, &def.generics);
                    match &def.kind {
                        Kind::Alias(t) => {
                            out.push_str(&format!("{pad}type {}{gens} = {};\n\n", def.name, ty(t)));
                        }
                        Kind::Struct(f) => {
                            out.push_str(&format!("{pad}struct {}{gens}", def.name));
                            out.push_str(&print_fields(f, &pad, &ty));
                            out.push_str("\n\n");
                        }
                        Kind::Enum(vs) => {
                            out.push_str(&format!("{pad}enum {}{gens} {{\n", def.name));
                            let inner = format!("{pad}    ");
                            for v in vs {
                                out.push_str(&format!("{inner}{}", v.name));
                                out.push_str(&print_fields(&v.fields, &inner, &ty));
                                if v.explicit {
                                    out.push_str(&format!(" @{}", v.id));
                                }
                                out.push_str(",\n");
                            }
                            out.push_str(&format!("{pad}}}\n\n"));
                        }
                    }
                }
            }
        }
    }

    pub fn print_ty(&self, ty: &Ty, stem: &str, path: &[String], generics: &[String]) -> String {
        let p = |t: &Ty| self.print_ty(t, stem, path, generics);
        match ty {
            Ty::Bool => "bool".into(),
            Ty::Int { signed, bits } => format!("{}{bits}", if *signed { 'i' } else { 'u' }),
            Ty::F32 => "f32".into(),
            Ty::F64 => "f64".into(),
            Ty::Str => "string".into(),
            Ty::StrRef => "&string".into(),
            Ty::Bytes => "bytes".into(),
            Ty::BytesRef => "&bytes".into(),
            Ty::BoxStr => "box<string>".into(),
            Ty::BoxBytes => "box<bytes>".into(),
            Ty::Vec(t) => format!("vec<{}>", p(t)),
            Ty::Map(k, v) => format!("hash_map<{}, {}>", p(k), p(v)),
            Ty::Set(t) => format!("hash_set<{}>", p(t)),
            Ty::Opt(t) => format!("option<{}>", p(t)),
            Ty::Nz(t) => format!("non_zero<{}>", p(t)),
            Ty::Tuple(ts) => format!("({})", ts.iter().map(p).collect::<Vec<_>>().join(", ")),
            Ty::Arr(t, n) => format!("[{}; {n}]", p(t)),
            Ty::Param(i) => generics[*i].clone(),
            Ty::Named(d, args) => {
                let def = &self.defs[*d];
                let mut segs: Vec<String> = if def.stem == stem {
                    assert!(def.path.starts_with(path), "type not reachable from module");
                    def.path[path.len()..].to_vec()
                } else {
                    Vec::new() // imported by name
                };
                segs.push(def.name.clone());
                let args = if args.is_empty() {
                    String::new()
                } else {
                    format!("<{}>", args.iter().map(p).collect::<Vec<_>>().join(", "))
                };
                format!("{}{args}", segs.join("::"))
            }
        }
    }

    /// Path of the generated Rust type.
    pub fn rust_path(&self, d: DefId, root: &str) -> String {
        let def = &self.defs[d];
        let mut segs = vec![root.to_owned(), def.stem.clone()];
        segs.extend(def.path.iter().cloned());
        segs.push(def.name.clone());
        segs.join("::")
    }
}

fn print_fields(f: &Fields, pad: &str, ty: &dyn Fn(&Ty) -> String) -> String {
    let id = |f: &Field| if f.explicit { format!(" @{}", f.id) } else { String::new() };
    match f {
        Fields::Unit => String::new(),
        Fields::Named(fs) => {
            let mut s = " {\n".to_owned();
            for f in fs {
                s.push_str(&format!("{pad}    {}: {}{},\n", f.name, ty(&f.ty), id(f)));
            }
            s.push_str(&format!("{pad}}}"));
            s
        }
        Fields::Unnamed(fs) => {
            let list: Vec<_> = fs.iter().map(|f| format!("{}{}", ty(&f.ty), id(f))).collect();
            format!("({})", list.join(", "))
        }
    }
}
