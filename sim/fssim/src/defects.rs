//! Small pieces of schema text, each either valid or with exactly one known defect.

use schemaread::{Body, Def};
use simcore::Source;

/// What another schema of the project offers.
#[derive(Clone, Debug, Default)]
pub struct Other {
    pub stem: String,
    /// Structs and enums: path of modules, name, number of generics.
    pub types: Vec<(Vec<String>, String, usize)>,
    pub aliases: Vec<(Vec<String>, String)>,
    pub consts: Vec<(Vec<String>, String)>,
    pub modules: Vec<Vec<String>>,
}

impl Other {
    pub fn new(stem: &str, text: &str) -> Self {
        let mut o = Self { stem: stem.to_owned(), ..Self::default() };
        if let Ok(f) = schemaread::read(text) {
            o.collect(&f.defs, &[]);
        }
        o
    }

    fn collect(&mut self, defs: &[Def], at: &[String]) {
        for d in defs {
            let name = d.name.text.clone();
            match &d.body {
                Body::Struct(g, _) | Body::Enum(g, _) => self.types.push((at.to_vec(), name, g.len())),
                Body::Alias(..) => self.aliases.push((at.to_vec(), name)),
                Body::Const(..) => self.consts.push((at.to_vec(), name)),
                Body::Module(inner) => {
                    let mut at = at.to_vec();
                    at.push(name);
                    self.modules.push(at.clone());
                    self.collect(inner, &at);
                }
                _ => {}
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Good,
    Invalid,
    Unresolved,
}

struct F {
    name: String,
    ty: String,
    id: Option<u32>,
}

pub struct Pieces<'a> {
    src: &'a mut Source,
    n: usize,
    /// Definitions that types are used of, to be put besides them.
    extra: String,
    others: &'a [Other],
    /// What was done, for the trace.
    pub kind: String,
}

const BASIC: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "string", "bytes", "&string",
    "&bytes", "non_zero<u32>", "box<string>", "box<bytes>",
];

impl<'a> Pieces<'a> {
    /// Names are numbered from `n`.
    pub fn new(src: &'a mut Source, others: &'a [Other], n: usize) -> Self {
        Self { src, n, extra: String::new(), others, kind: String::new() }
    }

    /// A piece of text with the wanted property, wherever it is put.
    pub fn make(&mut self, want: Want) -> String {
        let mut piece = match want {
            Want::Good => self.good(),
            Want::Invalid => self.invalid(),
            Want::Unresolved => self.unresolved(),
        };
        piece.push_str(&std::mem::take(&mut self.extra));
        self.wrap(piece)
    }

    fn name(&mut self) -> String {
        self.n += 1;
        format!("Zq{}", self.n)
    }

    fn lower(&mut self) -> String {
        self.n += 1;
        format!("zq{}", self.n)
    }

    fn wrap(&mut self, mut piece: String) -> String {
        // imports are put into a module of their own, so that their names don't clash
        let depth = self.src.skewed(4).max(u64::from(piece.contains("use ")));
        for _ in 0..depth {
            let m = self.lower();
            let (before, after) = match self.src.below(4) {
                0 => (self.filler(), String::new()),
                1 => (String::new(), self.filler()),
                _ => (String::new(), String::new()),
            };
            piece = format!("mod {m} {{\n{before}{piece}{after}}}\n");
        }
        piece
    }

    fn filler(&mut self) -> String {
        let name = self.name();
        match self.src.below(4) {
            0 => format!("struct {name}\n"),
            1 => format!("enum {name} {{ A, B(u8 @1) }}\n"),
            2 => format!("type {name} = u8;\n"),
            _ => format!("struct {name}<T>(T @1)\n"),
        }
    }

    fn basic(&mut self) -> String {
        (*self.src.pick(BASIC)).to_owned()
    }

    /// The type somewhere within another one.
    fn within(&mut self, mut ty: String) -> String {
        for _ in 0..self.src.skewed(4) {
            let b = self.basic();
            ty = match self.src.below(10) {
                8 => {
                    let g = self.name();
                    self.extra.push_str(&format!("struct {g}<T> {{ t: T }}\n"));
                    format!("{g}<{ty}>")
                }
                9 => {
                    let g = self.name();
                    self.extra.push_str(&format!("enum {g}<T, U> {{ A(T @1), B(option<U> @1) }}\n"));
                    if self.src.chance(1, 2) { format!("{g}<{ty}, {b}>") } else { format!("{g}<{b}, {ty}>") }
                }
                0 => format!("vec<{ty}>"),
                1 => format!("option<{ty}>"),
                2 => format!("hash_map<u8, {ty}>"),
                3 => format!("hash_map<{ty}, {b}>"),
                4 => format!("hash_set<{ty}>"),
                5 => format!("[{ty}; {}]", self.src.range(1, 9)),
                6 => format!("({b}, {ty})"),
                _ => format!("non_zero<vec<{ty}>>"),
            };
        }
        ty
    }

    /// Fields with distinct names and ids, some of the ids implied.
    fn record(&mut self, least: u64) -> Vec<F> {
        let k = least + self.src.below(5);
        let mut next = 1;
        let mut out = Vec::new();
        for i in 0..k {
            let ty = self.basic();
            let ty = self.within(ty);
            let id = match self.src.below(3) {
                0 => None,
                1 => Some(next),
                _ => Some(next + self.src.below(6) as u32),
            };
            next = id.unwrap_or(next) + 1;
            out.push(F { name: format!("f{i}"), ty, id });
        }
        out
    }

    fn fields(&mut self, fields: &[F], named: bool) -> String {
        let list: Vec<String> = fields
            .iter()
            .map(|f| {
                let id = f.id.map_or(String::new(), |i| format!(" @{i}"));
                if named { format!("{}: {}{id}", f.name, f.ty) } else { format!("{}{id}", f.ty) }
            })
            .collect();
        let tail = if self.src.chance(1, 2) { "," } else { "" };
        match (list.is_empty(), named) {
            (true, _) => String::new(),
            (_, true) => format!(" {{ {}{tail} }}", list.join(", ")),
            _ => format!("({})", list.join(", ")),
        }
    }

    /// The fields in a struct or in one of the variants of an enum.
    fn host(&mut self, fields: &[F], named: bool, generics: &str) -> String {
        let name = self.name();
        let body = self.fields(fields, named);
        if self.src.chance(1, 2) {
            return format!("struct {name}{generics}{body}\n{}", std::mem::take(&mut self.extra));
        }
        let n = self.src.below(3);
        let mut variants: Vec<String> = (0..n)
            .map(|i| {
                let r = self.record(0);
                let named = self.src.chance(1, 2);
                let body = self.fields(&r, named);
                format!("V{i}{body}")
            })
            .collect();
        let at = self.src.idx(variants.len() + 1);
        variants.insert(at, format!("Here{body}"));
        format!("enum {name}{generics} {{ {} }}\n{}", variants.join(", "), std::mem::take(&mut self.extra))
    }

    /// A type as it occurs in some field.
    fn somewhere(&mut self, ty: String) -> String {
        let ty = self.within(ty);
        let mut r = self.record(1);
        let at = self.src.idx(r.len());
        r[at].ty = ty;
        let named = self.src.chance(1, 2);
        self.host(&r, named, "")
    }

    fn def(&mut self, name: &str) -> String {
        match self.src.below(4) {
            0 => format!("struct {name}\n"),
            1 => format!("enum {name} {{ A, B }}\n"),
            2 => format!("type {name} = vec<u8>;\n"),
            _ => format!("struct {name} {{ x: u8 @1 }}\n"),
        }
    }

    fn tuple(&mut self, n: usize) -> String {
        let t: Vec<String> = (0..n).map(|_| self.basic()).collect();
        format!("({})", t.join(", "))
    }

    fn hosted_tuple(&mut self, n: usize) -> String {
        let t = self.tuple(n);
        match self.src.below(6) {
            2 => {
                self.n += 1;
                let t = self.within(t);
                format!("const ZQ{}: {t} = 1;\n", self.n)
            }
            0 => {
                let name = self.name();
                let t = self.within(t);
                format!("type {name} = {t};\n")
            }
            1 => {
                let g = self.name();
                let t = self.within(t);
                let user = self.somewhere(format!("{g}<{t}>"));
                format!("struct {g}<T>(T @1)\n{user}")
            }
            _ => self.somewhere(t),
        }
    }

    fn invalid(&mut self) -> String {
        let kind = self.src.below(12);
        match kind {
            0 | 1 => {
                // the same id twice
                self.kind = "field id twice".into();
                let mut r = self.record(2);
                let j = 1 + self.src.idx(r.len() - 1);
                let i = self.src.idx(j);
                let id = effective(&r)[i];
                r[j].id = Some(id);
                let named = kind == 0;
                self.host(&r, named, "")
            }
            2 => {
                self.kind = "implied field id twice".into();
                let (a, b) = (self.basic(), self.basic());
                let first = 2 + self.src.below(9) as u32;
                let fs = [
                    F { name: "a".into(), ty: a, id: Some(first) },
                    F { name: "b".into(), ty: b, id: Some(first - 1) },
                    F { name: "c".into(), ty: "u8".into(), id: None },
                ];
                let named = self.src.chance(1, 2);
                self.host(&fs, named, "")
            }
            3 => {
                self.kind = "variant id twice".into();
                let name = self.name();
                let k = self.src.range(2, 5) as usize;
                let j = 1 + self.src.idx(k - 1);
                let i = self.src.idx(j);
                let implied = self.src.chance(1, 3);
                let mut list = Vec::new();
                for v in 0..k {
                    let r = self.record(0);
                    let named = self.src.chance(1, 2);
                    let body = self.fields(&r, named);
                    let id = if v == j {
                        format!(" @{}", 10 + i)
                    } else if implied && v > 0 && v < j {
                        String::new()
                    } else {
                        format!(" @{}", 10 + v)
                    };
                    list.push(format!("V{v}{body}{id}"));
                }
                format!("enum {name} {{ {} }}\n", list.join(", "))
            }
            4 => {
                self.kind = "field name twice".into();
                let mut r = self.record(2);
                let j = 1 + self.src.idx(r.len() - 1);
                let i = self.src.idx(j);
                r[j].name = r[i].name.clone();
                self.host(&r, true, "")
            }
            5 => {
                self.kind = "variant name twice".into();
                let name = self.name();
                let k = self.src.range(2, 5) as usize;
                let j = 1 + self.src.idx(k - 1);
                let i = self.src.idx(j);
                let list: Vec<String> = (0..k)
                    .map(|v| {
                        let r = self.record(0);
                        let named = self.src.chance(1, 2);
                        let body = self.fields(&r, named);
                        format!("V{}{body}", if v == j { i } else { v })
                    })
                    .collect();
                format!("enum {name} {{ {} }}\n", list.join(", "))
            }
            6 => {
                self.kind = "name twice in a module".into();
                let between = if self.src.chance(1, 2) { self.filler() } else { String::new() };
                match self.src.below(7) {
                    4 if !self.others.is_empty() => {
                        // a module that is imported, and one of the same name
                        let o = self.other(|_| true);
                        let (path, name) = match o.modules.is_empty() || self.src.chance(1, 2) {
                            true => (o.stem.clone(), o.stem.clone()),
                            false => {
                                let m = self.src.pick(&o.modules).clone();
                                (format!("{}::{}", o.stem, m.join("::")), m.last().expect("name").clone())
                            }
                        };
                        match self.src.below(3) {
                            0 => format!("use {path};\n{between}use {path};\n"),
                            1 => format!("use {path};\n{between}mod {name} {{\n    struct A\n}}\n"),
                            _ => format!("mod {name} {{\n    struct A\n}}\n{between}use {path};\n"),
                        }
                    }
                    5 => {
                        // a constant's name can be one of a type, too
                        self.n += 1;
                        let c = format!("ZQ{}", self.n);
                        let d = self.def(&c);
                        let c = format!("const {c}: u8 = 1;\n");
                        if self.src.chance(1, 2) { format!("{c}{between}{d}") } else { format!("{d}{between}{c}") }
                    }
                    0 => {
                        let m = self.lower();
                        format!("mod {m} {{\n}}\n{between}mod {m} {{\n    struct A\n}}\n")
                    }
                    1 => {
                        self.n += 1;
                        let c = format!("ZQ{}", self.n);
                        format!("const {c}: u8 = 1;\n{between}const {c}: bool = true;\n")
                    }
                    2 if self.others.iter().any(|o| o.types.iter().any(|t| t.0.is_empty())) => {
                        let o = self.other(|o| o.types.iter().any(|t| t.0.is_empty()));
                        let t = o.types.iter().find(|t| t.0.is_empty()).expect("some").1.clone();
                        let d = self.def(&t);
                        format!("use {}::{t};\n{between}{d}", o.stem)
                    }
                    _ => {
                        let n = self.name();
                        let (a, b) = (self.def(&n), self.def(&n));
                        format!("{a}{between}{b}")
                    }
                }
            }
            7 => {
                self.kind = "generic twice".into();
                let fs = [F { name: "a".into(), ty: "T".into(), id: None }, F { name: "b".into(), ty: "U".into(), id: None }];
                let g = *self.src.pick(&["<T, T, U>", "<T, U, T>", "<T, U, U>"]);
                let named = self.src.chance(1, 2);
                self.host(&fs, named, g)
            }
            8 => {
                self.kind = "generic unused".into();
                let g = *self.src.pick(&["<T>", "<T, U>", "<U, T>", "<U, T, V>"]);
                let mut r = self.record(1);
                for (i, used) in ["U", "V"].iter().enumerate() {
                    if g.contains(used) {
                        let ty = self.within((*used).to_owned());
                        r.push(F { name: format!("g{i}"), ty, id: None });
                    }
                }
                let named = self.src.chance(1, 2);
                self.host(&r, named, g)
            }
            9 => {
                self.kind = "tuple too small".into();
                self.hosted_tuple(1)
            }
            _ => {
                self.kind = "tuple too large".into();
                let n = if self.src.chance(1, 2) { 13 } else { self.src.range(14, 30) as usize };
                self.hosted_tuple(n)
            }
        }
    }

    fn other(&mut self, ok: impl Fn(&Other) -> bool) -> Other {
        let fit: Vec<&Other> = self.others.iter().filter(|o| ok(o)).collect();
        (*self.src.pick(&fit)).clone()
    }

    fn args(&mut self, n: usize) -> String {
        if n == 0 {
            return String::new();
        }
        let a: Vec<String> = (0..n).map(|_| self.basic()).collect();
        format!("<{}>", a.join(", "))
    }

    /// Another number of type arguments than there should be.
    fn wrong_args(&mut self, n: usize) -> String {
        let wrong = (n + 1 + self.src.idx(n + 1)) % (n + 2);
        self.args(wrong)
    }

    fn unresolved(&mut self) -> String {
        let remote_types = self.others.iter().any(|o| !o.types.is_empty());
        let kind = self.src.weighted(&[4, 2, 3, 2, 2, 2, 2, 2, 2, if remote_types { 16 } else { 0 }, 2, 2, 1]);
        match kind {
            0 => {
                self.kind = "type missing".into();
                let ty = (*self.src.pick(&["Nowhere", "Nowhere<u8>", "Zq", "Strin"])).to_owned();
                self.somewhere(ty)
            }
            1 => {
                self.kind = "module missing".into();
                let n = self.name();
                let user = self.somewhere(format!("lost::{n}"));
                format!("struct {n}\n{user}")
            }
            2 => {
                self.kind = "wrong number of generics".into();
                let g = self.name();
                let (decl, count) = *self.src.pick(&[("", 0usize), ("<T>", 1), ("<T, U>", 2)]);
                let body = match count {
                    0 => String::new(),
                    1 => "(T @1)".to_owned(),
                    _ => "(T @1, vec<U> @2)".to_owned(),
                };
                let wrong = (count + 1 + self.src.idx(2)) % 3;
                let args = self.args(wrong);
                let inside = self.src.chance(1, 3);
                if inside {
                    let m = self.lower();
                    let user = self.somewhere(format!("{m}::{g}{args}"));
                    format!("mod {m} {{\n    struct {g}{decl}{body}\n}}\n{user}")
                } else {
                    let user = self.somewhere(format!("{g}{args}"));
                    format!("{user}struct {g}{decl}{body}\n")
                }
            }
            3 => {
                self.kind = "alias used as a type".into();
                let a = self.name();
                let user = self.somewhere(a.clone());
                format!("type {a} = u8;\n{user}")
            }
            4 => {
                self.kind = "type of the enclosing module".into();
                let n = self.name();
                let user = self.somewhere(n.clone());
                let m = self.lower();
                format!("struct {n}\nmod {m} {{\n{user}}}\n")
            }
            5 => {
                self.kind = "type of an inner module without its path".into();
                let (m, n) = (self.lower(), self.name());
                let user = self.somewhere(n.clone());
                format!("mod {m} {{\n    struct {n}\n}}\n{user}")
            }
            6 => {
                self.kind = "generic of another definition".into();
                let n = self.name();
                let user = self.somewhere("T".into());
                format!("struct {n}<T>(T @1)\n{user}")
            }
            7 => {
                self.kind = "alias target missing".into();
                let n = self.name();
                let ty = self.within("Nowhere".into());
                format!("type {n} = {ty};\n")
            }
            8 => {
                self.kind = "import of a missing schema".into();
                let what = *self.src.pick(&["nowhere", "nowhere::Thing", "nowhere::a::b", "nowhere::a::Thing"]);
                format!("use {what};\n")
            }
            9 => self.remote(),
            11 => {
                self.kind = "constant used as a type".into();
                self.n += 1;
                let c = format!("ZQ{}", self.n);
                let user = self.somewhere(c.clone());
                format!("const {c}: u8 = 1;\n{user}")
            }
            12 => {
                self.kind = "type of a constant missing".into();
                self.n += 1;
                let ty = self.within("Nowhere".into());
                format!("const ZQ{}: {ty} = 1;\n", self.n)
            }
            _ => {
                self.kind = "generic with arguments".into();
                let n = self.name();
                let ty = self.within("T<u8>".into());
                format!("struct {n}<T>(T @1, {ty} @2)\n")
            }
        }
    }

    fn remote(&mut self) -> String {
        let o = self.other(|o| !o.types.is_empty());
        let mut pick = self.src.pick(&o.types).clone();
        if pick.2 == 0 && self.src.chance(2, 3) {
            pick = o.types.iter().find(|t| t.2 > 0).cloned().unwrap_or(pick);
        }
        let (path, name, generics) = pick;
        let full = path.iter().fold(o.stem.clone(), |a, s| format!("{a}::{s}"));
        match self.src.below(12) {
            9 if !o.consts.is_empty() => {
                let (path, name) = self.src.pick(&o.consts).clone();
                let full = path.iter().fold(o.stem.clone(), |a, s| format!("{a}::{s}"));
                if self.src.chance(1, 2) || name.contains('_') {
                    self.kind = "import of a constant".into();
                    return format!("use {full}::{name};\n");
                }
                self.kind = "constant of an imported module used as a type".into();
                let last = path.last().unwrap_or(&o.stem);
                let user = self.somewhere(format!("{last}::{name}"));
                format!("use {full};\n{user}")
            }
            10 if !o.aliases.is_empty() => {
                self.kind = "alias of an imported module used as a type".into();
                let (path, name) = self.src.pick(&o.aliases).clone();
                let full = path.iter().fold(o.stem.clone(), |a, s| format!("{a}::{s}"));
                let last = path.last().unwrap_or(&o.stem);
                let user = self.somewhere(format!("{last}::{name}"));
                format!("use {full};\n{user}")
            }
            0 => {
                self.kind = "import of a missing type".into();
                format!("use {full}::Nowhere;\n")
            }
            1 => {
                self.kind = "import of a missing module".into();
                format!("use {full}::lost;\n")
            }
            2 => {
                self.kind = "import through a missing module".into();
                format!("use {full}::lost::{name};\n")
            }
            3 => {
                self.kind = "imported type with a wrong number of generics".into();
                let args = self.wrong_args(generics);
                let user = self.somewhere(format!("{name}{args}"));
                format!("use {full}::{name};\n{user}")
            }
            4 => {
                self.kind = "type of an imported module with a wrong number of generics".into();
                let args = self.wrong_args(generics);
                let last = path.last().unwrap_or(&o.stem);
                let user = self.somewhere(format!("{last}::{name}{args}"));
                format!("use {full};\n{user}")
            }
            5 => {
                self.kind = "missing type of an imported module".into();
                let last = path.last().unwrap_or(&o.stem);
                let user = self.somewhere(format!("{last}::Nowhere"));
                format!("use {full};\n{user}")
            }
            6 => {
                self.kind = "missing module of an imported module".into();
                let last = path.last().unwrap_or(&o.stem);
                let args = self.args(generics);
                let user = self.somewhere(format!("{last}::lost::{name}{args}"));
                format!("use {full};\n{user}")
            }
            7 if !o.aliases.is_empty() => {
                self.kind = "import of an alias".into();
                let (path, name) = self.src.pick(&o.aliases).clone();
                let full = path.iter().fold(o.stem.clone(), |a, s| format!("{a}::{s}"));
                format!("use {full}::{name};\n")
            }
            _ => {
                self.kind = "type of a schema that is not imported".into();
                let args = self.args(generics);
                self.somewhere(format!("not_{full}::{name}{args}"))
            }
        }
    }

    /// Valid, but close to something that isn't.
    fn good(&mut self) -> String {
        let remote_types = self.others.iter().any(|o| !o.types.is_empty());
        match self.src.weighted(&[3, 2, 2, 2, 2, 2, 2, if remote_types { 8 } else { 0 }]) {
            0 => {
                self.kind = "many fields".into();
                let r = self.record(1);
                let named = self.src.chance(1, 2);
                self.host(&r, named, "")
            }
            1 => {
                self.kind = "largest and smallest tuple".into();
                let n = *self.src.pick(&[2, 12]);
                let t = self.tuple(n);
                self.somewhere(t)
            }
            2 => {
                self.kind = "same names in different modules".into();
                let n = self.name();
                let (a, b, c) = (self.def(&n), self.def(&n), self.def(&n));
                let (m1, m2) = (self.lower(), self.lower());
                format!("{a}mod {m1} {{\n{b}    mod {m2} {{\n{c}    }}\n}}\n")
            }
            3 => {
                self.kind = "same ids and names in different variants".into();
                let n = self.name();
                let r = self.record(1);
                let (a, b) = (self.fields(&r, true), self.fields(&r, true));
                let c = self.fields(&r, false);
                format!("enum {n} {{ A{a} @3, B{b}, C{c} @1 }}\n")
            }
            4 => {
                self.kind = "generics".into();
                let (g, h) = (self.name(), self.name());
                let (t, u) = (self.within("T".into()), self.within("U".into()));
                let (a, b) = (self.args(1), self.args(2));
                let user = self.somewhere(format!("{h}{b}"));
                format!("struct {g}<T>(T @1)\nenum {h}<T, U> {{ A({t}), B {{ u: {u} }}, C({g}{a}) }}\n{user}")
            }
            5 => {
                self.kind = "types of inner modules".into();
                let (m1, m2, n) = (self.lower(), self.lower(), self.name());
                let user = self.somewhere(format!("{m1}::{m2}::{n}"));
                let inner = self.somewhere(format!("{m2}::{n}"));
                format!("{user}mod {m1} {{\n{inner}    mod {m2} {{\n        struct {n}\n    }}\n}}\n")
            }
            6 => {
                self.kind = "descending ids".into();
                let mut r = self.record(2);
                let k = r.len() as u32;
                for (i, f) in r.iter_mut().enumerate() {
                    f.id = Some(2 * (k - i as u32));
                }
                let named = self.src.chance(1, 2);
                self.host(&r, named, "")
            }
            _ => {
                self.kind = "import in a module".into();
                let o = self.other(|o| !o.types.is_empty());
                let (path, name, generics) = self.src.pick(&o.types).clone();
                let args = self.args(generics);
                let full = path.iter().fold(o.stem.clone(), |a, s| format!("{a}::{s}"));
                if self.src.chance(1, 2) {
                    let user = self.somewhere(format!("{name}{args}"));
                    return format!("use {full}::{name};\n{user}");
                }
                // any module on the way can be imported
                let cut = self.src.idx(path.len() + 1);
                let from = path[..cut].iter().fold(o.stem.clone(), |a, s| format!("{a}::{s}"));
                let first = from.rsplit("::").next().unwrap_or("").to_owned();
                let rest = path[cut..].iter().fold(first, |a, s| format!("{a}::{s}"));
                let user = self.somewhere(format!("{rest}::{name}{args}"));
                format!("use {from};\n{user}")
            }
        }
    }
}

fn effective(fields: &[F]) -> Vec<u32> {
    let mut next = 1;
    fields
        .iter()
        .map(|f| {
            let id = f.id.unwrap_or(next);
            next = id + 1;
            id
        })
        .collect()
}
