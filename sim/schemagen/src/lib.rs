//! Generator of Mabo schema texts. It writes text, not an AST, so that layout, comments, line ends
//! and characters of every width vary as well. What it writes in valid mode obeys the validation
//! rules; callers still judge validity by the text itself.

use simcore::Source;

#[derive(Clone)]
pub struct Cfg {
    /// Characters beyond ASCII in comments and strings.
    pub unicode: bool,
    /// 0: LF only, 1: CRLF only, 2: mixed.
    pub crlf: u8,
    /// Random whitespace, definitions sharing a line, trailing commas.
    pub noise: bool,
    pub max_defs: u64,
    pub attributes: bool,
    pub modules: bool,
    pub generics: bool,
    pub imports: bool,
    /// Reference only types that exist (and constants of fitting types).
    pub resolve: bool,
    /// Types, as `path::Name` of other schemas together with the number of their generics.
    pub external: Vec<(String, usize)>,
    pub comments: bool,
    pub consts: bool,
    /// String and bytes constants, multi-line strings, escapes.
    pub fancy_literals: bool,
    pub type_depth: u32,
    /// Aliases are not referenced by other types (the compiler refuses that).
    pub strict: bool,
    /// Attributes on every kind of definition.
    pub attributes_everywhere: bool,
    /// Numbers in generated names start here.
    pub first_name: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Self {
            unicode: true,
            crlf: 0,
            noise: true,
            max_defs: 5,
            attributes: true,
            modules: true,
            generics: true,
            imports: true,
            resolve: false,
            external: Vec::new(),
            comments: true,
            consts: true,
            fancy_literals: true,
            type_depth: 2,
            strict: false,
            attributes_everywhere: false,
            first_name: 0,
        }
    }
}

pub struct Gen<'a> {
    pub src: &'a mut Source,
    pub cfg: Cfg,
    out: String,
    names: usize,
    /// Types defined so far at the current nesting: (path from here, number of generics).
    known: Vec<(String, usize)>,
}

const WIDE: &[&str] = &["é", "ß", "中", "😀", "a\u{301}", "𝕏", "ñ", "한", "🦀", "\u{7f}"];
const WORDS: &[&str] = &["the", "a", "value", "of", "size", "x", "@1", "{", "}", "//", "struct", ",", "\"", "'"];

#[must_use]
pub fn schema(src: &mut Source, cfg: &Cfg) -> String {
    let mut g = Gen::new(src, cfg.clone());
    g.schema();
    g.out
}

/// A short text of words and characters of any width, without line ends.
pub fn words(src: &mut Source, unicode: bool, max: u64) -> String {
    let mut s = String::new();
    for _ in 0..src.below(max + 1) {
        if unicode && src.chance(1, 2) {
            s.push_str(*src.pick(WIDE));
        } else {
            s.push_str(*src.pick(WORDS));
        }
        if src.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Source, cfg: Cfg) -> Self {
        let known = cfg.external.clone();
        let names = cfg.first_name;
        Self { src, cfg, out: String::new(), names, known }
    }

    pub fn run(&mut self) -> String {
        self.schema();
        std::mem::take(&mut self.out)
    }

    fn nl(&mut self) {
        let crlf = match self.cfg.crlf {
            0 => false,
            1 => true,
            _ => self.src.chance(1, 2),
        };
        self.out.push_str(if crlf { "\r\n" } else { "\n" });
    }

    /// Optional horizontal space.
    fn sp(&mut self) {
        if self.cfg.noise {
            match self.src.below(8) {
                0..=4 => self.out.push(' '),
                5 => {}
                6 => self.out.push_str("  "),
                _ => self.out.push('\t'),
            }
        } else {
            self.out.push(' ');
        }
    }

    /// Optional space of any kind, including line ends.
    fn ws(&mut self) {
        if self.cfg.noise && self.src.chance(1, 4) {
            self.nl();
            if self.src.chance(1, 2) {
                self.out.push_str("    ");
            }
        } else {
            self.sp();
        }
    }

    fn id(&mut self) -> usize {
        self.names += 1;
        self.names
    }

    fn type_name(&mut self) -> String {
        let n = self.id();
        let stem = *self.src.pick(&["Thing", "Item", "Node", "A", "Sample", "HttpPart", "X9"]);
        format!("{stem}{n}")
    }

    fn field_name(&mut self, i: usize) -> String {
        let stem = *self.src.pick(&["field", "value", "x", "some_name", "a1_b2", "item"]);
        format!("{stem}{i}")
    }

    fn comment(&mut self, indent: usize) {
        if !self.cfg.comments || !self.src.chance(1, 3) {
            return;
        }
        for _ in 0..self.src.range(1, 3) {
            self.out.push_str(&" ".repeat(indent * 4));
            self.out.push_str("///");
            if !self.src.chance(1, 8) {
                self.out.push(' ');
            }
            let text = words(self.src, self.cfg.unicode, 5);
            self.out.push_str(&text);
            self.nl();
        }
    }

    fn attributes(&mut self, indent: usize) {
        if !self.cfg.attributes || self.cfg.crlf != 0 || !self.src.chance(1, 6) {
            return;
        }
        self.out.push_str(&" ".repeat(indent * 4));
        for _ in 0..1 + self.src.below(5) / 3 {
            match self.src.below(6) {
                0 => self.out.push_str("#[deprecated]"),
                1 => {
                    let t = words(self.src, self.cfg.unicode, 3).replace(['"', '\\'], "");
                    self.out.push_str(&format!("#[deprecated = \"{t}\"]"));
                }
                2 => self.out.push_str("#[validate(min = 1, max = 20, on)]"),
                3 => self.out.push_str("#[a, b = true, c(d = -3)]"),
                4 => {
                    let v = self.string_literal();
                    self.out.push_str(&format!("#[text = {v}, more(x = [1, 2])]"));
                }
                _ => {
                    let v = self.float();
                    self.out.push_str(&format!("#[outer(inner(x = {v}), y), z]"));
                }
            }
            self.out.push('\n');
        }
        self.out.push_str(&" ".repeat(indent * 4));
    }

    fn float(&mut self) -> String {
        let all = [
            "1.5", "0.25", "-2.0", "1.0e5", "100.0", "1.0e-7", "3.125E+2", "0.1", "-0.0", "+4.75", "1.0e300",
            "123456789012345678.0", "5.0e-324", "-1.0e16", "00.50", "2.0e22", "1.0e999", "-1.0e400",
        ];
        // values out of range aren't for generators
        let n = if self.cfg.strict || !self.cfg.fancy_literals { all.len() - 2 } else { all.len() };
        (*self.src.pick(&all[..n])).to_owned()
    }

    fn schema(&mut self) {
        if self.cfg.comments && self.src.chance(1, 6) {
            self.comment(0);
            self.out.push('\n');
        }
        let n = self.src.range(1, self.cfg.max_defs.max(1));
        self.definitions(n, 0);
        if self.cfg.noise && self.src.chance(1, 6) {
            // no line end at the end of the file
            while self.out.ends_with(['\n', '\r', ' ']) {
                self.out.pop();
            }
        }
    }

    fn definitions(&mut self, n: u64, indent: usize) {
        for i in 0..n {
            if i > 0 {
                if self.cfg.noise && self.src.chance(1, 4) {
                    self.out.push(' ');
                } else {
                    self.nl();
                    if self.src.chance(1, 2) {
                        self.nl();
                    }
                }
            }
            self.definition(indent);
        }
        self.nl();
    }

    fn definition(&mut self, indent: usize) {
        // a comment starts on its own line only if nothing precedes it, otherwise it may follow
        self.comment(indent);
        let pad = " ".repeat(indent * 4);
        let module_ok = self.cfg.modules && indent < 2;
        let import_ok = self.cfg.imports && !self.cfg.resolve;
        match self.src.weighted(&[
            6,
            5,
            3 * u32::from(self.cfg.consts),
            3,
            2 * u32::from(module_ok),
            2 * u32::from(import_ok),
        ]) {
            0 => {
                self.attributes(indent);
                self.out.push_str(&pad);
                self.structure();
            }
            1 => {
                self.attributes(indent);
                self.out.push_str(&pad);
                self.enumeration();
            }
            2 => {
                self.elsewhere(indent);
                self.out.push_str(&pad);
                self.constant();
            }
            3 => {
                self.elsewhere(indent);
                self.out.push_str(&pad);
                self.alias();
            }
            4 => {
                self.elsewhere(indent);
                self.out.push_str(&pad);
                self.module(indent);
            }
            _ => {
                self.elsewhere(indent);
                self.out.push_str(&pad);
                self.import();
            }
        }
    }

    fn elsewhere(&mut self, indent: usize) {
        if self.cfg.attributes_everywhere {
            self.attributes(indent);
        }
    }

    fn module(&mut self, indent: usize) {
        let n = self.id();
        let name = format!("mod_{n}");
        self.out.push_str("mod ");
        self.out.push_str(&name);
        self.sp();
        self.out.push('{');
        self.nl();
        let outer = self.known.clone();
        // paths are relative to the definition's own module
        if self.cfg.resolve {
            self.known.retain(|(k, _)| !k.contains("::"));
            self.known.clear();
        }
        let count = self.src.below(3);
        if count > 0 {
            self.definitions(count, indent + 1);
        }
        let inner = std::mem::replace(&mut self.known, outer);
        let have: Vec<String> = self.known.iter().map(|k| k.0.clone()).collect();
        for (path, g) in inner {
            if !have.contains(&path) {
                self.known.push((format!("{name}::{path}"), g));
            }
        }
        self.out.push_str(&" ".repeat(indent * 4));
        self.out.push('}');
    }

    fn import(&mut self) {
        self.out.push_str("use ");
        for i in 0..self.src.range(1, 3) {
            if i > 0 {
                self.out.push_str("::");
            }
            self.out.push_str(*self.src.pick(&["other", "b", "schema_2", "sample"]));
        }
        if self.src.chance(2, 3) {
            self.out.push_str("::");
            let t = self.type_name();
            self.out.push_str(&t);
        }
        self.out.push(';');
    }

    fn generics(&mut self) -> Vec<String> {
        if !self.cfg.generics || !self.src.chance(1, 5) {
            return Vec::new();
        }
        let n = self.src.range(1, 3);
        let names: Vec<String> = ["T", "K", "Val2"].iter().take(n as usize).map(|s| (*s).to_owned()).collect();
        self.out.push('<');
        for (i, name) in names.iter().enumerate() {
            if i > 0 {
                self.out.push(',');
                self.sp();
            }
            self.out.push_str(name);
        }
        if self.cfg.noise && self.src.chance(1, 6) {
            self.out.push(',');
        }
        self.out.push('>');
        names
    }

    fn structure(&mut self) {
        let name = self.type_name();
        self.out.push_str("struct ");
        self.out.push_str(&name);
        let generics = self.generics();
        self.sp();
        self.fields(&generics, true);
        self.known.push((name, generics.len()));
    }

    fn enumeration(&mut self) {
        let name = self.type_name();
        self.out.push_str("enum ");
        self.out.push_str(&name);
        let generics = self.generics();
        self.sp();
        self.out.push('{');
        let n = self.src.range(1, 4) as usize;
        let ids = self.ids(n, 1);
        for (i, id) in ids.iter().enumerate() {
            self.nl();
            self.comment(1);
            self.out.push_str("    ");
            let v = *self.src.pick(&["Alpha", "B", "Variant", "Err9"]);
            self.out.push_str(&format!("{v}{i}"));
            let g: &[String] = if i == 0 { &generics } else { &[] };
            if !g.is_empty() || self.src.chance(1, 2) {
                self.sp();
                self.fields(g, false);
            }
            self.write_id(*id);
            if i + 1 < n || !self.cfg.noise || self.src.chance(1, 2) {
                self.out.push(',');
            }
        }
        self.ws();
        self.out.push('}');
        self.known.push((name, generics.len()));
    }

    /// Increasing ids, each explicit or left to the compiler.
    fn ids(&mut self, n: usize, first: u64) -> Vec<Option<u64>> {
        let mut next = first;
        let mode = self.src.below(4);
        (0..n)
            .map(|_| {
                let explicit = match mode {
                    0 => true,
                    1 => false,
                    _ => self.src.chance(1, 2),
                };
                if explicit {
                    next += self.src.skewed(200);
                    next += 1;
                    Some(next - 1)
                } else {
                    next += 1;
                    None
                }
            })
            .collect()
    }

    fn write_id(&mut self, id: Option<u64>) {
        if let Some(id) = id {
            self.sp();
            self.out.push_str(&format!("@{id}"));
        }
    }

    fn fields(&mut self, generics: &[String], unit_ok: bool) {
        let kind = if generics.is_empty() { self.src.below(3) } else { self.src.below(2) };
        if kind == 2 && unit_ok {
            return;
        }
        let n = generics.len() + self.src.range(u64::from(generics.is_empty()), 3) as usize;
        let ids = self.ids(n, 1);
        let named = kind == 0;
        self.out.push(if named { '{' } else { '(' });
        for (i, id) in ids.iter().enumerate() {
            if named {
                self.nl();
                self.comment(1);
                self.out.push_str("    ");
                let name = self.field_name(i);
                self.out.push_str(&name);
                if self.cfg.noise && self.src.chance(1, 6) {
                    self.out.push(' ');
                }
                self.out.push(':');
                self.sp();
            } else if i > 0 {
                self.ws();
            }
            if let Some(g) = generics.get(i) {
                self.generic_use(g);
            } else {
                let depth = self.cfg.type_depth;
                self.ty(depth);
            }
            self.write_id(*id);
            if i + 1 < n || (self.cfg.noise && self.src.chance(1, 3)) {
                self.out.push(',');
            }
        }
        if named {
            self.ws();
        }
        self.out.push(if named { '}' } else { ')' });
    }

    fn generic_use(&mut self, g: &str) {
        match self.src.below(3) {
            0 => self.out.push_str(g),
            1 => self.out.push_str(&format!("vec<{g}>")),
            _ => self.out.push_str(&format!("option<{g}>")),
        }
    }

    fn key_type(&mut self) {
        let t = *self.src.pick(&["u8", "u32", "string", "i64", "bool", "u16", "u64", "u128", "i8", "i16", "i32", "i128", "bytes"]);
        self.out.push_str(t);
    }

    fn basic(&mut self) {
        const BASIC: &[&str] = &[
            "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string",
            "&string", "bytes", "&bytes", "box<string>", "box<bytes>",
        ];
        let t = *self.src.pick(BASIC);
        self.out.push_str(t);
    }

    fn ty(&mut self, depth: u32) {
        if depth == 0 {
            return self.basic();
        }
        match self.src.weighted(&[8, 2, 1, 1, 2, 1, 2, 2, 4]) {
            0 => self.basic(),
            1 => self.wrapped("vec", depth),
            2 => {
                self.out.push_str("hash_map<");
                self.key_type();
                self.out.push(',');
                self.sp();
                self.ty(depth - 1);
                self.out.push('>');
            }
            3 => {
                self.out.push_str("hash_set<");
                self.key_type();
                self.out.push('>');
            }
            4 => self.wrapped("option", depth),
            5 => {
                const BARE: &[&str] = &[
                    "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "string", "&string",
                    "bytes", "&bytes",
                ];
                self.out.push_str("non_zero<");
                match self.src.weighted(&[8, 2, 1, 1]) {
                    0 => {
                        let t = *self.src.pick(BARE);
                        self.out.push_str(t);
                    }
                    1 => self.wrapped("vec", depth),
                    2 => {
                        self.out.push_str("hash_map<");
                        self.key_type();
                        self.out.push(',');
                        self.sp();
                        self.ty(depth - 1);
                        self.out.push('>');
                    }
                    _ => {
                        self.out.push_str("hash_set<");
                        self.key_type();
                        self.out.push('>');
                    }
                }
                self.out.push('>');
            }
            6 => {
                self.out.push('(');
                let n = if self.src.chance(1, 8) { 12 } else { self.src.range(2, 3) };
                for i in 0..n {
                    if i > 0 {
                        self.out.push(',');
                        self.sp();
                    }
                    self.ty(if n > 3 { 0 } else { depth - 1 });
                }
                self.out.push(')');
            }
            7 => {
                self.out.push('[');
                self.ty(depth - 1);
                self.out.push(';');
                self.sp();
                // mabo-go refuses arrays of more than 32 elements
                let n = if !self.cfg.strict && self.src.chance(1, 4) {
                    *self.src.pick(&[33, 63, 64, 127, 128, 1000, 16_383, 16_384, 2_097_151, 268_435_456, 4_294_967_295])
                } else {
                    self.src.range(1, 32)
                };
                self.out.push_str(&format!("{n}]"));
            }
            _ => self.external(depth),
        }
    }

    fn wrapped(&mut self, name: &str, depth: u32) {
        self.out.push_str(name);
        self.out.push('<');
        self.ty(depth - 1);
        self.out.push('>');
    }

    fn external(&mut self, depth: u32) {
        if self.known.is_empty() || (!self.cfg.resolve && self.src.chance(1, 3)) {
            if self.cfg.resolve {
                return self.basic();
            }
            for _ in 0..self.src.below(3) {
                self.out.push_str(*self.src.pick(&["other", "m2", "long_path_name"]));
                self.out.push_str("::");
            }
            self.out.push_str(*self.src.pick(&["Unknown", "Ext1", "Zed"]));
            if self.cfg.generics && self.src.chance(1, 4) {
                self.out.push('<');
                self.ty(depth - 1);
                self.out.push('>');
            }
            return;
        }
        let (path, g) = self.src.pick(&self.known).clone();
        self.out.push_str(&path);
        if g > 0 {
            self.out.push('<');
            for i in 0..g {
                if i > 0 {
                    self.out.push(',');
                    self.sp();
                }
                self.ty(0);
            }
            self.out.push('>');
        }
    }

    fn alias(&mut self) {
        let name = self.type_name();
        self.out.push_str("type ");
        self.out.push_str(&name);
        let generics = self.generics();
        self.sp();
        self.out.push('=');
        self.sp();
        if generics.is_empty() {
            let d = self.cfg.type_depth;
            self.ty(d);
        } else {
            let list = generics.join(", ");
            if generics.len() == 1 {
                self.out.push_str(&format!("vec<{list}>"));
            } else {
                self.out.push_str(&format!("({list})"));
            }
        }
        if self.cfg.noise && self.src.chance(1, 6) {
            self.out.push(' ');
        }
        self.out.push(';');
        if !self.cfg.strict {
            self.known.push((name, generics.len()));
        }
    }

    pub fn string_literal(&mut self) -> String {
        let mut s = String::from("\"");
        for _ in 0..self.src.below(5) {
            match self.src.below(if self.cfg.fancy_literals { 7 } else { 2 }) {
                0 | 1 => s.push_str(&words(self.src, self.cfg.unicode, 3).replace(['"', '\\'], "")),
                2 => s.push_str(*self.src.pick(&["\\n", "\\t", "\\r", "\\\\", "\\\"", "\\/", "\\b", "\\f"])),
                3 => s.push_str(*self.src.pick(&["\\u{41}", "\\u{1F600}", "\\u{0}", "\\u{e9}", "\\u{10fffe}", "\\u{e0001}", "\\u{1b}", "\\u{00ad}"])),
                4 => s.push_str("\n  "),
                5 => s.push_str(*self.src.pick(&["\u{10fffe}", "\u{e0001}", "\u{1b}", "\u{ad}", "\u{feff}", "\u{e000}", "\t", "'", "\u{2028}"])),
                _ => s.push_str("\\\n   x"),
            }
        }
        s.push('"');
        s
    }

    fn constant(&mut self) {
        let n = self.id();
        self.out.push_str(&format!("const VALUE_{n}:"));
        self.sp();
        let (ty, value) = match self.src.below(6) {
            0 => ("bool", (*self.src.pick(&["true", "false"])).to_owned()),
            1 => {
                let (t, v) = *self.src.pick(&[
                    ("u8", "255"),
                    ("i32", "-7"),
                    ("u64", "+18446744073709551615"),
                    ("i128", "-1"),
                    ("u16", "0"),
                    ("i8", "-128"),
                    ("u32", "4294967295"),
                    ("i16", "+1"),
                    ("i64", "-9223372036854775808"),
                    ("u128", "170141183460469231731687303715884105727"),
                    ("i128", "-170141183460469231731687303715884105728"),
                    ("u128", "18446744073709551617"),
                ]);
                (t, v.to_owned())
            }
            2 => {
                let v = self.float();
                (if self.src.chance(1, 4) { "f32" } else { "f64" }, v)
            }
            3 if self.cfg.fancy_literals => {
                let mut v = String::from("[");
                for i in 0..self.src.range(1, 4) {
                    if i > 0 {
                        v.push_str(", ");
                    }
                    v.push_str(&self.src.below(256).to_string());
                }
                v.push(']');
                (if self.src.chance(1, 4) { "&bytes" } else { "bytes" }, v)
            }
            _ => (if self.src.chance(1, 4) { "&string" } else { "string" }, self.string_literal()),
        };
        self.out.push_str(ty);
        self.sp();
        self.out.push('=');
        self.sp();
        self.out.push_str(&value);
        self.out.push(';');
    }
}
