//! Generated projects: a Mabo.toml, schema files in several directories, files that must not be
//! touched, and the model of which files the project file selects.

use std::collections::{BTreeMap, BTreeSet};

use schemagen::{Cfg, Gen};
use schemaread::{Body, Def};
use simcore::Source;

use crate::{
    content,
    defects::{Other, Pieces, Want},
    tree::{Node, Tree},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Good,
    NotUtf8,
    Unparsable,
    Invalid,
    Unresolved,
}

#[derive(Clone, Debug)]
pub struct Schema {
    /// Below the project directory.
    pub path: String,
    pub state: State,
}

#[derive(Clone, Debug)]
pub struct Project {
    pub name: String,
    pub patterns: Vec<String>,
    /// Everything, below "proj/".
    pub tree: Tree,
    pub schemas: Vec<Schema>,
    /// Paths (below the project directory) of the selected files, links resolved in `real`.
    pub selected: BTreeSet<String>,
}

pub struct Opts {
    pub max_files: u64,
    /// Only schemas that are valid together, distinct stems.
    pub valid: bool,
    /// Some unparsable or non-UTF-8 files.
    pub broken: bool,
    pub links: bool,
    pub modes: bool,
    pub cfg: Cfg,
    /// Outcome of the run may not depend on a file of this size or more.
    pub big: bool,
}

const DIRS: &[&str] = &["", "schemas", "schemas/sub", "src", "schemas/sub/deep", "src/mod_a"];
const STEMS: &[&str] = &["alpha", "beta", "a", "b1", "model", "x_y", "order", "zz", "event", "m2"];

pub fn stem(path: &str) -> &str {
    let f = path.rsplit('/').next().unwrap_or(path);
    f.strip_suffix(".mabo").unwrap_or(f)
}

/// Top-level types of a schema text: (name, number of generics).
fn types(text: &str) -> Vec<(String, usize)> {
    let Ok(f) = schemaread::read(text) else { return Vec::new() };
    f.defs
        .iter()
        .filter_map(|d| match &d.body {
            Body::Struct(g, _) | Body::Enum(g, _) => Some((d.name.text.clone(), g.len())),
            _ => None,
        })
        .collect()
}

pub fn good_text(src: &mut Source, cfg: &Cfg) -> String {
    if cfg.comments && src.chance(1, 60) {
        // nothing but a comment
        let lines = src.range(1, 3);
        return (0..lines).map(|_| format!("/// {}\n", schemagen::words(src, cfg.unicode, 4))).collect::<String>() + "\n";
    }
    let mut g = Gen::new(src, cfg.clone());
    let mut t = g.run();
    if !parses(&t) {
        // e.g. a unit struct right at the end of the file
        t.push('\n');
    }
    t
}

pub fn parses(t: &str) -> bool {
    mabo_parser::Schema::parse(t, None).is_ok()
}

const UNPARSABLE: &[&str] = &[
    "foo bar",
    "struct {",
    "struct Open { a: u8",
    "enum lower { A }",
    "struct lower",
    "struct Q(u8 @x)",
    "}",
    "struct Q(u8 @)",
    "struct Q { a u8 @1 }",
    "struct Q { a: @1 }",
    "struct Q(vec<u8 @1)",
    "struct Q([u8; x] @1)",
    "struct Q([u8] @1)",
    "struct Q<t>(t @1)",
    "enum Q { a @1 }",
    "enum Q { A @1 B @2 }",
    "const X: u8 = ;",
    "const x: u8 = 1;",
    "const X: string = \"open;",
    "type x = u8;",
    "type X u8;",
    "mod Upper {\n}",
    "mod open {\n    struct A\n",
    "use ;",
    "use Upper::a;",
    "#[] struct X",
    "struct Q(hash_map<u8> @1)",
    "structure Q(u8 @1)",
];

/// The text with something wrong in it, and what.
pub fn spoil(src: &mut Source, text: &str, state: State, others: &[Other]) -> (Vec<u8>, String) {
    let want = match state {
        State::Good => return (text.as_bytes().to_vec(), String::new()),
        State::NotUtf8 => {
            let mut b = text.as_bytes().to_vec();
            let at = src.idx(b.len() + 1);
            b.insert(at, *src.pick(&[0xff, 0xc0, 0xf5]));
            return (b, "stray byte".into());
        }
        State::Unparsable => {
            let bad = *src.pick(UNPARSABLE);
            let t = if src.chance(1, 3) && bad != "}" { format!("{bad}\n{text}") } else { format!("{text}\n{bad}\n") };
            return (t.into_bytes(), format!("{bad:?}"));
        }
        State::Invalid => Want::Invalid,
        State::Unresolved => Want::Unresolved,
    };
    let mut p = Pieces::new(src, others, 9000);
    let piece = p.make(want);
    let kind = std::mem::take(&mut p.kind);
    let t = if src.chance(1, 2) { format!("{piece}{text}") } else { format!("{text}\n{piece}") };
    (t.into_bytes(), kind)
}

fn toml(src: &mut Source, name: &str, patterns: &[String]) -> String {
    let mut s = String::new();
    if src.chance(1, 4) {
        s.push_str("# a project\n\n");
    }
    s.push_str("[package]\n");
    let list = patterns.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(", ");
    let mut lines = vec![format!("name = {name:?}"), format!("files = [{list}]")];
    if src.chance(1, 4) {
        lines.push("description = \"What it is\"".into());
    }
    if src.chance(1, 4) {
        lines.push("license = \"MIT OR Apache-2.0\"".into());
    }
    src.shuffle(&mut lines);
    s.push_str(&lines.join("\n"));
    s.push('\n');
    if src.chance(1, 6) { s.replace('\n', "\r\n") } else { s }
}

fn pattern(src: &mut Source, paths: &[String]) -> String {
    let one = src.pick(paths).clone();
    let (dir, file) = one.rsplit_once('/').unwrap_or(("", &one));
    let slash = |d: &str| if d.is_empty() { String::new() } else { format!("{d}/") };
    match src.weighted(&[5, 3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1]) {
        0 => "**/*.mabo".into(),
        1 => format!("{}*.mabo", slash(dir)),
        2 => "schemas/**/*.mabo".into(),
        3 => one.clone(),
        4 => format!("{}**/*.mabo", slash(dir.split('/').next().unwrap_or(""))),
        5 => format!("{}{{{},other}}.mabo", slash(dir), stem(file)),
        6 => {
            let s = stem(file);
            format!("{}{}?.mabo", slash(dir), &s[..s.len() - 1])
        }
        7 => format!("{}[{}-z]*.mabo", slash(dir), &file[..1]),
        8 => match src.below(3) {
            0 => "**/*".into(),
            1 => format!("{}*mabo", slash(dir)),
            _ => format!("{}*", slash(dir)),
        },
        9 => format!("{{,schemas/}}{}", file),
        10 => format!("*/{file}"),
        _ => format!("{}[!{}]*.mabo", slash(dir), &file[..1]),
    }
}

fn braces(p: &str) -> Vec<String> {
    let Some(open) = p.find('{') else { return vec![p.to_owned()] };
    let mut depth = 0;
    let mut parts = Vec::new();
    let mut start = open + 1;
    for (i, c) in p.char_indices().skip_while(|(i, _)| *i < open) {
        match c {
            '{' => depth += 1,
            ',' if depth == 1 => {
                parts.push(&p[start..i]);
                start = i + 1;
            }
            '}' => {
                depth -= 1;
                if depth == 0 {
                    parts.push(&p[start..i]);
                    return parts.iter().flat_map(|m| braces(&format!("{}{m}{}", &p[..open], &p[i + 1..]))).collect();
                }
            }
            _ => {}
        }
    }
    vec![p.to_owned()]
}

fn match_one(p: &[u8], s: &[u8], start: bool) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    if start && p.starts_with(b"**") {
        if p.len() == 2 {
            return true;
        }
        if p[2] == b'/' {
            let rest = &p[3..];
            return match_one(rest, s, true)
                || s.iter().enumerate().any(|(i, c)| *c == b'/' && match_one(rest, &s[i + 1..], true));
        }
    }
    match p[0] {
        b'*' => {
            let end = s.iter().position(|c| *c == b'/').unwrap_or(s.len());
            (0..=end).any(|i| match_one(&p[1..], &s[i..], false))
        }
        b'?' => !s.is_empty() && s[0] != b'/' && match_one(&p[1..], &s[1..], false),
        b'[' => {
            let close = p.iter().position(|c| *c == b']').expect("class");
            let (neg, class) = if p[1] == b'!' { (true, &p[2..close]) } else { (false, &p[1..close]) };
            let Some(c) = s.first().filter(|c| **c != b'/') else { return false };
            let mut hit = false;
            let mut i = 0;
            while i < class.len() {
                if i + 2 < class.len() && class[i + 1] == b'-' {
                    hit |= class[i] <= *c && *c <= class[i + 2];
                    i += 3;
                } else {
                    hit |= class[i] == *c;
                    i += 1;
                }
            }
            hit != neg && match_one(&p[close + 1..], &s[1..], false)
        }
        c => !s.is_empty() && s[0] == c && match_one(&p[1..], &s[1..], c == b'/'),
    }
}

pub fn matches(pattern: &str, path: &str) -> bool {
    braces(pattern).iter().any(|p| match_one(p.as_bytes(), path.as_bytes(), true))
}

impl Project {
    pub fn new(src: &mut Source, o: &Opts) -> Self {
        let mut tree = Tree::default();
        let n = src.range(1, o.max_files);
        let mut stems: Vec<&str> = STEMS.to_vec();
        src.shuffle(&mut stems);
        let mut paths: Vec<String> = Vec::new();
        let dirs = 1 + src.idx(DIRS.len());
        for k in 0..n {
            let stem = if o.valid { stems[k as usize % stems.len()] } else { src.pick(STEMS) };
            let d = DIRS[src.idx(dirs)];
            let p = if d.is_empty() { format!("{stem}.mabo") } else { format!("{d}/{stem}.mabo") };
            if !paths.contains(&p) {
                paths.push(p);
            }
        }
        let mut patterns: Vec<String> = (0..src.range(1, 3)).map(|_| pattern(src, &paths)).collect();
        if src.chance(1, 2) {
            patterns[0] = "**/*.mabo".into();
        }
        let name = (*src.pick(&["sample", "pkg_a", "my-schemas", "x"])).to_owned();
        tree.put("proj/Mabo.toml", toml(src, &name, &patterns));

        let is_selected = |p: &str| patterns.iter().any(|g| matches(g, p));
        let mut schemas = Vec::new();
        let mut offers: Vec<Other> = Vec::new();
        let mut usable: Vec<(String, Vec<(String, usize)>)> = Vec::new();
        for p in &paths {
            let mut cfg = o.cfg.clone();
            if o.big && src.chance(1, 6) {
                cfg.max_defs = 80;
            }
            let mut head = String::new();
            if o.valid && !usable.is_empty() && src.chance(1, 2) {
                let (s, ts) = src.pick(&usable).clone();
                if !ts.is_empty() && src.chance(1, 2) {
                    let (t, g) = src.pick(&ts).clone();
                    head = format!("use {s}::{t};\n");
                    // its short name must not clash with a name defined here
                    cfg.first_name = 500 + schemas.len() * 100;
                    cfg.external = vec![(t, g)];
                } else {
                    head = format!("use {s};\n");
                    cfg.external = ts.into_iter().map(|(t, g)| (format!("{s}::{t}"), g)).collect();
                }
            }
            let mut text = if src.chance(1, 30) { String::new() } else { format!("{head}{}", good_text(src, &cfg)) };
            if o.valid && src.chance(1, 2) {
                let more = Pieces::new(src, &offers, 1 + 100 * schemas.len()).make(Want::Good);
                text = if src.chance(1, 2) { format!("{more}{text}") } else { format!("{text}\n{more}") };
            }
            let plain = parses(&text);
            if !plain && o.valid {
                text = "struct Plain(u8 @1)\n".into();
            }
            if is_selected(p) {
                offers.push(Other::new(stem(p), &text));
                usable.push((stem(p).to_owned(), types(&text)));
            }
            let state = if o.broken && src.chance(1, 5) {
                *src.pick(&[State::NotUtf8, State::Unparsable])
            } else if !plain && !o.valid {
                State::Unparsable
            } else {
                State::Good
            };
            let bytes = if plain { spoil(src, &text, state, &[]).0 } else { text.into_bytes() };
            tree.put(&format!("proj/{p}"), bytes);
            if o.modes && src.chance(1, 4) {
                if let Some(Node::File(_, m)) = tree.0.get_mut(&format!("proj/{p}")) {
                    *m = *src.pick(&[0o600, 0o664, 0o755, 0o640]);
                }
            }
            schemas.push(Schema { path: p.clone(), state });
        }
        // things that are never part of the project
        if src.chance(1, 2) {
            tree.put("proj/schemas/notes.txt", "struct NotASchema(u8 @1)  ");
        }
        if src.chance(1, 3) {
            tree.put("proj/src/alpha.mabo.bak", "struct   Backup( u8 @1)");
        }
        if src.chance(1, 3) {
            tree.put("proj/schemas/list.MABO", "struct   Upper( u8 @1)");
        }
        if src.chance(1, 3) {
            // right besides a schema, with a name close to one of a schema
            let dir = src.pick(&paths).rsplit_once('/').map_or(String::new(), |(d, _)| format!("{d}/"));
            let name = *src.pick(&["mabo", "x.oldmabo", "alpha.mabo~", "beta.mabox", "m.Mabo", "mod_amabo", "a.mabo.tmp"]);
            tree.put(&format!("proj/{dir}{name}"), "no schema");
        }
        if src.chance(1, 3) {
            tree.put("proj/empty/keep", "");
        }
        if src.chance(1, 4) {
            tree.put("beside.mabo", "struct   Beside( u8 @1)");
        }
        if o.links && src.chance(1, 3) {
            let to = src.pick(&paths).clone();
            let at = src.idx(3);
            let name = ["linked.mabo", "schemas/linked.mabo", "links/linked.mabo"][at];
            let up = if at == 0 { "" } else { "../" };
            if !tree.0.contains_key(&format!("proj/{name}")) {
                tree.0.insert(format!("proj/{name}"), Node::Link(format!("{up}{to}")));
            }
        }
        if o.links && src.chance(1, 5) && paths.iter().any(|p| p.starts_with("schemas/")) {
            tree.0.insert("proj/dirlink".into(), Node::Link("schemas".into()));
        }
        let mut p = Self { name, patterns, tree, schemas, selected: BTreeSet::new() };
        p.select();
        p
    }

    /// Where a path (below the project) really is, below the project.
    pub fn real(&self, path: &str) -> String {
        if let Some(rest) = path.strip_prefix("dirlink/") {
            return self.real(&format!("schemas/{rest}"));
        }
        match self.tree.0.get(&format!("proj/{path}")) {
            Some(Node::Link(to)) => to.trim_start_matches("../").to_owned(),
            _ => path.to_owned(),
        }
    }

    pub fn select(&mut self) {
        let mut all: Vec<String> = Vec::new();
        for (p, n) in &self.tree.0 {
            let Some(p) = p.strip_prefix("proj/") else { continue };
            match n {
                Node::Dir => {}
                Node::Link(_) if p == "dirlink" => {
                    for q in self.tree.0.keys() {
                        if let Some(rest) = q.strip_prefix("proj/schemas/") {
                            all.push(format!("dirlink/{rest}"));
                        }
                    }
                }
                _ => all.push(p.to_owned()),
            }
        }
        self.selected =
            all.into_iter().filter(|p| p.ends_with(".mabo") && self.patterns.iter().any(|g| matches(g, p))).collect();
    }

    /// What a pattern on the command line stands for; its directory is literal.
    pub fn listed(&self, pattern: &str) -> BTreeSet<String> {
        let (dir, name) = pattern.rsplit_once('/').map_or(("", pattern), |(d, n)| (d, n));
        let real = match self.tree.0.get(&format!("proj/{dir}")) {
            Some(Node::Link(to)) => to,
            _ => dir,
        };
        let below = if real.is_empty() { "proj/".to_owned() } else { format!("proj/{real}/") };
        self.tree
            .0
            .iter()
            .filter(|(_, n)| !matches!(n, Node::Dir))
            .filter_map(|(p, _)| p.strip_prefix(&below))
            .filter(|f| !f.contains('/') && f.ends_with(".mabo") && match_one(name.as_bytes(), f.as_bytes(), false))
            .map(|f| if dir.is_empty() { f.to_owned() } else { format!("{dir}/{f}") })
            .collect()
    }

    pub fn state(&self, path: &str) -> State {
        let real = self.real(path);
        self.schemas.iter().find(|s| s.path == real).map_or(State::Good, |s| s.state)
    }

    pub fn text(&self, path: &str) -> &[u8] {
        self.tree.text(&format!("proj/{}", self.real(path))).unwrap_or_default()
    }

    pub fn set(&mut self, path: &str, text: Vec<u8>, state: State) {
        self.tree.put(&format!("proj/{path}"), text);
        if let Some(s) = self.schemas.iter_mut().find(|s| s.path == path) {
            s.state = state;
        }
    }

    /// What the selected schemas except one offer to it.
    pub fn offers(&self, except: &str) -> Vec<Other> {
        self.selected
            .iter()
            .filter(|f| *f != except)
            .map(|f| Other::new(stem(f), &String::from_utf8_lossy(self.text(f))))
            .collect()
    }

    pub fn describe(&self) -> String {
        let s: Vec<String> = self.schemas.iter().map(|s| format!("{}:{:?}", s.path, s.state)).collect();
        format!("{} {:?} files {s:?} selected {:?}", self.name, self.patterns, self.selected)
    }

    /// Output files a generator must produce, each with texts it must contain. A path that ends
    /// with a slash stands for the Go files of that directory taken together.
    pub fn expected(&self, tool: Tool) -> BTreeMap<String, Vec<String>> {
        let mut out = BTreeMap::new();
        for p in &self.selected {
            let text = String::from_utf8_lossy(self.text(p)).into_owned();
            let Ok(file) = schemaread::read(&text) else { continue };
            let stem = stem(p);
            match tool {
                Tool::Rust => {
                    let mut names = Vec::new();
                    all_names(&file.defs, &mut names);
                    out.insert(format!("mabo/{stem}.rs"), names);
                }
                Tool::Go => go_files(&file.defs, &self.name, &mut out),
                Tool::Doc => {
                    out.insert(format!("{stem}/{stem}/index.html"), vec!["</html>".into()]);
                    doc_files(&file.defs, &format!("{stem}/{stem}"), &mut out);
                }
                _ => {}
            }
        }
        out
    }

    /// Whether the output says what the schemas say.
    pub fn content(&self, tool: Tool, bytes: bool, files: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
        for p in &self.selected {
            let text = String::from_utf8_lossy(self.text(p)).into_owned();
            let Ok(file) = schemaread::read(&text) else { continue };
            let stem = stem(p);
            match tool {
                Tool::Rust => {
                    let path = format!("mabo/{stem}.rs");
                    let text = files.get(&path).map(|c| String::from_utf8_lossy(c)).unwrap_or_default();
                    content::rust(&file, &text, bytes)
                }
                Tool::Go => go_content(&file.defs, &self.name, files),
                Tool::Doc => content::doc(files, &format!("{stem}/{stem}"), &file.comment, &file.defs),
                _ => Ok(()),
            }
            .map_err(|e| format!("in the output for {p}, {e}"))?;
        }
        Ok(())
    }
}

fn go_content(defs: &[Def], dir: &str, files: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    content::Go::new(files, &format!("{dir}/")).check(defs)?;
    for d in defs {
        if let Body::Module(inner) = &d.body {
            go_content(inner, &format!("{dir}/{}", d.name.text), files)?;
        }
    }
    Ok(())
}

/// What of the expected output is not there.
pub fn missing(want: &BTreeMap<String, Vec<String>>, have: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (path, names) in want {
        if path.ends_with('/') {
            let all: Vec<String> = have
                .iter()
                .filter(|(p, _)| p.strip_prefix(path.as_str()).is_some_and(|f| f.ends_with(".go") && !f.contains('/')))
                .map(|(_, c)| String::from_utf8_lossy(c).into_owned())
                .collect();
            for n in names {
                let least = names.iter().filter(|m| *m == n).count();
                let found: usize = all.iter().map(|t| count_word(t, n)).sum();
                if found < least {
                    return Some(format!("the Go files in {path} have {found} instead of {least} times {n:?}"));
                }
            }
            continue;
        }
        let Some(c) = have.get(path) else { return Some(format!("{path} does not exist")) };
        let text = String::from_utf8_lossy(c);
        if let Some(n) = names.iter().find(|n| !text.contains(n.as_str())) {
            return Some(format!("{path} says nothing about {n}"));
        }
    }
    None
}

/// Whether an output file is one of the expected ones.
pub fn asked_for(want: &BTreeMap<String, Vec<String>>, path: &str) -> bool {
    want.contains_key(path)
        || (path.ends_with(".go") && want.contains_key(&path[..=path.rfind('/').unwrap_or(0)]))
}

fn count_word(text: &str, word: &str) -> usize {
    text.match_indices(word)
        .filter(|(i, _)| !text[i + word.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'))
        .count()
}

fn all_names(defs: &[Def], out: &mut Vec<String>) {
    for d in defs {
        match &d.body {
            Body::Import(..) => {}
            Body::Module(inner) => {
                out.push(d.name.text.clone());
                all_names(inner, out);
            }
            _ => out.push(d.name.text.clone()),
        }
    }
}

fn go_files(defs: &[Def], dir: &str, out: &mut BTreeMap<String, Vec<String>>) {
    let mut names = vec!["package".to_owned()];
    for d in defs {
        match &d.body {
            Body::Module(inner) => go_files(inner, &format!("{dir}/{}", d.name.text), out),
            Body::Struct(..) | Body::Enum(..) | Body::Alias(..) => names.push(format!("type {}", d.name.text)),
            _ => {}
        }
    }
    out.entry(format!("{dir}/")).or_default().extend(names);
}

fn doc_files(defs: &[Def], dir: &str, out: &mut BTreeMap<String, Vec<String>>) {
    for d in defs {
        let name = &d.name.text;
        let kind = match &d.body {
            Body::Struct(..) => "struct",
            Body::Enum(..) => "enum",
            Body::Alias(..) => "alias",
            Body::Const(..) => "constant",
            Body::Import(..) => continue,
            Body::Module(inner) => {
                out.insert(format!("{dir}/{name}/index.html"), vec!["</html>".into(), name.clone()]);
                doc_files(inner, &format!("{dir}/{name}"), out);
                continue;
            }
        };
        out.insert(format!("{dir}/{kind}.{name}.html"), vec!["</html>".into(), name.clone()]);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tool {
    Check,
    Fmt,
    Doc,
    Go,
    Rust,
    /// Not a command: the library's search for projects.
    Search,
}

pub const GENERATORS: &[Tool] = &[Tool::Rust, Tool::Go, Tool::Doc];

#[cfg(test)]
mod tests {
    use super::matches;

    #[test]
    fn globs() {
        for (p, s, want) in [
            ("**/*.mabo", "a.mabo", true),
            ("**/*.mabo", "x/y/a.mabo", true),
            ("*.mabo", "x/a.mabo", false),
            ("schemas/**/*.mabo", "schemas/a.mabo", true),
            ("schemas/**/*.mabo", "a.mabo", false),
            ("{,schemas/}a.mabo", "a.mabo", true),
            ("{,schemas/}a.mabo", "schemas/a.mabo", true),
            ("x/[a-c]*.mabo", "x/b1.mabo", true),
            ("x/[!a]*.mabo", "x/a1.mabo", false),
            ("x/?.mabo", "x/a.mabo", true),
            ("*/a.mabo", "x/y/a.mabo", false),
        ] {
            assert_eq!(matches(p, s), want, "{p} {s}");
        }
    }
}
