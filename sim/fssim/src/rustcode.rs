//! A look at generated Rust files as modules of one crate.

use std::collections::BTreeMap;

use syn::{Item, UseTree};

/// Everything a module offers under a name.
#[derive(Default)]
struct Module {
    items: Vec<String>,
    modules: BTreeMap<String, Module>,
}

fn names(items: &[Item], out: &mut Module) {
    for i in items {
        let name = match i {
            Item::Struct(x) => &x.ident,
            Item::Enum(x) => &x.ident,
            Item::Type(x) => &x.ident,
            Item::Const(x) => &x.ident,
            Item::Static(x) => &x.ident,
            Item::Mod(x) => {
                if let Some((_, inner)) = &x.content {
                    let mut m = Module::default();
                    names(inner, &mut m);
                    out.modules.insert(x.ident.to_string(), m);
                }
                &x.ident
            }
            _ => continue,
        };
        out.items.push(name.to_string());
    }
}

/// Paths of a use item, each as its segments.
fn paths(tree: &UseTree, before: &[String], out: &mut Vec<Vec<String>>) {
    match tree {
        UseTree::Path(p) => {
            let mut b = before.to_vec();
            b.push(p.ident.to_string());
            paths(&p.tree, &b, out);
        }
        UseTree::Name(n) => {
            let mut b = before.to_vec();
            b.push(n.ident.to_string());
            out.push(b);
        }
        UseTree::Rename(n) => {
            let mut b = before.to_vec();
            b.push(n.ident.to_string());
            out.push(b);
        }
        UseTree::Glob(_) => {}
        UseTree::Group(g) => g.items.iter().for_each(|t| paths(t, before, out)),
    }
}

fn imports(root: &Module, at: &[String], items: &[Item]) -> Result<(), String> {
    for i in items {
        match i {
            Item::Use(u) if u.leading_colon.is_none() => {
                let mut all = Vec::new();
                paths(&u.tree, &[], &mut all);
                for p in all {
                    follow(root, at, &p)?;
                }
            }
            Item::Mod(m) => {
                if let Some((_, inner)) = &m.content {
                    let mut at = at.to_vec();
                    at.push(m.ident.to_string());
                    imports(root, &at, inner)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn follow(root: &Module, at: &[String], path: &[String]) -> Result<(), String> {
    let fail = || format!("module {} has \"use {};\", which leads nowhere", at.join("::"), path.join("::"));
    let mut place: Vec<String> = at.to_vec();
    let mut rest = path;
    match path.first().map(String::as_str) {
        Some("super" | "self") => {
            while let Some(first) = rest.first() {
                match first.as_str() {
                    "self" => {}
                    "super" => {
                        place.pop().ok_or_else(fail)?;
                    }
                    _ => break,
                }
                rest = &rest[1..];
            }
        }
        // anything else leaves what is known here
        _ => return Ok(()),
    }
    let mut m = root;
    for s in &place {
        m = m.modules.get(s).ok_or_else(fail)?;
    }
    let Some((last, inner)) = rest.split_last() else { return Ok(()) };
    for s in inner {
        m = m.modules.get(s).ok_or_else(fail)?;
    }
    if m.modules.contains_key(last) || m.items.contains(last) { Ok(()) } else { Err(fail()) }
}

/// All files parse, and what they import from each other exists.
pub fn check(files: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    let mut root = Module::default();
    let mut parsed = Vec::new();
    for (path, text) in files {
        let Some(name) = path.rsplit('/').next().and_then(|f| f.strip_suffix(".rs")) else { continue };
        let text = std::str::from_utf8(text).map_err(|e| format!("{path} is not text: {e}"))?;
        let file = syn::parse_file(text).map_err(|e| format!("{path} is not Rust code: {e}"))?;
        let mut m = Module::default();
        names(&file.items, &mut m);
        root.items.push(name.to_owned());
        root.modules.insert(name.to_owned(), m);
        parsed.push((name.to_owned(), file));
    }
    for (name, file) in &parsed {
        imports(&root, &[name.clone()], &file.items)?;
    }
    Ok(())
}
