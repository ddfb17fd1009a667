//! Directory trees in memory and on disk.

use std::{
    collections::BTreeMap,
    fs,
    os::unix::fs::{PermissionsExt, symlink},
    path::Path,
    time::{Duration, SystemTime},
};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Node {
    File(Vec<u8>, u32),
    Dir,
    Link(String),
}

/// Relative path -> node; parents come before their children.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Tree(pub BTreeMap<String, Node>);

impl Tree {
    pub fn load(root: &Path) -> Self {
        fn walk(dir: &Path, prefix: &str, out: &mut BTreeMap<String, Node>) {
            let Ok(rd) = fs::read_dir(dir) else { return };
            for e in rd.flatten() {
                let name = e.file_name().to_string_lossy().into_owned();
                let rel = if prefix.is_empty() { name } else { format!("{prefix}/{name}") };
                let path = e.path();
                let Ok(meta) = fs::symlink_metadata(&path) else { continue };
                if meta.is_symlink() {
                    let to = fs::read_link(&path).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                    out.insert(rel, Node::Link(to));
                } else if meta.is_dir() {
                    out.insert(rel.clone(), Node::Dir);
                    walk(&path, &rel, out);
                } else {
                    out.insert(rel, Node::File(fs::read(&path).unwrap_or_default(), meta.permissions().mode() & 0o777));
                }
            }
        }
        let mut t = Self::default();
        walk(root, "", &mut t.0);
        t
    }

    /// Makes the directory hold exactly this tree.
    pub fn store(&self, root: &Path) {
        if root.exists() {
            fs::remove_dir_all(root).expect("clear scratch");
        }
        fs::create_dir_all(root).expect("scratch");
        for (p, n) in &self.0 {
            let path = root.join(p);
            if let Some(d) = path.parent() {
                fs::create_dir_all(d).expect("dir");
            }
            match n {
                Node::Dir => fs::create_dir_all(&path).expect("dir"),
                Node::File(c, mode) => {
                    fs::write(&path, c).expect("write");
                    if *mode != 0o644 {
                        fs::set_permissions(&path, fs::Permissions::from_mode(*mode)).expect("mode");
                    }
                    // times say nothing about which of the files is newer
                    let age = simcore::rng::mix(simcore::rng::mix(7, p.as_bytes()), c) % 500_000_000;
                    let time = SystemTime::UNIX_EPOCH + Duration::from_secs(1_200_000_000 + age);
                    fs::File::options().write(true).open(&path).and_then(|f| f.set_modified(time)).expect("time");
                }
                Node::Link(to) => symlink(to, &path).expect("symlink"),
            }
        }
    }

    pub fn put(&mut self, path: &str, content: impl Into<Vec<u8>>) {
        self.0.insert(path.to_owned(), Node::File(content.into(), 0o644));
    }

    pub fn text(&self, path: &str) -> Option<&[u8]> {
        match self.0.get(path)? {
            Node::File(c, _) => Some(c),
            _ => None,
        }
    }

    /// Files below a directory: path relative to it -> content.
    pub fn below(&self, dir: &str) -> BTreeMap<String, Vec<u8>> {
        let prefix = format!("{dir}/");
        self.0
            .iter()
            .filter_map(|(p, n)| match n {
                Node::File(c, _) => Some((p.strip_prefix(&prefix)?.to_owned(), c.clone())),
                _ => None,
            })
            .collect()
    }

    pub fn sub(&self, dir: &str) -> Self {
        let prefix = format!("{dir}/");
        Self(self.0.iter().filter(|(p, _)| p.starts_with(&prefix)).map(|(p, n)| (p.clone(), n.clone())).collect())
    }
}

/// First difference between two file maps.
pub fn differ(want: &BTreeMap<String, Vec<u8>>, have: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (p, c) in want {
        match have.get(p) {
            None => return Some(format!("{p} is missing")),
            Some(h) if h != c => return Some(format!("{p}: {}", first_change(c, h))),
            Some(_) => {}
        }
    }
    have.keys().find(|p| !want.contains_key(*p)).map(|p| format!("{p} should not exist"))
}

pub fn first_change(want: &[u8], have: &[u8]) -> String {
    let at = want.iter().zip(have).position(|(a, b)| a != b).unwrap_or(want.len().min(have.len()));
    let show = |b: &[u8]| {
        let from = at.saturating_sub(20);
        format!("{:?}", String::from_utf8_lossy(&b[from.min(b.len())..(at + 30).min(b.len())]))
    };
    format!("differs at byte {at} ({} bytes expected, {} found): expected {}, found {}", want.len(), have.len(), show(want), show(have))
}
