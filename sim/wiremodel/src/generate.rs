//! Seeded schema generator: definitions, files, instantiations and families of evolving versions.

use std::collections::{BTreeMap, BTreeSet};

use simcore::Source;

use crate::{Def, DefId, Field, Fields, File, Item, Kind, Ty, Variant, sint, uint};

pub struct Family {
    /// One row per version; columns are the same logical type in every version.
    pub versions: Vec<Vec<Ty>>,
}

pub struct Model {
    pub bytes_mode: bool,
    pub defs: Vec<Def>,
    pub files: Vec<File>,
    /// Concrete types under test.
    pub entries: Vec<Ty>,
    pub families: Vec<Family>,
    /// Entries that are kept out of ordinary workloads because of recorded findings.
    pub special: BTreeMap<String, usize>,
}

const NAMES: [&str; 24] = [
    "alpha", "beta", "gamma", "delta", "count", "title", "flags", "owner", "parts", "score", "index", "label",
    "width", "depth", "extra", "state", "items", "token", "quota", "x1", "y2", "long_name_here", "total", "zone",
];

struct Gen<'a> {
    m: Model,
    src: &'a mut Source,
    /// (level of nesting, may be an element or argument) per definition
    level: Vec<usize>,
}

/// Where named types may come from.
#[derive(Clone)]
struct Scope {
    /// definitions usable at this place
    named: Vec<DefId>,
    params: usize,
}

pub fn model(seed: u64, bytes_mode: bool, files: usize, defs_per_file: usize, families: usize) -> Model {
    let mut src = Source::random(seed);
    let mut g = Gen {
        m: Model { bytes_mode, defs: Vec::new(), files: Vec::new(), entries: Vec::new(), families: Vec::new(), special: BTreeMap::new() },
        src: &mut src,
        level: Vec::new(),
    };
    let prefix = if bytes_mode { "b" } else { "s" };
    for i in 0..files {
        g.file(&format!("{prefix}file{i}"), defs_per_file);
    }
    g.every_shape(&format!("{prefix}every"));
    g.scripted(&format!("{prefix}evo"));
    for i in 0..families {
        g.family(&format!("{prefix}fam{i}"));
    }
    if !bytes_mode {
        g.special();
    }
    g.m
}

impl Gen<'_> {
    fn add(&mut self, def: Def) -> DefId {
        let lvl = {
            let mut max = 0;
            let mut visit = |t: &Ty| max = max.max(self.ty_level(t));
            match &def.kind {
                Kind::Alias(t) => visit(t),
                Kind::Struct(f) => f.list().iter().for_each(|f| visit(&f.ty)),
                Kind::Enum(vs) => vs.iter().flat_map(|v| v.fields.list()).for_each(|f| visit(&f.ty)),
            }
            max
        };
        self.level.push(lvl + 1);
        self.m.defs.push(def);
        self.m.defs.len() - 1
    }

    fn ty_level(&self, ty: &Ty) -> usize {
        match ty {
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::Nz(t) | Ty::Arr(t, _) => self.ty_level(t),
            Ty::Map(k, v) => self.ty_level(k).max(self.ty_level(v)),
            Ty::Tuple(ts) => ts.iter().map(|t| self.ty_level(t)).max().unwrap_or(0),
            Ty::Named(d, args) => self.level[*d] + args.iter().map(|t| self.ty_level(t)).max().unwrap_or(0),
            _ => 0,
        }
    }

    // ---- types -------------------------------------------------------------------------------

    fn int(&mut self) -> Ty {
        let bits = *self.src.pick(&[8u8, 16, 32, 64, 128]);
        if self.src.chance(1, 2) { sint(bits) } else { uint(bits) }
    }

    fn scalar(&mut self, trait_only: bool) -> Ty {
        let no_bytes = trait_only && self.m.bytes_mode;
        match self.src.weighted(&[2, 8, 1, 1, 3, 1, if no_bytes { 0 } else { 2 }, 1, 1]) {
            0 => Ty::Bool,
            1 => self.int(),
            2 => Ty::F32,
            3 => Ty::F64,
            4 => Ty::Str,
            5 => Ty::StrRef,
            6 => if self.src.chance(1, 4) { Ty::BytesRef } else { Ty::Bytes },
            7 => Ty::BoxStr,
            _ => if self.m.bytes_mode { Ty::Str } else { Ty::BoxBytes },
        }
    }

    fn key(&mut self, trait_only: bool) -> Ty {
        match self.src.weighted(&[6, 3, 1, 1, 1, 1]) {
            0 => self.int(),
            1 => Ty::Str,
            2 if !trait_only => Ty::Bytes,
            3 if !trait_only => Ty::Tuple(vec![self.int(), Ty::Str]),
            4 => Ty::Arr(Box::new(self.int()), 3),
            5 => Ty::Opt(Box::new(self.int())),
            _ => Ty::Bool,
        }
    }

    fn named(&mut self, sc: &Scope) -> Option<Ty> {
        let ok: Vec<DefId> = sc
            .named
            .iter()
            .copied()
            // a type alias cannot be referenced by other definitions
            .filter(|d| self.level[*d] < 3 && !matches!(self.m.defs[*d].kind, Kind::Alias(_)))
            .filter(|d| {
                let args = vec![Ty::Bool; self.m.defs[*d].generics.len()];
                let t = Ty::Named(*d, args);
                !self.m.tainted(&t) && !self.m.zero_size(&t)
            })
            .collect();
        if ok.is_empty() {
            return None;
        }
        let d = *self.src.pick(&ok);
        let n = self.m.defs[d].generics.len();
        let args = (0..n).map(|_| self.trait_ty(sc, 1)).collect();
        Some(Ty::Named(d, args))
    }

    /// A type every part of which implements the runtime's traits.
    fn trait_ty(&mut self, sc: &Scope, depth: usize) -> Ty {
        if depth == 0 {
            return self.scalar(true);
        }
        match self.src.weighted(&[8, 2, 1, 1, 1, 1, 2]) {
            1 => Ty::Vec(Box::new(self.trait_ty(sc, depth - 1))),
            2 => {
                let k = self.key(true);
                Ty::Map(Box::new(k), Box::new(self.trait_ty(sc, depth - 1)))
            }
            3 => Ty::Set(Box::new(self.key(true))),
            4 => Ty::Opt(Box::new(self.trait_ty(sc, depth - 1))),
            5 => {
                let t = self.trait_ty(sc, depth - 1);
                let n = self.src.range(0, 4) as u32;
                Ty::Arr(Box::new(t), n)
            }
            6 => self.named(sc).unwrap_or(Ty::Bool),
            _ => self.scalar(true),
        }
    }

    fn non_zero(&mut self, sc: &Scope, depth: usize) -> Ty {
        let inner = match self.src.weighted(&[4, 2, 1, 1, 1, 1]) {
            0 => self.int(),
            1 => Ty::Str,
            2 => Ty::Bytes,
            3 => Ty::Vec(Box::new(self.ty(sc, depth.saturating_sub(1), false))),
            4 => {
                let k = self.key(false);
                Ty::Map(Box::new(k), Box::new(self.ty(sc, depth.saturating_sub(1), false)))
            }
            _ => Ty::Set(Box::new(self.key(false))),
        };
        Ty::Nz(Box::new(inner))
    }

    /// Any type usable inside a container (`tuple_elem`: inside a tuple).
    fn ty(&mut self, sc: &Scope, depth: usize, tuple_elem: bool) -> Ty {
        let p = if sc.params > 0 { 3 } else { 0 };
        if depth == 0 {
            return match self.src.weighted(&[10, p, 2]) {
                1 => Ty::Param(self.src.idx(sc.params)),
                2 => self.named(sc).unwrap_or(Ty::Bool),
                _ => self.scalar(false),
            };
        }
        let d = depth - 1;
        let tup = u32::from(!tuple_elem);
        match self.src.weighted(&[8, 3, 2, 1, 2 * tup, tup, 2 * tup, 2, 3, p]) {
            1 => Ty::Vec(Box::new(self.ty(sc, d, false))),
            2 => {
                let k = self.key(false);
                Ty::Map(Box::new(k), Box::new(self.ty(sc, d, false)))
            }
            3 => Ty::Set(Box::new(self.key(false))),
            4 => Ty::Opt(Box::new(self.ty(sc, d, false))),
            5 => self.non_zero(sc, d),
            6 => self.tuple(sc, d),
            7 => {
                let t = self.ty(sc, d, false);
                let n = *self.src.pick(&[0u32, 1, 2, 3, 4, 17]);
                Ty::Arr(Box::new(t), n)
            }
            8 => self.named(sc).unwrap_or(Ty::Bool),
            9 => Ty::Param(self.src.idx(sc.params)),
            _ => self.scalar(false),
        }
    }

    fn tuple(&mut self, sc: &Scope, depth: usize) -> Ty {
        let n = if self.src.chance(1, 8) { 12 } else { self.src.range(2, 4) };
        Ty::Tuple((0..n).map(|_| self.ty(sc, if n > 4 { 0 } else { depth }, true)).collect())
    }

    /// Type of a field. `skippable`: an old reader must be able to skip it.
    fn field_ty(&mut self, sc: &Scope, allow_tuple: bool, skippable: bool) -> Ty {
        loop {
            let t = match self.src.weighted(&[6, 3, u32::from(allow_tuple), 1]) {
                0 => self.ty(sc, 2, false),
                1 => Ty::Opt(Box::new(self.ty(sc, 2, false))),
                2 => {
                    let t = self.tuple(sc, 1);
                    if self.src.chance(1, 3) { Ty::Opt(Box::new(t)) } else { t }
                }
                _ => self.non_zero(sc, 2),
            };
            let root = if let Ty::Opt(t) = &t { t } else { &t };
            if !allow_tuple && matches!(root, Ty::Tuple(_)) {
                continue;
            }
            if skippable && matches!(root, Ty::Opt(_) | Ty::Named(..) | Ty::Param(_)) {
                continue;
            }
            return t;
        }
    }

    // ---- definitions -------------------------------------------------------------------------

    fn next_id(&mut self, prev: u32) -> u32 {
        match self.src.weighted(&[8, 2, 2]) {
            0 => prev + 1,
            1 => prev + 1 + self.src.below(3) as u32,
            _ => {
                // where the encoded header grows by a byte
                let c: Vec<u32> = [15u32, 16, 2047, 2048, 262_143, 262_144, 33_554_431, 33_554_432, (1 << 29) - 1]
                    .into_iter()
                    .filter(|c| *c > prev)
                    .collect();
                if c.is_empty() { prev + 1 } else { *self.src.pick(&c[..c.len().min(3)]) }
            }
        }
    }

    fn ids(&mut self, n: usize) -> Vec<u32> {
        let mut ids = Vec::new();
        let mut prev = 0u32;
        for _ in 0..n {
            prev = self.next_id(prev);
            if prev >= 1 << 29 {
                break;
            }
            ids.push(prev);
        }
        // make room at the top if the sequence ran out
        while ids.len() < n {
            let free = (1..).find(|i| !ids.contains(i)).unwrap();
            ids.insert(0, free);
        }
        ids
    }

    /// Decide which ids are written down; the others must follow from the previous one.
    fn mark_explicit(&mut self, ids: &[u32]) -> Vec<bool> {
        let mut prev = 0;
        ids.iter()
            .map(|id| {
                let e = *id != prev + 1 || self.src.chance(1, 3);
                prev = *id;
                e
            })
            .collect()
    }

    fn remark(&mut self, fields: &mut Fields) {
        if let Some(l) = fields.list_mut() {
            let ids: Vec<u32> = l.iter().map(|f| f.id).collect();
            for (f, e) in l.iter_mut().zip(self.mark_explicit(&ids)) {
                f.explicit = e;
            }
        }
    }

    fn fields(&mut self, sc: &Scope, allow_tuple: bool, skippable: bool, max: u64) -> Fields {
        let n = self.src.range(1, max) as usize;
        let mut ids = self.ids(n);
        if self.src.chance(1, 3) {
            self.src.shuffle(&mut ids);
        }
        let marks = self.mark_explicit(&ids);
        let start = self.src.idx(NAMES.len());
        let list = (0..n)
            .map(|i| Field {
                name: NAMES[(start + i) % NAMES.len()].to_owned(),
                explicit: marks[i],
                id: ids[i],
                ty: self.field_ty(sc, allow_tuple, skippable),
            })
            .collect();
        if self.src.chance(2, 3) { Fields::Named(list) } else { Fields::Unnamed(list) }
    }

    fn variants(&mut self, sc: &Scope, allow_tuple: bool, skippable: bool) -> Vec<Variant> {
        let n = self.src.range(1, 5) as usize;
        let mut out = Vec::new();
        let mut prev = 0u32;
        for i in 0..n {
            let id = match self.src.weighted(&[6, 1, 1]) {
                0 => prev + 1,
                1 => prev + 1 + self.src.below(200) as u32,
                _ => (prev + 1).max(*self.src.pick(&[127, 128, 16_384, 4_000_000_000])),
            };
            let explicit = id != prev + 1 || self.src.chance(1, 4);
            let (id, explicit) = if i == 0 && self.src.chance(1, 10) { (0, true) } else { (id, explicit) };
            prev = id;
            let fields =
                if self.src.chance(1, 3) { Fields::Unit } else { self.fields(sc, allow_tuple, skippable, 4) };
            out.push(Variant { name: format!("V{i}"), explicit, id, fields });
        }
        out
    }

    fn file(&mut self, stem: &str, n: usize) {
        let mut items = Vec::new();
        // imports: some top-level and module types of earlier files
        let mut imported = Vec::new();
        let mut taken = BTreeSet::new();
        let others: Vec<DefId> =
            (0..self.m.defs.len()).filter(|d| !matches!(self.m.defs[*d].kind, Kind::Alias(_))).collect();
        if !others.is_empty() {
            for _ in 0..3 {
                let d = *self.src.pick(&others);
                let def = &self.m.defs[d];
                if taken.insert(def.name.clone()) {
                    items.push(Item::Import { stem: def.stem.clone(), path: def.path.clone(), name: def.name.clone() });
                    imported.push(d);
                }
            }
        }
        items.push(Item::Raw("/// A constant.\nconst LIMIT: u32 = 10;".into()));
        items.push(Item::Raw("const NAME: string = \"name\";".into()));
        // two modules (one nested), then the top level, which sees everything
        let mut counter = 0;
        let mut seen: Vec<DefId> = Vec::new();
        let inner_name = format!("inner{}", self.src.below(3));
        let (mut inner, d) =
            self.block(stem, &["outer".into(), inner_name.clone()], &[], n / 6 + 1, &mut counter, &taken);
        seen.extend(&d);
        inner.push(Item::Raw("const DEEP: bool = true;".into()));
        let (mut outer, d) = self.block(stem, &["outer".into()], &seen.clone(), n / 6 + 1, &mut counter, &taken);
        seen.extend(&d);
        outer.insert(0, Item::Mod(inner_name, inner));
        items.push(Item::Mod("outer".into(), outer));
        let mut visible = seen;
        visible.extend(&imported);
        let (top, _) = self.block(stem, &[], &visible, n - n / 3, &mut counter, &taken);
        items.extend(top);
        self.m.files.push(File { stem: stem.to_owned(), items });
    }

    fn block(
        &mut self,
        stem: &str,
        path: &[String],
        visible: &[DefId],
        n: usize,
        counter: &mut usize,
        taken: &BTreeSet<String>,
    ) -> (Vec<Item>, Vec<DefId>) {
        let mut items = Vec::new();
        let mut mine: Vec<DefId> = Vec::new();
        for i in 0..n {
            // names repeat between modules on purpose
            let fixed = ["Node", "Item", "Leaf"];
            let name = if i < fixed.len() && !taken.contains(fixed[i]) && self.src.chance(1, 2) {
                fixed[i].to_owned()
            } else {
                *counter += 1;
                format!("T{}{counter}", stem.to_uppercase())
            };
            let mut sc = Scope { named: visible.to_vec(), params: 0 };
            sc.named.extend(&mine);
            let mut generics: Vec<String> = Vec::new();
            if self.src.chance(1, 4) {
                generics.push("T".into());
                if self.src.chance(1, 3) {
                    generics.push("Other".into());
                }
            }
            sc.params = generics.len();
            let tuple_ok = self.src.chance(1, 4);
            let kind = match self.src.weighted(&[10, 6, 3, 1]) {
                1 => {
                    let mut vs = self.variants(&sc, tuple_ok, false);
                    self.use_params(sc.params, &mut vs[0].fields);
                    if sc.params > 0 && vs[0].fields.is_unit() {
                        vs[0].fields = self.fields(&sc, false, false, 3);
                        self.use_params(sc.params, &mut vs[0].fields);
                    }
                    Kind::Enum(vs)
                }
                2 => {
                    let inner = Scope { named: sc.named.clone(), params: 0 };
                    generics.clear();
                    Kind::Alias(if self.src.chance(1, 2) {
                        Ty::Vec(Box::new(self.trait_ty(&inner, 1)))
                    } else {
                        self.trait_ty(&inner, 2)
                    })
                }
                3 => {
                    generics.clear();
                    Kind::Struct(Fields::Unit)
                }
                _ => {
                    let mut f = self.fields(&sc, tuple_ok, false, 7);
                    self.use_params(sc.params, &mut f);
                    Kind::Struct(f)
                }
            };
            let def = Def { stem: stem.into(), path: path.to_vec(), name, generics, kind };
            let d = self.add(def);
            mine.push(d);
            items.push(Item::Def(d));
            let ngen = self.m.defs[d].generics.len();
            let plain = Scope { named: sc.named.clone(), params: 0 };
            if ngen == 0 {
                self.m.entries.push(Ty::Named(d, Vec::new()));
            } else {
                for _ in 0..2 {
                    let args = (0..ngen).map(|_| self.trait_ty(&plain, 1)).collect();
                    self.m.entries.push(Ty::Named(d, args));
                }
            }
        }
        (items, mine)
    }

    /// Rust rejects unused type parameters, so every parameter gets a field.
    fn use_params(&mut self, params: usize, fields: &mut Fields) {
        let Some(list) = fields.list_mut() else { return };
        for p in 0..params {
            let id = (1..).find(|i| list.iter().all(|f| f.id != *i)).unwrap();
            let ty = match self.src.below(4) {
                0 => Ty::Param(p),
                1 => Ty::Opt(Box::new(Ty::Param(p))),
                2 => Ty::Vec(Box::new(Ty::Param(p))),
                _ => Ty::Map(Box::new(Ty::Str), Box::new(Ty::Param(p))),
            };
            list.push(Field { name: format!("param{p}"), explicit: true, id, ty });
        }
    }

    /// Hand-written types around recorded findings.
    fn special(&mut self) {
        let stem = "sedge";
        let mut items = Vec::new();
        let mut put = |g: &mut Self, name: &str, fields: Fields| {
            let def = Def {
                stem: stem.into(),
                path: Vec::new(),
                name: name.into(),
                generics: Vec::new(),
                kind: Kind::Struct(fields),
            };
            let d = g.add(def);
            items.push(Item::Def(d));
            g.m.special.insert(name.into(), g.m.entries.len());
            let t = Ty::Named(d, Vec::new());
            g.m.entries.push(t.clone());
            t
        };
        let f = |name: &str, id: u32, ty: Ty| Field { name: name.into(), explicit: true, id, ty };
        let b = |t: &Ty| Box::new(t.clone());
        let unit = put(self, "Unit", Fields::Unit);
        put(self, "UnitList", Fields::Named(vec![f("list", 1, Ty::Vec(b(&unit))), f("tail", 2, uint(8))]));
        put(self, "UnitArray", Fields::Named(vec![f("array", 1, Ty::Arr(b(&unit), 2)), f("tail", 2, uint(8))]));
        put(self, "UnitMap", Fields::Named(vec![f("map", 1, Ty::Map(b(&uint(16)), b(&unit))), f("tail", 2, uint(8))]));
        put(
            self,
            "UnitNonZero",
            Fields::Named(vec![f("list", 1, Ty::Nz(Box::new(Ty::Vec(b(&unit))))), f("tail", 2, uint(8))]),
        );
        let pair = Ty::Tuple(vec![uint(8), uint(32)]);
        let tuple = put(self, "HasTuple", Fields::Named(vec![f("pair", 1, pair)]));
        put(self, "TupleList", Fields::Named(vec![f("list", 1, Ty::Vec(b(&tuple))), f("tail", 2, uint(32))]));
        let inner =
            put(self, "EvoInner", Fields::Named(vec![f("first", 1, uint(32)), f("second", 2, Ty::Str)]));
        put(self, "EvoOld", Fields::Named(vec![f("first", 1, uint(32)), f("tail", 3, uint(32))]));
        put(
            self,
            "EvoNew",
            Fields::Named(vec![
                f("first", 1, uint(32)),
                f("inner", 2, Ty::Opt(b(&inner))),
                f("tail", 3, uint(32)),
            ]),
        );
        self.m.files.push(File { stem: stem.into(), items });
    }

    /// Every scalar in every position, whatever the seed.
    fn every_shape(&mut self, stem: &str) {
        let scalars: Vec<Ty> = [Ty::Bool, Ty::F32, Ty::F64, Ty::Str, Ty::StrRef, Ty::Bytes, Ty::BytesRef, Ty::BoxStr]
            .into_iter()
            .chain((!self.m.bytes_mode).then_some(Ty::BoxBytes))
            .chain([8u8, 16, 32, 64, 128].into_iter().flat_map(|bits| [uint(bits), sint(bits)]))
            .collect();
        let mut items = Vec::new();
        let b = |t: &Ty| Box::new(t.clone());
        for (i, t) in scalars.iter().enumerate() {
            let mut shapes = vec![
                t.clone(),
                Ty::Opt(b(t)),
                Ty::Vec(b(t)),
                Ty::Opt(Box::new(Ty::Vec(Box::new(Ty::Vec(b(t)))))),
                Ty::Arr(b(t), 3),
                Ty::Map(Box::new(uint(16)), b(t)),
                Ty::Vec(Box::new(Ty::Opt(b(t)))),
                Ty::Vec(Box::new(Ty::Tuple(vec![t.clone(), Ty::Str, t.clone()]))),
                Ty::Nz(Box::new(Ty::Vec(b(t)))),
                Ty::Nz(Box::new(Ty::Map(Box::new(Ty::Str), b(t)))),
            ];
            if !matches!(t, Ty::F32 | Ty::F64) {
                shapes.push(Ty::Set(b(t)));
                shapes.push(Ty::Map(b(t), Box::new(Ty::Bool)));
                shapes.push(Ty::Nz(Box::new(Ty::Set(b(t)))));
            }
            if matches!(t, Ty::Int { .. } | Ty::Str | Ty::Bytes) {
                shapes.push(Ty::Nz(b(t)));
                shapes.push(Ty::Opt(Box::new(Ty::Nz(b(t)))));
                shapes.push(Ty::Vec(Box::new(Ty::Nz(b(t)))));
            }
            let fields: Vec<Field> = shapes
                .into_iter()
                .enumerate()
                .map(|(k, ty)| Field { name: format!("f{k}"), explicit: false, id: k as u32 + 1, ty })
                .collect();
            let def = Def {
                stem: stem.into(),
                path: Vec::new(),
                name: format!("Every{i}"),
                generics: Vec::new(),
                kind: Kind::Struct(Fields::Named(fields)),
            };
            let d = self.add(def);
            items.push(Item::Def(d));
            self.m.entries.push(Ty::Named(d, Vec::new()));
        }
        self.m.files.push(File { stem: stem.into(), items });
    }

    // ---- evolution ---------------------------------------------------------------------------

    /// A family that makes every compatible change at least once, whatever the seed.
    fn scripted(&mut self, stem: &str) {
        let b = |t: Ty| Box::new(t);
        let opt = |t: Ty| Ty::Opt(Box::new(t));
        let arr = |t: Ty, n: u32| Ty::Arr(Box::new(t), n);
        let vec = |t: Ty| Ty::Vec(Box::new(t));
        let f = |name: &str, id: u32, ty: Ty| Field { name: name.into(), explicit: true, id, ty };
        let variant = |name: &str, id: u32, fields: Fields| Variant { name: name.into(), explicit: true, id, fields };
        let mut rows = Vec::new();
        for version in 0..5usize {
            let vstem = format!("{stem}v{version}");
            let base = self.m.defs.len();
            let v = version as u32;
            let at = |i: usize| Ty::Named(base + i, Vec::new());
            // lengths shrink by more than one element, down to nothing
            let n = [7u32, 5, 2, 0, 0][version];
            let bits = [16u8, 16, 32, 64, 128][version];
            let maybe = |from: u32, t: Ty| if v >= from { opt(t) } else { t };
            let mut rich = vec![
                f("head", 1, uint(32)),
                f("ints", 2, arr(uint(bits), n)),
                f("texts", 3, arr(Ty::Str, n.max(1))),
                f("nested", 4, arr(arr(sint(bits), 2), n)),
                f("small", 5, maybe(1, Ty::Bool)),
                f("single", 6, maybe(2, Ty::F32)),
                f("double", 7, maybe(1, Ty::F64)),
                f("number", 8, maybe(3, sint(bits))),
                f("text", 9, maybe(2, Ty::Str)),
                f("blob", 15, maybe(1, Ty::Bytes)),
                f("list", 16, maybe(2, vec(uint(bits)))),
                f("table", 17, Ty::Map(b(Ty::Str), b(arr(Ty::Bool, n)))),
            ];
            // one optional field per field encoding, unknown to older and to newer versions
            if version % 2 == 0 {
                rich.push(f("opt_varint", 20, opt(uint(64))));
                rich.push(f("opt_fixed1", 21, opt(sint(8))));
                rich.push(f("opt_fixed4", 22, opt(Ty::F32)));
                rich.push(f("opt_fixed8", 23, opt(Ty::F64)));
                rich.push(f("opt_bytes", 24, opt(Ty::Bytes)));
            } else {
                rich.push(f("opt_big", 2047, opt(sint(128))));
                rich.push(f("opt_map", 2048, opt(Ty::Map(b(uint(16)), b(vec(Ty::Str))))));
                rich.push(f("opt_set", 262_143, opt(Ty::Set(b(Ty::Str)))));
                rich.push(f("opt_flag", 262_144, opt(Ty::Bool)));
            }
            rich.push(f("tail", 30, uint(32)));
            if version == 4 {
                rich.push(f("demanded", 31, Ty::Str));
            }
            if version == 1 || version == 3 {
                rich.reverse();
            }
            if version >= 2 {
                for x in &mut rich {
                    x.name = format!("{}_v{version}", x.name);
                }
            }
            let mut variants = vec![
                variant("Plain", 1, Fields::Unit),
                variant("Pair", 2, Fields::Unnamed(vec![f("f0", 1, uint(bits)), f("f1", 2, maybe(1, Ty::Str))])),
                variant("Full", 3, Fields::Named(vec![f("a", 1, arr(uint(32), n)), f("b", 2, maybe(2, Ty::F64)), f("c", 3, Ty::Bool)])),
            ];
            if version >= 1 {
                variants.push(variant("Late", 70_000, Fields::Named(vec![f("x", 1, uint(32))])));
                if let Fields::Named(l) = &mut variants[2].fields {
                    l.insert(1, f("added", 9, opt(Ty::Bytes)));
                }
            }
            if version >= 2 {
                variants.push(variant("Later", 65_537, Fields::Unit));
                variants.push(variant("Latest", 257, Fields::Unnamed(vec![f("f0", 1, vec(Ty::Str))])));
            }
            if version == 3 {
                variants.reverse();
            }
            if version == 4 {
                variants.retain(|x| x.id != 2);
            }
            let outer = vec![
                f("one", 1, at(0)),
                f("many", 2, vec(at(0))),
                f("kinds", 3, Ty::Map(b(uint(16)), b(at(1)))),
                f("few", 4, arr(at(1), n.min(2))),
                f("tail", 5, uint(32)),
            ];
            let loose = vec![f("f0", 1, arr(at(0), n.min(3))), f("f1", 2, maybe(2, uint(bits))), f("f2", 3, Ty::Str)];
            let kinds = [
                ("Fam0", Kind::Struct(Fields::Named(rich))),
                ("Fam1", Kind::Enum(variants)),
                ("Fam2", Kind::Struct(Fields::Named(outer))),
                ("Fam3", Kind::Struct(Fields::Unnamed(loose))),
            ];
            let mut items = Vec::new();
            let mut row = Vec::new();
            for (name, kind) in kinds {
                let def = Def { stem: vstem.clone(), path: Vec::new(), name: name.into(), generics: Vec::new(), kind };
                let d = self.add(def);
                items.push(Item::Def(d));
                row.push(Ty::Named(d, Vec::new()));
            }
            self.m.files.push(File { stem: vstem, items });
            rows.push(row);
        }
        for row in &rows {
            self.m.entries.extend(row.iter().cloned());
        }
        self.m.families.push(Family { versions: rows });
    }

    fn family(&mut self, stem: &str) {
        let mut rows = Vec::new();
        let mut used: Vec<BTreeSet<u32>> = Vec::new();
        let mut kinds: Vec<Kind> = Vec::new();
        for version in 0..5 {
            let vstem = format!("{stem}v{version}");
            let mut items = Vec::new();
            let mut row = Vec::new();
            let base = self.m.defs.len();
            if version > 0 {
                // the definitions of a version refer to each other by position
                let shift = rows.last().map_or(0, |r: &Vec<Ty>| {
                    let Ty::Named(d, _) = r[0] else { unreachable!() };
                    base - d
                });
                for k in &mut kinds {
                    rebase(k, shift);
                }
            }
            for i in 0..4 {
                let sc = Scope { named: (base..base + i).collect(), params: 0 };
                if version == 0 {
                    let kind = if i % 2 == 1 {
                        Kind::Enum(self.variants(&sc, i == 3, false))
                    } else {
                        Kind::Struct(self.fields(&sc, i == 2, false, 6))
                    };
                    used.push(BTreeSet::new());
                    kinds.push(kind);
                } else {
                    let mut kind = kinds[i].clone();
                    let mut ids = used[i].clone();
                    let breaking = version == 4;
                    self.evolve(&sc, &mut kind, &mut ids, breaking);
                    used[i] = ids;
                    kinds[i] = kind;
                }
                remember(&kinds[i], &mut used[i]);
                let def = Def {
                    stem: vstem.clone(),
                    path: Vec::new(),
                    name: format!("Fam{i}"),
                    generics: Vec::new(),
                    kind: kinds[i].clone(),
                };
                let d = self.add(def);
                items.push(Item::Def(d));
                row.push(Ty::Named(d, Vec::new()));
            }
            self.m.files.push(File { stem: vstem, items });
            rows.push(row);
        }
        for row in &rows {
            self.m.entries.extend(row.iter().cloned());
        }
        self.m.families.push(Family { versions: rows });
    }

    fn evolve(&mut self, sc: &Scope, kind: &mut Kind, used: &mut BTreeSet<u32>, breaking: bool) {
        match kind {
            Kind::Struct(f) => {
                for _ in 0..3 {
                    self.evolve_fields(sc, f, used, breaking);
                }
                self.remark(f);
            }
            Kind::Enum(vs) => {
                if self.src.chance(2, 3) {
                    let id = vs.iter().map(|v| v.id).max().unwrap_or(0) + 1 + self.src.below(3) as u32;
                    let fields = self.fields(sc, false, false, 3);
                    let fields = if self.src.chance(1, 3) { Fields::Unit } else { fields };
                    vs.push(Variant { name: format!("New{id}"), explicit: true, id, fields });
                }
                if self.src.chance(1, 2) {
                    let i = self.src.idx(vs.len());
                    let name = format!("Renamed{}", vs[i].id);
                    vs[i].name = name;
                }
                let i = self.src.idx(vs.len());
                let mut f = vs[i].fields.clone();
                self.evolve_fields(sc, &mut f, used, breaking);
                self.remark(&mut f);
                vs[i].fields = f;
                if breaking && vs.len() > 1 {
                    let i = self.src.idx(vs.len());
                    vs.remove(i);
                }
                if self.src.chance(1, 2) {
                    self.src.shuffle(vs);
                }
                for v in vs {
                    v.explicit = true;
                }
            }
            Kind::Alias(_) => {}
        }
    }

    fn evolve_fields(&mut self, sc: &Scope, fields: &mut Fields, used: &mut BTreeSet<u32>, breaking: bool) {
        let named = fields.is_named();
        let Some(list) = fields.list_mut() else { return };
        let fresh = |used: &BTreeSet<u32>, list: &[Field], big: bool| {
            let from = if big { 2046 } else { 1 };
            (from..).find(|i| !used.contains(i) && list.iter().all(|f| f.id != *i)).unwrap()
        };
        match self.src.weighted(&[5, 2, 2, 2, 2, 2, 2, if breaking { 6 } else { 0 }]) {
            0 | 7 => {
                let big = self.src.chance(1, 4);
                let id = fresh(used, list, big);
                let required = breaking && self.src.chance(2, 3);
                let mut ty = self.field_ty(sc, false, true);
                if let (true, Ty::Opt(t)) = (required, &ty) {
                    ty = (**t).clone();
                } else if !required && !matches!(ty, Ty::Opt(_)) {
                    ty = Ty::Opt(Box::new(ty));
                }
                let at = self.src.idx(list.len() + 1);
                used.insert(id);
                list.insert(at, Field { name: format!("added{id}"), explicit: true, id, ty });
            }
            1 => {
                // remove an optional field that can be skipped
                let ok: Vec<usize> = (0..list.len())
                    .filter(|i| match &list[*i].ty {
                        Ty::Opt(t) => !matches!(**t, Ty::Opt(_) | Ty::Named(..)),
                        _ => false,
                    })
                    .collect();
                if list.len() > 1 && !ok.is_empty() {
                    let i = *self.src.pick(&ok);
                    used.insert(list[i].id);
                    list.remove(i);
                }
            }
            2 => self.src.shuffle(list),
            3 if named => {
                let i = self.src.idx(list.len());
                list[i].name = format!("renamed{}", list[i].id);
            }
            4 => {
                let i = self.src.idx(list.len());
                if !matches!(list[i].ty, Ty::Opt(_)) {
                    list[i].ty = Ty::Opt(Box::new(list[i].ty.clone()));
                }
            }
            5 => {
                for f in list.iter_mut() {
                    shrink_arrays(&mut f.ty);
                }
            }
            6 => {
                let i = self.src.idx(list.len());
                widen(&mut list[i].ty);
            }
            _ => {}
        }
        if breaking && list.len() > 1 && self.src.chance(1, 3) {
            let ok: Vec<usize> = (0..list.len())
                .filter(|i| {
                    let t = if let Ty::Opt(t) = &list[*i].ty { t } else { &list[*i].ty };
                    !matches!(t, Ty::Opt(_) | Ty::Named(..))
                })
                .collect();
            if !ok.is_empty() {
                let i = *self.src.pick(&ok);
                used.insert(list[i].id);
                list.remove(i);
            }
        }
    }
}

fn shrink_arrays(ty: &mut Ty) {
    match ty {
        Ty::Arr(t, n) => {
            shrink_arrays(t);
            *n = n.saturating_sub(1 + *n % 3);
        }
        Ty::Opt(t) | Ty::Vec(t) => shrink_arrays(t),
        Ty::Map(_, v) => shrink_arrays(v),
        Ty::Tuple(ts) => ts.iter_mut().for_each(shrink_arrays),
        _ => {}
    }
}

fn widen(ty: &mut Ty) {
    match ty {
        Ty::Int { bits, .. } if (16..128).contains(bits) => *bits *= 2,
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(t, _) => widen(t),
        Ty::Map(_, v) => widen(v),
        Ty::Tuple(ts) => ts.iter_mut().for_each(widen),
        _ => {}
    }
}

fn remember(kind: &Kind, used: &mut BTreeSet<u32>) {
    match kind {
        Kind::Struct(f) => used.extend(f.list().iter().map(|f| f.id)),
        Kind::Enum(vs) => used.extend(vs.iter().flat_map(|v| v.fields.list()).map(|f| f.id)),
        Kind::Alias(_) => {}
    }
}

fn rebase(kind: &mut Kind, shift: usize) {
    fn go(t: &mut Ty, shift: usize) {
        match t {
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::Nz(t) | Ty::Arr(t, _) => go(t, shift),
            Ty::Map(k, v) => {
                go(k, shift);
                go(v, shift);
            }
            Ty::Tuple(ts) => ts.iter_mut().for_each(|t| go(t, shift)),
            Ty::Named(d, args) => {
                *d += shift;
                args.iter_mut().for_each(|t| go(t, shift));
            }
            _ => {}
        }
    }
    let f = |fs: &mut Fields| {
        if let Some(l) = fs.list_mut() {
            l.iter_mut().for_each(|f| go(&mut f.ty, shift));
        }
    };
    match kind {
        Kind::Struct(fs) => f(fs),
        Kind::Enum(vs) => vs.iter_mut().for_each(|v| f(&mut v.fields)),
        Kind::Alias(t) => go(t, shift),
    }
}
