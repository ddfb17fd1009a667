//! Reference encoder, size function, decoder and schema-evolution projection, written from the
//! wire-format description, independently of the code under test.

use crate::{Field, Fields, Kind, Model, Ty, Value, subst, uint};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum DecErr {
    Insufficient,
    Int,
    NonUtf8,
    Missing(u32, Option<String>),
    UnknownVariant(u32),
    UnknownEncoding,
    Zero,
}

/// Liberties and defects of a foreign writer.
pub struct Foreign<'a> {
    pub src: &'a mut simcore::Source,
    pub permute: bool,
    pub unknown: bool,
    pub repeat: bool,
    /// Write zeros and empty lengths with more bytes than needed.
    pub overlong: bool,
    pub countdown: Option<usize>,
    pub expect: Option<DecErr>,
}

impl<'a> Foreign<'a> {
    pub fn plain(src: &'a mut simcore::Source) -> Self {
        Self { src, permute: false, unknown: false, repeat: false, overlong: false, countdown: None, expect: None }
    }

    fn hit(&mut self) -> bool {
        match &mut self.countdown {
            Some(0) => {
                self.countdown = None;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
}

pub fn put_varint(out: &mut Vec<u8>, mut v: u128) {
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

pub fn zigzag(v: i128) -> u128 {
    if v < 0 { ((!(v as u128)) << 1) | 1 } else { (v as u128) << 1 }
}

pub fn unzigzag(u: u128) -> i128 {
    if u & 1 == 1 { !((u >> 1) as i128) } else { (u >> 1) as i128 }
}

impl Model {
    /// Follow aliases.
    pub fn resolve(&self, ty: &Ty) -> Ty {
        match ty {
            Ty::Named(d, args) => match &self.defs[*d].kind {
                Kind::Alias(t) => self.resolve(&subst(t, args)),
                _ => ty.clone(),
            },
            other => other.clone(),
        }
    }

    /// Wire tag of a field; aliases and all other named types count as length-prefixed.
    pub fn tag(&self, ty: &Ty) -> u32 {
        match ty {
            Ty::Bool | Ty::Int { bits: 8, .. } => 2,
            Ty::Int { .. } => 0,
            Ty::F32 => 3,
            Ty::F64 => 4,
            Ty::Nz(t) => self.tag(t),
            _ => 1,
        }
    }

    pub fn encode(&self, ty: &Ty, v: &Value) -> Vec<u8> {
        let mut out = Vec::new();
        self.enc(ty, v, &mut out);
        out
    }

    fn enc(&self, ty: &Ty, v: &Value, out: &mut Vec<u8>) {
        match (ty, v) {
            (Ty::Bool, Value::Bool(b)) => out.push(u8::from(*b)),
            (Ty::Int { signed: false, bits: 8 }, Value::U(u)) => out.push(*u as u8),
            (Ty::Int { signed: true, bits: 8 }, Value::I(i)) => out.push(*i as i8 as u8),
            (Ty::Int { signed: false, .. }, Value::U(u)) => put_varint(out, *u),
            (Ty::Int { signed: true, .. }, Value::I(i)) => put_varint(out, zigzag(*i)),
            (Ty::F32, Value::F32(f)) => out.extend(f.to_be_bytes()),
            (Ty::F64, Value::F64(f)) => out.extend(f.to_be_bytes()),
            (Ty::Str | Ty::StrRef | Ty::BoxStr, Value::Str(s)) => {
                put_varint(out, s.len() as u128);
                out.extend(s.as_bytes());
            }
            (_, Value::Bytes(b)) if is_bytes(ty) => {
                put_varint(out, b.len() as u128);
                out.extend(b);
            }
            (Ty::Vec(t) | Ty::Arr(t, _), Value::List(l)) => {
                let mut body = Vec::new();
                for x in l {
                    self.enc(t, x, &mut body);
                }
                put_varint(out, body.len() as u128);
                out.extend(body);
            }
            (Ty::Set(t), Value::Set(l)) => {
                let mut body = Vec::new();
                for x in l {
                    self.enc(t, x, &mut body);
                }
                put_varint(out, body.len() as u128);
                out.extend(body);
            }
            (Ty::Map(k, t), Value::Map(l)) => {
                let mut body = Vec::new();
                for (key, x) in l {
                    self.enc(k, key, &mut body);
                    self.enc(t, x, &mut body);
                }
                put_varint(out, body.len() as u128);
                out.extend(body);
            }
            (Ty::Opt(_), Value::None) => out.push(0),
            (Ty::Opt(t), Value::Some(x)) => {
                out.push(1);
                self.enc(t, x, out);
            }
            (Ty::Nz(t), v) => self.enc(t, v, out),
            (Ty::Tuple(ts), Value::List(l)) => {
                for (t, x) in ts.iter().zip(l) {
                    self.enc(t, x, out);
                }
            }
            (Ty::Named(d, args), v) => match (&self.defs[*d].kind, v) {
                (Kind::Alias(t), v) => self.enc(&subst(t, args), v, out),
                (Kind::Struct(f), Value::Struct(vals)) => self.enc_fields(f, args, vals, out),
                (Kind::Enum(vs), Value::Enum(i, vals)) => {
                    put_varint(out, u128::from(vs[*i].id));
                    self.enc_fields(&vs[*i].fields, args, vals, out);
                }
                (k, v) => panic!("value {v:?} does not fit {k:?}"),
            },
            (t, v) => panic!("value {v:?} does not fit {t:?}"),
        }
    }

    fn enc_fields(&self, fields: &Fields, args: &[Ty], vals: &[Value], out: &mut Vec<u8>) {
        if fields.is_unit() {
            return;
        }
        for (f, v) in fields.list().iter().zip(vals) {
            // whether a field is optional is decided by its declared type, before generics
            let (decl, val) = match (&f.ty, v) {
                (Ty::Opt(t), Value::Some(v)) => (&**t, &**v),
                (Ty::Opt(_), _) => continue,
                (t, v) => (t, v),
            };
            put_varint(out, u128::from((f.id << 3) | self.tag(decl)));
            let ty = subst(decl, args);
            if matches!(decl, Ty::Tuple(_)) {
                let mut body = Vec::new();
                self.enc(&ty, val, &mut body);
                put_varint(out, body.len() as u128);
                out.extend(body);
            } else {
                self.enc(&ty, val, out);
            }
        }
        out.push(0);
    }

    /// Encoding of a foreign but conforming writer: fields in any order, repeated fields (the last
    /// one counts), unknown fields in between. `defect` counts down to the one place where a
    /// required field is left out or a variant id is replaced by an unknown one.
    pub fn encode_foreign(&self, ty: &Ty, v: &Value, f: &mut Foreign<'_>) -> Vec<u8> {
        let mut out = Vec::new();
        self.enc_foreign(ty, v, f, &mut out);
        out
    }

    fn enc_foreign(&self, ty: &Ty, v: &Value, f: &mut Foreign<'_>, out: &mut Vec<u8>) {
        let region = |body: Vec<u8>, out: &mut Vec<u8>| {
            put_varint(out, body.len() as u128);
            out.extend(body);
        };
        match (ty, v) {
            (Ty::Vec(t) | Ty::Arr(t, _) | Ty::Set(t), Value::List(l) | Value::Set(l)) => {
                let mut body = Vec::new();
                for x in l {
                    self.enc_foreign(t, x, f, &mut body);
                }
                region(body, out);
            }
            (Ty::Map(k, t), Value::Map(l)) => {
                let mut body = Vec::new();
                for (key, x) in l {
                    self.enc_foreign(k, key, f, &mut body);
                    self.enc_foreign(t, x, f, &mut body);
                }
                region(body, out);
            }
            (Ty::Opt(t), Value::Some(x)) => {
                out.push(1);
                self.enc_foreign(t, x, f, out);
            }
            (Ty::Nz(t), v) if f.overlong && is_zero(v) && !matches!(**t, Ty::Int { bits: 8, .. }) => {
                let max = if let Ty::Int { bits, .. } = **t { bits.div_ceil(7) } else { 10 };
                let n = f.src.range(1, u64::from(max) - 1) as usize;
                out.extend(std::iter::repeat_n(0x80, n));
                out.push(0);
            }
            (Ty::Nz(t), v) => self.enc_foreign(t, v, f, out),
            (Ty::Tuple(ts), Value::List(l)) => {
                for (t, x) in ts.iter().zip(l) {
                    self.enc_foreign(t, x, f, out);
                }
            }
            (Ty::Named(d, args), v) => match (&self.defs[*d].kind, v) {
                (Kind::Alias(t), v) => self.enc_foreign(&subst(t, args), v, f, out),
                (Kind::Struct(fs), Value::Struct(vals)) => self.fields_foreign(fs, args, vals, f, out),
                (Kind::Enum(vs), Value::Enum(i, vals)) => {
                    let mut id = vs[*i].id;
                    if f.hit() {
                        id = (1..).map(|n| n * 7 + 3).find(|n| vs.iter().all(|v| v.id != *n)).unwrap();
                        f.expect = Some(DecErr::UnknownVariant(id));
                    }
                    put_varint(out, u128::from(id));
                    self.fields_foreign(&vs[*i].fields, args, vals, f, out);
                }
                _ => panic!("value does not fit"),
            },
            (t, v) => self.enc(t, v, out),
        }
    }

    fn fields_foreign(&self, fields: &Fields, args: &[Ty], vals: &[Value], f: &mut Foreign<'_>, out: &mut Vec<u8>) {
        if fields.is_unit() {
            return;
        }
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut repeats: Vec<Vec<u8>> = Vec::new();
        for (fd, v) in fields.list().iter().zip(vals) {
            let required = !matches!(fd.ty, Ty::Opt(_));
            let (decl, val) = match (&fd.ty, v) {
                (Ty::Opt(t), Value::Some(v)) => (&**t, &**v),
                (Ty::Opt(_), _) => continue,
                (t, v) => (t, v),
            };
            if required && f.hit() {
                f.expect = Some(DecErr::Missing(fd.id, fields.is_named().then(|| fd.name.clone())));
                continue;
            }
            let ty = subst(decl, args);
            let put = |val: &Value, f: &mut Foreign<'_>| {
                let mut part = Vec::new();
                put_varint(&mut part, u128::from((fd.id << 3) | self.tag(decl)));
                let mut body = Vec::new();
                self.enc_foreign(&ty, val, f, &mut body);
                if matches!(decl, Ty::Tuple(_)) {
                    put_varint(&mut part, body.len() as u128);
                }
                part.extend(body);
                part
            };
            if f.repeat && f.src.chance(1, 8) {
                // an earlier, different value of the same field
                let other = self.gen_value(f.src, &ty, 2);
                let (count, expect) = (f.countdown.take(), f.expect.take());
                repeats.push(put(&other, f));
                (f.countdown, f.expect) = (count, expect);
            }
            parts.push(put(val, f));
        }
        if f.permute && f.src.chance(1, 2) {
            f.src.shuffle(&mut parts);
        }
        if f.unknown && f.src.chance(1, 3) {
            for _ in 0..f.src.range(1, 3) {
                let id = (1..).map(|n| n * 5 + 1).filter(|n| fields.list().iter().all(|f| f.id != *n));
                let nth = f.src.idx(12);
                let id = id.skip(nth).next().unwrap();
                let tag = f.src.below(5) as u32;
                let mut p = Vec::new();
                put_varint(&mut p, u128::from((id << 3) | tag));
                match tag {
                    0 => put_varint(&mut p, crate::gen_uint(f.src, 128)),
                    1 => {
                        let n = f.src.skewed(200) as usize;
                        put_varint(&mut p, n as u128);
                        p.extend((0..n).map(|i| i as u8 | 0x80));
                    }
                    t => p.extend(std::iter::repeat_n(0x80, [0, 0, 1, 4, 8][t as usize])),
                }
                let at = f.src.idx(parts.len() + 1);
                parts.insert(at, p);
            }
        }
        for r in repeats {
            out.extend(r);
        }
        for p in parts {
            out.extend(p);
        }
        out.push(0);
    }

    /// Number of places where `encode_foreign` could plant its one defect.
    pub fn defect_sites(&self, ty: &Ty, v: &Value) -> usize {
        let mut src = simcore::Source::replay(Vec::new());
        let mut f = Foreign::plain(&mut src);
        f.countdown = Some(usize::MAX);
        self.encode_foreign(ty, v, &mut f);
        usize::MAX - f.countdown.unwrap_or(usize::MAX)
    }

    /// Does a value contain a zero or empty `non_zero`?
    pub fn zero_inside(&self, ty: &Ty, v: &Value) -> bool {
        match (ty, v) {
            (Ty::Nz(t), v) => {
                (match v {
                    Value::U(0) | Value::I(0) => true,
                    Value::Str(s) => s.is_empty(),
                    Value::Bytes(b) => b.is_empty(),
                    Value::List(l) | Value::Set(l) => l.is_empty(),
                    Value::Map(l) => l.is_empty(),
                    _ => false,
                }) || self.zero_inside(t, v)
            }
            (Ty::Vec(t) | Ty::Arr(t, _) | Ty::Set(t), Value::List(l) | Value::Set(l)) => {
                l.iter().any(|v| self.zero_inside(t, v))
            }
            (Ty::Map(k, t), Value::Map(l)) => {
                l.iter().any(|(a, b)| self.zero_inside(k, a) || self.zero_inside(t, b))
            }
            (Ty::Opt(t), Value::Some(v)) => self.zero_inside(t, v),
            (Ty::Tuple(ts), Value::List(l)) => ts.iter().zip(l).any(|(t, v)| self.zero_inside(t, v)),
            (Ty::Named(d, args), v) => {
                let any = |fs: &Fields, vals: &[Value]| {
                    fs.list().iter().zip(vals).any(|(f, v)| self.zero_inside(&subst(&f.ty, args), v))
                };
                match (&self.defs[*d].kind, v) {
                    (Kind::Alias(t), v) => self.zero_inside(&subst(t, args), v),
                    (Kind::Struct(f), Value::Struct(vals)) => any(f, vals),
                    (Kind::Enum(vs), Value::Enum(i, vals)) => any(&vs[*i].fields, vals),
                    _ => false,
                }
            }
            _ => false,
        }
    }

    /// Replace `non_zero` values by zero or empty ones; returns how many places there are.
    pub fn zero_out(&self, ty: &Ty, v: &mut Value, target: usize, seen: &mut usize) {
        match (ty, v) {
            (Ty::Nz(t), v) => {
                if *seen == target {
                    *v = match &*v {
                        Value::U(_) => Value::U(0),
                        Value::I(_) => Value::I(0),
                        Value::Str(_) => Value::Str(String::new()),
                        Value::Bytes(_) => Value::Bytes(Vec::new()),
                        Value::List(_) => Value::List(Vec::new()),
                        Value::Set(_) => Value::Set(Vec::new()),
                        Value::Map(_) => Value::Map(Vec::new()),
                        other => other.clone(),
                    };
                    *seen += 1;
                    return;
                }
                *seen += 1;
                self.zero_out(t, v, target, seen);
            }
            (Ty::Vec(t) | Ty::Arr(t, _) | Ty::Set(t), Value::List(l) | Value::Set(l)) => {
                l.iter_mut().for_each(|v| self.zero_out(t, v, target, seen));
            }
            (Ty::Map(k, t), Value::Map(l)) => l.iter_mut().for_each(|(a, b)| {
                self.zero_out(k, a, target, seen);
                self.zero_out(t, b, target, seen);
            }),
            (Ty::Opt(t), Value::Some(v)) => self.zero_out(t, v, target, seen),
            (Ty::Tuple(ts), Value::List(l)) => {
                ts.iter().zip(l).for_each(|(t, v)| self.zero_out(t, v, target, seen));
            }
            (Ty::Named(d, args), v) => {
                let mut all = |fs: &Fields, vals: &mut [Value]| {
                    fs.list()
                        .iter()
                        .zip(vals)
                        .for_each(|(f, v)| self.zero_out(&subst(&f.ty, args), v, target, seen));
                };
                match (&self.defs[*d].kind, v) {
                    (Kind::Alias(t), v) => self.zero_out(&subst(t, args), v, target, seen),
                    (Kind::Struct(f), Value::Struct(vals)) => all(f, vals),
                    (Kind::Enum(vs), Value::Enum(i, vals)) => all(&vs[*i].fields, vals),
                    _ => {}
                }
            }
            _ => {}
        }
    }

    /// Number of bytes the length prefixes of tuple fields take (the part a generated `size()`
    /// is known to leave out), over the whole value.
    pub fn tuple_prefix_bytes(&self, ty: &Ty, v: &Value) -> usize {
        let Ty::Named(d, args) = ty else { return 0 };
        let (fields, vals) = match (&self.defs[*d].kind, v) {
            (Kind::Alias(t), v) => return self.tuple_prefix_bytes(&subst(t, args), v),
            (Kind::Struct(f), Value::Struct(vals)) => (f, vals),
            (Kind::Enum(vs), Value::Enum(i, vals)) => (&vs[*i].fields, vals),
            _ => return 0,
        };
        let mut n = 0;
        for (f, v) in fields.list().iter().zip(vals) {
            let (decl, val) = match (&f.ty, v) {
                (Ty::Opt(t), Value::Some(v)) => (&**t, &**v),
                (Ty::Opt(_), _) => continue,
                (t, v) => (t, v),
            };
            let ty = subst(decl, args);
            if matches!(decl, Ty::Tuple(_)) {
                let body = self.encode(&ty, val).len();
                let mut p = Vec::new();
                put_varint(&mut p, body as u128);
                n += p.len();
            } else {
                n += self.tuple_prefix_bytes(&ty, val);
            }
        }
        n
    }

    /// Does some value of this type contain a tuple field (directly in a struct or variant)?
    pub fn tainted(&self, ty: &Ty) -> bool {
        match ty {
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::Nz(t) | Ty::Arr(t, _) => self.tainted(t),
            Ty::Map(k, v) => self.tainted(k) || self.tainted(v),
            Ty::Tuple(ts) => ts.iter().any(|t| self.tainted(t)),
            Ty::Named(d, args) => {
                let hit = |fs: &Fields| {
                    fs.list().iter().any(|f| {
                        let t = if let Ty::Opt(t) = &f.ty { t } else { &f.ty };
                        matches!(t, Ty::Tuple(_)) || self.tainted(t)
                    })
                };
                args.iter().any(|t| self.tainted(t))
                    || match &self.defs[*d].kind {
                        Kind::Alias(t) => self.tainted(t),
                        Kind::Struct(f) => hit(f),
                        Kind::Enum(vs) => vs.iter().any(|v| hit(&v.fields)),
                    }
            }
            _ => false,
        }
    }

    /// May every value of this type be encoded into zero bytes?
    pub fn zero_size(&self, ty: &Ty) -> bool {
        match self.resolve(ty) {
            Ty::Tuple(ts) => ts.iter().all(|t| self.zero_size(t)),
            Ty::Named(d, _) => matches!(&self.defs[d].kind, Kind::Struct(Fields::Unit)),
            _ => false,
        }
    }

    pub fn decode(&self, ty: &Ty, data: &[u8]) -> Decoded {
        let mut d = Dec { m: self, data, pos: 0, end: data.len(), lenient: None };
        let result = d.val(ty);
        Decoded { consumed: d.pos, lenient: d.lenient, result }
    }

    /// What a reader with type `r` must obtain from the encoding of `v` written with type `w`.
    /// `Err` holds every error the decoder may legitimately report (each of them is true).
    pub fn project(&self, w: &Ty, r: &Ty, v: &Value) -> Result<Value, Vec<DecErr>> {
        let mut errs = Vec::new();
        let out = self.proj(w, r, v, &mut errs);
        if errs.is_empty() { Ok(out) } else { Err(errs) }
    }

    fn proj(&self, w: &Ty, r: &Ty, v: &Value, errs: &mut Vec<DecErr>) -> Value {
        let (w, r) = (self.resolve(w), self.resolve(r));
        match (&w, &r, v) {
            (Ty::Arr(a, _), Ty::Arr(b, n), Value::List(l)) => {
                if l.len() < *n as usize {
                    errs.push(DecErr::Insufficient);
                }
                Value::List(l.iter().take(*n as usize).map(|x| self.proj(a, b, x, errs)).collect())
            }
            (Ty::Vec(a), Ty::Vec(b), Value::List(l)) => {
                Value::List(l.iter().map(|x| self.proj(a, b, x, errs)).collect())
            }
            (Ty::Set(_), Ty::Set(_), v) => v.clone(),
            (Ty::Map(_, a), Ty::Map(_, b), Value::Map(l)) => {
                Value::Map(l.iter().map(|(k, x)| (k.clone(), self.proj(a, b, x, errs))).collect())
            }
            (Ty::Opt(a), Ty::Opt(b), Value::Some(x)) => Value::Some(Box::new(self.proj(a, b, x, errs))),
            (Ty::Nz(a), Ty::Nz(b), v) => self.proj(a, b, v, errs),
            (Ty::Tuple(a), Ty::Tuple(b), Value::List(l)) => Value::List(
                l.iter().enumerate().map(|(i, x)| self.proj(&a[i], &b[i], x, errs)).collect(),
            ),
            (Ty::Named(wd, wa), Ty::Named(rd, ra), v) => {
                match (&self.defs[*wd].kind, &self.defs[*rd].kind, v) {
                    (Kind::Struct(wf), Kind::Struct(rf), Value::Struct(vals)) => {
                        Value::Struct(self.proj_fields(wf, wa, rf, ra, vals, errs))
                    }
                    (Kind::Enum(wv), Kind::Enum(rv), Value::Enum(i, vals)) => {
                        let id = wv[*i].id;
                        match rv.iter().position(|x| x.id == id) {
                            None => {
                                errs.push(DecErr::UnknownVariant(id));
                                Value::Enum(0, Vec::new())
                            }
                            Some(j) => Value::Enum(
                                j,
                                self.proj_fields(&wv[*i].fields, wa, &rv[j].fields, ra, vals, errs),
                            ),
                        }
                    }
                    _ => panic!("incompatible kinds"),
                }
            }
            (Ty::Int { .. }, Ty::Int { signed, bits }, v) => {
                // a reader with a narrower integer than the writer: only defined if it fits
                let fits = match v {
                    Value::U(u) => !signed && (*bits == 128 || u >> bits == 0),
                    Value::I(i) => *signed && (*bits == 128 || zigzag(*i) >> bits == 0),
                    _ => false,
                };
                if !fits {
                    errs.push(DecErr::Int);
                }
                v.clone()
            }
            (_, _, v) => v.clone(),
        }
    }

    fn proj_fields(
        &self,
        wf: &Fields,
        wa: &[Ty],
        rf: &Fields,
        ra: &[Ty],
        vals: &[Value],
        errs: &mut Vec<DecErr>,
    ) -> Vec<Value> {
        let named = rf.is_named();
        rf.list()
            .iter()
            .map(|r| {
                let written = wf.list().iter().zip(vals).find(|(w, _)| w.id == r.id).and_then(|(w, v)| {
                    match (&w.ty, v) {
                        (Ty::Opt(t), Value::Some(v)) => Some((&**t, &**v)),
                        (Ty::Opt(_), _) => None,
                        (t, v) => Some((t, v)),
                    }
                });
                match (&r.ty, written) {
                    (Ty::Opt(t), Some((wt, v))) => Value::Some(Box::new(self.proj(
                        &subst(wt, wa),
                        &subst(t, ra),
                        v,
                        errs,
                    ))),
                    (Ty::Opt(_), None) => Value::None,
                    (t, Some((wt, v))) => self.proj(&subst(wt, wa), &subst(t, ra), v, errs),
                    (_, None) => {
                        errs.push(DecErr::Missing(r.id, named.then(|| r.name.clone())));
                        Value::None
                    }
                }
            })
            .collect()
    }
}

fn is_zero(v: &Value) -> bool {
    match v {
        Value::U(0) | Value::I(0) => true,
        Value::Str(s) => s.is_empty(),
        Value::Bytes(b) => b.is_empty(),
        Value::List(l) | Value::Set(l) => l.is_empty(),
        Value::Map(l) => l.is_empty(),
        _ => false,
    }
}

pub fn is_bytes(ty: &Ty) -> bool {
    match ty {
        Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => true,
        Ty::Vec(t) => **t == uint(8),
        _ => false,
    }
}

pub struct Decoded {
    pub result: Result<Value, DecErr>,
    pub consumed: usize,
    /// Set when the input uses a form that no encoder produces and whose treatment the format
    /// leaves open (overlong integers, odd option tags, wrong wire tag on a known field).
    pub lenient: Option<&'static str>,
}

struct Dec<'a> {
    m: &'a Model,
    data: &'a [u8],
    pos: usize,
    end: usize,
    lenient: Option<&'static str>,
}

impl Dec<'_> {
    fn u8(&mut self) -> Result<u8, DecErr> {
        if self.pos >= self.end {
            return Err(DecErr::Insufficient);
        }
        self.pos += 1;
        Ok(self.data[self.pos - 1])
    }

    fn varint(&mut self, bits: u32) -> Result<u128, DecErr> {
        let max = bits.div_ceil(7) as usize;
        let mut v = 0u128;
        for i in 0..max {
            let b = self.u8().map_err(|_| DecErr::Int)?;
            let part = u128::from(b & 0x7f);
            let shift = 7 * i as u32;
            if shift < 128 {
                if (part << shift) >> shift != part {
                    self.lenient = Some("overflowing integer");
                }
                v |= part << shift;
            }
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    self.lenient = Some("overlong integer");
                }
                if bits < 128 && v >> bits != 0 {
                    self.lenient = Some("overflowing integer");
                    v &= (1 << bits) - 1;
                }
                return Ok(v);
            }
        }
        Err(DecErr::Int)
    }

    fn len(&mut self) -> Result<usize, DecErr> {
        let n = self.varint(64)?;
        if n > (self.end - self.pos) as u128 {
            return Err(DecErr::Insufficient);
        }
        Ok(n as usize)
    }

    fn raw(&mut self) -> Result<Vec<u8>, DecErr> {
        let n = self.len()?;
        self.pos += n;
        Ok(self.data[self.pos - n..self.pos].to_vec())
    }

    /// Decode elements until the length-prefixed region is used up.
    fn region(&mut self, mut f: impl FnMut(&mut Self) -> Result<(), DecErr>) -> Result<(), DecErr> {
        let n = self.len()?;
        let outer = self.end;
        self.end = self.pos + n;
        while self.pos < self.end {
            let before = self.pos;
            f(self)?;
            if self.pos == before {
                return Err(DecErr::Insufficient);
            }
        }
        self.end = outer;
        Ok(())
    }

    fn val(&mut self, ty: &Ty) -> Result<Value, DecErr> {
        Ok(match ty {
            Ty::Bool => {
                let b = self.u8()?;
                if b > 1 {
                    self.lenient = Some("bool byte above 1");
                }
                Value::Bool(b != 0)
            }
            Ty::Int { signed: false, bits: 8 } => Value::U(u128::from(self.u8()?)),
            Ty::Int { signed: true, bits: 8 } => Value::I(i128::from(self.u8()? as i8)),
            Ty::Int { signed: false, bits } => Value::U(self.varint(u32::from(*bits))?),
            Ty::Int { signed: true, bits } => Value::I(unzigzag(self.varint(u32::from(*bits))?)),
            Ty::F32 => {
                let mut b = [0; 4];
                self.fill(&mut b)?;
                Value::F32(u32::from_be_bytes(b))
            }
            Ty::F64 => {
                let mut b = [0; 8];
                self.fill(&mut b)?;
                Value::F64(u64::from_be_bytes(b))
            }
            Ty::Str | Ty::StrRef | Ty::BoxStr => {
                Value::Str(String::from_utf8(self.raw()?).map_err(|_| DecErr::NonUtf8)?)
            }
            t if is_bytes(t) => Value::Bytes(self.raw()?),
            Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => unreachable!(),
            Ty::Vec(t) => {
                let mut l = Vec::new();
                self.region(|d| {
                    l.push(d.val(t)?);
                    Ok(())
                })?;
                Value::List(l)
            }
            Ty::Set(t) => {
                let mut l = std::collections::BTreeSet::new();
                self.region(|d| {
                    l.insert(d.val(t)?.canon());
                    Ok(())
                })?;
                Value::Set(l.into_iter().collect())
            }
            Ty::Map(k, t) => {
                let mut l = std::collections::BTreeMap::new();
                self.region(|d| {
                    let key = d.val(k)?.canon();
                    let v = d.val(t)?;
                    l.insert(key, v);
                    Ok(())
                })?;
                Value::Map(l.into_iter().collect())
            }
            Ty::Arr(t, n) => {
                let len = self.len()?;
                let outer = self.end;
                self.end = self.pos + len;
                let mut l = Vec::new();
                while self.pos < self.end && l.len() < *n as usize {
                    let before = self.pos;
                    l.push(self.val(t)?);
                    if self.pos == before {
                        return Err(DecErr::Insufficient);
                    }
                }
                if l.len() < *n as usize {
                    return Err(DecErr::Insufficient);
                }
                self.pos = self.end;
                self.end = outer;
                Value::List(l)
            }
            Ty::Opt(t) => match self.u8()? {
                0 => Value::None,
                1 => Value::Some(Box::new(self.val(t)?)),
                _ => {
                    self.lenient = Some("option tag above 1");
                    Value::None
                }
            },
            Ty::Nz(t) => {
                let v = self.val(t)?;
                if is_zero(&v) {
                    return Err(DecErr::Zero);
                }
                v
            }
            Ty::Tuple(ts) => {
                let mut l = Vec::new();
                for t in ts {
                    l.push(self.val(t)?);
                }
                Value::List(l)
            }
            Ty::Param(_) => unreachable!("substituted"),
            Ty::Named(d, args) => match &self.m.defs[*d].kind {
                Kind::Alias(t) => self.val(&subst(t, args))?,
                Kind::Struct(f) => Value::Struct(self.fields(f, args)?),
                Kind::Enum(vs) => {
                    let id = self.varint(32)? as u32;
                    let Some(i) = vs.iter().position(|v| v.id == id) else {
                        return Err(DecErr::UnknownVariant(id));
                    };
                    Value::Enum(i, self.fields(&vs[i].fields, args)?)
                }
            },
        })
    }

    fn fill(&mut self, b: &mut [u8]) -> Result<(), DecErr> {
        if self.end - self.pos < b.len() {
            return Err(DecErr::Insufficient);
        }
        b.copy_from_slice(&self.data[self.pos..self.pos + b.len()]);
        self.pos += b.len();
        Ok(())
    }

    fn fields(&mut self, fields: &Fields, args: &[Ty]) -> Result<Vec<Value>, DecErr> {
        if fields.is_unit() {
            return Ok(Vec::new());
        }
        let list: &[Field] = fields.list();
        let mut slots: Vec<Option<Value>> = vec![None; list.len()];
        loop {
            let head = self.varint(32)? as u32;
            let (id, tag) = (head >> 3, head & 7);
            if tag > 4 {
                return Err(DecErr::UnknownEncoding);
            }
            if id == 0 {
                if tag != 0 {
                    self.lenient = Some("end marker with a wire tag");
                }
                break;
            }
            if let Some(i) = list.iter().position(|f| f.id == id) {
                let decl = if let Ty::Opt(t) = &list[i].ty { t } else { &list[i].ty };
                if tag != self.m.tag(decl) {
                    self.lenient = Some("wrong wire tag on a known field");
                }
                let ty = subst(decl, args);
                if matches!(decl, Ty::Tuple(_)) {
                    let n = self.varint(64)?;
                    let start = self.pos;
                    let v = self.val(&ty)?;
                    if n != (self.pos - start) as u128 {
                        self.lenient = Some("tuple length differs from its content");
                    }
                    slots[i] = Some(v);
                } else {
                    slots[i] = Some(self.val(&ty)?);
                }
            } else {
                match tag {
                    0 => {
                        let mut n = 0;
                        while self.u8()? & 0x80 != 0 {
                            n += 1;
                        }
                        if n > 18 {
                            self.lenient = Some("overlong skipped integer");
                        }
                    }
                    1 => {
                        let n = self.len()?;
                        self.pos += n;
                    }
                    t => {
                        let n = [0, 0, 1, 4, 8][t as usize];
                        if self.end - self.pos < n {
                            return Err(DecErr::Insufficient);
                        }
                        self.pos += n;
                    }
                }
            }
        }
        let mut out = Vec::new();
        for (f, slot) in list.iter().zip(slots) {
            out.push(match (&f.ty, slot) {
                (Ty::Opt(_), Some(v)) => Value::Some(Box::new(v)),
                (Ty::Opt(_), None) => Value::None,
                (_, Some(v)) => v,
                (_, None) => {
                    return Err(DecErr::Missing(f.id, fields.is_named().then(|| f.name.clone())));
                }
            });
        }
        Ok(out)
    }
}
