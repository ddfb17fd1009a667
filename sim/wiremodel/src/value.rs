//! Dynamic values and their random generation.

use simcore::Source;

use crate::{Kind, Model, Ty, subst};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Value {
    Bool(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    /// `bytes`, and `vec<u8>`, which has the same representation.
    Bytes(Vec<u8>),
    /// vec, array and tuple
    List(Vec<Value>),
    Set(Vec<Value>),
    Map(Vec<(Value, Value)>),
    None,
    Some(Box<Value>),
    Struct(Vec<Value>),
    /// index of the variant in the schema
    Enum(usize, Vec<Value>),
}

impl Value {
    /// Order-free form of sets and maps, for comparison.
    pub fn canon(&self) -> Value {
        match self {
            Value::List(l) => Value::List(l.iter().map(Value::canon).collect()),
            Value::Set(l) => {
                let mut l: Vec<_> = l.iter().map(Value::canon).collect();
                l.sort();
                Value::Set(l)
            }
            Value::Map(l) => {
                let mut l: Vec<_> = l.iter().map(|(k, v)| (k.canon(), v.canon())).collect();
                l.sort();
                Value::Map(l)
            }
            Value::Some(v) => Value::Some(Box::new(v.canon())),
            Value::Struct(l) => Value::Struct(l.iter().map(Value::canon).collect()),
            Value::Enum(i, l) => Value::Enum(*i, l.iter().map(Value::canon).collect()),
            other => other.clone(),
        }
    }

    pub fn same(&self, other: &Value) -> bool {
        self == other || self.canon() == other.canon()
    }
}

pub fn gen_uint(src: &mut Source, bits: u8) -> u128 {
    let max: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match src.weighted(&[4, 3, 2, 1]) {
        0 => u128::from(src.below(4)),
        1 => {
            // around a power of two: varint length boundaries
            let sh = src.below(u64::from(bits) + 1) as u32;
            let base = if sh >= 128 { u128::MAX } else { (1u128 << sh) - 1 };
            base.wrapping_add(u128::from(src.below(3))).min(max)
        }
        2 => {
            let v = (u128::from(src.u64()) << 64) | u128::from(src.u64());
            v & max
        }
        _ => max - u128::from(src.below(2)),
    }
}

pub fn gen_int(src: &mut Source, bits: u8) -> i128 {
    let u = gen_uint(src, bits);
    // zigzag back, so that both signs and all magnitudes are covered
    ((u >> 1) as i128) ^ -((u & 1) as i128)
}

/// Now and then a value much larger than the rest: beyond the two- and
/// three-byte length prefixes, the capacity of a network buffer or a `u16`.
fn gen_large(src: &mut Source) -> Option<u64> {
    src.chance(1, 700).then(|| match src.weighted(&[6, 4, 4, 1]) {
        0 => src.range(0x3ffe, 0x4002),
        1 => src.range(0xfffe, 0x1_0003),
        2 => src.range(4_000, 200_000),
        _ => src.range(0x1f_fffe, 0x20_0002),
    })
}

fn gen_string(src: &mut Source) -> String {
    if let Some(n) = gen_large(src) {
        // The last repetition is cut, so that the length in bytes is right.
        let unit: String = (0..src.range(1, 9)).map(|i| ["x", "é", "7", "❤", "\u{0}"][((i + n) % 5) as usize]).collect();
        let mut s = unit.repeat(n as usize / unit.len());
        while s.len() < n as usize {
            s.push('.');
        }
        return s;
    }
    const ALPHA: [&str; 20] = [
        "a", "b", "Z", "0", " ", "\n", "\0", "é", "ß", "❤", "𝕄", "🦀", "\u{7f}", "\u{80}", "\u{feff}", "\r\n", "e\u{301}",
        "\u{fffd}", "\u{10ffff}", "\u{2028}",
    ];
    let n = match src.weighted(&[2, 6, 2, 1]) {
        0 => 0,
        1 => src.range(1, 8),
        2 => src.range(120, 135), // length prefix grows to two bytes
        _ => src.range(9, 40),
    };
    (0..n).map(|_| *src.pick(&ALPHA)).collect()
}

fn gen_bytes(src: &mut Source) -> Vec<u8> {
    if let Some(n) = gen_large(src) {
        let period = src.range(1, 252);
        return (0..n).map(|i| (i % period) as u8).collect();
    }
    let n = match src.weighted(&[2, 6, 2, 1]) {
        0 => 0,
        1 => src.range(1, 8),
        2 => src.range(126, 130),
        _ => src.range(9, 40),
    };
    (0..n).map(|_| *src.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 8, 9, 0x81])).collect()
}

fn is_cheap(t: &Ty) -> bool {
    matches!(t, Ty::Bool | Ty::Int { .. } | Ty::F32 | Ty::F64)
}

impl Model {
    pub fn gen_value(&self, src: &mut Source, ty: &Ty, depth: usize) -> Value {
        match ty {
            Ty::Bool => Value::Bool(src.chance(1, 2)),
            Ty::Int { signed: false, bits } => Value::U(gen_uint(src, *bits)),
            Ty::Int { signed: true, bits } => Value::I(gen_int(src, *bits)),
            Ty::F32 => Value::F32(*src.pick(&[
                0, 0x3f80_0000, 0x8000_0000, 0x7f80_0000, 0x7fc0_0001, 0x1234_5678, 0xff7f_ffff, 1, 0x7fa0_0000, 0xffc0_0000,
                0x4b00_0001,
            ])),
            Ty::F64 => Value::F64(*src.pick(&[
                0,
                0x3ff0_0000_0000_0000,
                0x8000_0000_0000_0000,
                0x7ff0_0000_0000_0000,
                0x7ff8_0000_0000_0001,
                0x1234_5678_9abc_def0,
                1,
                0x7ff4_0000_0000_0000,
                0xfff8_0000_0000_0000,
                0x4340_0000_0000_0001,
            ])),
            Ty::Str | Ty::StrRef | Ty::BoxStr => Value::Str(gen_string(src)),
            Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => Value::Bytes(gen_bytes(src)),
            Ty::Vec(t) if **t == crate::uint(8) => Value::Bytes(gen_bytes(src)),
            Ty::Vec(t) => {
                if depth == 0 && src.chance(1, 1000) && is_cheap(t) {
                    // The length takes three bytes, and a few elements alternate.
                    let n = src.range(0x3fff, 0x4001);
                    let some: Vec<_> = (0..3).map(|_| self.gen_value(src, t, depth + 1)).collect();
                    return Value::List((0..n).map(|i| some[i as usize % 3].clone()).collect());
                }
                let n = self.gen_len(src, t, depth);
                Value::List((0..n).map(|_| self.gen_value(src, t, depth + 1)).collect())
            }
            Ty::Set(t) => {
                let n = self.gen_len(src, t, depth);
                let mut seen = std::collections::BTreeSet::new();
                for _ in 0..n {
                    seen.insert(self.gen_value(src, t, depth + 1).canon());
                }
                Value::Set(seen.into_iter().collect())
            }
            Ty::Map(k, v) => {
                let n = self.gen_len(src, v, depth);
                let mut seen = std::collections::BTreeMap::new();
                for _ in 0..n {
                    let key = self.gen_value(src, k, depth + 1).canon();
                    let val = self.gen_value(src, v, depth + 1);
                    seen.entry(key).or_insert(val);
                }
                Value::Map(seen.into_iter().collect())
            }
            Ty::Opt(t) => {
                if src.chance(2, 3) {
                    Value::Some(Box::new(self.gen_value(src, t, depth)))
                } else {
                    Value::None
                }
            }
            Ty::Nz(t) => {
                let v = self.gen_value(src, t, depth);
                match (v, &**t) {
                    (Value::U(0), _) => Value::U(1),
                    (Value::I(0), _) => Value::I(-1),
                    (Value::Str(s), _) if s.is_empty() => Value::Str("x".into()),
                    (Value::Bytes(b), _) if b.is_empty() => Value::Bytes(vec![0]),
                    (Value::List(l), Ty::Vec(t)) if l.is_empty() => {
                        Value::List(vec![self.gen_value(src, t, depth + 1)])
                    }
                    (Value::Set(l), Ty::Set(t)) if l.is_empty() => {
                        Value::Set(vec![self.gen_value(src, t, depth + 1).canon()])
                    }
                    (Value::Map(l), Ty::Map(k, x)) if l.is_empty() => Value::Map(vec![(
                        self.gen_value(src, k, depth + 1).canon(),
                        self.gen_value(src, x, depth + 1),
                    )]),
                    (v, _) => v,
                }
            }
            Ty::Tuple(ts) => Value::List(ts.iter().map(|t| self.gen_value(src, t, depth)).collect()),
            Ty::Arr(t, n) => Value::List((0..*n).map(|_| self.gen_value(src, t, depth + 1)).collect()),
            Ty::Param(_) => unreachable!("substituted"),
            Ty::Named(d, args) => match &self.defs[*d].kind {
                Kind::Alias(t) => self.gen_value(src, &subst(t, args), depth),
                Kind::Struct(f) => Value::Struct(
                    f.list().iter().map(|f| self.gen_value(src, &subst(&f.ty, args), depth)).collect(),
                ),
                Kind::Enum(vs) => {
                    let i = src.idx(vs.len());
                    Value::Enum(
                        i,
                        vs[i].fields.list().iter().map(|f| self.gen_value(src, &subst(&f.ty, args), depth)).collect(),
                    )
                }
            },
        }
    }

    fn gen_len(&self, src: &mut Source, elem: &Ty, depth: usize) -> u64 {
        let cheap = is_cheap(elem);
        match depth {
            0 if cheap => match src.weighted(&[3, 5, 1, 1]) {
                0 => 0,
                1 => src.range(1, 6),
                2 => src.range(62, 66),
                _ => src.range(126, 130),
            },
            0 => match src.weighted(&[3, 6, 1]) {
                0 => 0,
                1 => src.range(1, 4),
                _ => src.range(5, 20),
            },
            1 => src.below(4),
            2 => src.below(3),
            _ => src.below(2),
        }
    }
}
