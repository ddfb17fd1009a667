//! The wire properties as simulations.

use std::{
    collections::{HashMap, HashSet},
    rc::Rc,
    sync::{Arc, OnceLock},
};

use serde_json::json;
use simcore::{Ctx, Engine, Info, Probe, Source, Violation, check, violate};
use wiremodel::{DecErr, Decoded, Foreign, Model, Ty, Value, put_varint, sint, uint};

use crate::{
    buf::{SimBuf, SimSink, measure},
    ops::{Ops, ops},
};

struct Type {
    model: usize,
    ty: Ty,
    ops: Ops,
    tainted: bool,
    has_nz: bool,
}

struct World {
    models: [Model; 2],
    types: Vec<Type>,
    /// ordinary types
    normal: Vec<usize>,
    nz: Vec<usize>,
    /// (model, family, version, column) -> type
    offset: [usize; 2],
}

fn has_nz(m: &Model, ty: &Ty) -> bool {
    match ty {
        Ty::Nz(_) => true,
        Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::Arr(t, _) => has_nz(m, t),
        Ty::Map(k, v) => has_nz(m, k) || has_nz(m, v),
        Ty::Tuple(ts) => ts.iter().any(|t| has_nz(m, t)),
        Ty::Named(d, args) => {
            let any = |f: &wiremodel::Fields| f.list().iter().any(|f| has_nz(m, &wiremodel::subst(&f.ty, args)));
            match &m.defs[*d].kind {
                wiremodel::Kind::Alias(t) => has_nz(m, t),
                wiremodel::Kind::Struct(f) => any(f),
                wiremodel::Kind::Enum(vs) => vs.iter().any(|v| any(&v.fields)),
            }
        }
        _ => false,
    }
}

/// Types used through the runtime's trait implementations, without any schema.
fn direct() -> Vec<(Ty, Ops)> {
    let b = Box::new;
    vec![
        (Ty::Vec(b(Ty::Vec(b(uint(64))))), ops::<Rc<Vec<Vec<u64>>>>()),
        (Ty::Map(b(Ty::Str), b(Ty::Arr(b(sint(16)), 3))), ops::<HashMap<String, [i16; 3]>>()),
        (Ty::Set(b(uint(128))), ops::<Arc<HashSet<u128>>>()),
        (Ty::Opt(b(Ty::Opt(b(sint(128))))), ops::<Option<Option<i128>>>()),
        (sint(64), ops::<std::borrow::Cow<'static, i64>>()),
        (Ty::Vec(b(Ty::BoxStr)), ops::<Vec<Box<str>>>()),
        (Ty::BoxBytes, ops::<Box<[u8]>>()),
        (Ty::Map(b(uint(16)), b(Ty::Vec(b(Ty::F64)))), ops::<HashMap<u16, Vec<f64>>>()),
        (Ty::Arr(b(Ty::Opt(b(Ty::Str))), 5), ops::<[Option<String>; 5]>()),
        (Ty::Vec(b(Ty::Set(b(Ty::Str)))), ops::<Vec<HashSet<String>>>()),
        (uint(16), ops::<u16>()),
        (uint(32), ops::<u32>()),
        (sint(16), ops::<i16>()),
        (sint(32), ops::<i32>()),
        (sint(8), ops::<i8>()),
        (Ty::Bool, ops::<bool>()),
        (Ty::F32, ops::<f32>()),
    ]
}

impl World {
    fn load() -> Self {
        let models = crate::spec::models(crate::SCHEMA_SEED);
        let mut types = Vec::new();
        let mut offset = [0; 2];
        for (i, list) in [crate::std_types_ops(), crate::bytes_types_ops()].into_iter().enumerate() {
            offset[i] = types.len();
            for (ty, ops) in models[i].entries.iter().zip(list) {
                let m = &models[i];
                types.push(Type {
                    model: i,
                    tainted: m.tainted(ty),
                    has_nz: has_nz(m, ty),
                    ty: ty.clone(),
                    ops,
                });
            }
        }
        let special: HashSet<usize> = models[0].special.values().copied().collect();
        let direct_from = types.len();
        for (ty, ops) in direct() {
            types.push(Type { model: 0, tainted: false, has_nz: false, ty, ops });
        }
        let mut normal: Vec<usize> = (0..types.len()).filter(|i| !special.contains(i)).collect();
        // the trait implementations are used more often than any one generated type
        for _ in 0..2 {
            normal.extend(direct_from..types.len());
        }
        let nz = normal.iter().copied().filter(|i| types[*i].has_nz).collect();
        World { models, types, normal, nz, offset }
    }

    fn get() -> &'static World {
        static W: OnceLock<World> = OnceLock::new();
        W.get_or_init(World::load)
    }

    fn model(&self, t: usize) -> &Model {
        &self.models[self.types[t].model]
    }

    fn special(&self, name: &str) -> usize {
        self.models[0].special[name]
    }

    fn by_ty(&self, model: usize, ty: &Ty) -> usize {
        let i = self.models[model].entries.iter().position(|t| t == ty).expect("entry");
        self.offset[model] + i
    }

    fn gen_value(&self, src: &mut Source, t: usize) -> Value {
        self.model(t).gen_value(src, &self.types[t].ty, 0)
    }
}

fn short(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        s.push_str(&format!("…({} bytes)", b.len()));
    }
    s
}

fn show(v: &Value) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 400 {
        let mut cut = 400;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        s.push('…');
    }
    s
}

/// Scheduled fragmentation of `len` bytes.
fn cuts(src: &mut Source, len: usize) -> Vec<usize> {
    if len < 2 {
        return Vec::new();
    }
    match src.weighted(&[2, 3, 3, 2]) {
        0 => Vec::new(),
        1 => (1..len).collect(),
        2 => {
            // a few cuts anywhere
            let n = src.range(1, 4);
            let mut c: Vec<usize> = (0..n).map(|_| src.range(1, len as u64 - 1) as usize).collect();
            c.sort_unstable();
            c.dedup();
            c
        }
        _ => {
            // steady small fragments
            let step = src.range(1, 9) as usize;
            (1..len).filter(|i| i % step == 0).collect()
        }
    }
}

fn fragment_kind(c: &[usize], len: usize) -> &'static str {
    match c.len() {
        0 => "whole",
        n if n + 1 >= len => "bytewise",
        n if n < 5 => "few",
        _ => "steady",
    }
}

struct Record {
    ty: usize,
    value: Value,
    bytes: Vec<u8>,
}

/// Real encoder, through a scheduled writer.
fn encode_real(ctx: &mut Ctx, src: &mut Source, w: &World, ty: usize, value: Value) -> Result<Record, Violation> {
    let t = &w.types[ty];
    let obj = (t.ops.make)(&value);
    let bytes = match src.weighted(&[3, 1]) {
        0 => obj.encode_vec(),
        _ => {
            let piece = src.range(1, 16) as usize;
            ctx.fault("small_write_chunks");
            let mut s = SimSink::new(obj.encode_vec().len(), piece);
            obj.encode_sink(&mut s);
            s.written().to_vec()
        }
    };
    ctx.ev(format!("write {} {} {}", t.ops.name, show(&value), short(&bytes)));
    Ok(Record { ty, value, bytes })
}

fn outcome(r: &Result<Value, DecErr>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(DecErr::Insufficient) => "insufficient",
        Err(DecErr::Int) => "int",
        Err(DecErr::NonUtf8) => "utf8",
        Err(DecErr::Missing(..)) => "missing",
        Err(DecErr::UnknownVariant(_)) => "variant",
        Err(DecErr::UnknownEncoding) => "encoding",
        Err(DecErr::Zero) => "zero",
    }
}

struct Read {
    result: Result<Value, DecErr>,
    consumed: usize,
    alloc: u64,
    work: u64,
}

fn read(t: &Type, data: &[u8], cut: &[usize]) -> Read {
    let mut b = SimBuf::new(data, cut);
    let (r, alloc) = measure(|| (t.ops.decode)(&mut b));
    Read { result: r.map(|o| o.value()), consumed: b.pos(), alloc, work: b.work() }
}

/// What transport and storage do to bytes.
fn damage(ctx: &mut Ctx, src: &mut Source, bytes: &[u8]) -> Vec<u8> {
    let mut b = bytes.to_vec();
    for _ in 0..src.range(1, 3) {
        let n = b.len() as u64;
        let kind = src.weighted(&[3, 4, 3, 2, 2, 2, 3, 1]);
        match kind {
            0 => {
                ctx.fault("truncate");
                b.truncate(src.below(n + 1) as usize);
            }
            1 if n > 0 => {
                ctx.fault("bit_flip");
                let i = src.idx(b.len());
                b[i] ^= 1 << src.below(8);
            }
            2 if n > 0 => {
                ctx.fault("overwrite_byte");
                let i = src.idx(b.len());
                b[i] = *src.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 9, 13]);
            }
            3 if n > 0 => {
                ctx.fault("lost_bytes");
                let i = src.idx(b.len());
                let k = src.range(1, 8) as usize;
                b.drain(i..(i + k).min(b.len()));
            }
            4 if n > 0 => {
                ctx.fault("duplicated_bytes");
                let i = src.idx(b.len());
                let k = (i + src.range(1, 8) as usize).min(b.len());
                let part = b[i..k].to_vec();
                b.splice(i..i, part);
            }
            5 => {
                ctx.fault("inserted_bytes");
                let i = src.idx(b.len() + 1);
                let ins: Vec<u8> =
                    (0..src.range(1, 12)).map(|_| *src.pick(&[0u8, 1, 0x80, 0xff, 0x7f, 8, 17])).collect();
                b.splice(i..i, ins);
            }
            6 => {
                // a hostile length or count in place of some byte
                ctx.fault("hostile_length");
                let i = src.idx(b.len() + 1);
                let mut v = Vec::new();
                let huge = match src.below(5) {
                    0 => u128::from(u64::MAX),
                    1 => 1 << 62,
                    2 => u128::from(u32::MAX),
                    3 => n.into(),
                    _ => u128::from(n) + 1,
                };
                put_varint(&mut v, huge);
                let end = (i + 1).min(b.len());
                b.splice(i..end, v);
            }
            _ => {
                ctx.fault("garbage");
                b = (0..src.below(40)).map(|_| src.below(256) as u8).collect();
            }
        }
    }
    b
}

type Run = fn(&mut Source, &mut Ctx) -> Result<(), Violation>;

struct Wire {
    id: &'static str,
    run: Run,
}

pub fn find(p: &str) -> Option<Box<dyn Engine>> {
    let (id, run): (&'static str, Run) = match p {
        "W01" => ("W01", w01),
        "W02" => ("W02", w02),
        "W03" => ("W03", w03),
        "W04" => ("W04", w04),
        "W05" => ("W05", w05),
        "W06" => ("W06", w06),
        "W07" => ("W07", w07),
        "W08" => ("W08", w08),
        _ => return None,
    };
    // built before any run, so that no run's hash seeds depend on being the first
    World::get();
    Some(Box::new(Wire { id, run }))
}

impl Engine for Wire {
    fn run(&self, src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
        (self.run)(src, ctx)
    }

    fn budget(&self, tier: &str) -> (u64, u64) {
        if tier == "thorough" { (100_000_000, 100) } else { (300_000, 30) }
    }

    fn probes(&self) -> Vec<Probe> {
        match self.id {
            "W01" => vec![
                Probe { key: "unit-struct-elements", run: Box::new(probe_unit) },
                Probe { key: "tuple-field-in-container", run: Box::new(probe_tuple_list) },
            ],
            "W02" => vec![
                Probe { key: "size-root-tuple", run: Box::new(probe_tuple_size) },
                Probe { key: "tuple-field-in-container", run: Box::new(probe_tuple_prefix) },
            ],
            "W05" => vec![Probe { key: "skip-nested-type", run: Box::new(probe_skip) }],
            "W07" => vec![Probe { key: "tuple-field-in-container", run: Box::new(probe_tuple_prefix) }],
            _ => Vec::new(),
        }
    }

    fn info(&self) -> Info {
        let w = World::get();
        Info {
            rule: format!(
                "one evaluation = one seeded simulation: records of randomly chosen types (of {} generated by the real compiler from {} generated schema files, plus {} runtime trait types) are encoded by the real code, carried by a simulated transport (scheduled fragmentation, damage, reordering, versions) and decoded by the real code. Distinct and non-trivial: at least one decode of a non-empty record was judged, counted by distinct event logs; states = distinct (type, fragmentation, fault, outcome) signatures.",
                w.models.iter().map(|m| m.entries.len()).sum::<usize>(),
                w.models.iter().map(|m| m.files.len()).sum::<usize>(),
                direct().len()
            ),
            components: json!({
                "real": ["crates/mabo runtime (varint, buf::encode, buf::decode, buf::size)", "code generated by crates/mabo-build from schemas parsed, validated, resolved by mabo-parser/mabo-compiler"],
                "stub": ["transport, log and writer (SimBuf, SimSink)", "allocator accounting"],
                "model": ["schema/value/format reference in sim/wiremodel"]
            }),
            assumptions: vec![
                "schemas are those of the seeded generator (thorough tier rebuilds with further schema seeds); shapes the code generator cannot compile are not generated (see DESIGN.md)".into(),
                "no clock or thread exists in this component; simulated time is the count of delivered fragments".into(),
            ],
        }
    }
}

fn pick_type(src: &mut Source, w: &World) -> usize {
    w.normal[src.idx(w.normal.len())]
}

// ---- W01 -------------------------------------------------------------------------------------

fn w01(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let w = World::get();
    let n = src.range(1, 5);
    let mut records = Vec::new();
    for _ in 0..n {
        let ty = pick_type(src, w);
        let v = w.gen_value(src, ty);
        records.push(encode_real(ctx, src, w, ty, v)?);
    }
    // delivery of whole records: late, twice, out of order
    let mut order: Vec<usize> = (0..records.len()).collect();
    if src.chance(1, 3) {
        ctx.fault("reorder_records");
        src.shuffle(&mut order);
    }
    if src.chance(1, 3) {
        ctx.fault("duplicate_record");
        let d = *src.pick(&order);
        let at = src.idx(order.len() + 1);
        order.insert(at, d);
    }
    let mut log = Vec::new();
    for i in &order {
        log.extend(&records[*i].bytes);
    }
    let junk = src.below(4) as usize;
    log.extend(std::iter::repeat_n(0xffu8, junk));
    let c = cuts(src, log.len());
    if !c.is_empty() {
        ctx.fault("fragmented_delivery");
    }
    ctx.sim_us += c.len() as u64 + 1;
    let mut pos = 0;
    for i in &order {
        let rec = &records[*i];
        let t = &w.types[rec.ty];
        let mut b = SimBuf::new(&log, &c);
        b.set_pos(pos);
        let r = (t.ops.decode)(&mut b).map(|o| o.value());
        ctx.ev(format!("read {} at {pos} -> {} at {}", t.ops.name, outcome(&r), b.pos()));
        ctx.state(format!("{}|{}", rec.ty, fragment_kind(&c, log.len())));
        match r {
            Err(e) => violate!("roundtrip-error", "{}: {} encoded as {} fails to decode: {e:?}", t.ops.name, show(&rec.value), short(&rec.bytes)),
            Ok(v) => {
                check!(v.same(&rec.value), "roundtrip-value", "{}: wrote {} as {}, read back {}", t.ops.name, show(&rec.value), short(&rec.bytes), show(&v));
                check!(b.pos() - pos == rec.bytes.len(), "roundtrip-consumed", "{}: {} bytes written, {} consumed", t.ops.name, rec.bytes.len(), b.pos() - pos);
            }
        }
        ctx.nontrivial |= !rec.bytes.is_empty();
        pos += rec.bytes.len();
    }
    Ok(())
}

fn unit_value(name: &str) -> Value {
    let unit = || Value::Struct(Vec::new());
    let inner = match name {
        "UnitMap" => Value::Map(vec![(Value::U(3), unit())]),
        _ => Value::List(vec![unit(), unit()]),
    };
    Value::Struct(vec![inner, Value::U(7)])
}

fn probe_unit() -> Option<String> {
    let w = World::get();
    for name in ["UnitList", "UnitArray", "UnitNonZero"] {
        let t = &w.types[w.special(name)];
        let v = unit_value(name);
        let bytes = (t.ops.make)(&v).encode_vec();
        let r = read(t, &bytes, &[]);
        if !matches!(&r.result, Ok(x) if x.same(&v)) {
            return Some(format!("elements of a unit struct type are lost: {name} with two elements is written as {} and read back as {:?}", short(&bytes), r.result));
        }
    }
    None
}

fn tuple_list() -> (usize, Value) {
    let item = || Value::Struct(vec![Value::List(vec![Value::U(1), Value::U(2)])]);
    (World::get().special("TupleList"), Value::Struct(vec![Value::List(vec![item(), item()]), Value::U(9)]))
}

fn probe_tuple_list() -> Option<String> {
    let w = World::get();
    let (t, v) = tuple_list();
    let t = &w.types[t];
    let bytes = (t.ops.make)(&v).encode_vec();
    let r = read(t, &bytes, &[]);
    (!matches!(&r.result, Ok(x) if x.same(&v)))
        .then(|| format!("vec of a struct with a tuple field is written as {} (length prefix too small) and read back as {:?}", short(&bytes), r.result))
}

fn probe_tuple_prefix() -> Option<String> {
    let w = World::get();
    let (t, v) = tuple_list();
    let real = (w.types[t].ops.make)(&v).encode_vec();
    let want = w.models[0].encode(&w.types[t].ty, &v);
    (real != want).then(|| format!("vec of a struct with a tuple field: length prefix is {} although the content has {} bytes", real[1], want[1]))
}

fn probe_tuple_size() -> Option<String> {
    let w = World::get();
    let t = &w.types[w.special("HasTuple")];
    let v = Value::Struct(vec![Value::List(vec![Value::U(1), Value::U(2)])]);
    let o = (t.ops.make)(&v);
    (o.size() != o.encode_vec().len())
        .then(|| format!("generated size() of a struct with a tuple field is {} but {} bytes are written (the tuple's length prefix is not counted)", o.size(), o.encode_vec().len()))
}

fn probe_skip() -> Option<String> {
    let w = World::get();
    let (new, old) = (&w.types[w.special("EvoNew")], &w.types[w.special("EvoOld")]);
    let v = Value::Struct(vec![
        Value::U(1),
        Value::Some(Box::new(Value::Struct(vec![Value::U(2), Value::Str("x".into())]))),
        Value::U(3),
    ]);
    let bytes = (new.ops.make)(&v).encode_vec();
    let r = read(old, &bytes, &[]);
    let ok = matches!(&r.result, Ok(x) if x.same(&Value::Struct(vec![Value::U(1), Value::U(3)])));
    (!ok || r.consumed != bytes.len()).then(|| {
        format!(
            "an unknown field holding a nested struct is tagged length-prefixed but has no length, so an old reader of {} gets {:?}",
            short(&bytes),
            r.result
        )
    })
}

// ---- W02 -------------------------------------------------------------------------------------

fn w02(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let w = World::get();
    for _ in 0..src.range(1, 4) {
        let ty = pick_type(src, w);
        let t = &w.types[ty];
        let v = w.gen_value(src, ty);
        let obj = (t.ops.make)(&v);
        // iteration order of this very object
        let v = obj.value();
        let bytes = obj.encode_vec();
        let size = obj.size();
        ctx.ev(format!("frame {} {} size={size} written={}", t.ops.name, show(&v), bytes.len()));
        ctx.state(format!("{ty}|{}", bytes.len().min(300)));
        ctx.nontrivial |= !bytes.is_empty();
        if size != bytes.len() {
            let missing = w.model(ty).tuple_prefix_bytes(&t.ty, &v);
            if t.tainted && missing > 0 && size + missing == bytes.len() {
                let d = format!("{}: size() is {size}, {} bytes are written", t.ops.name, bytes.len());
                if !ctx.known("size-root-tuple", d.clone()) {
                    return Err(Violation::keyed("size", "size-root-tuple", d));
                }
            } else {
                violate!("size", "{}: size() announces {size} bytes for {}, but {} bytes are written", t.ops.name, show(&v), bytes.len());
            }
        }
        // every length prefix covers exactly its content: the reference writes the same bytes
        let want = w.model(ty).encode(&t.ty, &v);
        check!(bytes == want, "length-prefix", "{}: {} is written as {}, expected {}", t.ops.name, show(&v), short(&bytes), short(&want));
        // a frame of exactly that size is filled exactly, whatever pieces the writer hands out
        let piece = src.range(1, 9) as usize;
        ctx.fault("small_write_chunks");
        let mut s = SimSink::new(bytes.len(), piece);
        obj.encode_sink(&mut s);
        check!(s.written() == bytes, "frame", "{}: writer with {piece}-byte pieces received {} instead of {}", t.ops.name, short(s.written()), short(&bytes));
        ctx.sim_us += 1;
    }
    Ok(())
}

// ---- W03 -------------------------------------------------------------------------------------

fn w03(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let w = World::get();
    let ty = pick_type(src, w);
    let t = &w.types[ty];
    let v = w.gen_value(src, ty);
    let rec = encode_real(ctx, src, w, ty, v)?;
    let mut data = rec.bytes.clone();
    let damaged = src.chance(2, 5);
    if damaged {
        data = damage(ctx, src, &data);
    } else {
        data.extend(std::iter::repeat_n(0x91u8, src.below(3) as usize));
    }
    let whole = read(t, &data, &[]);
    if !damaged {
        match &whole.result {
            Ok(v) => check!(v.same(&rec.value), "whole-value", "{}: {} read as {}", t.ops.name, show(&rec.value), show(v)),
            Err(e) => violate!("whole-error", "{}: {} fails: {e:?}", t.ops.name, short(&data)),
        }
    }
    for round in 0..4 {
        let c = if round == 0 { (1..data.len()).collect() } else { cuts(src, data.len()) };
        ctx.fault("fragmented_delivery");
        ctx.sim_us += c.len() as u64 + 1;
        let r = read(t, &data, &c);
        ctx.ev(format!("read {} in {} fragments -> {} ({})", t.ops.name, c.len() + 1, outcome(&r.result), r.consumed));
        ctx.state(format!("{ty}|{}|{damaged}|{}", fragment_kind(&c, data.len()), outcome(&r.result)));
        ctx.nontrivial |= !c.is_empty();
        match (&whole.result, &r.result) {
            (Ok(a), Ok(b)) => {
                check!(a.same(b), "fragment-value", "{}: {} read whole gives {}, cut at {:?} gives {}", t.ops.name, short(&data), show(a), &c[..c.len().min(8)], show(b));
                check!(whole.consumed == r.consumed, "fragment-consumed", "{}: {} consumes {} whole, {} fragmented", t.ops.name, short(&data), whole.consumed, r.consumed);
            }
            (Err(_), Err(_)) => {}
            (a, b) => violate!("fragment-outcome", "{}: {} read whole is {}, cut at {:?} is {} ({b:?})", t.ops.name, short(&data), outcome(a), &c[..c.len().min(8)], outcome(b)),
        }
    }
    Ok(())
}

// ---- W04 -------------------------------------------------------------------------------------

fn judge_bounded(t: &Type, data: &[u8], r: &Read) -> Result<(), Violation> {
    check!(r.consumed <= data.len(), "overread", "{}: consumed {} of {} bytes", t.ops.name, r.consumed, data.len());
    let limit = 64 * 1024 + (data.len() as u64) * 64 * (t.ops.mem as u64 + 256);
    check!(r.alloc <= limit, "allocation", "{}: {} bytes of input {} made the decoder allocate {} bytes", t.ops.name, data.len(), short(data), r.alloc);
    Ok(())
}

fn w04(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let w = World::get();
    let ty = if src.chance(1, 12) {
        let names = ["UnitList", "UnitArray", "UnitMap", "UnitNonZero", "Unit"];
        w.special(*src.pick(&names))
    } else {
        pick_type(src, w)
    };
    let t = &w.types[ty];
    let v = w.gen_value(src, ty);
    let rec = encode_real(ctx, src, w, ty, v)?;
    let special = ctx.property == "W04" && w.models[0].special.values().any(|x| *x == ty);
    if !special {
        // torn writes: every cut of short records, sampled cuts of long ones
        let n = rec.bytes.len();
        let points: Vec<usize> =
            if n <= 48 { (0..n).collect() } else { (0..24).map(|_| src.below(n as u64) as usize).collect() };
        for p in points {
            ctx.fault("torn_record");
            let data = &rec.bytes[..p];
            let r = read(t, data, &[]);
            judge_bounded(t, data, &r)?;
            ctx.nontrivial = true;
            if r.result.is_ok() {
                violate!("torn-accepted", "{}: the first {p} of {n} bytes ({}) decode to {}", t.ops.name, short(data), show(r.result.as_ref().unwrap()));
            }
            ctx.state(format!("{ty}|torn|{}", outcome(&r.result)));
        }
        ctx.ev(format!("torn {} {n}", t.ops.name));
    }
    for _ in 0..6 {
        let data = damage(ctx, src, &rec.bytes);
        let c = if src.chance(1, 3) { cuts(src, data.len()) } else { Vec::new() };
        ctx.sim_us += c.len() as u64 + 1;
        let r = read(t, &data, &c);
        ctx.ev(format!("damaged {} {} -> {} consumed={} work={}", t.ops.name, short(&data), outcome(&r.result), r.consumed, r.work));
        ctx.state(format!("{ty}|damaged|{}", outcome(&r.result)));
        ctx.nontrivial = true;
        judge_bounded(t, &data, &r)?;
    }
    Ok(())
}

// ---- W05 / W06 -------------------------------------------------------------------------------

/// A fleet of nodes with different schema versions sharing an append-only log while it is being
/// upgraded (and sometimes rolled back), restarted, and while records are relayed.
fn fleet(src: &mut Source, ctx: &mut Ctx, breaking: bool) -> Result<(), Violation> {
    let w = World::get();
    let mi = usize::from(src.chance(1, 6));
    let m = &w.models[mi];
    // the first family makes every kind of change
    let fam = &m.families[if src.chance(1, 3) { 0 } else { src.idx(m.families.len()) }];
    let col = src.idx(fam.versions[0].len());
    let last = fam.versions.len() - if breaking { 1 } else { 2 };
    let mut nodes: Vec<usize> = (0..3).map(|_| src.idx(last + 1)).collect();
    if breaking && src.chance(1, 2) {
        nodes[0] = last;
    }
    // log entries: type of the writer's version, value as written, bytes
    let mut log: Vec<(Ty, Value, Vec<u8>)> = Vec::new();
    let mut cursor = [0usize; 3];
    for step in 0..src.range(4, 12) {
        let who = src.idx(3);
        match src.weighted(&[4, 6, 2, 1, 2]) {
            0 => {
                let wt = &fam.versions[nodes[who]][col];
                let v = m.gen_value(src, wt, 0);
                let rec = encode_real(ctx, src, w, w.by_ty(mi, wt), v)?;
                log.push((wt.clone(), rec.value, rec.bytes));
            }
            1 => {
                // read the next records of the log as one stream, at this node's version
                let rt = &fam.versions[nodes[who]][col];
                let t = &w.types[w.by_ty(mi, rt)];
                let part = &log[cursor[who].min(log.len())..];
                let stream: Vec<u8> = part.iter().flat_map(|r| r.2.iter().copied()).collect();
                let c = cuts(src, stream.len());
                ctx.sim_us += c.len() as u64 + 1;
                let mut at = 0;
                for (wt, v, bytes) in part {
                    let expect = m.project(wt, rt, v);
                    let mut b = SimBuf::new(&stream, &c);
                    b.set_pos(at);
                    let got = (t.ops.decode)(&mut b).map(|o| o.value());
                    ctx.ev(format!("node{who} v{} reads {} -> {}", nodes[who], short(bytes), outcome(&got)));
                    judge_version(ctx, t, wt, rt, v, bytes, &expect, &got, b.pos() - at)?;
                    at += bytes.len();
                }
                cursor[who] = log.len();
            }
            2 => {
                // relay: read one record, write it again with this node's version
                if log.is_empty() {
                    continue;
                }
                let i = src.idx(log.len());
                let rt = &fam.versions[nodes[who]][col];
                let t = w.by_ty(mi, rt);
                let (wt, v, bytes) = &log[i];
                let expect = m.project(wt, rt, v);
                let r = read(&w.types[t], bytes, &[]);
                judge_version(ctx, &w.types[t], wt, rt, v, bytes, &expect, &r.result, r.consumed)?;
                if let (Ok(_), Ok(v)) = (expect, r.result) {
                    ctx.fault("relayed_record");
                    let rec = encode_real(ctx, src, w, t, v)?;
                    log.push((rt.clone(), rec.value, rec.bytes));
                }
            }
            3 => {
                ctx.fault("node_restart_rereads_log");
                cursor[who] = 0;
                ctx.ev(format!("{step}: node{who} restarts"));
            }
            _ => {
                let to = src.idx(last + 1);
                ctx.fault(if to >= nodes[who] { "upgrade" } else { "rollback" });
                ctx.ev(format!("{step}: node{who} v{} -> v{to}", nodes[who]));
                nodes[who] = to;
            }
        }
    }
    Ok(())
}

#[expect(clippy::too_many_arguments)]
fn judge_version(
    ctx: &mut Ctx,
    t: &Type,
    wt: &Ty,
    rt: &Ty,
    v: &Value,
    bytes: &[u8],
    expect: &Result<Value, Vec<DecErr>>,
    got: &Result<Value, DecErr>,
    consumed: usize,
) -> Result<(), Violation> {
    ctx.state(format!("{wt:?}{rt:?}{}", outcome(got)));
    ctx.nontrivial |= wt != rt;
    match (expect, got) {
        (Err(errs), _) if errs.iter().any(|e| matches!(e, DecErr::Int | DecErr::Insufficient)) => {
            // narrowing readers: outside the compatible changes
            Ok(())
        }
        (Ok(want), Ok(have)) => {
            check!(want.same(have), "version-value", "{}: record {} written as {} by another version is read as {}, expected {}", t.ops.name, show(v), short(bytes), show(have), show(want));
            check!(consumed == bytes.len(), "version-aligned", "{}: record of {} bytes ({}), {consumed} consumed", t.ops.name, bytes.len(), short(bytes));
            Ok(())
        }
        (Ok(want), Err(e)) => violate!("version-error", "{}: record {} written as {} by another version fails with {e:?}, expected {}", t.ops.name, show(v), short(bytes), show(want)),
        (Err(errs), Ok(have)) => violate!("invented", "{}: record {} ({}) must fail with one of {errs:?}, but reads as {}", t.ops.name, show(v), short(bytes), show(have)),
        (Err(errs), Err(e)) => {
            check!(errs.contains(e), "wrong-error", "{}: record {} ({}) must fail with one of {errs:?}, failed with {e:?}", t.ops.name, show(v), short(bytes));
            ctx.probe("expected_error_seen");
            Ok(())
        }
    }
}

fn w05(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    if src.chance(1, 4) {
        // a writer from the future: unknown fields everywhere
        let w = World::get();
        let ty = pick_type(src, w);
        let t = &w.types[ty];
        let v = w.gen_value(src, ty);
        let mut f = Foreign { src: &mut *src, permute: true, unknown: true, repeat: false, overlong: false, countdown: None, expect: None };
        let bytes = w.model(ty).encode_foreign(&t.ty, &v, &mut f);
        ctx.fault("unknown_fields");
        let c = cuts(src, bytes.len());
        ctx.sim_us += c.len() as u64 + 1;
        let r = read(t, &bytes, &c);
        ctx.ev(format!("future record {} {} -> {}", t.ops.name, short(&bytes), outcome(&r.result)));
        ctx.nontrivial = true;
        ctx.state(format!("{ty}|future|{}", outcome(&r.result)));
        match &r.result {
            Ok(x) => {
                check!(x.same(&v), "future-value", "{}: {} with unknown fields added ({}) reads as {}", t.ops.name, show(&v), short(&bytes), show(x));
                check!(r.consumed == bytes.len(), "future-aligned", "{}: {} of {} bytes consumed ({})", t.ops.name, r.consumed, bytes.len(), short(&bytes));
            }
            Err(e) => violate!("future-error", "{}: {} with unknown fields added ({}) fails with {e:?}", t.ops.name, show(&v), short(&bytes)),
        }
        return Ok(());
    }
    fleet(src, ctx, false)
}

fn w06(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    if src.chance(1, 3) {
        return fleet(src, ctx, true);
    }
    // a writer that leaves out one required field or uses one unknown variant, at any depth
    let w = World::get();
    let ty = pick_type(src, w);
    let t = &w.types[ty];
    let m = w.model(ty);
    let v = w.gen_value(src, ty);
    let sites = m.defect_sites(&t.ty, &v);
    let countdown = (sites > 0 && src.chance(4, 5)).then(|| src.idx(sites));
    let mut f = Foreign { src: &mut *src, permute: true, unknown: false, repeat: false, overlong: false, countdown, expect: None };
    if f.src.chance(1, 3) {
        f.unknown = true;
    }
    let bytes = m.encode_foreign(&t.ty, &v, &mut f);
    let expect = f.expect.take();
    let c = if src.chance(1, 2) { cuts(src, bytes.len()) } else { Vec::new() };
    ctx.sim_us += c.len() as u64 + 1;
    let r = read(t, &bytes, &c);
    ctx.ev(format!("incomplete {} {} expect {expect:?} -> {:?}", t.ops.name, short(&bytes), r.result.as_ref().err()));
    ctx.state(format!("{ty}|{}", outcome(&r.result)));
    ctx.nontrivial = true;
    match (expect, r.result) {
        (Some(e), Err(g)) => {
            ctx.fault(if matches!(e, DecErr::Missing(..)) { "missing_field" } else { "unknown_variant" });
            check!(e == g, "wrong-error", "{}: {} must fail with {e:?}, failed with {g:?}", t.ops.name, short(&bytes));
        }
        (Some(e), Ok(x)) => violate!("invented", "{}: {} must fail with {e:?} but reads as {}", t.ops.name, short(&bytes), show(&x)),
        (None, Ok(x)) => check!(x.same(&v), "dropped", "{}: {} ({}) reads as {}", t.ops.name, show(&v), short(&bytes), show(&x)),
        (None, Err(e)) => violate!("spurious", "{}: complete record {} ({}) fails with {e:?}", t.ops.name, show(&v), short(&bytes)),
    }
    Ok(())
}

// ---- W07 -------------------------------------------------------------------------------------

fn compare(t: &Type, data: &[u8], want: &Decoded, r: &Read) -> Result<(), Violation> {
    if want.lenient.is_some() {
        return Ok(());
    }
    match (&want.result, &r.result) {
        (Ok(a), Ok(b)) => {
            check!(a.same(b), "meaning", "{}: {} means {}, decoded as {}", t.ops.name, short(data), show(a), show(b));
            check!(want.consumed == r.consumed, "meaning-consumed", "{}: {}: {} bytes belong to the value, {} consumed", t.ops.name, short(data), want.consumed, r.consumed);
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => violate!("meaning-outcome", "{}: {} should be {} ({a:?}), decoder says {b:?}", t.ops.name, short(data), outcome(a)),
    }
}

fn w07(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let w = World::get();
    let ty = pick_type(src, w);
    let t = &w.types[ty];
    let m = w.model(ty);
    let v = w.gen_value(src, ty);
    let obj = (t.ops.make)(&v);
    let v = obj.value();
    let bytes = obj.encode_vec();
    let want = m.encode(&t.ty, &v);
    ctx.ev(format!("persist {} {} {}", t.ops.name, show(&v), short(&bytes)));
    ctx.nontrivial |= !bytes.is_empty();
    check!(bytes == want, "format", "{}: {} must be written as {}, was written as {}", t.ops.name, show(&v), short(&want), short(&bytes));
    // another build's record, in the other direction
    let mut f = Foreign { src: &mut *src, permute: true, unknown: true, repeat: true, overlong: false, countdown: None, expect: None };
    let foreign = m.encode_foreign(&t.ty, &v, &mut f);
    ctx.fault("foreign_writer");
    let c = cuts(src, foreign.len());
    ctx.sim_us += c.len() as u64 + 1;
    let r = read(t, &foreign, &c);
    ctx.ev(format!("foreign {} -> {}", short(&foreign), outcome(&r.result)));
    ctx.state(format!("{ty}|foreign|{}", outcome(&r.result)));
    match &r.result {
        Ok(x) => {
            check!(x.same(&v), "foreign-value", "{}: {} means {}, decoded as {}", t.ops.name, short(&foreign), show(&v), show(x));
            check!(r.consumed == foreign.len(), "foreign-consumed", "{}: {} of {} bytes consumed ({})", t.ops.name, r.consumed, foreign.len(), short(&foreign));
        }
        Err(e) => violate!("foreign-error", "{}: {} means {}, decoder fails with {e:?}", t.ops.name, short(&foreign), show(&v)),
    }
    // damaged records: same meaning or same refusal
    for _ in 0..4 {
        let base = if src.chance(1, 2) { &bytes } else { &foreign };
        let data = damage(ctx, src, base);
        let want = m.decode(&t.ty, &data);
        let r = read(t, &data, &[]);
        ctx.ev(format!("damaged {} -> {} {:?}", short(&data), outcome(&r.result), want.lenient));
        ctx.state(format!("{ty}|damaged|{}|{:?}", outcome(&r.result), want.lenient));
        compare(t, &data, &want, &r)?;
    }
    Ok(())
}

// ---- W08 -------------------------------------------------------------------------------------

fn w08(src: &mut Source, ctx: &mut Ctx) -> Result<(), Violation> {
    let w = World::get();
    let ty = w.nz[src.idx(w.nz.len())];
    let t = &w.types[ty];
    let m = w.model(ty);
    let v = w.gen_value(src, ty);
    let bytes = m.encode(&t.ty, &v);
    let r = read(t, &bytes, &[]);
    ctx.ev(format!("valid {} {} -> {}", t.ops.name, show(&v), outcome(&r.result)));
    match &r.result {
        Ok(x) => check!(x.same(&v), "valid-value", "{}: {} reads as {}", t.ops.name, show(&v), show(x)),
        Err(e) => violate!("valid-refused", "{}: valid {} ({}) fails with {e:?}", t.ops.name, show(&v), short(&bytes)),
    }
    // every single non_zero of the value zeroed in turn
    let mut seen = 0;
    m.zero_out(&t.ty, &mut v.clone(), usize::MAX, &mut seen);
    if seen > 0 {
        for _ in 0..seen.min(4) {
            let target = src.idx(seen);
            let mut z = v.clone();
            m.zero_out(&t.ty, &mut z, target, &mut 0);
            let bytes = if src.chance(1, 3) {
                ctx.fault("overlong_zero");
                m.encode_foreign(&t.ty, &z, &mut Foreign { overlong: true, ..Foreign::plain(&mut *src) })
            } else {
                m.encode(&t.ty, &z)
            };
            ctx.fault("zeroed_value");
            let c = if src.chance(1, 2) { cuts(src, bytes.len()) } else { Vec::new() };
            ctx.sim_us += c.len() as u64 + 1;
            let r = read(t, &bytes, &c);
            ctx.ev(format!("zeroed {} -> {}", short(&bytes), outcome(&r.result)));
            ctx.state(format!("{ty}|{target}|{}", outcome(&r.result)));
            ctx.nontrivial = true;
            if let Ok(x) = &r.result {
                violate!("zero-accepted", "{}: {} holds a zero non_zero ({}) but decodes to {}", t.ops.name, short(&bytes), show(&z), show(x));
            }
        }
    }
    for _ in 0..3 {
        let data = damage(ctx, src, &bytes);
        let r = read(t, &data, &[]);
        ctx.ev(format!("damaged {} -> {}", short(&data), outcome(&r.result)));
        if let Ok(x) = &r.result {
            check!(!m.zero_inside(&t.ty, x), "zero-decoded", "{}: {} decodes to {} which holds a zero non_zero", t.ops.name, short(&data), show(x));
        }
    }
    // constructors, with values that were always empty, became empty, or hold something
    use mabo::NonZero;
    let n = src.below(3) as usize;
    let (room, gone) = (src.below(9) as usize, src.chance(1, 2));
    let mut s = String::with_capacity(room);
    let mut b: Vec<u8> = Vec::with_capacity(room);
    let mut h: HashSet<u8> = HashSet::with_capacity(room);
    let mut k: HashMap<u8, u8> = HashMap::with_capacity(room);
    if gone {
        s.push_str("gone");
        b.extend([1, 2, 3]);
        h.extend([1, 2, 3]);
        k.extend([(1, 1), (2, 2)]);
        s.clear();
        b.clear();
        h.retain(|_| false);
        k.clear();
    }
    for i in 0..n {
        s.push('\0');
        b.push(0);
        h.insert(i as u8);
        k.insert(i as u8, 0);
    }
    ctx.ev(format!("constructors n={n} room={room} gone={gone}"));
    let y = bytes::Bytes::from(b.clone());
    check!(NonZero::<String>::new(s.clone()).is_some() == (n > 0), "constructor", "NonZero<String>::new({s:?})");
    check!(NonZero::<Vec<u8>>::new(b.clone()).is_some() == (n > 0), "constructor", "NonZero<Vec<u8>>::new({b:?})");
    check!(NonZero::<bytes::Bytes>::new(y).is_some() == (n > 0), "constructor", "NonZero<Bytes>::new({b:?})");
    check!(NonZero::<HashSet<u8>>::new(h).is_some() == (n > 0), "constructor", "NonZero<HashSet>::new with {n} elements, capacity {room}, emptied before: {gone}");
    check!(NonZero::<HashMap<u8, u8>>::new(k).is_some() == (n > 0), "constructor", "NonZero<HashMap>::new with {n} elements, capacity {room}, emptied before: {gone}");
    Ok(())
}
