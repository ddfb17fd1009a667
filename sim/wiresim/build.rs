//! Prints the model's schemas, compiles them with the real code generator and emits the glue that
//! lets the simulator drive every generated type.

use std::{env, fmt::Write, fs, path::PathBuf};

use wiremodel::{Fields, Kind, Model, Ty};

#[path = "src/spec.rs"]
mod spec;

fn rust_ty(m: &Model, ty: &Ty, root: &str) -> String {
    let p = |t: &Ty| rust_ty(m, t, root);
    match ty {
        Ty::Bool => "bool".into(),
        Ty::Int { signed, bits } => format!("{}{bits}", if *signed { 'i' } else { 'u' }),
        Ty::F32 => "f32".into(),
        Ty::F64 => "f64".into(),
        Ty::Str | Ty::StrRef => "String".into(),
        Ty::Bytes | Ty::BytesRef => if m.bytes_mode { "::bytes::Bytes".into() } else { "Vec<u8>".into() },
        Ty::BoxStr => "Box<str>".into(),
        Ty::BoxBytes => "Box<[u8]>".into(),
        Ty::Vec(t) => format!("Vec<{}>", p(t)),
        Ty::Map(k, v) => format!("::std::collections::HashMap<{}, {}>", p(k), p(v)),
        Ty::Set(t) => format!("::std::collections::HashSet<{}>", p(t)),
        Ty::Opt(t) => format!("Option<{}>", p(t)),
        Ty::Tuple(ts) => format!("({},)", ts.iter().map(p).collect::<Vec<_>>().join(", ")),
        Ty::Arr(t, n) => format!("[{}; {n}]", p(t)),
        Ty::Nz(_) | Ty::Param(_) => unreachable!("not a generic argument"),
        Ty::Named(d, args) => {
            let args = if args.is_empty() {
                String::new()
            } else {
                format!("<{}>", args.iter().map(p).collect::<Vec<_>>().join(", "))
            };
            format!("{}{args}", m.rust_path(*d, root))
        }
    }
}

fn literal(path: &str, f: &Fields) -> String {
    match f {
        Fields::Unit => path.to_owned(),
        Fields::Named(l) => {
            let l: Vec<_> =
                l.iter().enumerate().map(|(i, f)| format!("{}: Dyn::from_value(&l[{i}])", f.name)).collect();
            format!("{path} {{ {} }}", l.join(", "))
        }
        Fields::Unnamed(l) => {
            let l: Vec<_> = (0..l.len()).map(|i| format!("Dyn::from_value(&l[{i}])")).collect();
            format!("{path}({})", l.join(", "))
        }
    }
}

fn pattern(path: &str, f: &Fields) -> (String, String) {
    let vars: Vec<_> = (0..f.list().len()).map(|i| format!("f{i}")).collect();
    let pat = match f {
        Fields::Unit => path.to_owned(),
        Fields::Named(l) => {
            let l: Vec<_> = l.iter().zip(&vars).map(|(f, v)| format!("{}: {v}", f.name)).collect();
            format!("{path} {{ {} }}", l.join(", "))
        }
        Fields::Unnamed(_) => format!("{path}({})", vars.join(", ")),
    };
    let vals = vars.iter().map(|v| format!("{v}.to_value()")).collect::<Vec<_>>().join(", ");
    (pat, vals)
}

fn main() {
    let out = PathBuf::from(env::var_os("OUT_DIR").unwrap());
    println!("cargo::rerun-if-env-changed=WIRE_SCHEMA_SEED");
    println!("cargo::rerun-if-changed=build.rs");
    println!("cargo::rerun-if-changed=src/spec.rs");
    let seed = env::var("WIRE_SCHEMA_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut glue = String::new();
    writeln!(glue, "pub const SCHEMA_SEED: u64 = {seed};").unwrap();
    for (m, root) in spec::models(seed).iter().zip(["std_types", "bytes_types"]) {
        let proj = out.join(root).join("project");
        let _ = fs::remove_dir_all(out.join(root));
        fs::create_dir_all(proj.join("schemas")).unwrap();
        fs::write(
            proj.join("Mabo.toml"),
            "[package]\nname = \"sim\"\ndescription = \"simulated\"\nlicense = \"MIT\"\n",
        )
        .unwrap();
        let mut files = Vec::new();
        for f in &m.files {
            fs::write(proj.join("schemas").join(format!("{}.mabo", f.stem)), m.print_file(f)).unwrap();
            files.push(format!("\"schemas/{}.mabo\"", f.stem));
        }
        fs::write(
            proj.join("Mabo.toml"),
            format!(
                "[package]\nname = \"sim\"\nfiles = [{}]\n",
                files.join(", ")
            ),
        )
        .unwrap();
        let dir = out.join(root);
        // SAFETY: the build script is single-threaded
        unsafe { env::set_var("OUT_DIR", &dir) };
        let mut c = mabo_build::Compiler::default();
        if m.bytes_mode {
            c = c.with_bytes_type(mabo_build::BytesType::Bytes);
        }
        if let Err(e) = c.compile(proj.to_str().unwrap()) {
            panic!("schemas do not compile: {e:?}");
        }
        unsafe { env::set_var("OUT_DIR", &out) };

        writeln!(glue, "pub mod {root} {{").unwrap();
        for f in &m.files {
            let path = dir.join("mabo").join(format!("{}.rs", f.stem));
            writeln!(glue, "    #[allow(unused_must_use, clippy::all)] pub mod {} {{ include!({:?}); }}", f.stem, path).unwrap();
        }
        writeln!(glue, "}}").unwrap();
        for (d, def) in m.defs.iter().enumerate() {
            let path = m.rust_path(d, root);
            let (bounds, args) = if def.generics.is_empty() {
                (String::new(), String::new())
            } else {
                (
                    format!("<{}>", def.generics.iter().map(|g| format!("{g}: Dyn")).collect::<Vec<_>>().join(", ")),
                    format!("<{}>", def.generics.join(", ")),
                )
            };
            match &def.kind {
                Kind::Alias(_) => {}
                Kind::Struct(f) => {
                    let (pat, vals) = pattern(&path, f);
                    writeln!(
                        glue,
                        "impl{bounds} Dyn for {path}{args} {{
    fn from_value(v: &Value) -> Self {{ let Value::Struct(l) = v else {{ panic!() }}; let _ = l; {} }}
    fn to_value(&self) -> Value {{ let {pat} = self; Value::Struct(vec![{vals}]) }}
}}",
                        literal(&path, f)
                    )
                    .unwrap();
                }
                Kind::Enum(vs) => {
                    let mut from = String::new();
                    let mut to = String::new();
                    for (i, v) in vs.iter().enumerate() {
                        let p = format!("{path}::{}", v.name);
                        writeln!(from, "            {i} => {},", literal(&p, &v.fields)).unwrap();
                        let (pat, vals) = pattern(&p, &v.fields);
                        writeln!(to, "            {pat} => Value::Enum({i}, vec![{vals}]),").unwrap();
                    }
                    writeln!(
                        glue,
                        "impl{bounds} Dyn for {path}{args} {{
    fn from_value(v: &Value) -> Self {{ let Value::Enum(i, l) = v else {{ panic!() }}; let _ = l; match *i {{\n{from}            _ => panic!() }} }}
    fn to_value(&self) -> Value {{ match self {{\n{to}        }} }}
}}"
                    )
                    .unwrap();
                }
            }
        }
        writeln!(glue, "pub fn {root}_ops() -> Vec<Ops> {{ vec![").unwrap();
        for e in &m.entries {
            writeln!(glue, "    ops::<{}>(),", rust_ty(m, e, root)).unwrap();
        }
        writeln!(glue, "] }}").unwrap();
    }
    fs::write(out.join("glue.rs"), glue).unwrap();
}
