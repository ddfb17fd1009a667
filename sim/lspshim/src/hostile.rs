//! Texts a careless or malicious author might put into a document.

use schemagen::Cfg;
use simcore::Source;

const IDS: &[&str] = &[
    "@0", "@1", "@4294967294", "@4294967295", "@4294967296", "@18446744073709551616", "@-1", "@", "@536870911",
    "@536870912", "@536870910", "@0x1", "@1_000", "@99999999999999999999999999",
];
const BITS: &[&str] = &[
    "struct", "enum", "mod m {", "type A = ", "const C: u8 = ", "use a::b", "use", ";", "{", "}", "(", ")", "[", "]", "<",
    ">", ",", ":", "::", "@", "@1", "///", "/", "//", "#[", "#[deprecated", "\"", "\\", "b'", "0x", "0b", "1e400", "-", "--1",
    "u8", "vec<", "[u8; ", "option<T", "hash_map<a", "non_zero<", "&", "'", "\r", "\n", "\r\n", "\u{0}", "\u{feff}", "\u{2028}",
    "é", "😀", "a\u{301}", "\t", "1", "99999999999999999999", "3.4028236e39", "\u{1b}[31m", "box<str>", "unit",
];

fn cut(src: &mut Source, t: &str) -> usize {
    let mut at = src.idx(t.len() + 1);
    while !t.is_char_boundary(at) {
        at -= 1;
    }
    at
}

pub fn text(src: &mut Source) -> String {
    let cfg = Cfg { max_defs: 3, crlf: src.below(3) as u8, ..Cfg::default() };
    match src.below(13) {
        // soup
        0 => {
            let mut s = String::new();
            for _ in 0..src.range(1, 40) {
                s.push_str(*src.pick(BITS));
                if src.chance(1, 2) {
                    s.push(' ');
                }
            }
            s
        }
        // a schema cut off anywhere
        1 => {
            let mut s = schemagen::schema(src, &cfg);
            let at = cut(src, &s);
            s.truncate(at);
            s
        }
        // something foreign anywhere
        2 | 3 => {
            let mut s = schemagen::schema(src, &cfg);
            for _ in 0..src.range(1, 3) {
                let at = cut(src, &s);
                let bit = *src.pick(BITS);
                if src.chance(1, 2) {
                    s.insert_str(at, bit);
                } else {
                    let mut end = (at + src.idx(12)).min(s.len());
                    while !s.is_char_boundary(end) {
                        end -= 1;
                    }
                    s.replace_range(at..end.max(at), bit);
                }
            }
            s
        }
        // extreme ids
        4 => {
            let n = src.range(1, 4);
            let mut s = "struct S {".to_owned();
            for i in 0..n {
                let id = if src.chance(1, 3) { String::new() } else { (*src.pick(IDS)).to_owned() };
                s.push_str(&format!(" f{i}: u8 {id},"));
            }
            s.push_str(" }\n");
            s
        }
        5 => {
            let n = src.range(1, 4);
            let mut s = "enum E {".to_owned();
            for i in 0..n {
                let id = if src.chance(1, 3) { String::new() } else { (*src.pick(IDS)).to_owned() };
                match src.below(3) {
                    0 => s.push_str(&format!(" V{i} {id},")),
                    1 => s.push_str(&format!(" V{i}(u8 {}) {id},", src.pick(IDS))),
                    _ => s.push_str(&format!(" V{i} {{ a: u8 {}, b: u8 }} {id},", src.pick(IDS))),
                }
            }
            s.push_str(" }\n");
            s
        }
        // line ends of all kinds
        6 => {
            let s = schemagen::schema(src, &Cfg { crlf: 0, ..cfg });
            let mut t = String::new();
            for c in s.chars() {
                if c == '\n' && src.chance(1, 3) {
                    t.push_str(*src.pick(&["\r", "\r\n", "\n\r", "\u{2028}", "\u{b}", "\u{85}", ""]));
                } else {
                    t.push(c);
                }
            }
            t
        }
        // one very long line
        7 => {
            let n = src.range(100, 3000) as usize;
            match src.below(3) {
                0 => format!("struct {}(u8 @1)", "A".repeat(n)),
                1 => format!("/// {}\nstruct A(u8 @1)", "é".repeat(n)),
                _ => format!("enum E {{ {} }}", (0..n.min(400)).map(|i| format!("V{i}, ")).collect::<String>()),
            }
        }
        // nesting
        8 => {
            let most = *src.pick(&[12, 12, 60, 200, 3000]);
            let d = src.range(2, most) as usize;
            let (open, close) = *src.pick(&[
                ("vec<", ">"),
                ("option<", ">"),
                ("(u8, ", ")"),
                ("[", "; 2]"),
                ("Foo<", ">"),
                ("hash_map<u8, ", ">"),
                ("non_zero<", ">"),
            ]);
            let keep = if src.chance(1, 3) { d - 1 } else { d };
            format!("struct S(\n    {}u8{} @1,\n)\n", open.repeat(d), close.repeat(keep))
        }
        // modules in modules, closed or not
        9 => {
            let most = *src.pick(&[12, 30, 200, 3000]);
            let d = src.range(1, most) as usize;
            let keep = if src.chance(1, 3) { d - 1 } else { d };
            format!("{}struct A(u8 @1)\n{}", "mod m {\n".repeat(d), "}\n".repeat(keep))
        }
        // names met twice
        10 => (*src.pick(&[
            "struct A(u8 @1)\nstruct A(u8 @1)\n",
            "struct A { a: u8 @1, a: u8 @2 }\n",
            "enum A { B @1, B @2 }\n",
            "struct A<T, T>(T @1)\n",
            "struct A<T>(u8 @1)\n",
            "use a::B;\nuse c::B;\nuse a;\nuse b::a;\n",
            "mod a {}\nmod a {}\nconst A: u8 = 1;\nconst A: u8 = 2;\ntype A = A;\n",
            "struct A { a: A @1 }\nstruct B(C @1)\nstruct C(B @1)\n",
            "const N: i8 = 200;\nconst F: f32 = 1e999;\nconst B: bytes = [256, -1];\n",
            "const S: str = \"\\u{110000}\";\nconst T: string = \"\\u{d800}\";\n",
            "const S: string = \"a\\\n   b\";",
            "struct S([u8; N] @1, [u8; 0] @2, [u8; 18446744073709551616] @3)\n",
            "struct S(non_zero<string> @1, non_zero<option<u8>> @2, non_zero<non_zero<u8>> @3)\n",
        ]))
        .to_owned(),
        // nothing much
        11 => (*src.pick(&["", "\n", "\r", "\r\n", " ", "\u{feff}", "///", "/// a", "/// a\n\n", "\u{0}", "#[a]", "é", "\u{feff}struct A(u8 @1)"]))
            .to_owned(),
        // attributes of all sorts
        _ => {
            let a = *src.pick(&[
                "#[deprecated]\n", "#[deprecated = \"é😀\"]\n", "#[a(b, c = 1, d(e(f)))]\n", "#[]\n", "#[a = ]\n", "#[a(]\n",
                "#[allow(x)]\r\n", "#[validate(min = -9223372036854775809)]\n", "#[a] #[b]\n", "#[a]\n#[a]\n",
            ]);
            format!("{a}struct A {{ {a} a: u8 @1, }}\n{a}enum B {{ {a} C, }}\n")
        }
    }
}
