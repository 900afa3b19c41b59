//! Random documents as token lists, their rendering with random ignored text,
//! and mutations of both.
use crate::dict::Dict;
use crate::lex::{self, K};
use crate::refparse::{Lang, LOCATIONS};
use crate::rng::Rng;

pub struct Gen<'r, 'd> {
    pub r: &'r mut Rng,
    pub d: &'d Dict,
    pub out: Vec<String>,
    budget: isize,
    depth: usize,
    maxdepth: usize,
    p_args: usize,
    p_dirs: usize,
    p_deep: usize,
    p_str: usize,
    p_doc: usize,
    wide: usize,
    /// percentage of literals that do not decode
    pub bad: usize,
}

pub fn name_chars(r: &mut Rng, n: usize) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push(A[r.below(if i == 0 { 53 } else { A.len() })] as char);
    }
    s
}

pub fn name(r: &mut Rng, d: &Dict) -> String {
    let k = r.below(100);
    if k < 45 {
        let n = r.range(1, 3);
        name_chars(r, n)
    } else if k < 85 && !d.names.is_empty() {
        r.pick(&d.names).clone()
    } else if k < 98 {
        let n = r.range(1, 12);
        name_chars(r, n)
    } else {
        let n = r.range(1, 200);
        name_chars(r, n)
    }
}

pub fn any_char(r: &mut Rng, d: &Dict) -> char {
    match r.below(12) {
        0 | 1 => *r.pick(&[
            '"', '\\', '\n', '\t', ' ', '#', ',', '\u{feff}', '{', '}', '$', '/', '\'',
        ]),
        2 if !d.chars.is_empty() => *r.pick(&d.chars),
        3 => char::from_u32(r.below(0x20) as u32).unwrap(),
        4 => char::from_u32(r.range(0x7f, 0x17f) as u32).unwrap(),
        5 => char::from_u32(r.range(0x2000, 0x206f) as u32).unwrap(),
        6 => *r.pick(&[
            '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{3000}', '\u{200b}', '\u{fffd}',
            '\u{ffff}', '\u{10ffff}', '\u{1f600}', '\u{e000}', '\u{d7ff}', '\u{7f}', '\u{301}',
        ]),
        7 => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
        _ => char::from_u32(r.range(0x20, 0x7e) as u32).unwrap(),
    }
}

/// What people write in descriptions: lines of words. A few features are put
/// in, at places that matter, so that any two or three of them meet.
pub fn prose(r: &mut Rng, d: &Dict) -> String {
    let n = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6, 9]);
    let mut lines: Vec<String> = (0..n)
        .map(|_| {
            let w = r.range(1, 3);
            (0..w).map(|_| name_chars(r, 1 + w)).collect::<Vec<_>>().join(" ")
        })
        .collect();
    for _ in 0..r.below(5) {
        // the first line, the last, or any
        let i = match r.below(4) {
            0 => 0,
            1 => n - 1,
            _ => r.below(n),
        };
        let x: String = match r.below(12) {
            0 => {
                lines[i].clear();
                continue;
            }
            1 => {
                lines[i] = (*r.pick(&[" ", "\t", "  ", " \t "])).to_string();
                continue;
            }
            2 => {
                // the same indent in some lines
                let x = *r.pick(&[" ", "  ", "\t", "    "]);
                let from = r.below(n);
                for l in &mut lines[from..] {
                    l.insert_str(0, x);
                }
                continue;
            }
            3 => "\\".into(),
            4 => "\"".into(),
            5 => (*r.pick(&["\"\"", "\"\"\"", "\\\"\"\"", "\"\"\"\"", "\\\""])).into(),
            6 => (*r.pick(&[" ", "\t", "  "])).into(),
            7 => (*r.pick(&["\r", "\u{0}", "\u{1}", "\u{1f}", "\u{8}", "\u{c}", "\u{7f}", "\u{b}"])).into(),
            8 => (*r.pick(&["\\n", "\\u0041", "#", "{", "}", "$", "&", ","])).into(),
            _ => any_char(r, d).to_string(),
        };
        let l = &mut lines[i];
        let cs: Vec<usize> = l.char_indices().map(|c| c.0).collect();
        let at = match r.below(3) {
            0 => 0,
            1 => l.len(),
            _ if cs.is_empty() => 0,
            _ => *r.pick(&cs),
        };
        l.insert_str(at, &x);
    }
    lines.join("\n")
}

/// a string literal of the value
pub fn escaped(r: &mut Rng, v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\t' if r.pct(50) => s.push_str("\\t"),
            '/' if r.pct(30) => s.push_str("\\/"),
            c if (c as u32) < 0x20 || (c as u32) < 0x10000 && r.pct(2) => s.push_str(&format!("\\u{:04X}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// a quoted string token; `bad`: percentage of wrong escapes
pub fn quoted(r: &mut Rng, d: &Dict, bad: usize) -> String {
    if r.pct(12) {
        let v = prose(r, d);
        return escaped(r, &v);
    }
    let n = match r.below(20) {
        0 => 0,
        1 => r.range(20, 120),
        _ => r.range(1, 9),
    };
    let mut s = String::from("\"");
    let wrong = r.pct(bad);
    let at = r.below(n + 1);
    let at2 = if r.pct(40) { at + 1 } else { at };
    for i in 0..n + 1 {
        if wrong && (i == at || i == at2) {
            match r.below(8) {
                0 => s.push_str("\\u"),
                1 => s.push_str(&format!("\\uD{:03X}", r.range(0x800, 0xfff))),
                2 => s.push_str(&format!("\\u{:03x}", r.below(0x1000))),
                3 => s.push_str("\\u{61}"),
                4 => {
                    s.push_str("\\u");
                    for _ in 0..4 {
                        let c = *r.pick(&['0', 'a', 'F', 'g', '+', '-', ' ', '９', 'é', '_', '.']);
                        s.push(c);
                    }
                }
                5 => {
                    let c = loop {
                        let c = any_char(r, d);
                        if !matches!(c, '\n' | '"' | '\\' | '/' | 'b' | 'f' | 'n' | 'r' | 't' | 'u' | '\r') {
                            break c;
                        }
                    };
                    s.push('\\');
                    s.push(c);
                }
                6 => s.push_str(*r.pick(&["\\x41", "\\0", "\\a", "\\v", "\\e", "\\N", "\\U0041", "\\'"])),
                _ => s.push_str(*r.pick(&["\\ud83d\\ude00", "\\u00", "\\u 041", "\\u+041", "\\u-041"])),
            }
            continue;
        }
        if i == n {
            break;
        }
        match r.below(14) {
            0 => s.push_str(*r.pick(&[
                "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\\"\\\"\\\"", "\\\\\\\"",
            ])),
            1 => {
                let c = loop {
                    let c = r.below(0x10000) as u32;
                    if char::from_u32(c).is_some() {
                        break c;
                    }
                };
                s.push_str(&if r.pct(50) {
                    format!("\\u{:04X}", c)
                } else {
                    format!("\\u{:04x}", c)
                });
            }
            2 => {
                let c = r.below(0x100);
                s.push_str(&format!("\\u{:04x}", c));
            }
            3 if r.pct(40) && !d.words.is_empty() => {
                let w = r.pick(&d.words).clone();
                for c in w.chars() {
                    if !matches!(c, '\n' | '"' | '\\' | '\r') {
                        s.push(c);
                    }
                }
            }
            _ => {
                let c = any_char(r, d);
                if !matches!(c, '\n' | '"' | '\\' | '\r') {
                    s.push(c);
                }
            }
        }
    }
    s.push('"');
    s
}

/// a block string of about this text
pub fn block_of(r: &mut Rng, v: &str) -> String {
    let v = v.replace("\\\"\"\"", "\"\"\"").replace("\"\"\"", "\\\"\"\"").replace('\r', "");
    let nl = if r.pct(10) { "\r\n" } else { "\n" };
    let ind = " ".repeat(r.below(5));
    let mut s = String::from("\"\"\"");
    for (i, l) in v.split('\n').enumerate() {
        if i > 0 || r.pct(50) {
            s.push_str(nl);
            s.push_str(&ind);
        }
        s.push_str(l);
    }
    if s.ends_with('"') || s.ends_with('\\') || r.pct(50) {
        s.push_str(nl);
        s.push_str(&ind);
    }
    s.push_str("\"\"\"");
    s
}

pub fn block(r: &mut Rng, d: &Dict) -> String {
    if r.pct(20) {
        let v = prose(r, d);
        return block_of(r, &v);
    }
    let lines = match r.below(20) {
        0 => 0,
        1 => r.range(5, 40),
        _ => r.range(1, 5),
    };
    let nl = if r.pct(15) { "\r\n" } else { "\n" };
    let base = r.below(5);
    let mut s = String::from("\"\"\"");
    for i in 0..lines {
        if i > 0 {
            s.push_str(nl);
        }
        let ind = if r.pct(60) { base } else { r.below(7) };
        for _ in 0..ind {
            s.push(if r.pct(85) { ' ' } else { '\t' });
        }
        if r.pct(25) {
            continue;
        }
        for _ in 0..r.range(1, 6) {
            match r.below(16) {
                0 => s.push_str("\\\"\"\""),
                1 => s.push_str("\\"),
                2 => s.push_str("\\n"),
                3 => s.push_str(*r.pick(&["\\u0041", "# no comment", "\\\"", "'", "\\\\\"\"\""])),
                4 => s.push(' '),
                5 => {
                    // one or two quotes, never three
                    if !s.ends_with('"') {
                        s.push_str(*r.pick(&["\"", "\"\""]));
                        s.push('a');
                    }
                }
                6 | 7 => {
                    let c = any_char(r, d);
                    if !matches!(c, '"' | '\r') {
                        s.push(c);
                    }
                }
                _ => s.push(r.range(0x61, 0x7a) as u8 as char),
            }
        }
    }
    // the last character decides whether the closing quotes close
    if s.len() > 3 && (s.ends_with('"') || s.ends_with('\\')) {
        s.push(*r.pick(&[' ', '\n', 'x']));
    }
    s.push_str("\"\"\"");
    s
}

pub fn int(r: &mut Rng, bad: usize) -> String {
    match r.below(10) {
        0 => "0".into(),
        1 => (*r.pick(&[
            "-0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295",
            "4294967296", "9007199254740991", "9007199254740993", "9223372036854775807",
            "-9223372036854775808", "9223372036854775806", "-9223372036854775807", "10",
        ]))
        .into(),
        2 if r.pct(bad) => (*r.pick(&[
            "9223372036854775808", "-9223372036854775809", "18446744073709551615",
            "18446744073709551616", "99999999999999999999", "10000000000000000000000000",
            "-10000000000000000000000000",
        ]))
        .into(),
        3 => (r.next() as i64).to_string(),
        4 => ((r.next() as i64) >> r.below(63)).to_string(),
        _ => (r.below(1000) as i64 - 500).to_string(),
    }
}

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect()
}

pub fn float(r: &mut Rng) -> String {
    match r.below(10) {
        0 => (*r.pick(&[
            "0.0", "-0.0", "1.0", "1e9", "1E9", "9e9", "1e99", "1e-9", "1.5e+10", "0e1", "-0e-1",
            "1e308", "1.7976931348623157e308", "1e309", "-1e400", "4.9e-324", "2e-324", "5e-324",
            "1e-400", "2.2250738585072014e-308", "2.2250738585072011e-308", "9007199254740993.0",
            "0.1", "1.10", "1.0e0", "9223372036854775807.0", "9223372036854775808.0",
            "-9223372036854775808.0", "9.223372036854775e18", "1e18", "1e19", "123456789.0", "100e-2",
            "1.0e-00", "1.0e+00", "1.23e4", "0.30000000000000004", "8.5e-1", "1e+9",
        ]))
        .to_string()
        .replace("1.0e0", "1.0e1"),
        1 => {
            let bits = r.next();
            let f = f64::from_bits(bits);
            if f.is_finite() {
                let s = format!("{:e}", f);
                fix_exp(&s)
            } else {
                "2.5".into()
            }
        }
        2 => {
            let s = format!("{:e}", f64::from_bits(r.next() >> 2 | 0x3000_0000_0000_0000));
            fix_exp(&s)
        }
        _ => {
            let mut s = String::new();
            if r.pct(30) {
                s.push('-');
            }
            if r.pct(25) {
                s.push('0');
            } else {
                s.push((b'1' + r.below(9) as u8) as char);
                let n = r.small(20);
                s += &digits(r, n);
            }
            let exp = r.pct(50);
            if r.pct(60) || !exp {
                s.push('.');
                let n = 1 + r.small(25);
                s += &digits(r, n);
            }
            if exp {
                s.push(if r.pct(50) { 'e' } else { 'E' });
                match r.below(3) {
                    0 => {
                        s.push('+');
                        let n = r.range(1, 3);
                        s += &digits(r, n);
                    }
                    1 => {
                        s.push('-');
                        let n = r.range(1, 3);
                        s += &digits(r, n);
                    }
                    _ => {
                        s.push((b'1' + r.below(9) as u8) as char);
                        let n = r.below(3);
                        s += &digits(r, n);
                    }
                }
            }
            s
        }
    }
}

/// Rust prints "1e0", which is not in the token grammar
fn fix_exp(s: &str) -> String {
    if let Some(i) = s.find('e') {
        let (m, e) = s.split_at(i);
        if let Some(n) = e[1..].strip_prefix('-') {
            return format!("{}e-{}", m, n);
        }
        return format!("{}e+{}", m, &e[1..]);
    }
    s.to_string()
}

impl<'r, 'd> Gen<'r, 'd> {
    pub fn new(r: &'r mut Rng, d: &'d Dict, budget: usize) -> Gen<'r, 'd> {
        let pick = |r: &mut Rng| *r.pick(&[0, 10, 25, 25, 50, 80]);
        let (a, b, c, s, o) = (pick(r), pick(r), pick(r), pick(r), pick(r));
        let wide = *r.pick(&[1, 2, 3, 3, 6, 20]);
        let maxdepth = *r.pick(&[3, 6, 6, 10, 20, 50]);
        Gen {
            r,
            d,
            out: Vec::new(),
            budget: budget as isize,
            depth: 0,
            maxdepth,
            p_args: a,
            p_dirs: b,
            p_deep: c,
            p_str: s,
            p_doc: o,
            wide,
            bad: 0,
        }
    }
    fn t(&mut self, s: &str) {
        self.budget -= 1;
        match s {
            "(" | "[" | "{" => self.depth += 1,
            ")" | "]" | "}" => self.depth -= 1,
            _ => {}
        }
        self.out.push(s.to_string());
    }
    fn name(&mut self) {
        let n = name(self.r, self.d);
        self.t(&n);
    }
    /// how many more, given the budget
    fn count(&mut self) -> usize {
        if self.budget <= 0 {
            0
        } else {
            self.r.small(60).min(1 + self.r.below(self.wide + 1) * 2)
        }
    }
    fn room(&self, n: usize) -> bool {
        self.depth + n <= self.maxdepth && self.budget > 0
    }

    pub fn literal(&mut self) -> String {
        let k = self.r.below(100);
        if k < self.p_str {
            if self.r.pct(60) {
                quoted(self.r, self.d, self.bad)
            } else {
                block(self.r, self.d)
            }
        } else {
            match self.r.below(8) {
                0 | 1 => int(self.r, self.bad * 10),
                2 | 3 => float(self.r),
                4 => (*self.r.pick(&["true", "false", "null"])).into(),
                5 => quoted(self.r, self.d, self.bad),
                6 => block(self.r, self.d),
                _ => name(self.r, self.d),
            }
        }
    }

    pub fn value(&mut self, vars: bool) {
        if self.room(1) && self.r.pct(self.p_deep.max(8)) {
            if self.r.pct(50) {
                self.t("[");
                for _ in 0..self.count() {
                    self.value(vars);
                }
                self.t("]");
            } else {
                self.t("{");
                for _ in 0..self.count() {
                    self.name();
                    self.t(":");
                    self.value(vars);
                }
                self.t("}");
            }
            return;
        }
        if vars && self.r.pct(15) {
            self.t("$");
            self.name();
            return;
        }
        let l = self.literal();
        self.t(&l);
    }

    fn arguments(&mut self) {
        if self.room(1) && self.r.pct(self.p_args) {
            self.t("(");
            for _ in 0..1 + self.count() {
                self.name();
                self.t(":");
                self.value(true);
            }
            self.t(")");
        }
    }

    fn directives(&mut self) {
        if self.budget > 0 && self.r.pct(self.p_dirs) {
            for _ in 0..1 + self.count() / 2 {
                self.t("@");
                self.name();
                self.arguments();
            }
        }
    }
    /// at least one
    fn directives1(&mut self) {
        self.t("@");
        self.name();
        self.arguments();
        self.directives();
    }

    fn ty(&mut self) {
        if self.room(1) && self.r.pct(if self.p_deep > 40 { 60 } else { 25 }) {
            self.t("[");
            self.ty();
            self.t("]");
        } else {
            self.name();
        }
        if self.r.pct(35) {
            self.t("!");
        }
    }

    fn selection_set(&mut self) {
        self.t("{");
        for _ in 0..1 + self.count() {
            self.selection();
        }
        self.t("}");
    }

    fn selection(&mut self) {
        match self.r.below(10) {
            0 => {
                self.t("...");
                let n = loop {
                    let n = name(self.r, self.d);
                    if n != "on" {
                        break n;
                    }
                };
                self.t(&n);
                self.directives();
            }
            1 if self.room(1) => {
                self.t("...");
                if self.r.pct(60) {
                    self.t("on");
                    self.name();
                }
                self.directives();
                self.selection_set();
            }
            _ => {
                self.name();
                if self.r.pct(20) {
                    self.t(":");
                    self.name();
                }
                self.arguments();
                self.directives();
                if self.room(1) && self.r.pct(30 + self.p_deep / 2) {
                    self.selection_set();
                }
            }
        }
    }

    fn query_def(&mut self) {
        match self.r.below(10) {
            0 | 1 => self.selection_set(),
            2 | 3 => {
                self.t("fragment");
                self.name();
                self.t("on");
                self.name();
                self.directives();
                self.selection_set();
            }
            k => {
                self.t(["query", "query", "mutation", "subscription"][k % 4]);
                if self.r.pct(70) {
                    self.name();
                }
                if self.r.pct(self.p_args.max(15)) {
                    self.t("(");
                    for _ in 0..1 + self.count() {
                        self.t("$");
                        self.name();
                        self.t(":");
                        self.ty();
                        if self.r.pct(40) {
                            self.t("=");
                            self.value(false);
                        }
                    }
                    self.t(")");
                }
                self.directives();
                self.selection_set();
            }
        }
    }

    fn doc(&mut self) {
        if self.r.pct(self.p_doc) {
            let s = if self.r.pct(50) {
                quoted(self.r, self.d, self.bad)
            } else {
                block(self.r, self.d)
            };
            self.t(&s);
        }
    }

    fn input_value(&mut self) {
        self.doc();
        self.name();
        self.t(":");
        self.ty();
        if self.r.pct(35) {
            self.t("=");
            self.value(false);
        }
        self.directives();
    }

    fn arg_defs(&mut self) {
        if self.room(1) && self.r.pct(self.p_args) {
            self.t("(");
            for _ in 0..1 + self.count() {
                self.input_value();
            }
            self.t(")");
        }
    }

    fn fields(&mut self) {
        self.t("{");
        for _ in 0..1 + self.count() {
            self.doc();
            self.name();
            self.arg_defs();
            self.t(":");
            self.ty();
            self.directives();
        }
        self.t("}");
    }
    fn implements(&mut self) {
        self.t("implements");
        if self.r.pct(20) {
            self.t("&");
        }
        self.name();
        for _ in 0..self.count() {
            self.t("&");
            self.name();
        }
    }
    fn members(&mut self) {
        self.t("=");
        if self.r.pct(25) {
            self.t("|");
        }
        self.name();
        for _ in 0..self.count() {
            self.t("|");
            self.name();
        }
    }
    fn enum_values(&mut self) {
        self.t("{");
        for _ in 0..1 + self.count() {
            self.doc();
            self.name();
            self.directives();
        }
        self.t("}");
    }
    fn input_fields(&mut self) {
        self.t("{");
        for _ in 0..1 + self.count() {
            self.input_value();
        }
        self.t("}");
    }

    fn schema_def(&mut self) {
        let k = self.r.below(18);
        match k {
            0 | 1 => {
                self.t("schema");
                self.directives();
                self.t("{");
                let mut ops = ["query", "mutation", "subscription"];
                for i in (1..3).rev() {
                    let j = self.r.below(i + 1);
                    ops.swap(i, j);
                }
                let n = self.r.below(4);
                for o in &ops[..n] {
                    self.t(o);
                    self.t(":");
                    self.name();
                }
                self.t("}");
            }
            2 | 3 => {
                self.doc();
                self.t("directive");
                self.t("@");
                self.name();
                self.arg_defs();
                if self.r.pct(30) {
                    self.t("repeatable");
                }
                self.t("on");
                if self.r.pct(25) {
                    self.t("|");
                }
                for i in 0..1 + self.count() {
                    if i > 0 {
                        self.t("|");
                    }
                    let l = self.r.pick(&LOCATIONS).0;
                    self.t(l);
                }
            }
            _ => {
                let ext = k % 2 == 0;
                if ext {
                    self.t("extend");
                } else {
                    self.doc();
                }
                // bit set of the optional parts; an extension has at least one
                let kind = ["scalar", "type", "interface", "union", "enum", "input"][self.r.below(6)];
                self.t(kind);
                self.name();
                let (mut imp, mut dir, mut body) =
                    (self.r.pct(40), self.r.pct(self.p_dirs), self.r.pct(70));
                if kind == "scalar" {
                    body = false;
                }
                if kind != "type" && kind != "interface" {
                    imp = false;
                }
                if ext && !(imp || dir || body) {
                    match kind {
                        "scalar" => dir = true,
                        "type" | "interface" => imp = true,
                        _ => body = true,
                    }
                }
                if imp {
                    self.implements();
                }
                if dir {
                    self.directives1();
                }
                if body {
                    match kind {
                        "type" | "interface" => self.fields(),
                        "union" => self.members(),
                        "enum" => self.enum_values(),
                        _ => self.input_fields(),
                    }
                }
            }
        }
    }

    pub fn document(&mut self, lang: Lang) {
        let n = 1 + self.r.small(30);
        for _ in 0..n {
            match lang {
                Lang::Query => self.query_def(),
                Lang::Schema => self.schema_def(),
            }
            if self.budget <= 0 {
                break;
            }
        }
    }
}

pub fn budget(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => r.range(400, 3000),
        1..=5 => r.range(100, 400),
        6..=20 => r.range(20, 100),
        _ => r.range(3, 30),
    }
}

pub fn doc_tokens(r: &mut Rng, d: &Dict, lang: Lang, bad: usize) -> Vec<String> {
    let docs = match lang {
        Lang::Query => &d.query_docs,
        Lang::Schema => &d.schema_docs,
    };
    if !docs.is_empty() && r.pct(6) {
        let t = r.pick(docs);
        if t.len() < 6000 {
            return tokens(t);
        }
    }
    let b = budget(r);
    let mut g = Gen::new(r, d, b);
    g.bad = bad;
    g.document(lang);
    g.out
}

pub fn tokens(text: &str) -> Vec<String> {
    let l = lex::lex(text);
    (0..l.toks.len())
        .filter(|&i| l.toks[i].k != K::Eof)
        .map(|i| l.text(i).to_string())
        .collect()
}

/// Whether two tokens need something between them
pub fn needs_sep(a: &str, b: &str) -> bool {
    let wordish = |c: Option<char>| c.map_or(false, |c| c == '_' || c == '-' || c.is_ascii_alphanumeric());
    let (la, fb) = (a.chars().last(), b.chars().next());
    if wordish(la) && wordish(fb) {
        return true;
    }
    let number = a.starts_with(|c: char| c == '-' || c.is_ascii_digit());
    if number && b.starts_with('.') {
        return true;
    }
    // a quote after an empty string opens a block string
    a == "\"\"" && b.starts_with('"')
}

#[derive(Clone, Copy, Debug)]
pub enum Sep {
    Tight,
    Space,
    Lines,
    Wild,
    /// Wild without a CR that is not followed by LF
    WildNoCr,
}

/// many times the same piece of ignored text, as indentation is, often behind
/// the end of a line
fn run(r: &mut Rng, s: &mut String, lone_cr: bool) {
    if r.pct(60) {
        s.push('\n');
    }
    let what = match r.below(10) {
        0..=4 => " ",
        5 => "\t",
        6 => ",",
        7 => *r.pick(&["\n", "\r\n"]),
        8 if lone_cr => "\r",
        _ => *r.pick(&["\u{feff}", "#\n", " \n", ", "]),
    };
    let n = r.range(1, 70);
    for _ in 0..n {
        s.push_str(what);
    }
}

pub fn ignorable(r: &mut Rng, d: &Dict, s: &mut String, lone_cr: bool, last: bool) {
    let n = r.small(12);
    for i in 0..n {
        match r.below(13) {
            12 => run(r, s, lone_cr),
            0..=2 => s.push(' '),
            3 => s.push(','),
            4 => s.push('\t'),
            5 => s.push('\n'),
            6 => s.push_str("\r\n"),
            7 => s.push('\u{feff}'),
            8 if lone_cr => s.push('\r'),
            9 => {
                for _ in 0..r.small(30) {
                    s.push(*r.pick(&[' ', ',', '\t', '\n']));
                }
            }
            _ => {
                s.push('#');
                for _ in 0..r.small(30) {
                    let c = any_char(r, d);
                    if !matches!(c, '\n' | '\r') {
                        s.push(c);
                    }
                }
                if r.pct(8) {
                    let mut w = String::new();
                    for _ in 0..r.range(1, 4) {
                        w += *r.pick(&["\"", "\"\"\"", "{", "}", "...", "query", " ", "type", "(", "\\", "#"]);
                    }
                    s.push_str(&w);
                }
                if last && i + 1 == n && r.pct(50) {
                    return;
                }
                s.push_str(if r.pct(20) {
                    "\r\n"
                } else if lone_cr && r.pct(15) {
                    "\r"
                } else {
                    "\n"
                });
            }
        }
    }
}

pub fn render(r: &mut Rng, d: &Dict, toks: &[String], sep: Sep) -> String {
    let mut s = String::new();
    let wild = |r: &mut Rng, s: &mut String, last: bool| match sep {
        Sep::Wild => ignorable(r, d, s, true, last),
        Sep::WildNoCr => ignorable(r, d, s, false, last),
        _ => {}
    };
    wild(r, &mut s, false);
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let at = s.len();
            match sep {
                Sep::Tight => {}
                Sep::Space => s.push(' '),
                Sep::Lines if r.pct(6) => run(r, &mut s, false),
                Sep::Lines => s.push_str(*r.pick(&["\n", " ", "\n  ", ", ", "\r\n"])),
                _ => wild(r, &mut s, false),
            }
            if s.len() == at && needs_sep(&toks[i - 1], t) {
                s.push_str(*r.pick(&[" ", ",", "\n", "\t", "\r\n", "#\n", "\u{feff}"]));
            }
        }
        s.push_str(t);
    }
    wild(r, &mut s, true);
    s
}

pub fn any_sep(r: &mut Rng, lone_cr: bool) -> Sep {
    match r.below(8) {
        0 => Sep::Tight,
        1 | 2 => Sep::Space,
        3 | 4 => Sep::Lines,
        _ if lone_cr => Sep::Wild,
        _ => Sep::WildNoCr,
    }
}

const PIECES: [&str; 44] = [
    "{", "}", "(", ")", "[", "]", ":", "=", "@", "|", "&", "!", "$", "...", "\"\"", "\"a\"",
    "\"\"\"b\"\"\"", "1", "-1", "1.5", "9223372036854775808", "\"\\q\"", "..", ".", "-", "01", "1.",
    "\"", "\"\"\"", ";", "é", "%", "*", "a", "on", "query", "fragment", "type", "extend", "schema",
    "true", "null", "\u{a0}", "\0",
];

pub fn mutate_tokens(r: &mut Rng, d: &Dict, t: &mut Vec<String>) {
    let n = 1 + r.small(4);
    for _ in 0..n {
        let len = t.len();
        if len == 0 {
            t.push(r.pick(&PIECES).to_string());
            continue;
        }
        let i = r.below(len);
        match r.below(9) {
            0 | 1 => {
                t.remove(i);
            }
            2 => {
                let x = t[i].clone();
                t.insert(i, x);
            }
            3 => {
                let j = r.below(len);
                t.swap(i, j);
            }
            4 => t[i] = r.pick(&PIECES).to_string(),
            5 => t[i] = name(r, d),
            6 => t.insert(i, r.pick(&PIECES).to_string()),
            7 => {
                let j = r.below(len);
                t[i] = t[j].clone();
            }
            _ => {
                let j = i + r.below(len - i + 1);
                if r.pct(50) {
                    t.truncate(j.max(1));
                } else {
                    t.drain(i..j);
                }
            }
        }
    }
}

pub fn mutate_chars(r: &mut Rng, d: &Dict, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let n = 1 + r.small(5);
    for _ in 0..n {
        let len = c.len();
        let i = r.below(len + 1);
        match r.below(6) {
            0 if len > 0 => {
                c.remove(i.min(len - 1));
            }
            1 if len > 0 => {
                let ch = any_char(r, d);
                c[i.min(len - 1)] = ch;
            }
            2 => {
                let ch = any_char(r, d);
                c.insert(i, ch);
            }
            3 => {
                let p = *r.pick(&PIECES);
                for (k, ch) in p.chars().enumerate() {
                    c.insert(i + k, ch);
                }
            }
            4 => c.truncate(i),
            _ => {
                let j = i + r.below((len - i.min(len)).min(20) + 1);
                if i < j && j <= len {
                    let part: Vec<char> = c[i..j].to_vec();
                    let k = r.below(c.len() + 1);
                    for (m, ch) in part.into_iter().enumerate() {
                        c.insert(k + m, ch);
                    }
                }
            }
        }
    }
    c.into_iter().collect()
}

/// A text that is mostly a document, and often nearly one
pub fn text(r: &mut Rng, d: &Dict, lang: Lang, lone_cr: bool, p_mut: usize, bad: usize) -> String {
    let mut t = doc_tokens(r, d, lang, bad);
    let m = r.pct(p_mut);
    if m && r.pct(70) {
        mutate_tokens(r, d, &mut t);
    }
    let sep = any_sep(r, lone_cr);
    let s = render(r, d, &t, sep);
    if m && r.pct(40) {
        mutate_chars(r, d, &s)
    } else {
        s
    }
}
