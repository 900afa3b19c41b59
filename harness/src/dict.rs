//! Workload seeds: words, characters and sizes. Besides fixed ones they are
//! taken from the literals of the code under test, so that sizes and words it
//! treats specially get tried (no oracle looks at them).
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub struct Dict {
    pub words: Vec<String>,
    pub names: Vec<String>,
    pub sizes: Vec<usize>,
    /// numbers of the code too large for most shapes
    pub big: Vec<usize>,
    pub chars: Vec<char>,
    pub query_docs: Vec<String>,
    pub schema_docs: Vec<String>,
}

pub const KEYWORDS: [&str; 24] = [
    "query", "mutation", "subscription", "fragment", "on", "true", "false", "null", "schema",
    "scalar", "type", "interface", "union", "enum", "input", "directive", "extend", "implements",
    "repeatable", "QUERY", "FIELD", "__typename", "_", "e",
];

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("GQLMON_REPO").unwrap_or_else(|_| "/repo".into()))
}

fn walk(d: &Path, ext: &str, out: &mut Vec<PathBuf>) {
    let mut v: Vec<_> = match std::fs::read_dir(d) {
        Ok(r) => r.flatten().map(|e| e.path()).collect(),
        Err(_) => return,
    };
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, ext, out);
        } else if p.extension().map_or(false, |e| e == ext) {
            out.push(p);
        }
    }
}

pub fn is_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && (b[0] == b'_' || b[0].is_ascii_alphabetic())
        && b.iter().all(|c| *c == b'_' || c.is_ascii_alphanumeric())
}

impl Dict {
    /// without looking at the file system
    pub fn fixed() -> Dict {
        Dict {
            words: vec![],
            names: KEYWORDS.iter().map(|s| s.to_string()).collect(),
            sizes: vec![],
            big: vec![],
            chars: vec![],
            query_docs: vec![],
            schema_docs: vec![],
        }
    }
    pub fn load() -> Dict {
        let mut words = BTreeSet::new();
        let mut sizes = BTreeSet::new();
        let mut big = BTreeSet::new();
        let mut chars = BTreeSet::new();
        let mut files = Vec::new();
        walk(&repo().join("src"), "rs", &mut files);
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            let cs: Vec<char> = text.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                let c = cs[i];
                if c.is_ascii_digit() && (i == 0 || !(cs[i - 1].is_alphanumeric() || cs[i - 1] == '_')) {
                    let mut j = i;
                    let mut s = String::new();
                    while j < cs.len() && (cs[j].is_ascii_alphanumeric() || cs[j] == '_') {
                        if cs[j] != '_' {
                            s.push(cs[j]);
                        }
                        j += 1;
                    }
                    let v = if let Some(h) = s.strip_prefix("0x") {
                        usize::from_str_radix(h, 16).ok()
                    } else {
                        let digits: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                        digits.parse().ok()
                    };
                    if let Some(v) = v {
                        let mut note = |v: usize| {
                            if v <= 70_000 {
                                sizes.insert(v);
                            } else if v <= 6_000_000 {
                                big.insert(v);
                            }
                        };
                        note(v);
                        // `1 << 20`, `64 * 1024`
                        let rest: String = cs[j..cs.len().min(j + 12)].iter().collect();
                        let rest = rest.trim_start();
                        let arg = |op: &str| -> Option<usize> {
                            let r = rest.strip_prefix(op)?.trim_start();
                            let n: String = r.chars().take_while(|c| c.is_ascii_digit() || *c == '_').filter(|c| *c != '_').collect();
                            n.parse().ok()
                        };
                        if let Some(b) = arg("<<").filter(|b| *b < 24) {
                            note(v << b);
                        }
                        if let Some(b) = arg("*") {
                            note(v.saturating_mul(b));
                        }
                        if let Some(c) = char::from_u32(v as u32) {
                            chars.insert(c);
                        }
                    }
                    i = j;
                    continue;
                }
                if c == '"' {
                    let mut j = i + 1;
                    let mut s = String::new();
                    while j < cs.len() && cs[j] != '"' && s.len() < 60 {
                        if cs[j] == '\\' && j + 1 < cs.len() {
                            match cs[j + 1] {
                                'n' => s.push('\n'),
                                't' => s.push('\t'),
                                'r' => s.push('\r'),
                                c => s.push(c),
                            }
                            j += 2;
                        } else {
                            s.push(cs[j]);
                            j += 1;
                        }
                    }
                    if s.len() < 60 {
                        for w in s.split(|c: char| !(c == '_' || c.is_ascii_alphanumeric())) {
                            if is_name(w) && w.len() < 30 {
                                words.insert(w.to_string());
                            }
                        }
                        if !s.is_empty() {
                            words.insert(s);
                        }
                    }
                    i = j + 1;
                    continue;
                }
                if c == '\'' && i + 2 < cs.len() {
                    if cs[i + 1] != '\\' && cs[i + 2] == '\'' {
                        chars.insert(cs[i + 1]);
                        i += 3;
                        continue;
                    }
                    if cs[i + 1] == '\\' && cs[i + 2] == 'u' {
                        let h: String = cs[i + 3..cs.len().min(i + 12)]
                            .iter()
                            .filter(|c| c.is_ascii_hexdigit() || **c == '}')
                            .take_while(|c| **c != '}')
                            .collect();
                        if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                            chars.insert(c);
                        }
                    }
                }
                i += 1;
            }
        }
        // what messages look like, inside of texts
        for w in [
            "Recursion limit exceeded",
            "query parse error: Parse error at 1:1",
            "Parse error at 70:70\nUnexpected `x[Name]`\nExpected {",
            "]`\n",
        ] {
            words.insert(w.into());
        }
        let mut names: BTreeSet<String> = KEYWORDS.iter().map(|s| s.to_string()).collect();
        for w in &words {
            if is_name(w) {
                names.insert(w.clone());
            }
        }
        let docs = |sub: &str| {
            let mut files = Vec::new();
            walk(&repo().join("tests").join(sub), "graphql", &mut files);
            let mut v = Vec::new();
            for f in files {
                if let Ok(t) = std::fs::read_to_string(&f) {
                    v.push(t);
                }
            }
            v
        };
        Dict {
            words: words.into_iter().collect(),
            names: names.into_iter().collect(),
            sizes: sizes.into_iter().collect(),
            big: big.into_iter().collect(),
            chars: chars.into_iter().collect(),
            query_docs: docs("queries"),
            schema_docs: docs("schemas"),
        }
    }
}
