//! Systematic workloads: every construct at many sizes, every character and
//! escape, short token sequences, one-token edits.
use crate::dict::Dict;
use crate::gen;
use crate::refparse::{Lang, LOCATIONS};
use Lang::{Query as Q, Schema as S};

pub type Sink<'x> = &'x mut dyn FnMut(Lang, String);

/// sizes worth trying, the largest ones only for cheap constructs
pub fn sizes(d: &Dict, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([
        47, 48, 49, 50, 51, 52, 53, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256,
        257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192,
        8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537,
    ]);
    for &s in &d.sizes {
        v.extend([s.saturating_sub(1), s, s + 1, s + 2]);
    }
    v.sort();
    v.dedup();
    v.retain(|&x| x <= max);
    v
}

fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += &f(i);
    }
    s
}

pub type Shape = (&'static str, Lang, usize, fn(usize) -> String);

/// constructs repeated n times: name, language, largest n, text
pub fn shapes() -> Vec<Shape> {
    vec![
        ("fields", Q, 70000, |n| format!("{{{}}}", rep(n, |i| format!("f{} ", i)))),
        ("fields-same", Q, 70000, |n| format!("{{{}}}", "a ".repeat(n))),
        ("aliases", Q, 70000, |n| format!("{{{}}}", rep(n, |i| format!("a{}:b\n", i)))),
        ("nested-sets", Q, 60, |n| format!("{}a{}", "{a".repeat(n), "}".repeat(n))),
        ("sets-in-sequence", Q, 70000, |n| format!("{{{}}}", "a{b}".repeat(n))),
        ("args", Q, 70000, |n| format!("{{a({})}}", rep(n, |i| format!("x{}:{} ", i, i)))),
        ("args-in-sequence", Q, 70000, |n| format!("{{{}}}", "a(b:1)".repeat(n))),
        ("directives", Q, 70000, |n| format!("{{a{}}}", rep(n, |i| format!(" @d{}", i)))),
        ("directive-args", Q, 70000, |n| format!("{{a @d({}) b}}", "x:1,".repeat(n))),
        ("directives-with-args", Q, 70000, |n| format!("query Q{}{{a}}", rep(n, |i| format!(" @d(if:{})", i)))),
        ("fragment-directives", Q, 70000, |n| format!("fragment F on T{}{{a}}", "@d ".repeat(n))),
        ("spread-directives", Q, 70000, |n| format!("{{...F{} a}}", " @d".repeat(n))),
        ("inline-directives", Q, 70000, |n| format!("{{...on T{}{{a}} a}}", " @d".repeat(n))),
        ("variables", Q, 70000, |n| format!("query({}){{a}}", rep(n, |i| format!("$v{}:T ", i)))),
        ("variables-defaults", Q, 70000, |n| format!("mutation M({}){{a}}", rep(n, |i| format!("$v{}:[T!]!=[{}] ", i, i)))),
        ("operations", Q, 70000, |n| rep(n, |i| format!("query q{}{{a}}\n", i))),
        ("shorthands", Q, 70000, |n| "{a}".repeat(n)),
        ("mutations", Q, 70000, |n| "mutation{a}".repeat(n)),
        ("fragments", Q, 70000, |n| rep(n, |i| format!("fragment f{} on T{{a}}", i))),
        ("spreads", Q, 70000, |n| format!("{{a{}}}", rep(n, |i| format!("...f{} ", i)))),
        ("inlines", Q, 70000, |n| format!("{{a{}}}", "...{b}".repeat(n))),
        ("inlines-on", Q, 70000, |n| format!("{{a{}}}", "...on T{b}".repeat(n))),
        ("nested-inlines", Q, 60, |n| format!("{{{}a{}}}", "...{".repeat(n), "}".repeat(n))),
        ("list", Q, 70000, |n| format!("{{a(b:[{}])}}", "1 ".repeat(n))),
        ("list-strings", Q, 70000, |n| format!("{{a(b:[{}])}}", "\"x\" ".repeat(n))),
        ("list-of-lists", Q, 70000, |n| format!("{{a(b:[{}])}}", "[] ".repeat(n))),
        ("nested-lists", Q, 60, |n| format!("{{a(b:{}{})}}", "[".repeat(n), "]".repeat(n))),
        ("nested-list-value", Q, 60, |n| format!("{{a(b:{}7{})}}", "[".repeat(n), "]".repeat(n))),
        ("object", Q, 70000, |n| format!("{{a(b:{{{}}})}}", rep(n, |i| format!("k{}:{} ", i, i)))),
        ("object-reverse", Q, 70000, |n| format!("{{a(b:{{{}}})}}", rep(n, |i| format!("k{}:{} ", n - i, i)))),
        ("object-same-key", Q, 70000, |n| format!("{{a(b:{{{}}})}}", rep(n, |i| format!("k:{} ", i)))),
        ("nested-objects", Q, 60, |n| format!("{{a(b:{}1{})}}", "{k:".repeat(n), "}".repeat(n))),
        ("list-of-objects", Q, 70000, |n| format!("{{a(b:[{}])}}", "{k:1}".repeat(n))),
        ("type-lists", Q, 60, |n| format!("query($v:{}T{}){{a}}", "[".repeat(n), "]".repeat(n))),
        ("type-lists-bang", Q, 60, |n| format!("query($v:{}T!{}){{a}}", "[".repeat(n), "]!".repeat(n))),
        ("field-name", Q, 70000, |n| format!("{{a{} b}}", "b".repeat(n))),
        ("alias-name", Q, 70000, |n| format!("{{a{}:c b}}", "b".repeat(n))),
        ("arg-name", Q, 70000, |n| format!("{{a(a{}:c)}}", "b".repeat(n))),
        ("key-name", Q, 70000, |n| format!("{{a(b:{{a{}:c}})}}", "b".repeat(n))),
        ("enum-name", Q, 70000, |n| format!("{{a(a:A{})}}", "B".repeat(n))),
        ("variable-name", Q, 70000, |n| format!("query($a{}:T){{a(x:$a{})}}", "b".repeat(n), "b".repeat(n))),
        ("operation-name", Q, 70000, |n| format!("subscription a{}{{a}}", "b".repeat(n))),
        ("fragment-name", Q, 70000, |n| format!("fragment a{} on T{}{{...a{}}}", "b".repeat(n), "c".repeat(n), "b".repeat(n))),
        ("string", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "x".repeat(n))),
        ("string-unicode", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "é".repeat(n))),
        ("string-astral", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "😀".repeat(n))),
        ("string-escapes", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "\\n".repeat(n))),
        ("string-backslashes", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "\\\\".repeat(n))),
        ("string-quotes", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "\\\"".repeat(n))),
        ("string-unicode-escapes", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "\\u00e9".repeat(n))),
        ("string-controls", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "\u{1}".repeat(n))),
        ("string-tabs", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "\t".repeat(n))),
        ("string-hashes", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "#".repeat(n))),
        ("string-words", Q, 70000, |n| format!("{{a(b:\"{}\") c}}", "ab ".repeat(n))),
        ("block", Q, 70000, |n| format!("{{a(b:\"\"\"{}\"\"\") c}}", "x".repeat(n))),
        ("block-lines", Q, 70000, |n| format!("{{a(b:\"\"\"{}x\"\"\") c}}", "y\n".repeat(n))),
        ("block-blank-lines", Q, 70000, |n| format!("{{a(b:\"\"\"x\n{}y\"\"\") c}}", "\n".repeat(n))),
        ("block-outer-blank-lines", Q, 70000, |n| format!("{{a(b:\"\"\"{0}y\n z{0}\"\"\") c}}", "\n  ".repeat(n))),
        ("block-indent", Q, 70000, |n| format!("{{a(b:\"\"\"\n{0}x\n{0} y\n{0}z\"\"\") c}}", " ".repeat(n))),
        ("block-indent-tabs", Q, 70000, |n| format!("{{a(b:\"\"\"\n{0}x\n{0} y\n{0}z\"\"\") c}}", "\t".repeat(n))),
        ("block-one-indented", Q, 70000, |n| format!("{{a(b:\"\"\"x\n y\n{}z\"\"\") c}}", " ".repeat(n))),
        ("block-blank-of", Q, 70000, |n| format!("{{a(b:\"\"\"x\n   y\n{}\n   z\"\"\") c}}", " ".repeat(n))),
        ("block-escaped", Q, 70000, |n| format!("{{a(b:\"\"\"{}\"\"\") c}}", "\\\"\"\"".repeat(n))),
        ("block-escaped-lines", Q, 70000, |n| format!("{{a(b:\"\"\"{}x\"\"\") c}}", "\\\"\"\"\n".repeat(n))),
        ("block-backslashes", Q, 70000, |n| format!("{{a(b:\"\"\"{} \"\"\") c}}", "\\".repeat(n))),
        ("block-crlf", Q, 70000, |n| format!("{{a(b:\"\"\"{}x\"\"\") c}}", " y\r\n".repeat(n))),
        ("block-unicode", Q, 70000, |n| format!("{{a(b:\"\"\"\n{}x\"\"\") c}}", "é😀".repeat(n))),
        ("block-quotes", Q, 70000, |n| format!("{{a(b:\"\"\"{}\"\"\") c}}", "\"a".repeat(n))),
        ("int-digits", Q, 400, |n| format!("{{a(b:{}) c}}", "1".repeat(n))),
        ("int-negative", Q, 400, |n| format!("{{a(b:-{}) c}}", "9".repeat(n))),
        ("int-zeros", Q, 400, |n| format!("{{a(b:1{}) c}}", "0".repeat(n))),
        ("fraction", Q, 70000, |n| format!("{{a(b:0.{}) c}}", "3".repeat(n))),
        ("fraction-zeros", Q, 70000, |n| format!("{{a(b:0.{}1) c}}", "0".repeat(n))),
        ("float-integer-part", Q, 70000, |n| format!("{{a(b:{}.5) c}}", "7".repeat(n))),
        ("exponent", Q, 1000, |n| format!("{{a(b:1e{}) c}}", n)),
        ("exponent-negative", Q, 1000, |n| format!("{{a(b:1.5E-{}) c}}", n)),
        ("exponent-zeros", Q, 1000, |n| format!("{{a(b:1e+{}1) c}}", "0".repeat(n))),
        ("spaces", Q, 70000, |n| format!("{}{{{}a(b:{}1){}}}{}", " ".repeat(n), " ".repeat(n), " ".repeat(n), " ".repeat(n), " ".repeat(n))),
        ("spaces-name", Q, 70000, |n| format!("query{}Q{{a{}b}}", " ".repeat(n + 1), " ".repeat(n + 1))),
        ("tabs", Q, 70000, |n| format!("{{{}a}}{}", "\t".repeat(n), "\t".repeat(n))),
        ("newlines", Q, 70000, |n| format!("{0}{{{0}a(b:{0}1){0}c}}{0}", "\n".repeat(n))),
        ("crlfs", Q, 70000, |n| format!("{0}{{{0}a{0}(b:1)}}{0}", "\r\n".repeat(n))),
        ("commas", Q, 70000, |n| format!("{0}{{{0}a{0}(b:1{0}){0}}}{0}", ",".repeat(n))),
        ("boms", Q, 70000, |n| format!("{0}{{{0}a{0}(b:{0}1{0})}}{0}", "\u{feff}".repeat(n))),
        ("comment", Q, 70000, |n| format!("#{0}\n{{a#{0}\n b}}#{0}\n", "c".repeat(n))),
        ("comment-crlf", Q, 70000, |n| format!("#{0}\r\n{{a#{0}\r\n b}}#{0}", "c".repeat(n))),
        ("comment-unicode", Q, 70000, |n| format!("{{a #{}\nb}}", "é😀\u{2028}".repeat(n))),
        ("comments", Q, 70000, |n| format!("{{a{}\nb}}", "\n# x".repeat(n))),
        ("empty-comments", Q, 70000, |n| format!("{{a{}\nb}}", "#\n".repeat(n))),
        ("comment-hashes", Q, 70000, |n| format!("{{a {}\nb}}", "#".repeat(n))),
        ("error-late", Q, 70000, |n| format!("{{a{} ]", " b".repeat(n))),
        ("error-column", Q, 70000, |n| format!("{{a{}]", " ".repeat(n))),
        ("error-line", Q, 70000, |n| format!("{{a{}]", "\n".repeat(n))),
        ("error-name", Q, 70000, |n| format!("{{a}} x{}", "y".repeat(n))),
        ("error-string", Q, 70000, |n| format!("{{a}} \"{}\"", "y\\n".repeat(n))),
        ("unterminated-string", Q, 70000, |n| format!("{{a(b:\"{}", "y".repeat(n))),
        ("unterminated-block", Q, 70000, |n| format!("{{a(b:\"\"\"{}", "y\n".repeat(n))),
        ("bad-number", Q, 70000, |n| format!("{{a(b:1{}x)}}", "0".repeat(n))),
        ("closers", Q, 70000, |n| format!("{{a}}{}", "}".repeat(n))),
        ("openers", Q, 70000, |n| "{a".repeat(n)),
        ("unclosed-lists", Q, 70000, |n| format!("{{a(b:{}", "[".repeat(n))),
        // type system documents
        ("types", S, 70000, |n| rep(n, |i| format!("type T{}{{a:b}}\n", i))),
        ("scalars", S, 70000, |n| rep(n, |i| format!("scalar T{}\n", i))),
        ("schemas", S, 70000, |n| "schema{query:Q}".repeat(n)),
        ("mixed-definitions", S, 1000, |n| "scalar A interface I{a:b} union U=A enum E{A} input P{a:b} directive@d on FIELD type T{a:b} schema{query:T} extend type T@d ".repeat(n)),
        ("extensions", S, 70000, |n| "extend scalar A@d ".repeat(n)),
        ("type-fields", S, 70000, |n| format!("type T{{{}}}", rep(n, |i| format!("f{}:T ", i)))),
        ("interface-fields", S, 70000, |n| format!("interface T{{{}}}", rep(n, |i| format!("f{}:T ", i)))),
        ("input-fields", S, 70000, |n| format!("input T{{{}}}", rep(n, |i| format!("f{}:T ", i)))),
        ("extend-fields", S, 70000, |n| format!("extend type T{{{}}}", rep(n, |i| format!("f{}:T ", i)))),
        ("extend-input-fields", S, 70000, |n| format!("extend input T{{{}}}", rep(n, |i| format!("f{}:T=1 ", i)))),
        ("input-defaults", S, 70000, |n| format!("input T{{{}}}", rep(n, |i| format!("f{}:T={} ", i, i)))),
        ("field-args", S, 70000, |n| format!("type T{{f({}):T}}", rep(n, |i| format!("a{}:T ", i)))),
        ("fields-with-args", S, 70000, |n| format!("type T{{{}}}", "f(a:T=1):T ".repeat(n))),
        ("field-directives", S, 70000, |n| format!("type T{{f:T{}}}", " @d".repeat(n))),
        ("type-directives", S, 70000, |n| format!("type T{}{{f:T}}", " @d".repeat(n))),
        ("scalar-directives", S, 70000, |n| format!("scalar T{}", rep(n, |i| format!(" @d(a:{})", i)))),
        ("union-directives", S, 70000, |n| format!("union T{}=A", " @d".repeat(n))),
        ("enum-directives", S, 70000, |n| format!("enum T{}{{A}}", " @d".repeat(n))),
        ("schema-directives", S, 70000, |n| format!("schema{}{{query:Q}}", " @d".repeat(n))),
        ("directive-arg-count", S, 70000, |n| format!("scalar T @d({})", "a:1 ".repeat(n))),
        ("enum-values", S, 70000, |n| format!("enum T{{{}}}", rep(n, |i| format!("V{} ", i)))),
        ("extend-enum-values", S, 70000, |n| format!("extend enum T{{{}}}", rep(n, |i| format!("V{} @d ", i)))),
        ("enum-value-directives", S, 70000, |n| format!("enum T{{A{} B}}", " @d".repeat(n))),
        ("union-members", S, 70000, |n| format!("union T=A{}", rep(n, |i| format!("|B{}", i)))),
        ("extend-union-members", S, 70000, |n| format!("extend union T=|A{}", rep(n, |i| format!("|B{}", i)))),
        ("interfaces", S, 70000, |n| format!("type T implements A{} {{f:T}}", rep(n, |i| format!("&B{}", i)))),
        ("interface-interfaces", S, 70000, |n| format!("interface T implements &A{}", rep(n, |i| format!("&B{}", i)))),
        ("extend-interfaces", S, 70000, |n| format!("extend interface T implements &A{}", rep(n, |i| format!("&B{}", i)))),
        ("locations", S, 70000, |n| format!("directive@d on FIELD{}", rep(n, |i| format!("|{}", LOCATIONS[i % 19].0)))),
        ("directive-defs", S, 70000, |n| "directive@d repeatable on FIELD ".repeat(n)),
        ("directive-def-args", S, 70000, |n| format!("directive@d({})on FIELD", rep(n.max(1), |i| format!("a{}:T=\"x\" ", i)))),
        ("schema-type-lists", S, 60, |n| format!("type T{{f:{}T{}}}", "[".repeat(n), "]!".repeat(n))),
        ("arg-type-lists", S, 60, |n| format!("type T{{f(a:{}T{}=1):T}}", "[".repeat(n), "]".repeat(n))),
        ("default-lists", S, 60, |n| format!("input T{{f:T={}{}}}", "[".repeat(n), "]".repeat(n))),
        ("default-objects", S, 60, |n| format!("input T{{f:T={}1{}}}", "{k:".repeat(n), "}".repeat(n))),
        ("default-list", S, 70000, |n| format!("input T{{f:T=[{}]}}", "1 ".repeat(n))),
        ("description", S, 70000, |n| format!("\"{}\"scalar T", "x".repeat(n))),
        ("description-lines", S, 70000, |n| format!("\"\"\"\n{}z\n\"\"\"scalar T", "  x\n".repeat(n))),
        ("description-escapes", S, 70000, |n| format!("\"{}\"type T{{\"{}\"f:T}}", "\\n".repeat(n), "a\\n".repeat(n))),
        ("descriptions", S, 70000, |n| "\"d\"scalar T ".repeat(n)),
        ("block-descriptions", S, 70000, |n| "\"\"\"a\nb\"\"\"scalar T ".repeat(n)),
        ("field-descriptions", S, 70000, |n| format!("type T{{{}}}", "\"d\"f:T ".repeat(n))),
        ("enum-descriptions", S, 70000, |n| format!("enum T{{{}}}", "\"\"\"a\nb\"\"\"A ".repeat(n))),
        ("arg-descriptions", S, 70000, |n| format!("type T{{f({}):T}}", "\"d\"a:T ".repeat(n))),
        ("type-name", S, 70000, |n| format!("type a{} implements c{} {{x{}:y{}}}", "b".repeat(n), "b".repeat(n), "b".repeat(n), "b".repeat(n))),
        ("schema-spaces", S, 70000, |n| format!("type{}T{{a{}:b}}", " ".repeat(n + 1), " ".repeat(n))),
        ("schema-comments", S, 70000, |n| format!("type T{{a:b{}}}", "\n#x\n".repeat(n))),
        ("schema-error-line", S, 70000, |n| format!("type T{{a{}]", "\n".repeat(n))),
        ("schema-openers", S, 70000, |n| "type T{a(b:[".repeat(n)),
        ("extension-empty-after", S, 70000, |n| format!("{}extend type T", "\n".repeat(n))),
        ("schema-duplicate-root", S, 70000, |n| format!("{}schema{{query:a query:b}}", "scalar A ".repeat(n))),
        // elements with everything an element can have, each with names of its own
        ("rich-fields", Q, 1100, |n| format!("{{{}}}", rep(n, |i| format!("x{0}:f{0}(a{0}:{0} b:\"s{0}\")@d{0}(if:$v{0})@e{{g{0} ...F{0}@i@j}} ", i)))),
        ("rich-variables", Q, 1100, |n| format!("query Q({}){{a}}", rep(n, |i| format!("$v{0}:[T{0}!]!=[{{k{0}:\"s{0}\" l:E{0}}}] ", i)))),
        ("rich-operations", Q, 1100, |n| rep(n, |i| format!("query Q{0}($v{0}:T{0}=E{0} $w:U)@d{0}@e(x:{0}){{a{0}(b:$v{0}) b}}\n", i))),
        ("rich-mutations", Q, 1100, |n| rep(n, |i| format!("mutation M{0}($v{0}:T{0}=E{0} $w:U)@d{0}@e(x:{0}){{a{0}(b:$v{0}) b}} subscription S{0}@x@y{{z{0}}}", i))),
        ("rich-fragments", Q, 1100, |n| rep(n, |i| format!("fragment F{0} on T{0}@d{0}@e(x:{0}){{a{0} ...F{0}}}", i))),
        ("rich-inlines", Q, 1100, |n| format!("{{{}}}", rep(n, |i| format!("...on T{0}@d{0}@e(x:{0}){{a{0} b{0}}} ", i)))),
        ("rich-spreads", Q, 1100, |n| format!("{{{}}}", rep(n, |i| format!("...F{0}@d{0}@e(x:{0}) ", i)))),
        ("rich-args", Q, 1100, |n| format!("{{a({})}}", rep(n, |i| format!("a{0}:[{{k{0}:$v{0} l:\"s{0}\"}} {0}.5 E{0}] ", i)))),
        ("rich-list", Q, 1100, |n| format!("{{a(b:[{}])}}", rep(n, |i| format!("{{k{0}:[\"s{0}\" E{0} {0}] l:$v{0}}} ", i)))),
        ("rich-types", S, 1100, |n| rep(n, |i| format!("\"d{0}\"type T{0} implements A{0}&B@d{0}@e(x:{0}){{\"e{0}\"f{0}(\"g{0}\"a{0}:T{0}=E{0}@h@i b:U):T{0}@j@k g:U}}\n", i))),
        ("rich-interfaces", S, 1100, |n| rep(n, |i| format!("\"d{0}\"interface T{0} implements A{0}&B@d{0}@e(x:{0}){{f{0}(a{0}:T{0} b:U):T{0}@j@k g:U}}\n", i))),
        ("rich-enums", S, 1100, |n| rep(n, |i| format!("\"d{0}\"enum E{0}@d{0}@e{{\"v{0}\"A{0}@f@g B}}", i))),
        ("rich-unions", S, 1100, |n| rep(n, |i| format!("\"d{0}\"union U{0}@d{0}@e=|A{0}|B", i))),
        ("rich-inputs", S, 1100, |n| rep(n, |i| format!("\"d{0}\"input I{0}@d{0}@e{{\"v{0}\"a{0}:T{0}=E{0}@f@g b:U=1}}", i))),
        ("rich-scalars", S, 1100, |n| rep(n, |i| format!("\"d{0}\"scalar S{0}@d{0}@e(x:{0}) ", i))),
        ("rich-extensions", S, 1100, |n| rep(n, |i| format!("extend type T{0} implements A{0}&B@d@e{{f{0}:T g:U}} extend enum E{0}@d@e{{A{0} B}} extend union U{0}@d@e=A{0}|B extend input I{0}@d@e{{a{0}:T b:U}} extend scalar S{0}@d@e extend interface J{0}@d@e{{f{0}:T g:U}}", i))),
        ("rich-directive-defs", S, 1100, |n| rep(n, |i| format!("\"d{0}\"directive@d{0}(\"a{0}\"a{0}:T{0}=E{0}@f@g b:U)repeatable on FIELD|ENUM ", i))),
        ("rich-type-fields", S, 1100, |n| format!("type T{{{}}}", rep(n, |i| format!("\"d{0}\"f{0}(\"g{0}\"a{0}:[T{0}]=E{0}@h@i b:U):[T{0}!]@j{0}@k(x:{0}) ", i)))),
        ("rich-interface-fields", S, 1100, |n| format!("interface T{{{}}}", rep(n, |i| format!("\"d{0}\"f{0}(a{0}:T{0} b:U):T{0}@j{0}@k(x:{0}) ", i)))),
        ("rich-field-args", S, 1100, |n| format!("type T{{f({}):T}}", rep(n, |i| format!("\"d{0}\"a{0}:[T{0}!]=[\"s{0}\" E{0}]@f{0}@g(x:{0}) ", i)))),
        ("rich-directive-args", S, 1100, |n| format!("directive@d({})on FIELD", rep(n, |i| format!("\"d{0}\"a{0}:[T{0}!]=[\"s{0}\" E{0}]@f{0}@g(x:{0}) ", i + 1)).chars().chain("z:Z".chars()).collect::<String>())),
        ("rich-enum-values", S, 1100, |n| format!("enum E{{{}}}", rep(n, |i| format!("\"d{0}\"A{0}@f{0}@g(x:{0}) ", i)))),
        ("rich-input-fields", S, 1100, |n| format!("input I{{{}}}", rep(n, |i| format!("\"d{0}\"a{0}:[T{0}!]=[\"s{0}\" E{0}]@f{0}@g(x:{0}) ", i)))),
        ("rich-extend-fields", S, 1100, |n| format!("extend type T{{{}}} extend enum E{{{}}} extend input I{{{}}}", rep(n, |i| format!("\"d{0}\"f{0}(a{0}:T{0} b:U):T{0}@j{0}@k(x:{0}) ", i)), rep(n, |i| format!("\"d{0}\"A{0}@f{0}@g(x:{0}) ", i)), rep(n, |i| format!("\"d{0}\"a{0}:T{0}=E{0}@f{0}@g(x:{0}) ", i)))),
        ("unknown-roots", S, 9000, |n| format!("schema{{{}}}", rep(n, |i| format!("q{}:A ", i)))),
        ("unknown-root-again", S, 70000, |n| format!("schema{{{}}}", "q:A ".repeat(n))),
        ("unknown-and-duplicate-roots", S, 9000, |n| format!("schema{{{}}}", rep(n, |i| format!("q{}:A query:B ", i)))),
        ("extensions-then-empty", S, 9000, |n| format!("{}extend type T", rep(n, |i| format!("extend type T{}@d ", i)))),
        ("schema-default-string", S, 70000, |n| format!("input T{{f:T=\"{}\"}}", "a\\n".repeat(n))),
    ]
}

pub fn by_size(d: &Dict, max: usize, lang: Option<Lang>, out: Sink) {
    for (_, l, m, f) in shapes() {
        if lang.map_or(false, |x| x != l) {
            continue;
        }
        for n in sizes(d, m.min(max)) {
            out(l, f(n));
        }
    }
}

/// what the few very large texts are of
const HUGE: [&str; 24] = [
    "fields", "args", "directives", "operations", "list", "object", "string", "string-escapes", "block", "block-lines",
    "field-name", "comment", "spaces", "newlines", "error-column", "types", "type-fields", "field-args", "enum-values",
    "union-members", "interfaces", "description", "description-lines", "schema-comments",
];

/// lengths to which small texts are filled up: where the code may turn to
/// another way of working
pub fn fillings(d: &Dict) -> Vec<usize> {
    let mut v = vec![300, 1_100, 5_000, 70_000, 131_073];
    v.extend(d.sizes.iter().filter(|s| **s >= 150).map(|s| s + 1).take(6));
    v.extend(d.big.iter().filter(|s| **s <= 2_000_000).map(|s| s + 1).take(3));
    v.sort();
    v.dedup();
    v
}

/// small texts with much before, after or within: every odd thing once more in
/// a large text
pub fn filled(d: &Dict, lang: Option<Lang>, every: usize, out: Sink) {
    for l in [Lang::Query, Lang::Schema] {
        if lang.map_or(false, |x| x != l) {
            continue;
        }
        let (seeds, def) = match l {
            Lang::Query => (&SEEDS_Q[..], "query A($b:[C]=1){d(e:$b)@f{g}}"),
            Lang::Schema => (&SEEDS_S[..], "type A{b(c:D=1@e):[F!]}"),
        };
        let mut small: Vec<String> = seeds.iter().map(|s| s.to_string()).collect();
        for tail in ["", "\n", " \r\n\t ", ",,", "#x", "#x\n", "\u{feff}", "%", "}", "\"", "é", "..", "\"\"\"x", "1.e", "0x"] {
            for s in [seeds[0], seeds[seeds.len() / 2], seeds[seeds.len() - 1]] {
                small.push(format!("{}{}", s, tail));
                small.push(format!("{}\n{}", tail.replace("#x", "#y\n"), s));
            }
        }
        let mut k = 0;
        edits(d, l, true, &mut |t| {
            k += 1;
            if k % 997 == 0 {
                small.push(t);
            }
        });
        for (i, s) in small.iter().enumerate() {
            for (j, n) in fillings(d).into_iter().enumerate() {
                // large ones more rarely
                if (i + j) % (every * if n > 10_000 { 4 } else { 1 }) != 0 {
                    continue;
                }
                let rep = |x: &str| x.repeat(n / x.len() + 1);
                let way = (i / every + 3 * j) % 9;
                let mid = (0..s.len()).find(|m| *m >= s.len() / 2 && matches!(s.as_bytes()[*m], b' ' | b'\n' | b'{' | b',')).map_or(0, |m| m + 1);
                let t = match way {
                    0 => format!("{}{}", rep(" "), s),
                    1 => format!("#{}\n{}", rep("é"), s),
                    2 => format!("{}{}", rep(&format!("{}\n", def)), s),
                    3 => format!("{}{}", s, rep(" \n")),
                    4 => format!("{} #{}", s, rep("x")),
                    5 => format!("{} {}", s, rep(&format!(" {}", def))),
                    6 => format!("{}{}{}", &s[..mid], rep("\n, "), &s[mid..]),
                    7 => format!("{} {} {}", s, rep(def), s),
                    _ => format!("{}#{}\r\n{}", &s[..mid], rep("\\\""), &s[mid..]),
                };
                out(l, t);
            }
        }
    }
}

/// texts with something odd at the ends of their lines, and long
pub fn filled_strings(d: &Dict, out: &mut dyn FnMut(&str)) {
    const ODD: [&str; 11] = ["", " ", "\t", "\n", "\r", "\\", "\"", "\u{1}", "é", "  ", "\"\"\""];
    for (j, n) in fillings(d).into_iter().enumerate() {
        let step = if n > 10_000 { 23 } else { 1 };
        let mut k = j;
        for a in ODD {
            for b in ODD {
                for c in ODD {
                    k += 1;
                    if k % step != 0 {
                        continue;
                    }
                    let x = ["x", "yz ", "x-\n  ", "é"][(k / step) % 4];
                    let pad = format!("{}x", x.repeat(n / x.len() + 1));
                    match k / step / 4 % 3 {
                        0 => out(&format!("{}{}{}\n{}b", a, pad, b, c)),
                        1 => out(&format!("{}a{}\n{}{}", a, b, c, pad)),
                        _ => out(&format!("{}a\n{}{}{}", a, b, pad, c)),
                    }
                }
            }
        }
        // every line indented
        for i in [" ", "\t", "  "] {
            out(&format!("{}{}\n{}{}", i, "x".repeat(n), i, "y".repeat(n)));
            out(&format!("{}{}", i, "xy\n".repeat(n / 3)).replace('\n', &format!("\n{}", i)));
            out(format!("{}{}", i, "xy\n".repeat(n / 3)).replace('\n', &format!("\n{}", i)).trim_end());
        }
    }
}

/// a few texts beyond a million tokens, characters or lines
pub fn huge(d: &Dict, lang: Option<Lang>, out: Sink) {
    let mut ns: Vec<usize> = vec![131_073, 1_048_578];
    // the limits the code itself names, at most a few
    ns.extend(d.big.iter().filter(|b| **b != 0x10FFFF).take(6).map(|b| b + 1));
    for (k, l, _, f) in shapes() {
        if HUGE.contains(&k) && lang.map_or(true, |x| x == l) {
            // a tree is a hundred times its text: at most so many nodes
            let bytes = f(7).len() - f(6).len();
            let most = if bytes <= 2 { usize::MAX } else { 262_150 };
            let mut ns: Vec<usize> = ns.iter().map(|n| *n.min(&most)).collect();
            ns.dedup();
            for n in ns {
                out(l, f(n));
            }
        }
    }
}

/// where a literal can stand; `%` marks the place
pub const LIT_Q: [&str; 8] = [
    "{a(b:% )}",
    "{a(b:[% % ])c}",
    "query($v:T=% ){a}",
    "{a @d(x:% )}",
    "{a(b:{k:% l:1})}",
    "subscription S($v:T=[{k:% }] $w:U){...on T @d(x:[% ]){b}}",
    "fragment F on T @d(x:{y:% }){a{b(c:% ){d}}}",
    "mutation M @d(a:% ){...F @e(b:% )}",
];
pub const LIT_S: [&str; 10] = [
    "input T{f:T=% }",
    "type T{f(a:T=% b:U):T}",
    "scalar T @d(x:% )",
    "enum E{A @d(x:[% ])B}",
    "directive@d(a:T=% )on FIELD",
    "schema @d(x:{y:% }){query:Q}",
    "extend union U @d(x:% )=A",
    "interface I{f:T @d(x:% )}",
    "input T{f:T=[{k:% }]@d}",
    "extend enum E @d(a:% )",
];
/// where a description can stand
pub const DOC_S: [&str; 14] = [
    "% scalar T",
    "% type T{a:b}",
    "% interface T{a:b}",
    "% union T=A",
    "% enum T{A}",
    "% input T{a:b}",
    "% directive@d on FIELD",
    "type T{% a:b c:d}",
    "type T{x:y % a(% b:c % d:e):f}",
    "enum T{% A % B}",
    "input T{% a:b % c:d=1}",
    "directive@d(% a:T)on FIELD",
    "extend interface T{% a(% b:c):d}",
    "scalar A % type B{% c:d}% enum E{% F}",
];

pub fn put(tpl: &str, lit: &str) -> String {
    tpl.replace('%', lit)
}

pub fn chars(d: &Dict, all: bool) -> Vec<char> {
    let mut v: Vec<char> = Vec::new();
    let top = if all { 0x110000 } else { 0x3100 };
    let mut c = 0u32;
    while c < top {
        if let Some(x) = char::from_u32(c) {
            v.push(x);
        }
        c += if all && c > 0x3100 { 17 } else { 1 };
    }
    for c in [
        0xd7ff, 0xe000, 0xfdd0, 0xfe00, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x2fa1d,
        0xe0001, 0x10ffff,
    ] {
        v.extend(char::from_u32(c));
    }
    v.extend(d.chars.iter().copied());
    v
}

/// literals of every kind, exhaustively over small alphabets
pub fn literals(d: &Dict, deep: bool, out: &mut dyn FnMut(String)) {
    // numbers
    let alpha: &[char] = &['0', '1', '9', '-', '+', '.', 'e', 'E'];
    let len = if deep { 6 } else { 5 };
    strings_over(alpha, len, &mut |s| {
        if s.starts_with(|c: char| c == '-' || c.is_ascii_digit()) {
            out(s.to_string());
        }
    });
    for c in "0123456789".chars() {
        for f in ["1e@", "1e@0", "1e-@", "1e+@7", "1.@", "@.5", "-@", "@0", "1.5e@", "-@.@e-@", "@@", "1@.1", "1e1@"] {
            out(f.replace('@', &c.to_string()));
        }
    }
    for p in 0..64u32 {
        let v = 1i128 << p;
        for v in [v - 1, v, v + 1, -v, -v - 1, -v + 1] {
            out(v.to_string());
        }
    }
    let mut p = 1i128;
    for _ in 0..24 {
        for v in [p - 1, p, p + 1] {
            out(v.to_string());
            out((-v).to_string());
        }
        p *= 10;
    }
    for e in -345..=330 {
        if e < 0 {
            out(format!("1e{}", e));
            out(format!("9.87654321e{}", e));
        } else {
            out(format!("1e+{}", e));
            out(format!("-1.5E+{}", e));
            if e > 0 {
                out(format!("7e{}", e));
            }
        }
    }
    for w in ["true", "false", "null", "TRUE", "False", "Null", "nan", "inf", "Infinity", "NaN", "on", "True", "nul", "nulll", "_", "__a", "$a", "$true", "[]", "{}", "[[]]", "[1 2]", "{a:1 a:2}", "{b:1 a:2}", "{true:null}"] {
        out(w.to_string());
    }
    // every character, raw and escaped, in a quoted and in a block string
    for c in chars(d, deep) {
        out(format!("\"a{}b\"", c));
        out(format!("\"\"\"a{}b\"\"\"", c));
        out(format!("\"\"\"\n {}b\n  c\"\"\"", c));
        out(format!("\"\\{}\"", c));
        if (c as u32) < 0x3000 {
            out(format!("\"\"\"\\{}\"\"\"", c));
            out(format!("\"\\u00{}1\"", c));
            out(format!("\"\\u{}041\"", c));
            out(format!("\"\\u004{}\"", c));
        }
    }
    let step = if deep { 1 } else { 7 };
    for u in (0..0x10000).step_by(step) {
        out(format!("\"\\u{:04X}\"", u));
        out(format!("\"\\u{:04x}\"", u));
    }
    for u in 0..0x500 {
        out(format!("\"\\u{:04x}\"", u));
    }
    for u in 0xd7f0..0xe010 {
        out(format!("\"\\u{:04x}\"", u));
    }
    for s in ["\\u", "\\u0", "\\u00", "\\u004", "\\u004g", "\\u+041", "\\u-041", "\\u 041", "\\u{41}", "\\u{0041}", "\\U00000041", "\\ud83d\\ude00", "\\uD83D", "\\x41", "\\101", "\\", "\\\\\\", "\\\""] {
        out(format!("\"{}\"", s));
        out(format!("\"x{}y\"", s));
    }
    // quoted strings over the characters that matter to them
    strings_over(&['a', '\\', '"', 'n', 'u', '0', '\n', '/'], if deep { 6 } else { 4 }, &mut |s| {
        out(format!("\"{}\"", s))
    });
    // escapes, whole and cut, next to each other and to long characters
    strings_over(&["\\ud83d", "\\uDE00", "\\u", "1", "\u{e9}", "\u{1f600}", "\\n", "\\q"], if deep { 6 } else { 5 }, &mut |s| {
        out(format!("\"{}\"", s))
    });
    strings_over(&["\\\"\"\"", "\\", "\"", "\u{e9}", "\u{1f600}", "\n", "  "], if deep { 6 } else { 5 }, &mut |s| {
        out(format!("\"\"\"{}\"\"\"", s))
    });
    // block strings over the characters that matter to them
    strings_over(&[' ', '\t', 'a', '\n', '"', '\\'], if deep { 8 } else { 6 }, &mut |s| {
        out(format!("\"\"\"{}\"\"\"", s))
    });
    strings_over(&[' ', 'a', '\n'], if deep { 12 } else { 9 }, &mut |s| {
        out(format!("\"\"\"{}\"\"\"", s))
    });
    strings_over(&[' ', 'a', '\r', '\n'], if deep { 8 } else { 5 }, &mut |s| {
        out(format!("\"\"\"{}\"\"\"", s))
    });
    strings_over(&["\\\"\"\"", "a", "\n", " ", "\\", "\""], if deep { 6 } else { 5 }, &mut |s| {
        out(format!("\"\"\"{}\"\"\"", s))
    });
    strings_over(&["\u{a0}", " ", "a", "\n", "\u{3000}", "\u{85}"], if deep { 6 } else { 5 }, &mut |s| {
        out(format!("\"\"\"{}\"\"\"", s))
    });
}

pub fn strings_over<T: std::fmt::Display>(alpha: &[T], max: usize, out: &mut dyn FnMut(&str)) {
    fn go<T: std::fmt::Display>(a: &[T], left: usize, s: &mut String, out: &mut dyn FnMut(&str)) {
        out(s);
        if left == 0 {
            return;
        }
        for x in a {
            let n = s.len();
            use std::fmt::Write;
            write!(s, "{}", x).unwrap();
            go(a, left - 1, s, out);
            s.truncate(n);
        }
    }
    go(alpha, max, &mut String::new(), out);
}

/// Texts of one to five plain lines with every pair of features people or
/// programs put into texts, at the places that matter
pub fn pairs_of_features(out: &mut dyn FnMut(&str)) {
    const PIECES: [&str; 16] = [
        "\\", "\"", "\"\"", "\"\"\"", "\\\"\"\"", " ", "\t", "\r", "\u{1}", "\u{7f}", "é", "\u{feff}", "\u{2028}", "\u{a0}",
        "#", "\u{1f600}",
    ];
    // a piece at the start, inside or end of a line; a blank line; a line of
    // white space; an indent from a line on
    #[derive(Clone, Copy)]
    enum F {
        Piece(&'static str, usize, usize),
        Line(&'static str, usize),
        Indent(&'static str, usize),
    }
    let mut fs = Vec::new();
    for line in 0..3 {
        for p in PIECES {
            for at in 0..3 {
                fs.push(F::Piece(p, line, at));
            }
        }
        for l in ["", " ", "\t", "  "] {
            fs.push(F::Line(l, line));
        }
        for i in [" ", "\t", "    "] {
            fs.push(F::Indent(i, line));
        }
    }
    let apply = |v: &mut Vec<String>, f: F| {
        let n = v.len();
        let which = |k: usize| [0, n / 2, n - 1][k];
        match f {
            F::Piece(p, l, at) => {
                let s = &mut v[which(l)];
                let c = s.char_indices().map(|c| c.0).nth(1).unwrap_or(s.len());
                let i = [0, c, s.len()][at];
                s.insert_str(i, p);
            }
            F::Line(x, l) => v[which(l)] = x.to_string(),
            F::Indent(x, l) => v[which(l)..].iter_mut().for_each(|s| s.insert_str(0, x)),
        }
    };
    for n in [1usize, 2, 3, 5] {
        for (i, a) in fs.iter().enumerate() {
            for b in &fs[i..] {
                let mut v: Vec<String> = ["ab", "c d", "ef", "g", "hi"][..n].iter().map(|s| s.to_string()).collect();
                apply(&mut v, *a);
                apply(&mut v, *b);
                out(&v.join("\n"));
            }
        }
    }
}

pub const SEEDS_Q: [&str; 22] = [
    "{a}",
    "{a:b c}",
    "{a(b:1 c:$d)}",
    "{a(b:[1 \"x\" E true null 1.5]c:{d:{e:$f}})@g{h}}",
    "query{a}",
    "query Q{a}",
    "query Q($a:T $b:[T!]!=[1]$c:U={d:2})@e(f:$a){g}",
    "query($a:T){a}",
    "query($a:T)@d{a}",
    "query @d{a}",
    "mutation M($a:Int=1)@d{a{b}}",
    "mutation{a}",
    "mutation($a:T!){a}",
    "subscription S($a:[Int]=[1])@d{a}",
    "subscription{a}",
    "subscription($a:T $b:T){a}",
    "fragment F on T{a}",
    "fragment F on T@d(a:1)@e{...F@g ...on T@h{a}...@i{b}...{c}}",
    "{...on T{a}...F...{b}}",
    "{a}query B{c}fragment D on E{f}mutation{g}subscription{h}{i}",
    "{query mutation subscription fragment on true false null type(type:type)}",
    "query query($query:query=query)@query(query:$query){query:query ...query}",
];
pub const SEEDS_S: [&str; 40] = [
    "schema{query:Q}",
    "schema@d{query:Q mutation:M subscription:S}",
    "schema{}",
    "scalar S",
    "\"d\"scalar S@a(b:1)@c",
    "extend scalar S@d",
    "type T",
    "type T{a:b}",
    "\"\"\"d\"\"\"type T implements A&B@d(a:1){\"x\"f(\"y\"a:[T!]!={b:[1]}@d c:U):V@e g:W}",
    "type T implements A",
    "type T implements&A@d",
    "extend type T implements A",
    "extend type T@d",
    "extend type T{a:b}",
    "extend type T implements A@d{a:b}",
    "interface I",
    "interface I{a:b}",
    "\"d\"interface I implements A&B@d{a(b:c):d@e}",
    "extend interface I@d{a:b}",
    "extend interface I implements J",
    "union U",
    "union U=A",
    "\"d\"union U@d=|A|B|C",
    "extend union U=A|B",
    "extend union U@d",
    "enum E",
    "enum E{A}",
    "\"d\"enum E@d{\"x\"A@e B C}",
    "extend enum E@d{A}",
    "extend enum E{A B}",
    "input I",
    "input I{a:b}",
    "\"d\"input I@d{\"x\"a:[T]=[1]@d b:U!=null}",
    "extend input I@d",
    "extend input I{a:b=1}",
    "directive@d on FIELD",
    "\"d\"directive@d(\"x\"a:T=1@e b:U)repeatable on|FIELD|QUERY",
    "directive@d on FIELD|ENUM_VALUE \"x\"scalar S",
    "type type implements implements&type{type(type:type=type):type}enum enum{enum}",
    "scalar A scalar B type C{d:e}extend type C@f schema{query:C}",
];

const EDIT: [&str; 34] = [
    "{", "}", "(", ")", "[", "]", ":", "=", "@", "|", "&", "!", "$", "...", "\"\"", "\"\"\"b\"\"\"", "1", "1.5",
    "9223372036854775808", "\"\\q\"", "a", "on", "query", "fragment", "type", "extend", "schema", "true", "null",
    "implements", "directive", "repeatable", "FIELD", "%",
];

/// every one-token edit of the seeds
pub fn edits(d: &Dict, lang: Lang, big: bool, out: &mut dyn FnMut(String)) {
    let join = |t: &[String]| {
        let mut s = String::new();
        for (i, x) in t.iter().enumerate() {
            if i > 0 && gen::needs_sep(&t[i - 1], x) {
                s.push(' ');
            }
            s.push_str(x);
        }
        s
    };
    let mut seeds: Vec<String> = match lang {
        Q => SEEDS_Q.iter().map(|s| s.to_string()).collect(),
        S => SEEDS_S.iter().map(|s| s.to_string()).collect(),
    };
    let docs = if lang == Q { &d.query_docs } else { &d.schema_docs };
    for t in docs {
        out(t.clone());
        if t.len() < if big { 1500 } else { 250 } {
            seeds.push(t.clone());
        }
    }
    for s in &seeds {
        let t = gen::tokens(s);
        out(join(&t));
        for i in 0..=t.len() {
            let mut v = t.clone();
            v.truncate(i);
            out(join(&v));
            for e in EDIT {
                let mut v = t.clone();
                v.insert(i, e.to_string());
                out(join(&v));
                if i < t.len() {
                    let mut v = t.clone();
                    v[i] = e.to_string();
                    out(join(&v));
                }
            }
            if i < t.len() {
                let mut v = t.clone();
                v.remove(i);
                out(join(&v));
                let mut v = t.clone();
                v.insert(i, t[i].clone());
                out(join(&v));
                if i + 1 < t.len() {
                    let mut v = t.clone();
                    v.swap(i, i + 1);
                    out(join(&v));
                }
            }
        }
    }
}

/// all short token sequences
pub fn short_sequences(lang: Lang, deep: bool, out: &mut dyn FnMut(String)) {
    let q = ["{", "}", "(", ")", ":", "@", "$", "...", "a", "on", "query", "fragment", "1", "="];
    let s = ["{", "}", ":", "@", "=", "|", "&", "a", "type", "extend", "union", "\"d\"", "implements", "schema"];
    let s2 = ["directive", "@", "a", "on", "|", "FIELD", "repeatable", "\"d\"", "enum", "{", "}", "scalar", "input", "interface"];
    let n = if deep { 5 } else { 4 };
    let mut run = |a: &[&str]| {
        let v: Vec<String> = a.iter().map(|x| format!("{} ", x)).collect();
        strings_over(&v, n, &mut |s| out(s.to_string()));
    };
    match lang {
        Q => run(&q),
        S => {
            run(&s);
            run(&s2);
        }
    }
}

/// every character at the places where ignored text, tokens and comments stand
pub fn char_contexts(d: &Dict, lang: Lang, deep: bool, out: &mut dyn FnMut(String)) {
    let tpl: &[&str] = match lang {
        Q => &["{a@b}", "@{a}", "{a}@", "{a(b:1@)}", "{a #@\nb}", "{a(b:\"@\")c}", "{a(b:\"\"\"@\"\"\")c}", "{@}", "{a@}", "{a..@b}"],
        S => &["type T{a:b@c:d}", "@scalar A", "scalar A@", "\"@\"scalar A", "#@\nscalar A", "\"\"\"x\n @\n y\"\"\"scalar A", "scalar A@d"],
    };
    for c in chars(d, deep) {
        for t in tpl {
            out(t.replace('@', &c.to_string()));
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn rich_shapes_are_documents() {
        for (k, l, _, f) in shapes() {
            if k.starts_with("rich-") {
                let t = f(7);
                let e = match l {
                    Q => graphql_parser::parse_query::<&str>(&t).err().map(|e| e.to_string()),
                    S => graphql_parser::parse_schema::<&str>(&t).err().map(|e| e.to_string()),
                };
                assert!(e.is_none(), "{} {} {:?}", k, t, e);
            }
        }
    }
}
