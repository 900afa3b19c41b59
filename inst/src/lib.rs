//! The library's operations without type parameters, so that a build which
//! instruments this crate and the library alone covers all of the code under
//! test and none of the oracles.
use graphql_parser::{minify_query, parse_query, parse_schema, query, Style};

pub const MINIFY: u32 = 1;
pub const CONSUME: u32 = 2;
pub const PRINT: u32 = 4;
pub const DETACH: u32 = 8;
pub const COMPARE: u32 = 16;

/// what an operation ended with, for feedback
fn shape(s: &str) -> u64 {
    // the lines of a message without positions and tokens
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut quoted = false;
    for b in s.bytes() {
        match b {
            b'`' => quoted = !quoted,
            b'0'..=b'9' => {}
            _ if quoted => {}
            _ => h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3),
        }
    }
    h
}

#[inline(never)]
pub fn run(schema: bool, text: &str, ops: u32, width: u32, multi: bool) -> u64 {
    let mut style = Style::default();
    style.indent(width).multiline_arguments(multi);
    let mut out = 0;
    if schema {
        match parse_schema::<String>(text) {
            Ok(d) => {
                if ops & PRINT != 0 {
                    std::hint::black_box(d.format(&style));
                    std::hint::black_box(d.to_string());
                }
                if ops & COMPARE != 0 {
                    std::hint::black_box(d.clone() == d);
                }
                if ops & DETACH != 0 {
                    std::hint::black_box(d.into_static());
                }
            }
            Err(e) => out = shape(&e.to_string()),
        }
    } else {
        match parse_query::<String>(text) {
            Ok(d) => {
                if ops & PRINT != 0 {
                    std::hint::black_box(d.format(&style));
                    std::hint::black_box(d.to_string());
                }
                if ops & COMPARE != 0 {
                    std::hint::black_box(d.clone() == d);
                }
                if ops & DETACH != 0 {
                    std::hint::black_box(d.into_static());
                }
            }
            Err(e) => out = shape(&e.to_string()),
        }
    }
    if ops & MINIFY != 0 {
        if let Err(e) = minify_query(text.to_string()) {
            out ^= shape(&e.to_string());
        }
    }
    if ops & CONSUME != 0 {
        match query::consume_definition::<String>(text) {
            Ok((d, rest)) => {
                std::hint::black_box((d, rest));
            }
            Err(e) => out ^= shape(&e.to_string()).rotate_left(7),
        }
    }
    out
}

pub fn accepts(schema: bool, text: &str) -> bool {
    if schema {
        parse_schema::<&str>(text).is_ok()
    } else {
        parse_query::<&str>(text).is_ok()
    }
}
