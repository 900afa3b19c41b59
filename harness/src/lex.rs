//! Reference lexer: an independent statement of the token rules.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K {
    Punct,
    Name,
    Int,
    Float,
    Str,
    Block,
    /// text that is no token
    Bad,
    Eof,
}

#[derive(Debug, Clone, Copy)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
    pub line: usize,
    pub col: usize,
}

#[derive(Debug, Clone)]
pub struct Lexed<'a> {
    pub src: &'a str,
    /// ends with one Eof or one Bad token
    pub toks: Vec<Tok>,
    /// a CR that is not followed by LF occurs somewhere
    pub lone_cr: bool,
    /// the text ends inside a comment
    pub open_comment: bool,
}

impl<'a> Lexed<'a> {
    pub fn text(&self, i: usize) -> &'a str {
        let t = &self.toks[i];
        &self.src[t.start..t.end]
    }
    pub fn ok(&self) -> bool {
        self.toks.last().unwrap().k == K::Eof
    }
    /// number of real tokens
    pub fn n(&self) -> usize {
        self.toks.len() - 1
    }
}

fn digits(b: &[u8]) -> bool {
    !b.is_empty() && b.iter().all(|c| c.is_ascii_digit())
}

/// -?(0|[1-9][0-9]*)
pub fn is_int(s: &str) -> bool {
    let b = s.as_bytes();
    let b = if b.first() == Some(&b'-') { &b[1..] } else { b };
    digits(b) && (b.len() == 1 || b[0] != b'0')
}

/// integer part, then a fraction, an exponent or both; an unsigned exponent
/// does not start with 0
pub fn is_float(s: &str) -> bool {
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let (int, frac) = match mant.find('.') {
        Some(i) => (&mant[..i], Some(&mant[i + 1..])),
        None => (mant, None),
    };
    if frac.is_none() && exp.is_none() {
        return false;
    }
    if !is_int(int) {
        return false;
    }
    if let Some(f) = frac {
        if !digits(f.as_bytes()) {
            return false;
        }
    }
    if let Some(e) = exp {
        let b = e.as_bytes();
        match b.first() {
            Some(b'+') | Some(b'-') => {
                if !digits(&b[1..]) {
                    return false;
                }
            }
            Some(b'0') | None => return false,
            _ => {
                if !digits(b) {
                    return false;
                }
            }
        }
    }
    true
}

pub fn lex(src: &str) -> Lexed<'_> {
    let b = src.as_bytes();
    let n = b.len();
    let mut toks = Vec::new();
    let (mut i, mut line, mut col) = (0usize, 1usize, 1usize);
    let mut open_comment = false;
    let mut lone_cr = false;
    for (j, &c) in b.iter().enumerate() {
        if c == b'\r' && b.get(j + 1) != Some(&b'\n') {
            lone_cr = true;
            break;
        }
    }
    loop {
        // ignored text
        loop {
            if i >= n {
                break;
            }
            match b[i] {
                b' ' | b',' => {
                    i += 1;
                    col += 1;
                }
                b'\t' => {
                    i += 1;
                    col += 8;
                }
                b'\r' => i += 1,
                b'\n' => {
                    i += 1;
                    line += 1;
                    col = 1;
                }
                0xEF if b[i..].starts_with(b"\xEF\xBB\xBF") => i += 3,
                b'#' => {
                    open_comment = true;
                    while i < n {
                        let c = b[i];
                        let crlf = c == b'\r' && b.get(i + 1) == Some(&b'\n');
                        i += 1;
                        if c == b'\n' || (c == b'\r' && !crlf) {
                            open_comment = false;
                            line += 1;
                            col = 1;
                            break;
                        }
                    }
                }
                _ => break,
            }
        }
        let start = i;
        let mut push = |k: K, end: usize| {
            toks.push(Tok {
                k,
                start,
                end,
                line,
                col,
            })
        };
        if i >= n {
            push(K::Eof, n);
            break;
        }
        let c = b[i];
        match c {
            b'!' | b'$' | b'&' | b'(' | b')' | b':' | b'=' | b'@' | b'[' | b']' | b'{' | b'|'
            | b'}' => {
                i += 1;
                push(K::Punct, i);
                col += 1;
            }
            b'.' => {
                if b[i..].starts_with(b"...") {
                    i += 3;
                    push(K::Punct, i);
                    col += 3;
                } else {
                    push(K::Bad, n);
                    break;
                }
            }
            b'_' | b'a'..=b'z' | b'A'..=b'Z' => {
                while i < n && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                    i += 1;
                }
                push(K::Name, i);
                col += i - start;
            }
            b'-' | b'0'..=b'9' => {
                // a number runs to the next delimiter
                i += 1;
                while i < n {
                    let d = b[i];
                    let delim = matches!(
                        d,
                        b' ' | b'\n'
                            | b'\r'
                            | b'\t'
                            | b','
                            | b'#'
                            | b'!'
                            | b'$'
                            | b':'
                            | b'='
                            | b'@'
                            | b'|'
                            | b'&'
                            | b'('
                            | b')'
                            | b'['
                            | b']'
                            | b'{'
                            | b'}'
                            | b'"'
                    ) || b[i..].starts_with(b"\xEF\xBB\xBF");
                    if delim {
                        break;
                    }
                    i += 1;
                }
                let s = &src[start..i];
                if is_int(s) {
                    push(K::Int, i);
                } else if is_float(s) {
                    push(K::Float, i);
                } else {
                    push(K::Bad, i);
                    break;
                }
                col += i - start;
            }
            b'"' if b[i..].starts_with(b"\"\"\"") => {
                let mut j = i + 3;
                let mut end = None;
                while j < n {
                    if b[j] == b'\\' && b[j + 1..].starts_with(b"\"\"\"") {
                        j += 4;
                    } else if b[j..].starts_with(b"\"\"\"") {
                        end = Some(j + 3);
                        break;
                    } else {
                        j += 1;
                    }
                }
                match end {
                    None => {
                        push(K::Bad, n);
                        break;
                    }
                    Some(e) => {
                        push(K::Block, e);
                        for ch in src[start..e].chars() {
                            if ch == '\n' {
                                line += 1;
                                col = 1;
                            } else {
                                col += 1;
                            }
                        }
                        i = e;
                    }
                }
            }
            b'"' => {
                let mut j = i + 1;
                let mut end = None;
                while j < n {
                    match b[j] {
                        b'\n' => break,
                        b'\\' => {
                            if b.get(j + 1) == Some(&b'\n') {
                                break;
                            }
                            j += 2
                        }
                        b'"' => {
                            end = Some(j + 1);
                            break;
                        }
                        _ => j += 1,
                    }
                }
                match end {
                    None => {
                        push(K::Bad, n);
                        break;
                    }
                    Some(e) => {
                        push(K::Str, e);
                        col += src[start..e].chars().count();
                        i = e;
                    }
                }
            }
            _ => {
                push(K::Bad, n);
                break;
            }
        }
    }
    Lexed {
        src,
        toks,
        lone_cr,
        open_comment,
    }
}

/// Decodes a quoted string token
pub fn unquote(tok: &str) -> Result<String, ()> {
    let body: Vec<char> = tok[1..tok.len() - 1].chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < body.len() {
        if body[i] != '\\' {
            out.push(body[i]);
            i += 1;
            continue;
        }
        let e = *body.get(i + 1).ok_or(())?;
        i += 2;
        out.push(match e {
            '"' => '"',
            '\\' => '\\',
            '/' => '/',
            'b' => '\x08',
            'f' => '\x0c',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'u' => {
                let mut v = 0;
                for k in 0..4 {
                    let d = body.get(i + k).ok_or(())?;
                    v = v * 16 + d.to_digit(16).ok_or(())?;
                }
                i += 4;
                char::from_u32(v).ok_or(())?
            }
            _ => return Err(()),
        });
    }
    Ok(out)
}

/// Decodes a block string token (BlockStringValue of the specification; a CR
/// without LF is an ordinary character)
pub fn unblock(tok: &str) -> String {
    let body = &tok[3..tok.len() - 3];
    let mut lines: Vec<&str> = body.split('\n').collect();
    let last = lines.len() - 1;
    for (i, l) in lines.iter_mut().enumerate() {
        // the CR of a CRLF belongs to the line end
        if i != last && l.ends_with('\r') {
            *l = &l[..l.len() - 1];
        }
    }
    let ws = |c: char| c == ' ' || c == '\t';
    let indent = |l: &str| l.chars().take_while(|&c| ws(c)).count();
    let blank = |l: &str| l.chars().all(ws);
    let mut common: Option<usize> = None;
    for l in lines.iter().skip(1) {
        if !blank(l) {
            let k = indent(l);
            common = Some(common.map_or(k, |c| c.min(k)));
        }
    }
    if let Some(c) = common {
        for l in lines.iter_mut().skip(1) {
            *l = if l.len() < c { "" } else { &l[c..] };
        }
    }
    let from = lines.iter().position(|l| !blank(l)).unwrap_or(lines.len());
    let to = lines.iter().rposition(|l| !blank(l)).map_or(from, |i| i + 1);
    lines[from..to].join("\n").replace("\\\"\"\"", "\"\"\"")
}
