//! The content of an AST as a linear trace of events. The reference parser
//! and the observer of the library's AST write the same vocabulary, so an
//! oracle is a comparison of two traces.
#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    /// a node opens
    N(&'static str),
    /// the innermost node closes
    E,
    /// position of the innermost node (line, column)
    P(usize, usize),
    /// a named text attribute
    S(&'static str, String),
    /// a flag
    B(&'static str, bool),
    /// a description
    Doc(String),
    // values
    Var(String),
    Int(i64),
    Float(u64),
    Str(String),
    Bool(bool),
    Null,
    Enum(String),
    List,
    Obj,
    Key(String),
    /// closes a list or an object
    End,
}

pub type Trace = Vec<Ev>;

pub fn strip(t: &[Ev]) -> Trace {
    t.iter().filter(|e| !matches!(e, Ev::P(..))).cloned().collect()
}
pub fn positions(t: &[Ev]) -> Vec<(usize, usize)> {
    t.iter()
        .filter_map(|e| match e {
            Ev::P(l, c) => Some((*l, *c)),
            _ => None,
        })
        .collect()
}
/// only the values and descriptions
pub fn literals(t: &[Ev]) -> Trace {
    t.iter()
        .filter(|e| !matches!(e, Ev::P(..) | Ev::N(_) | Ev::E | Ev::S(..) | Ev::B(..)))
        .cloned()
        .collect()
}

fn same_number(a: &Ev, b: &Ev) -> bool {
    let f = |x: &Ev, y: &Ev| match (x, y) {
        (Ev::Float(x), Ev::Int(i)) => {
            let x = f64::from_bits(*x);
            x == x.trunc() && x.abs() < 9.3e18 && x as i128 == *i as i128
        }
        _ => false,
    };
    f(a, b) || f(b, a)
}

/// First difference of two traces, both without positions
pub fn diff(a: &[Ev], b: &[Ev], relax_floats: bool) -> Option<String> {
    let n = a.len().max(b.len());
    for i in 0..n {
        let (x, y) = (a.get(i), b.get(i));
        if x == y {
            continue;
        }
        if relax_floats {
            if let (Some(x), Some(y)) = (x, y) {
                if same_number(x, y) {
                    continue;
                }
            }
        }
        let around: Vec<String> = a[i.saturating_sub(6).min(a.len())..i.min(a.len())]
            .iter()
            .map(|e| short(&format!("{:?}", e)))
            .collect();
        return Some(format!(
            "after [{}] expected {} got {}",
            around.join(" "),
            x.map_or("the end".into(), |e| short(&format!("{:?}", e))),
            y.map_or("the end".into(), |e| short(&format!("{:?}", e))),
        ));
    }
    None
}

pub fn short(s: &str) -> String {
    if s.chars().count() <= 160 {
        return s.to_string();
    }
    let head: String = s.chars().take(100).collect();
    let tail: String = s.chars().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{}…{}", head, tail)
}
