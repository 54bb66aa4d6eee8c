//! Character tables of core on a symbolic character.
//!
//! The lookup functions of core search compressed tables; on a symbolic character that is a path per
//! table entry.  They are replaced by what they compute: membership in a list of ranges, taken from
//! the same functions of this program's own core (same toolchain).
use crate::expr::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Table {
    Alphabetic,
    Numeric,
    Lowercase,
    Uppercase,
    Whitespace,
    Grapheme,
    Assigned,
    Never,
}
const N: usize = 8;

fn raw(s: String, c: char) -> bool {
    s.chars().last() == Some(c) && !s.contains("\\u")
}
fn holds(t: Table, c: char) -> bool {
    match t {
        Table::Alphabetic => c.is_alphabetic(),
        Table::Numeric => c.is_numeric(),
        Table::Lowercase => c.is_lowercase(),
        Table::Uppercase => c.is_uppercase(),
        Table::Whitespace => c.is_whitespace(),
        // what escape_debug computes from its tables, apart from the controls, private use and
        // whitespace which it treats before looking them up
        Table::Grapheme => raw(format!("a{}", c).escape_debug().collect(), c) && !raw(c.escape_debug().collect(), c),
        Table::Assigned => raw(format!("a{}", c).escape_debug().collect(), c),
        Table::Never => false,
    }
}
pub fn table(pretty: &str) -> Option<Table> {
    if pretty == "<char>::is_assigned" {
        return Some(Table::Assigned);
    }
    let t = pretty.strip_prefix("core::unicode::unicode_data::")?;
    let (t, f) = t.split_once("::")?;
    if f != "lookup" && f != "lookup_slow" {
        return None;
    }
    match t {
        "alphabetic" => Some(Table::Alphabetic),
        "n" => Some(Table::Numeric),
        "lowercase" => Some(Table::Lowercase),
        "uppercase" => Some(Table::Uppercase),
        "white_space" => Some(Table::Whitespace),
        "grapheme_extend" => Some(Table::Grapheme),
        "default_ignorable_code_point" | "cf" => Some(Table::Never),
        _ => None,
    }
}
fn ranges(t: Table) -> &'static Vec<(u32, u32)> {
    static R: [OnceLock<Vec<(u32, u32)>>; N] = [const { OnceLock::new() }; N];
    R[t as usize].get_or_init(|| {
        let mut v: Vec<(u32, u32)> = vec![];
        for i in 0..0x110000u32 {
            if char::from_u32(i).map_or(false, |c| holds(t, c)) {
                match v.last_mut() {
                    Some(l) if l.1 + 1 == i => l.1 = i,
                    _ => v.push((i, i)),
                }
            }
        }
        v
    })
}
/// bounds of the value, from its structure
fn bounds(c: &Ctx, e: E) -> (u128, u128) {
    let n = c.nodes[e as usize];
    match n.op {
        Op::Const => (n.k, n.k),
        Op::Concat => {
            let (a, b) = (bounds(c, n.a), bounds(c, n.b));
            let w = c.w(n.b);
            (a.0 << w | b.0, a.1 << w | b.1)
        }
        Op::ZExt => bounds(c, n.a),
        _ => (0, mask(n.w as u32)),
    }
}
pub fn lookup(c: &mut Ctx, t: Table, x: E) -> E {
    let w = c.w(x);
    let (lo, hi) = bounds(c, x);
    let mut parts = vec![];
    for &(a, b) in ranges(t) {
        let (a, b) = (a as u128, b as u128);
        if b < lo || a > hi {
            continue;
        }
        if a <= lo && b >= hi {
            return Ctx::TRUE;
        }
        let r = if a == b {
            let k = c.konst(a, w);
            c.eq(x, k)
        } else {
            let ka = c.konst(a, w);
            let below = c.ult(x, ka);
            let kb = c.konst(b, w);
            let above = c.ult(kb, x);
            let out = c.or(below, above);
            c.not(out)
        };
        parts.push(r);
    }
    while parts.len() > 1 {
        let mut next = vec![];
        for p in parts.chunks(2) {
            next.push(if p.len() == 2 { c.or(p[0], p[1]) } else { p[0] });
        }
        parts = next;
    }
    parts.pop().unwrap_or(Ctx::FALSE)
}
