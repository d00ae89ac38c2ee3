//! Positions of errors: C19.

use crate::looks::line_col;
use super::*;
use crate::engine::*;
use crate::lexref::Flavor;
use crate::tomlref;

/// Text offset, in characters, of a line and column.
fn offset_of(cs: &[char], line: usize, col: usize) -> Option<usize> {
    let mut at = 0;
    for _ in 0..line {
        at += cs[at..].iter().position(|c| *c == '\n')? + 1;
    }
    let end = at + col;
    if end > cs.len() || cs[at..end].contains(&'\n') {
        return None;
    }
    Some(end)
}

/// End of the second token behind a position.
fn two_tokens(cs: &[char], mut at: usize) -> usize {
    let blank = |c: char| matches!(c, ' ' | '\t' | '\r' | '\n');
    for _ in 0..3 {
        loop {
            while at < cs.len() && blank(cs[at]) {
                at += 1
            }
            if at < cs.len() && cs[at] == '#' {
                while at < cs.len() && cs[at] != '\n' {
                    at += 1
                }
            } else {
                break;
            }
        }
        if at >= cs.len() {
            return at;
        }
        if cs[at] == '"' {
            let triple = cs[at..].starts_with(&['"', '"', '"']);
            let ends = |k: usize| if triple { cs[k..].starts_with(&['"', '"', '"']) } else { cs[k] == '"' };
            at += if triple { 3 } else { 1 };
            while at < cs.len() && !ends(at) {
                at += 1 + (cs[at] == '\\') as usize
            }
            at += if triple { 3 } else { 1 };
        } else if matches!(cs[at], '[' | ']' | ',' | '=' | '{' | '}') {
            at += 1
        } else {
            while at < cs.len() && !blank(cs[at]) && !matches!(cs[at], '[' | ']' | ',' | '=' | '{' | '}' | '"' | '#') {
                at += 1
            }
        }
    }
    at.min(cs.len())
}

/// What may follow the text read so far, without making a difference.
const REST: &[&str] = &["", "x", "\n", "\"", "]", " = 1\n"];

pub fn toml_pos(ctx: &mut Ctx, text: &str) -> bool {
    let parse = |ctx: &mut Ctx, t: &str| ctx.guard(&[t.as_bytes()], usize::MAX, || nanoserde::TomlParser::parse(t));
    ctx.state(&[text.as_bytes()]);
    ctx.trace();
    let r = parse(ctx, text);
    let e = match r {
        Ok(Err(e)) => e,
        Ok(Ok(_)) => return true,
        Err(_) => return false, // C15
    };
    let shown = format!("{e} {e:?}");
    let cs: Vec<char> = text.chars().collect();
    let mut bad = None;
    let shows = |n: usize| shown.contains(&n.to_string());
    match offset_of(&cs, e.line, e.col) {
        None => bad = Some("which is no position of the text".to_string()),
        Some(p) => {
            // nothing behind the position was read
            let read: String = cs[..p].iter().collect();
            for rest in REST {
                if p == cs.len() && !rest.is_empty() {
                    break;
                }
                let t = format!("{read}{rest}");
                if rest.is_empty() {
                    // the end of the text may be an error of another kind
                    continue;
                }
                match parse(ctx, &t) {
                    Ok(Err(f)) if (f.line, f.col, &f.msg) == (e.line, e.col, &e.msg) => {}
                    r => {
                        bad = Some(format!("but {t:?} gives {}", show(&r)));
                        break;
                    }
                }
            }
            if let Err(tomlref::Bad::Reject(at, why)) = tomlref::parse(text) {
                let hi = two_tokens(&cs, at) + 1;
                if p < at || p > hi {
                    bad = Some(format!("at character {p}, but the fault ({why}) is at {at} and may be noticed up to {hi}"));
                }
            }
            if !(shows(e.line) && shows(e.col) || shows(e.line + 1) && shows(e.col + 1)) {
                bad = Some(format!("but displayed as {shown:?}"));
            }
        }
    }
    if let Some(b) = bad {
        ctx.violation(text, &format!("TOML {text:?}: error {} at line {} column {} {b}", e.msg, e.line, e.col));
    }
    (e.line, e.col) == line_col(text)
}

pub fn c19(th: bool) -> Plan {
    let mut t = vec![];
    for mut x in texts::tasks(crate::looks::Mode::Pos, Flavor::Json, th) {
        x.name = format!("JSON {}", x.name);
        t.push(x);
    }
    for mut x in texts::tasks(crate::looks::Mode::Pos, Flavor::Ron, th) {
        x.name = format!("RON {}", x.name);
        t.push(x);
    }
    for mut x in bytes::tasks(bytes::Mode::Pos, th) {
        x.name = format!("binary {}", x.name);
        t.push(x);
    }
    for mut x in tomls::tasks(tomls::Mode::Pos, th) {
        x.name = format!("TOML {}", x.name);
        t.push(x);
    }
    Plan::new(
        "for every rejected input of the bounded spaces of C04, C09, C13 and C15: the reported line and column are those of the text which the decoder had read (known from the reader state, for TOML from parsing with other continuations), that text ends at the token at fault by an independent decoder or at most two tokens and a character later, and the displayed error names them; the offset of a binary error lies in the item which an independent decoder cannot decode; a state is a distinct (type, input)",
        "the spaces of C04, C09, C13 and C15 of the same tier".into(),
        t,
    )
}
