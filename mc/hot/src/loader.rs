//! S06: the loader script hands over exactly what it was given.

use crate::tree::*;
use hotmeal_server::loader_script;
use mc_core::trees::words;
use mc_core::{Fail, Family, Obs, Outcome, Tier, ensure};
use std::sync::Arc;

/// A token of the JavaScript that a loader consists of.
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Str(String),
    Mark(char),
}
fn hex(c: &[char], i: &mut usize, n: usize) -> Result<u32, Fail> {
    let h: String = c.get(*i..*i + n).unwrap_or(&[]).iter().collect();
    *i += n;
    u32::from_str_radix(&h, 16).map_err(|_| format!("a bad escape {h:?} in a string literal").into())
}
fn literal(c: &[char], i: &mut usize) -> Result<String, Fail> {
    let quote = c[*i];
    *i += 1;
    let mut s = String::new();
    let end = || Fail::from("a string literal does not end".to_string());
    loop {
        let x = *c.get(*i).ok_or_else(end)?;
        *i += 1;
        match x {
            _ if x == quote => return Ok(s),
            '\n' | '\r' if quote != '`' => return Err("a line break inside a string literal".to_string().into()),
            '$' if quote == '`' && c.get(*i) == Some(&'{') => return Err("a substitution inside a template".to_string().into()),
            '\\' => {
                let e = *c.get(*i).ok_or_else(end)?;
                *i += 1;
                let code = match e {
                    'n' => 10,
                    'r' => 13,
                    't' => 9,
                    'b' => 8,
                    'v' => 11,
                    'f' => 12,
                    '0' if !c.get(*i).is_some_and(char::is_ascii_digit) => 0,
                    '0'..='9' => return Err("an octal escape in a string literal".to_string().into()),
                    'x' => hex(c, i, 2)?,
                    'u' if c.get(*i) == Some(&'{') => {
                        let n = c[*i + 1..].iter().position(|x| *x == '}').ok_or_else(end)?;
                        let h: String = c[*i + 1..*i + 1 + n].iter().collect();
                        *i += n + 2;
                        u32::from_str_radix(&h, 16).map_err(|_| Fail::from("a bad escape in a string literal".to_string()))?
                    }
                    'u' => {
                        let mut u = hex(c, i, 4)?;
                        if (0xd800..0xdc00).contains(&u) && c.get(*i..*i + 2) == Some(&['\\', 'u']) {
                            let h: String = c.get(*i + 2..*i + 6).ok_or_else(end)?.iter().collect();
                            *i += 6;
                            let low = u32::from_str_radix(&h, 16).unwrap_or(0);
                            u = 0x10000 + ((u - 0xd800) << 10) + low.wrapping_sub(0xdc00);
                        }
                        u
                    }
                    '\n' | '\u{2028}' | '\u{2029}' => continue,
                    '\r' => {
                        if c.get(*i) == Some(&'\n') {
                            *i += 1;
                        }
                        continue;
                    }
                    other => other as u32,
                };
                s.push(char::from_u32(code).unwrap_or('\u{fffd}'));
            }
            x => s.push(x),
        }
    }
}
fn tokens(src: &str) -> Result<Vec<Tok>, Fail> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() || x == '\u{feff}' => i += 1,
            '"' | '\'' | '`' => v.push(Tok::Str(literal(&c, &mut i)?)),
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && !matches!(c[i], '\n' | '\r' | '\u{2028}' | '\u{2029}') {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                let n = c[i + 2..].windows(2).position(|w| w == ['*', '/']).ok_or_else(|| Fail::from("a comment does not end".to_string()))?;
                i += n + 4;
            }
            x if x.is_alphanumeric() || matches!(x, '_' | '$') => {
                let from = i;
                while i < c.len() && (c[i].is_alphanumeric() || matches!(c[i], '_' | '$')) {
                    i += 1;
                }
                v.push(Tok::Word(c[from..i].iter().collect()));
            }
            ';' => i += 1,
            x => {
                v.push(Tok::Mark(x));
                i += 1;
            }
        }
    }
    Ok(v)
}
/// The script that imports the module, waits for it, and starts it.
fn expected([js, wasm, sel, ws]: [&str; 4]) -> Vec<Tok> {
    let w = |s: &str| Tok::Word(s.into());
    let s = |s: &str| Tok::Str(s.into());
    vec![
        w("import"), w("init"), Tok::Mark(','), Tok::Mark('{'), w("start_live_reload"), Tok::Mark('}'), w("from"), s(js),
        w("await"), w("init"), Tok::Mark('('), s(wasm), Tok::Mark(')'),
        w("start_live_reload"), Tok::Mark('('), s(ws), Tok::Mark(','), s(sel), Tok::Mark(')'),
    ]
}
fn case(a: [&str; 4], obs: &mut Obs) -> Outcome {
    let [js, wasm, sel, ws] = a;
    let script = loader_script(js, wasm, sel, ws);
    obs.state(script.as_bytes());
    obs.step(1);
    obs.trace();
    obs.nontrivial();
    let d = crate::parse::document(&format!("<!DOCTYPE html><html><head>{script}<title>t</title></head><body><p>x</p></body></html>"));
    let head: Vec<&T> = d.head.iter().filter(|n| !matches!(n, T::Text(s) if s.trim().is_empty())).collect();
    let text = match head[..] {
        [T::El(s), T::El(t)] if s.tag == "script" && t.tag == "title" => {
            ensure!(s.attrs.iter().any(|(k, v)| k == "type" && v == "module"), "not a module: {script}");
            match &s.kids[..] {
                [T::Text(x)] => x.clone(),
                k => return Err(format!("the script holds {}", show(k)).into()),
            }
        }
        _ => return Err(format!("the page's head is {}; the script was {script}", show(&d.head)).into()),
    };
    judge(&text, a)
}
/// The script's text means what it should.
pub fn judge(text: &str, a: [&str; 4]) -> Outcome {
    let got = tokens(text).map_err(|e| format!("{e:?} in {text}"))?;
    ensure!(got == expected(a), "the script means {got:?}: {text}");
    Ok(())
}

const PIECES: &[&str] = &[
    "a", "\"", "'", "`", "\\", "\n", "\r", "\t", "\0", "<", ">", "</script>", "</SCRIPT ", "<script", "<!--", "-->", "]]>", "${x}", "\u{2028}", "\u{2029}", "\u{e9}",
    "\u{1f600}", "&amp;", " ", "u0041", "x41", "0", "//", "/*", "*/", ");", "n",
];
const PLAIN: [&str; 4] = ["/pkg/hotmeal_wasm.js", "/pkg/hotmeal_wasm_bg.wasm", "#content", "ws://localhost:3000/_lr"];
const WHAT: [&str; 4] = ["module URL", "binary URL", "selector", "socket URL"];
pub fn s06_families(t: Tier) -> Vec<Family> {
    let len = t.pick(3, 4);
    let v: Vec<String> = (0..=len).flat_map(|n| words(n, PIECES.len())).map(|w| w.iter().map(|i| PIECES[*i]).collect()).collect();
    let n = v.len();
    let v = Arc::new(v);
    let v2 = v.clone();
    let one = move |i: u64| (i as usize % 4, i as usize / 4);
    let k = PIECES.len() as u64;
    let all = move |mut i: u64| -> [&'static str; 4] {
        std::array::from_fn(|_| {
            let p = PIECES[(i % k) as usize];
            i /= k;
            p
        })
    };
    let real: Vec<&'static str> = vec![
        "body", "#content", "main > .a", "[data-app=\"main\"]", "[data-app='main']", "a[href$=\".png\" i]", ".a\\:b", "#\\31 23", "[title=\"</script>\"]", "[x=\"a\\\"b\"]", "",
    ];
    let real2 = real.clone();
    vec![
        Family::new("selectors", "ordinary CSS selectors", real.len() as u64, move |i| format!("selector {:?}", real2[i as usize]), move |i, obs| {
            let mut a = PLAIN;
            a[2] = real[i as usize];
            case(a, obs)
        }),
        Family::new(
            "one",
            format!("all strings of up to {len} pieces over {k} pieces, in each of the four places"),
            4 * n as u64,
            move |i| format!("{} {:?}", WHAT[one(i).0], v2[one(i).1]),
            move |i, obs| {
                let (at, w) = one(i);
                let mut a = PLAIN;
                a[at] = &v[w];
                case(a, obs)
            },
        ),
        Family::new("all", "one piece in each of the four places at once", k.pow(4), move |i| format!("{:?}", all(i)), move |i, obs| case(all(i), obs)),
    ]
}
