//! HTML tokenizer. Text tokens are slices of the input wherever no character
//! reference or newline had to be replaced.
use crate::entities::NAMED;
use crate::intern;
use tendril::StrTendril;

#[derive(Debug, Clone)]
pub struct Tag {
    pub name: &'static str,
    pub attrs: Vec<(String, StrTendril)>,
    pub self_closing: bool,
}
#[derive(Debug, Clone)]
pub enum Token {
    Doctype { name: String, public: Option<String>, system: Option<String>, force_quirks: bool },
    Comment(StrTendril),
    Start(Tag),
    End(Tag),
    Text(StrTendril),
    Null,
    Eof,
}
/// Content models other than ordinary markup.
#[derive(Debug, Clone, PartialEq)]
pub enum Raw {
    /// Character references are decoded (title, textarea).
    Rcdata(Option<&'static str>),
    Rawtext(Option<&'static str>),
    Script(Option<&'static str>),
    Plaintext,
}

const WIN1252: [u32; 32] = [
    0x20ac, 0x81, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x8d, 0x17d, 0x8f, 0x90,
    0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x9d, 0x17e, 0x178,
];

/// One character reference at the start of `s` (which begins with '&'): its
/// text, its length, and whether it ends in `;`.
fn char_ref(s: &str) -> Option<(String, usize, bool)> {
    let rest = &s[1..];
    if let Some(n) = rest.strip_prefix('#') {
        let (digits, radix, skip) = match n.strip_prefix(['x', 'X']) {
            Some(h) => (h, 16, 3),
            None => (n, 10, 2),
        };
        let len = digits.bytes().take_while(|c| (*c as char).is_digit(radix)).count();
        if len == 0 {
            return None;
        }
        let v = u32::from_str_radix(&digits[..len], radix).unwrap_or(u32::MAX);
        let v = if (0x80..0xa0).contains(&v) { WIN1252[v as usize - 0x80] } else { v };
        let c = char::from_u32(v).filter(|c| *c != '\0').unwrap_or('\u{fffd}');
        let semi = digits[len..].starts_with(';');
        return Some((c.to_string(), skip + len + semi as usize, semi));
    }
    let len = rest.bytes().take_while(u8::is_ascii_alphanumeric).count();
    let end = if rest.as_bytes().get(len) == Some(&b';') { len + 1 } else { len };
    (2..=end).rev().find_map(|n| {
        let i = NAMED.binary_search_by(|(k, _)| (*k).cmp(&rest[..n])).ok()?;
        Some((NAMED[i].1.to_string(), 1 + n, rest[..n].ends_with(';')))
    })
}

fn ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\x0c' | b'\r')
}
/// Newlines and NULs as the tokenizer's input stream has them.
fn plain(s: &str) -> StrTendril {
    let s = s.replace("\r\n", "\n").replace('\r', "\n").replace('\0', "\u{fffd}");
    StrTendril::from(s.as_str())
}

pub struct Tokenizer {
    input: StrTendril,
    pos: usize,
    pub raw: Option<Raw>,
    /// Whether the current node is foreign (CDATA sections are allowed).
    pub foreign: bool,
}

impl Tokenizer {
    pub fn new(input: StrTendril) -> Self {
        let pos = if input.starts_with('\u{feff}') { 3 } else { 0 };
        Self { input, pos, raw: None, foreign: false }
    }
    fn cut(&self, a: usize, b: usize) -> StrTendril {
        let s = &self.input[a..b];
        if s.contains(['\r', '\0']) { plain(s) } else { self.input.subtendril(a as u32, (b - a) as u32) }
    }
    /// Text up to `end`, in chunks: literal slices share the input, decoded
    /// references come separately. `null`: NULs become tokens of their own
    /// rather than U+FFFD.
    fn text(&mut self, end: usize, decode: bool, null: bool, out: &mut Vec<Token>) {
        let mut start = self.pos;
        let mut i = self.pos;
        let input = self.input.clone();
        let flush = |start: usize, i: usize, out: &mut Vec<Token>| {
            if start < i {
                out.push(Token::Text(input.subtendril(start as u32, (i - start) as u32)));
            }
        };
        while i < end {
            let s = &input[i..end];
            let b = s.as_bytes()[0];
            let repl: (Option<Token>, usize) = match b {
                b'&' if decode => match char_ref(s) {
                    Some((v, n, _)) => (Some(Token::Text(StrTendril::from(v.as_str()))), n),
                    None => (None, 1),
                },
                b'\r' => (Some(Token::Text(StrTendril::from("\n"))), if s.starts_with("\r\n") { 2 } else { 1 }),
                b'\0' if null => (Some(Token::Null), 1),
                b'\0' => (Some(Token::Text(StrTendril::from("\u{fffd}"))), 1),
                _ => (None, s.chars().next().unwrap().len_utf8()),
            };
            if let Some(t) = repl.0 {
                flush(start, i, out);
                out.push(t);
                start = i + repl.1;
            }
            i += repl.1;
        }
        flush(start, end, out);
        self.pos = end;
    }

    /// Where the raw text that starts at `pos` ends.
    fn raw_end(&self, raw: &Raw) -> usize {
        let low = self.input[self.pos..].to_ascii_lowercase();
        let tag_at = |i: usize, t: &str| {
            low[i..].strip_prefix(t).is_some_and(|r| r.bytes().next().is_some_and(|c| ws(c) || c == b'/' || c == b'>'))
        };
        let end = match raw {
            Raw::Plaintext | Raw::Rcdata(None) | Raw::Rawtext(None) => None,
            Raw::Rcdata(Some(n)) | Raw::Rawtext(Some(n)) => {
                let close = format!("</{n}");
                low.match_indices('<').map(|(i, _)| i).find(|i| tag_at(*i, &close))
            }
            Raw::Script(n) => {
                let close = format!("</{}", n.unwrap_or("script"));
                let (mut i, mut st) = (0, 0);
                let b = low.as_bytes();
                loop {
                    if i >= b.len() {
                        break None;
                    }
                    match st {
                        0 if low.as_bytes()[i..].starts_with(b"<!--") => {
                            st = 1;
                            i += 2;
                            continue;
                        }
                        0 | 1 if b[i] == b'<' && n.is_some() && tag_at(i, &close) => break Some(i),
                        1 | 2 if b[i..].starts_with(b"-->") => st = 0,
                        1 if b[i] == b'<' && tag_at(i, "<script") => st = 2,
                        2 if b[i] == b'<' && tag_at(i, "</script") => st = 1,
                        _ => {}
                    }
                    i += 1;
                }
            }
        };
        self.pos + end.unwrap_or(low.len())
    }

    /// The next tokens (all of one construct); false at the end of the input.
    pub fn next(&mut self, out: &mut Vec<Token>) -> bool {
        if self.pos >= self.input.len() {
            return false;
        }
        if let Some(raw) = self.raw.take() {
            let end = self.raw_end(&raw);
            self.text(end, matches!(raw, Raw::Rcdata(_)), false, out);
            return true;
        }
        let input = self.input.clone();
        let s = &input[self.pos..];
        let b = s.as_bytes();
        if b[0] == b'<' && b.len() > 1 {
            if s.starts_with("<!--") {
                self.comment(s, out);
                return true;
            }
            if self.foreign && s.starts_with("<![CDATA[") {
                let end = s.find("]]>");
                self.pos += 9;
                self.text(self.pos + end.unwrap_or(s.len()) - 9, false, true, out);
                if end.is_some() {
                    self.pos += 3;
                }
                return true;
            }
            if s.len() >= 9 && s.as_bytes()[..9].eq_ignore_ascii_case(b"<!doctype") {
                let end = s.find('>').unwrap_or(s.len());
                out.push(doctype(&s[9..end], end == s.len()));
                self.pos += (end + 1).min(s.len());
                return true;
            }
            if b[1] == b'!' || b[1] == b'?' || (b[1] == b'/' && b.len() > 2 && !b[2].is_ascii_alphabetic()) {
                let end = s.find('>').unwrap_or(s.len());
                if !(b[1] == b'/' && b[2] == b'>') {
                    let from = if b[1] == b'?' { 1 } else { 2 };
                    out.push(Token::Comment(self.cut(self.pos + from, self.pos + end)));
                }
                self.pos += (end + 1).min(s.len());
                return true;
            }
            if b[1].is_ascii_alphabetic() {
                self.tag(s, false, out);
                return true;
            }
            if b[1] == b'/' && b.len() > 2 {
                self.tag(s, true, out);
                return true;
            }
        }
        // Text up to the next '<' that can start markup.
        let mut end = s.len();
        for (k, _) in s.match_indices('<').filter(|(k, _)| *k > 0) {
            let n = b.get(k + 1).copied().unwrap_or(0);
            if n.is_ascii_alphabetic() || matches!(n, b'!' | b'?') || (n == b'/' && b.len() > k + 2) {
                end = k;
                break;
            }
        }
        self.text(self.pos + end, true, true, out);
        true
    }

    fn comment(&mut self, s: &str, out: &mut Vec<Token>) {
        let body = &s[4..];
        let (len, adv) = if body.starts_with('>') {
            (0, 1)
        } else if body.starts_with("->") {
            (0, 2)
        } else {
            match (body.find("-->"), body.find("--!>")) {
                (Some(i), Some(j)) if j < i => (j, j + 4),
                (Some(i), _) => (i, i + 3),
                (None, Some(j)) => (j, j + 4),
                (None, None) => {
                    let cut = ["--!", "--", "-"].iter().find(|x| body.ends_with(**x)).map_or(0, |x| x.len());
                    (body.len() - cut, body.len())
                }
            }
        };
        out.push(Token::Comment(self.cut(self.pos + 4, self.pos + 4 + len)));
        self.pos += 4 + adv;
    }

    fn tag(&mut self, s: &str, end_tag: bool, out: &mut Vec<Token>) {
        let b = s.as_bytes();
        let mut i = if end_tag { 2 } else { 1 };
        let n0 = i;
        while i < b.len() && !ws(b[i]) && b[i] != b'/' && b[i] != b'>' {
            i += 1;
        }
        let name = s[n0..i].to_ascii_lowercase().replace('\0', "\u{fffd}");
        let mut attrs: Vec<(String, StrTendril)> = Vec::new();
        let mut self_closing = false;
        loop {
            while i < b.len() && (ws(b[i]) || b[i] == b'/') {
                self_closing = b[i] == b'/';
                i += 1;
            }
            if i >= b.len() {
                // Unterminated tag: dropped.
                self.pos = self.input.len();
                return;
            }
            if b[i] == b'>' {
                i += 1;
                break;
            }
            self_closing = false;
            let a0 = i;
            i += 1;
            while i < b.len() && !ws(b[i]) && !matches!(b[i], b'/' | b'>' | b'=') {
                i += 1;
            }
            let an = s[a0..i].to_ascii_lowercase().replace('\0', "\u{fffd}");
            let mut j = i;
            while j < b.len() && ws(b[j]) {
                j += 1;
            }
            let mut val = StrTendril::new();
            if j < b.len() && b[j] == b'=' {
                j += 1;
                while j < b.len() && ws(b[j]) {
                    j += 1;
                }
                let (v0, v1, next) = match b.get(j) {
                    Some(q @ (b'"' | b'\'')) => match s[j + 1..].find(*q as char) {
                        Some(e) => (j + 1, j + 1 + e, j + 2 + e),
                        None => (b.len(), b.len(), b.len()),
                    },
                    _ => {
                        let mut k = j;
                        while k < b.len() && !ws(b[k]) && b[k] != b'>' {
                            k += 1;
                        }
                        (j, k, k)
                    }
                };
                val = self.value(&s[v0..v1], self.pos + v0);
                i = next;
            } else {
                i = j;
            }
            if !attrs.iter().any(|(k, _)| *k == an) {
                attrs.push((an, val));
            }
        }
        self.pos += i;
        let tag = Tag { name: intern(&name), attrs, self_closing };
        out.push(if end_tag { Token::End(tag) } else { Token::Start(tag) });
    }

    fn value(&self, raw: &str, at: usize) -> StrTendril {
        if !raw.contains(['&', '\r', '\0']) {
            return self.cut(at, at + raw.len());
        }
        let mut o = String::new();
        let mut r = raw;
        while let Some(c) = r.chars().next() {
            if c == '&'
                && let Some((v, n, semi)) = char_ref(r)
            {
                // "&amp" without ';' before '=' or a letter stays literal.
                let nx = r.as_bytes().get(n).copied().unwrap_or(b' ');
                if semi || r.starts_with("&#") || !(nx == b'=' || nx.is_ascii_alphanumeric()) {
                    o.push_str(&v);
                    r = &r[n..];
                    continue;
                }
            }
            match c {
                '\r' => {
                    o.push('\n');
                    r = r.strip_prefix("\r\n").unwrap_or(&r[1..]);
                    continue;
                }
                '\0' => o.push('\u{fffd}'),
                c => o.push(c),
            }
            r = &r[c.len_utf8()..];
        }
        StrTendril::from(o.as_str())
    }
}

fn doctype(s: &str, eof: bool) -> Token {
    let t = s.trim_start_matches([' ', '\t', '\n', '\x0c', '\r']);
    let n = t.bytes().position(ws).unwrap_or(t.len());
    let name = t[..n].to_ascii_lowercase().replace('\0', "\u{fffd}");
    let mut rest = t[n..].trim_start_matches([' ', '\t', '\n', '\x0c', '\r']);
    let (mut public, mut system, mut bad) = (None, None, eof || name.is_empty());
    let quoted = |r: &mut &str| -> Option<String> {
        let u = r.trim_start_matches([' ', '\t', '\n', '\x0c', '\r']);
        let q = u.chars().next().filter(|c| matches!(c, '"' | '\''))?;
        let e = u[1..].find(q)?;
        *r = &u[e + 2..];
        Some(u[1..1 + e].to_string())
    };
    if rest.len() >= 6 && rest.is_char_boundary(6) && rest[..6].eq_ignore_ascii_case("public") {
        rest = &rest[6..];
        public = quoted(&mut rest);
        bad |= public.is_none();
        system = quoted(&mut rest);
    } else if rest.len() >= 6 && rest.is_char_boundary(6) && rest[..6].eq_ignore_ascii_case("system") {
        rest = &rest[6..];
        system = quoted(&mut rest);
        bad |= system.is_none();
    } else if !rest.is_empty() {
        bad = true;
    }
    Token::Doctype { name, public, system, force_quirks: bad }
}
