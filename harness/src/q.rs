//! Q01-Q03: string literals mean the text they were made from. The lexers
//! below follow the language references, not the escapes genco happens to use.
use crate::core::{Rng, Run};
use genco::lang::{self, Lang};
use genco::tokens::{Item, ItemStr};
use genco::Tokens;

#[derive(Debug, Clone, PartialEq)]
enum El {
    /// a byte, UTF-16 unit or code point
    U(u32),
    /// the source of an interpolated expression
    E(String),
}
type R<T> = Result<T, String>;
type Lex = fn(&[char]) -> R<(Vec<El>, usize)>;

/// a piece of a string
#[derive(Debug, Clone, PartialEq)]
enum P {
    T(String),
    /// a layout space
    S,
    /// an evaluation holding this text
    E(Vec<String>),
}
fn render<L: Lang>(ps: &[P]) -> Option<String>
where
    L::Config: Default,
{
    let mut t = Tokens::<L>::new();
    let ev = ps.iter().any(|p| matches!(p, P::E(..)));
    t.append(Item::OpenQuote(ev));
    for p in ps {
        match p {
            P::T(s) => t.append(Item::Literal(ItemStr::from(s.clone()))),
            P::S => t.space(),
            P::E(s) => {
                t.append(Item::OpenEval);
                for (i, s) in s.iter().enumerate() {
                    if i > 0 {
                        t.space();
                    }
                    t.append(Item::Literal(ItemStr::from(s.clone())));
                }
                t.append(Item::CloseEval);
            }
        }
    }
    t.append(Item::CloseQuote);
    t.to_string().ok()
}

// ---- lexing helpers ----
fn hex(s: &[char], at: usize, min: usize, max: usize) -> R<(u32, usize)> {
    let mut n = 0;
    let mut v = 0u32;
    while n < max && at + n < s.len() && s[at + n].is_ascii_hexdigit() {
        v = v.checked_mul(16).ok_or("too large")? + s[at + n].to_digit(16).unwrap();
        n += 1;
    }
    if n < min {
        return Err("digits missing in an escape".into());
    }
    Ok((v, at + n))
}
fn oct(s: &[char], at: usize, max: usize) -> (u32, usize) {
    let mut n = 0;
    let mut v = 0u32;
    while n < max && at + n < s.len() && s[at + n].is_digit(8) {
        v = v * 8 + s[at + n].to_digit(8).unwrap();
        n += 1;
    }
    (v, at + n)
}
fn braces(s: &[char], at: usize, max: usize, under: bool) -> R<(u32, usize)> {
    if s.get(at) != Some(&'{') {
        return Err("{ missing in an escape".into());
    }
    let mut i = at + 1;
    let mut v = 0u32;
    let mut n = 0;
    while let Some(c) = s.get(i) {
        if *c == '}' {
            if n == 0 || n > max {
                return Err("wrong number of digits in an escape".into());
            }
            char::from_u32(v).ok_or("not a scalar value")?;
            return Ok((v, i + 1));
        }
        if under && *c == '_' && n > 0 {
            i += 1;
            continue;
        }
        v = v.checked_mul(16).ok_or("too large")?.checked_add(c.to_digit(16).ok_or("no digit in an escape")?).ok_or("too large")?;
        n += 1;
        i += 1;
    }
    Err("} missing in an escape".into())
}
fn u8s(o: &mut Vec<El>, v: u32) -> R<()> {
    let c = char::from_u32(v).ok_or("not a scalar value")?;
    o.extend(c.encode_utf8(&mut [0; 4]).bytes().map(|b| El::U(b as u32)));
    Ok(())
}
fn u16s(o: &mut Vec<El>, v: u32) -> R<()> {
    let c = char::from_u32(v).ok_or("not a scalar value")?;
    o.extend(c.encode_utf16(&mut [0; 2]).iter().map(|b| El::U(*b as u32)));
    Ok(())
}
fn start(s: &[char], quotes: &str) -> R<char> {
    match s.first() {
        Some(c) if quotes.contains(*c) => Ok(*c),
        _ => Err("no opening quote".into()),
    }
}
/// the expression of an interpolation that starts at `at`; braces have to balance
fn expr(s: &[char], at: usize) -> R<(String, usize)> {
    let mut d = 0;
    for i in at..s.len() {
        match s[i] {
            '{' => d += 1,
            '}' if d == 0 => return Ok((s[at..i].iter().collect(), i + 1)),
            '}' => d -= 1,
            _ => (),
        }
    }
    Err("interpolation not closed".into())
}
fn simple(c: char) -> Option<u32> {
    Some(match c {
        'a' => 7,
        'b' => 8,
        'f' => 12,
        'n' => 10,
        'r' => 13,
        't' => 9,
        'v' => 11,
        _ => return None,
    })
}

// ---- the languages ----
fn lex_c(s: &[char]) -> R<(Vec<El>, usize)> {
    start(s, "\"")?;
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            '"' => return Ok((o, i + 1)),
            '\n' | '\r' => return Err("line break in a literal".into()),
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                match c {
                    '\'' | '"' | '?' | '\\' => (o.push(El::U(c as u32)), i += 2).1,
                    '\n' => i += 2,
                    'x' => {
                        let (v, n) = hex(s, i + 2, 1, usize::MAX)?;
                        if v > 255 {
                            return Err("\\x out of range".into());
                        }
                        o.push(El::U(v));
                        i = n;
                    }
                    '0'..='7' => {
                        let (v, n) = oct(s, i + 1, 3);
                        if v > 255 {
                            return Err("octal escape out of range".into());
                        }
                        o.push(El::U(v));
                        i = n;
                    }
                    'u' | 'U' => {
                        let k = if c == 'u' { 4 } else { 8 };
                        let (v, n) = hex(s, i + 2, k, k)?;
                        if v < 0xa0 && ![0x24, 0x40, 0x60].contains(&v) {
                            return Err("universal character name below A0".into());
                        }
                        u8s(&mut o, v)?;
                        i = n;
                    }
                    c => match simple(c) {
                        Some(v) => {
                            o.push(El::U(v));
                            i += 2;
                        }
                        None => return Err(format!("unknown escape \\{c}")),
                    },
                }
            }
            c => {
                u8s(&mut o, c as u32)?;
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_go(s: &[char]) -> R<(Vec<El>, usize)> {
    start(s, "\"")?;
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            '"' => return Ok((o, i + 1)),
            '\n' | '\0' | '\u{feff}' => return Err("forbidden character in a literal".into()),
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                match c {
                    '"' | '\\' => (o.push(El::U(c as u32)), i += 2).1,
                    'x' => {
                        let (v, n) = hex(s, i + 2, 2, 2)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    '0'..='7' => {
                        let (v, n) = oct(s, i + 1, 3);
                        if n != i + 4 || v > 255 {
                            return Err("bad octal escape".into());
                        }
                        o.push(El::U(v));
                        i = n;
                    }
                    'u' | 'U' => {
                        let k = if c == 'u' { 4 } else { 8 };
                        let (v, n) = hex(s, i + 2, k, k)?;
                        u8s(&mut o, v)?;
                        i = n;
                    }
                    c => match simple(c) {
                        Some(v) => {
                            o.push(El::U(v));
                            i += 2;
                        }
                        None => return Err(format!("unknown escape \\{c}")),
                    },
                }
            }
            c => {
                u8s(&mut o, c as u32)?;
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_python(s: &[char]) -> R<(Vec<El>, usize)> {
    let q = start(s, "\"'")?;
    if s.len() > 2 && s[1] == q && s[2] == q {
        return Err("a triple quote opens".into());
    }
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            c if c == q => return Ok((o, i + 1)),
            '\n' | '\r' | '\0' => return Err("forbidden character in a literal".into()),
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                match c {
                    '\'' | '"' | '\\' => (o.push(El::U(c as u32)), i += 2).1,
                    '\n' => i += 2,
                    'x' => {
                        let (v, n) = hex(s, i + 2, 2, 2)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    '0'..='7' => {
                        let (v, n) = oct(s, i + 1, 3);
                        o.push(El::U(v));
                        i = n;
                    }
                    'N' => return Err("\\N needs a character name".into()),
                    'u' | 'U' => {
                        let k = if c == 'u' { 4 } else { 8 };
                        let (v, n) = hex(s, i + 2, k, k)?;
                        if v > 0x10ffff {
                            return Err("out of range".into());
                        }
                        o.push(El::U(v));
                        i = n;
                    }
                    c => match simple(c) {
                        Some(v) => {
                            o.push(El::U(v));
                            i += 2;
                        }
                        None => {
                            o.push(El::U('\\' as u32));
                            i += 1;
                        }
                    },
                }
            }
            c => {
                o.push(El::U(c as u32));
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_csharp(s: &[char]) -> R<(Vec<El>, usize)> {
    start(s, "\"")?;
    if s.len() > 2 && s[1] == '"' && s[2] == '"' {
        return Err("a raw string opens".into());
    }
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            '"' => return Ok((o, i + 1)),
            '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}' => return Err("line break in a literal".into()),
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                match c {
                    '\'' | '"' | '\\' => (o.push(El::U(c as u32)), i += 2).1,
                    '0' => (o.push(El::U(0)), i += 2).1,
                    'x' => {
                        let (v, n) = hex(s, i + 2, 1, 4)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    'u' => {
                        let (v, n) = hex(s, i + 2, 4, 4)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    'U' => {
                        let (v, n) = hex(s, i + 2, 8, 8)?;
                        u16s(&mut o, v)?;
                        i = n;
                    }
                    c => match simple(c) {
                        Some(v) => {
                            o.push(El::U(v));
                            i += 2;
                        }
                        None => return Err(format!("unknown escape \\{c}")),
                    },
                }
            }
            c => {
                u16s(&mut o, c as u32)?;
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_js(s: &[char]) -> R<(Vec<El>, usize)> {
    let q = start(s, "\"'`")?;
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            c if c == q => return Ok((o, i + 1)),
            '\r' => return Err("CR in a literal".into()),
            '\n' if q != '`' => return Err("line break in a literal".into()),
            '$' if q == '`' && s.get(i + 1) == Some(&'{') => {
                let (e, n) = expr(s, i + 2)?;
                o.push(El::E(e));
                i = n;
            }
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                match c {
                    'x' => {
                        let (v, n) = hex(s, i + 2, 2, 2)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    'u' if s.get(i + 2) == Some(&'{') => {
                        let (v, n) = braces(s, i + 2, usize::MAX, false)?;
                        u16s(&mut o, v)?;
                        i = n;
                    }
                    'u' => {
                        let (v, n) = hex(s, i + 2, 4, 4)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    '0' => {
                        if s.get(i + 2).map_or(false, |c| c.is_ascii_digit()) {
                            return Err("octal escape".into());
                        }
                        o.push(El::U(0));
                        i += 2;
                    }
                    '1'..='9' => return Err("octal escape".into()),
                    '\n' | '\r' | '\u{2028}' | '\u{2029}' => i += 2,
                    'a' => (o.push(El::U('a' as u32)), i += 2).1,
                    c => {
                        match simple(c) {
                            Some(v) => o.push(El::U(v)),
                            None => u16s(&mut o, c as u32)?,
                        }
                        i += 2;
                    }
                }
            }
            c => {
                u16s(&mut o, c as u32)?;
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_dart(s: &[char]) -> R<(Vec<El>, usize)> {
    let q = start(s, "\"'")?;
    if s.len() > 2 && s[1] == q && s[2] == q {
        return Err("a multiline string opens".into());
    }
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            c if c == q => return Ok((o, i + 1)),
            '\n' | '\r' => return Err("line break in a literal".into()),
            '$' => match s.get(i + 1) {
                Some('{') => {
                    let (e, n) = expr(s, i + 2)?;
                    o.push(El::E(e));
                    i = n;
                }
                Some(c) if c.is_ascii_alphabetic() || *c == '_' => {
                    let mut n = i + 1;
                    while n < s.len() && (s[n].is_ascii_alphanumeric() || s[n] == '_') {
                        n += 1;
                    }
                    o.push(El::E(s[i + 1..n].iter().collect()));
                    i = n;
                }
                _ => return Err("lone $".into()),
            },
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                match c {
                    'x' => {
                        let (v, n) = hex(s, i + 2, 2, 2)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    'u' if s.get(i + 2) == Some(&'{') => {
                        let (v, n) = braces(s, i + 2, 6, false)?;
                        u16s(&mut o, v)?;
                        i = n;
                    }
                    'u' => {
                        let (v, n) = hex(s, i + 2, 4, 4)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    '\n' | '\r' => return Err("line break in a literal".into()),
                    'a' => (o.push(El::U('a' as u32)), i += 2).1,
                    c => {
                        match simple(c) {
                            Some(v) => o.push(El::U(v)),
                            None => u16s(&mut o, c as u32)?,
                        }
                        i += 2;
                    }
                }
            }
            c => {
                u16s(&mut o, c as u32)?;
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_rust(s: &[char]) -> R<(Vec<El>, usize)> {
    start(s, "\"")?;
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            '"' => return Ok((o, i + 1)),
            '\r' => return Err("CR in a literal".into()),
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                i += 2;
                match c {
                    'n' => o.push(El::U(10)),
                    'r' => o.push(El::U(13)),
                    't' => o.push(El::U(9)),
                    '0' => o.push(El::U(0)),
                    '\\' | '\'' | '"' => o.push(El::U(c as u32)),
                    '\n' => {
                        while i < s.len() && " \t\r\n".contains(s[i]) {
                            i += 1;
                        }
                    }
                    'x' => {
                        let (v, n) = hex(s, i, 2, 2)?;
                        if v > 0x7f {
                            return Err("\\x out of range".into());
                        }
                        o.push(El::U(v));
                        i = n;
                    }
                    'u' => {
                        let (v, n) = braces(s, i, 6, true)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    c => return Err(format!("unknown escape \\{c}")),
                }
            }
            c => {
                o.push(El::U(c as u32));
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_swift(s: &[char]) -> R<(Vec<El>, usize)> {
    start(s, "\"")?;
    if s.len() > 2 && s[1] == '"' && s[2] == '"' {
        return Err("a multiline string opens".into());
    }
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            '"' => return Ok((o, i + 1)),
            '\n' | '\r' => return Err("line break in a literal".into()),
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                i += 2;
                match c {
                    'n' => o.push(El::U(10)),
                    'r' => o.push(El::U(13)),
                    't' => o.push(El::U(9)),
                    '0' => o.push(El::U(0)),
                    '\\' | '\'' | '"' => o.push(El::U(c as u32)),
                    'u' => {
                        let (v, n) = braces(s, i, 8, false)?;
                        o.push(El::U(v));
                        i = n;
                    }
                    c => return Err(format!("unknown escape \\{c}")),
                }
            }
            c => {
                o.push(El::U(c as u32));
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}
fn lex_java(s: &[char]) -> R<(Vec<El>, usize)> {
    // JLS 3.3: unicode escapes first, over UTF-16; `true` marks a backslash that came from an escape
    let mut t: Vec<(u32, bool)> = vec![];
    let mut i = 0;
    let mut slashes = 0;
    while i < s.len() {
        if s[i] == '\\' {
            if slashes % 2 == 0 && s.get(i + 1) == Some(&'u') {
                let mut k = i + 1;
                while s.get(k) == Some(&'u') {
                    k += 1;
                }
                let (v, n) = hex(s, k, 4, 4)?;
                t.push((v, true));
                i = n;
                slashes = 0;
                continue;
            }
            slashes += 1;
        } else {
            slashes = 0;
        }
        let mut o = vec![];
        u16s(&mut o, s[i] as u32)?;
        for e in o {
            if let El::U(v) = e {
                t.push((v, false));
            }
        }
        i += 1;
    }
    if t.first().map(|c| c.0) != Some('"' as u32) {
        return Err("no opening quote".into());
    }
    let (mut o, mut i) = (vec![], 1);
    while i < t.len() {
        let c = t[i].0;
        if c == '"' as u32 {
            return if i + 1 == t.len() { Ok((o, s.len())) } else { Err("the literal ends early".into()) };
        } else if c == 10 || c == 13 {
            return Err("line break in a literal".into());
        } else if c == '\\' as u32 {
            let e = t.get(i + 1).ok_or("lone backslash")?.0;
            let ch = char::from_u32(e).unwrap_or('?');
            i += 2;
            match ch {
                'n' => o.push(El::U(10)),
                'r' => o.push(El::U(13)),
                't' => o.push(El::U(9)),
                'b' => o.push(El::U(8)),
                'f' => o.push(El::U(12)),
                's' => o.push(El::U(32)),
                '\\' | '\'' | '"' => o.push(El::U(e)),
                '0'..='7' => {
                    let mut v = e - 48;
                    let max = if v < 4 { 2 } else { 1 };
                    let mut n = 0;
                    while n < max && i < t.len() && (48..56).contains(&t[i].0) {
                        v = v * 8 + t[i].0 - 48;
                        i += 1;
                        n += 1;
                    }
                    o.push(El::U(v));
                }
                c => return Err(format!("unknown escape \\{c}")),
            }
        } else {
            o.push(El::U(c));
            i += 1;
        }
    }
    Err("literal not closed".into())
}
fn lex_nix(s: &[char]) -> R<(Vec<El>, usize)> {
    start(s, "\"")?;
    let (mut o, mut i) = (vec![], 1);
    while i < s.len() {
        match s[i] {
            '"' => return Ok((o, i + 1)),
            '\r' => return Err("CR in a literal".into()),
            '$' if s.get(i + 1) == Some(&'{') => {
                let (e, n) = expr(s, i + 2)?;
                o.push(El::E(e));
                i = n;
            }
            '$' if s.get(i + 1) == Some(&'$') => {
                o.push(El::U('$' as u32));
                o.push(El::U('$' as u32));
                i += 2;
            }
            '\\' => {
                let c = *s.get(i + 1).ok_or("lone backslash")?;
                i += 2;
                o.push(El::U(match c {
                    'n' => 10,
                    'r' => 13,
                    't' => 9,
                    '\r' => return Err("CR in a literal".into()),
                    c => c as u32,
                }));
            }
            c => {
                o.push(El::U(c as u32));
                i += 1;
            }
        }
    }
    Err("literal not closed".into())
}

#[derive(Clone, Copy, PartialEq)]
enum Enc {
    Code,
    U8,
    U16,
}
struct Target {
    name: &'static str,
    render: fn(&[P]) -> Option<String>,
    lex: Lex,
    enc: Enc,
    eval: bool,
    nul: bool,
}
fn want(e: Enc, ps: &[P]) -> Vec<El> {
    let mut o = vec![];
    for p in ps {
        match p {
            P::T(s) => {
                for c in s.chars() {
                    match e {
                        Enc::Code => o.push(El::U(c as u32)),
                        Enc::U8 => u8s(&mut o, c as u32).unwrap(),
                        Enc::U16 => u16s(&mut o, c as u32).unwrap(),
                    }
                }
            }
            P::S => o.push(El::U(32)),
            P::E(s) => o.push(El::E(s.join(" "))),
        }
    }
    o
}
fn check(t: &Target, ps: &[P]) -> Result<(), (String, String)> {
    let w = want(t.enc, ps);
    let out = match (t.render)(ps) {
        Some(s) => s,
        None => return Err((format!("{}: a literal for {ps:?}", t.name), "formatting failed".into())),
    };
    let cs: Vec<char> = out.chars().collect();
    match (t.lex)(&cs) {
        Ok((g, n)) if g == w && n == cs.len() => Ok(()),
        Ok((g, n)) => Err((format!("{}: {ps:?} as a literal that means {w:?}", t.name), format!("{out:?}, which means {g:?} and ends after {n} of {} characters", cs.len()))),
        Err(e) => Err((format!("{}: {ps:?} as a literal that means {w:?}", t.name), format!("{out:?}, which is no literal: {e}"))),
    }
}
fn text(s: &str) -> Vec<P> {
    vec![P::T(s.to_string())]
}
/// characters that mean something somewhere, and their neighbours
fn special() -> Vec<char> {
    let mut v: Vec<char> = (0u32..0xa2).filter_map(char::from_u32).collect();
    let d = crate::core::dict();
    let marks = d.chars.iter().map(|c| *c as u32).chain(d.ints.iter().filter(|i| (0..0x110000).contains(*i)).map(|i| *i as u32));
    for m in marks {
        v.extend((m.saturating_sub(1)..=m + 1).filter_map(char::from_u32));
    }
    v.extend(['\u{e9}', '\u{ff}', '\u{100}', '\u{3c0}', '\u{7ff}', '\u{800}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f60a}', '\u{10ffff}']);
    v.sort();
    v.dedup();
    v
}
fn next() -> Vec<char> {
    "09afAFgGxuUN{}$`\"'\\ \n\r\t\u{0}\u{1}\u{7}\u{8}\u{b}\u{c}\u{7f}\u{85}\u{e9}\u{2028}\u{1f60a}?/(_".chars().collect()
}
fn family(run: &mut Run, ts: &[Target]) {
    let sp = special();
    let nx = next();
    run.bound("every character on its own (code points below U+0300 and around the borders of the encodings; thorough: all of Unicode)");
    run.bound("every pair of one of those below U+00A2 (and borders) with 35 significant followers, in one piece, in two pieces and with a layout space between");
    run.bound("every triple of 17 significant characters; random strings of up to 12 characters in random pieces; interpolations before, between and after");
    for t in ts {
        let ok = |c: char| t.nul || c != '\0';
        // one character
        let hi = if run.thorough { 0x110000 } else { 0x300 };
        let mut at = 0u32;
        while at < hi {
            let r: Vec<char> = (at..at + 0x40).filter_map(char::from_u32).filter(|c| ok(*c)).collect();
            run.case(&(t.name, "each character from", at), true, || {
                for c in &r {
                    check(t, &text(&c.to_string()))?;
                }
                Ok(())
            });
            at += 0x40;
        }
        run.case(&(t.name, "border characters"), true, || {
            for c in sp.iter().filter(|c| ok(**c)) {
                check(t, &text(&c.to_string()))?;
            }
            Ok(())
        });
        run.case(&(t.name, "empty"), true, || check(t, &[]).and_then(|_| check(t, &text(""))));
        // pairs
        for a in sp.iter().filter(|c| ok(**c)) {
            run.case(&(t.name, "pairs from", *a), true, || {
                for b in nx.iter().filter(|c| ok(**c)) {
                    check(t, &text(&format!("{a}{b}")))?;
                    check(t, &[P::T(a.to_string()), P::T(b.to_string())])?;
                    check(t, &[P::T(a.to_string()), P::S, P::T(b.to_string())])?;
                    check(t, &text(&format!("{b}{a}")))?;
                }
                Ok(())
            });
        }
        // triples
        let tr: Vec<char> = "0fuxU{$`\"'\\\n\r\u{1}\u{7f}\u{85}\u{1f60a}".chars().collect();
        for a in &tr {
            run.case(&(t.name, "triples from", *a), true, || {
                for b in &tr {
                    for c in &tr {
                        check(t, &text(&format!("{a}{b}{c}")))?;
                        check(t, &[P::T(format!("{a}")), P::T(format!("{b}{c}"))])?;
                        check(t, &[P::T(format!("{a}{b}")), P::T(format!("{c}"))])?;
                    }
                }
                Ok(())
            });
        }
        // interpolations
        if t.eval {
            let evs: Vec<Vec<String>> = [&["x"][..], &["a_1"], &["a.b"], &["f(1)"], &["1"], &["a", "+ b"], &["_"], &["x-"], &["m[0]"]].iter().map(|v| v.iter().map(|s| s.to_string()).collect()).collect();
            for a in sp.iter().chain(nx.iter()).filter(|c| ok(**c)) {
                run.case(&(t.name, "interpolation next to", *a), true, || {
                    for e in &evs {
                        // text that goes on like an identifier: see the listed finding
                        let run_on = t.name == "dart" && e.len() == 1 && e[0].chars().all(|c| c == '_' || c.is_ascii_alphanumeric()) && (a.is_ascii_alphanumeric() || *a == '_');
                        check(t, &[P::T(a.to_string()), P::E(e.clone())])?;
                        check(t, &[P::T(format!("${a}")), P::E(e.clone()), P::S, P::T(a.to_string())])?;
                        check(t, &[P::E(e.clone()), P::E(vec!["y".into()])])?;
                        if !run_on {
                            check(t, &[P::E(e.clone()), P::T(a.to_string())])?;
                            check(t, &[P::T(a.to_string()), P::E(e.clone()), P::T(a.to_string()), P::E(e.clone())])?;
                        }
                    }
                    Ok(())
                });
            }
        }
        // random strings in random pieces
        let n = if run.thorough { 40000 } else { 3000 };
        let mut rng = Rng::new(run.seed.wrapping_mul(31).wrapping_add(t.name.len() as u64 + 7));
        for _ in 0..n / 20 {
            let mut batch = vec![];
            for _ in 0..20 {
                let mut ps = vec![];
                for _ in 0..1 + rng.below(4) {
                    match rng.below(10) {
                        0 => ps.push(P::S),
                        1 | 2 if t.eval => {
                            ps.push(P::E(vec![rng.pick(&["x", "a.b", "y1"]).to_string()]));
                            ps.push(P::S);
                        }
                        _ => {
                            let mut s = String::new();
                            if rng.chance(10) {
                                s = rng.text();
                            }
                            for _ in 0..rng.below(4) {
                                s.push(match rng.below(4) {
                                    0 => *rng.pick(&sp),
                                    1 | 2 => *rng.pick(&nx),
                                    _ => char::from_u32(rng.below(0x110000) as u32).unwrap_or('z'),
                                });
                            }
                            ps.push(P::T(s.chars().filter(|c| ok(*c)).collect()));
                        }
                    }
                }
                // adjacent spaces and spaces at the ends are layout, decided by F01
                ps.dedup_by(|a, b| *a == P::S && *b == P::S);
                while ps.last() == Some(&P::S) {
                    ps.pop();
                }
                while ps.first() == Some(&P::S) {
                    ps.remove(0);
                }
                ps.retain(|p| *p != P::T(String::new()));
                ps.dedup_by(|a, b| *a == P::S && *b == P::S);
                batch.push(ps);
            }
            run.case(&(t.name, &batch), true, || {
                for ps in &batch {
                    check(t, ps)?;
                }
                Ok(())
            });
        }
    }
}

const fn target(name: &'static str, render: fn(&[P]) -> Option<String>, lex: Lex, enc: Enc, eval: bool) -> Target {
    Target { name, render, lex, enc, eval, nul: true }
}
pub fn q01(run: &mut Run) {
    family(
        run,
        &[
            target("c", render::<lang::C>, lex_c, Enc::U8, false),
            target("csharp", render::<lang::Csharp>, lex_csharp, Enc::U16, false),
            target("go", render::<lang::Go>, lex_go, Enc::U8, false),
            target("python", render::<lang::Python>, lex_python, Enc::Code, false),
        ],
    );
}
pub fn q02(run: &mut Run) {
    let dart = target("dart", render::<lang::Dart>, lex_dart, Enc::U16, true);
    family(run, &[target("js", render::<lang::JavaScript>, lex_js, Enc::U16, true), target("dart", render::<lang::Dart>, lex_dart, Enc::U16, true)]);
    run.key = Some("dart-identifier-runs-on");
    run.case(&("dart", "an identifier interpolated before text that goes on like it"), true, || check(&dart, &[P::E(vec!["x".into()]), P::T("y".into())]));
    run.key = None;
}
pub fn q03(run: &mut Run) {
    let mut nix = target("nix", render::<lang::Nix>, lex_nix, Enc::Code, false);
    nix.nul = false; // has no escape and no place in a Nix file
    family(
        run,
        &[
            target("java", render::<lang::Java>, lex_java, Enc::U16, false),
            target("rust", render::<lang::Rust>, lex_rust, Enc::Code, false),
            target("swift", render::<lang::Swift>, lex_swift, Enc::Code, false),
            nix,
        ],
    );
}
/// prints literals and what they have to mean, for validating the lexers against real compilers
pub fn dump(name: &str) {
    let (r, e): (fn(&[P]) -> Option<String>, Enc) = match name {
        "c" => (render::<lang::C>, Enc::U8),
        "go" => (render::<lang::Go>, Enc::U8),
        "python" => (render::<lang::Python>, Enc::Code),
        "js" => (render::<lang::JavaScript>, Enc::U16),
        "java" => (render::<lang::Java>, Enc::U16),
        "rust" => (render::<lang::Rust>, Enc::Code),
        _ => panic!(),
    };
    let mut all = vec![];
    for a in special() {
        for b in next() {
            all.push(format!("{a}{b}"));
        }
    }
    for s in all {
        let ps = text(&s);
        let w: Vec<String> = want(e, &ps).iter().map(|e| if let El::U(v) = e { v.to_string() } else { String::new() }).collect();
        println!("{}\t{}", w.join(" "), r(&ps).unwrap());
    }
}
