//! C09: the tokenizer against a reference lexer, its scanners against naive ones, and against a build without SIMD.
use ass_core::tokenizer::{AssTokenizer, TokenType};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use vkit::ass::*;
use vkit::*;

/// Tokens as lines "kind start end line column", then "end" or "error".
pub fn dump(s: &str) -> String {
    let mut o = String::new();
    let mut tk = AssTokenizer::new(s);
    let mut n = 0;
    loop {
        match tk.next_token() {
            Ok(Some(x)) => {
                let a = x.span.as_ptr() as usize - s.as_ptr() as usize;
                let _ = writeln!(o, "{:?} {} {} {} {}", x.token_type, a, a + x.span.len(), x.line, x.column);
            }
            Ok(None) => {
                let _ = writeln!(o, "end");
                return o;
            }
            Err(_) => {
                let _ = writeln!(o, "error");
                return o;
            }
        }
        n += 1;
        if n > s.len() + 8 {
            let _ = writeln!(o, "too many tokens");
            return o;
        }
    }
}
/// Server loop of the scalar build: length-prefixed text in, length-prefixed dump out.
pub fn serve() {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut l = [0u8; 4];
    while i.read_exact(&mut l).is_ok() {
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        if i.read_exact(&mut b).is_err() {
            return;
        }
        let s = String::from_utf8_lossy(&b).into_owned();
        let d = std::panic::catch_unwind(|| dump(&s)).unwrap_or_else(|_| "panic".into());
        let _ = o.write_all(&(d.len() as u32).to_le_bytes());
        let _ = o.write_all(d.as_bytes());
        let _ = o.flush();
    }
}
thread_local! { static SERVER: RefCell<Option<Child>> = const { RefCell::new(None) }; }
fn scalar(s: &str) -> Result<Option<String>, String> {
    let Ok(bin) = std::env::var("VERIF_SCALAR_BIN") else { return Ok(None) };
    SERVER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(Command::new(bin).arg("serve-tokens").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("scalar build: {e}"))?);
        }
        let ch = c.as_mut().unwrap();
        let mut go = || -> std::io::Result<String> {
            let i = ch.stdin.as_mut().unwrap();
            i.write_all(&(s.len() as u32).to_le_bytes())?;
            i.write_all(s.as_bytes())?;
            i.flush()?;
            let o = ch.stdout.as_mut().unwrap();
            let mut l = [0u8; 4];
            o.read_exact(&mut l)?;
            let mut b = vec![0; u32::from_le_bytes(l) as usize];
            o.read_exact(&mut b)?;
            Ok(String::from_utf8_lossy(&b).into_owned())
        };
        match go() {
            Ok(d) => Ok(Some(d)),
            Err(e) => {
                *c = None;
                Err(format!("the build without SIMD died on this input: {e}"))
            }
        }
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Doc,
    Head,
    Field,
    Over,
}
/// The documented lexical rules, written plainly.
fn reference(s: &str) -> String {
    let bom = if s.starts_with('\u{feff}') { 3 } else { 0 };
    let c: Vec<(usize, char)> = s[bom..].char_indices().map(|(i, c)| (i + bom, c)).collect();
    let off = |i: usize| c.get(i).map_or(s.len(), |x| x.0);
    // line and column of every character
    let (mut line, mut col) = (1, 1);
    let mut pos = vec![];
    for (i, x) in c.iter().enumerate() {
        pos.push((line, col));
        match x.1 {
            '\r' => (line, col) = (line + 1, 1),
            '\n' => {
                if i == 0 || c[i - 1].1 != '\r' {
                    line += 1;
                }
                col = 1;
            }
            _ => col += 1,
        }
    }
    let ws = |x: char| x.is_whitespace() && x != '\n' && x != '\r';
    let mut o = String::new();
    let mut ctx = Ctx::Doc;
    let mut i = 0;
    loop {
        if ctx != Ctx::Field {
            while i < c.len() && ws(c[i].1) {
                i += 1;
            }
        }
        if i >= c.len() {
            let _ = writeln!(o, "end");
            return o;
        }
        let st = i;
        let until = |mut j: usize, f: &dyn Fn(char) -> bool| {
            while j < c.len() && !f(c[j].1) {
                j += 1;
            }
            j
        };
        let classify = |a: usize, b: usize, field: bool| {
            let x: String = c[a..b].iter().map(|x| x.1).collect();
            let hex = x.strip_prefix("&H").map(|h| h.strip_suffix('&').unwrap_or(h)).is_some_and(|h| !h.is_empty() && h.len() % 2 == 0 && h.len() <= 8 && h.chars().all(|c| c.is_ascii_hexdigit()));
            if hex && !field {
                TokenType::HexValue
            } else if !x.is_empty() && x.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-' || (field && c == ':')) {
                TokenType::Number
            } else if !x.is_empty() && x.chars().all(char::is_whitespace) {
                TokenType::Whitespace
            } else {
                TokenType::Text
            }
        };
        let text = |ctx: Ctx| {
            let e = until(st, &|x| matches!(x, ',' | ':' | '{' | '}' | '[' | ']' | '\n' | '\r') || (x == ';' && ctx == Ctx::Doc));
            (if ctx == Ctx::Head { TokenType::SectionName } else { classify(st, e, false) }, e)
        };
        let eol = |x: char| x == '\n' || x == '\r';
        let (k, e) = match (c[i].1, ctx) {
            ('[', _) => {
                ctx = Ctx::Head;
                (TokenType::SectionHeader, until(i + 1, &|x| x == ']'))
            }
            (']', Ctx::Head) => {
                ctx = Ctx::Doc;
                (TokenType::SectionClose, i + 1)
            }
            (':', Ctx::Doc) => {
                ctx = Ctx::Field;
                (TokenType::Colon, i + 1)
            }
            ('{', _) => {
                ctx = Ctx::Over;
                let mut d = 1;
                let mut j = i + 1;
                while j < c.len() {
                    match c[j].1 {
                        '{' => d += 1,
                        '}' => d -= 1,
                        _ => {}
                    }
                    if d == 0 {
                        break;
                    }
                    j += 1;
                }
                (TokenType::OverrideBlock, j)
            }
            ('}', Ctx::Over) => {
                ctx = Ctx::Doc;
                (TokenType::OverrideClose, i + 1)
            }
            (',', _) => (TokenType::Comma, i + 1),
            ('\n' | '\r', _) => {
                ctx = Ctx::Doc;
                let two = c[i].1 == '\r' && c.get(i + 1).is_some_and(|x| x.1 == '\n');
                (TokenType::Newline, i + 1 + two as usize)
            }
            (';', Ctx::Doc) => (TokenType::Comment, until(i, &eol)),
            ('!', Ctx::Doc) if c.get(i + 1).is_some_and(|x| x.1 == ':') => (TokenType::Comment, until(i, &eol)),
            ('}' | ']', _) => (TokenType::Text, i + 1),
            _ if ctx == Ctx::Field => {
                let e = until(i, &|x| matches!(x, ',' | '\n' | '\r' | '{' | '['));
                (classify(i, e, true), e)
            }
            _ => text(ctx),
        };
        if e == st {
            let _ = writeln!(o, "error");
            return o;
        }
        let _ = writeln!(o, "{:?} {} {} {} {}", k, off(st), off(e), pos[st].0, pos[st].1);
        i = e;
    }
}
fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("got {x:?}, expected {y:?}");
        }
    }
    format!("got {} tokens, expected {}", a.lines().count(), b.lines().count())
}
fn input(t: &mut T) -> String {
    match t.us(5) {
        0 => hostile(t, 30),
        1 => document(t, &Opts { aliases: true, ..Opts::default() }).1,
        2 => {
            let (_, s) = document(t, &Opts { aliases: true, ..Opts::default() });
            mutate(t, &s, 5)
        }
        3 => {
            // long runs around the vector width
            let mut s = String::new();
            for _ in 0..t.span(1, 5) {
                let n = t.span(0, 40);
                let f = t.pick(&["a", "é", "日", "1", " ", "🎬", ";"]);
                s.push_str(&f.repeat(n));
                s.push_str(t.pick(&[":", ",", "{", "}", "[", "]", "\n", "\r", ";", "!:", "&H00FF00&", "", "!"]));
            }
            s
        }
        _ => {
            let mut s = t.string_of(40, &["a", "b", "1", ".", "-", ":", ",", "{", "}", "[", "]", "\n", "\r", "\r\n", ";", "!", "!:", " ", "\t", "é", "日", "&H", "FF", "&", "\u{a0}", "\u{2028}", "\\"]);
            if t.chance(1, 10) {
                s.insert(0, '\u{feff}');
            }
            s
        }
    }
}
pub fn tokens(t: &mut T) -> R {
    let s = input(t);
    t.input("text", &s);
    let d = dump(&s);
    let r = reference(&s);
    t.nontrivial_if(d.lines().count() > 3);
    t.label_if(d.ends_with("error\n"), "rejected");
    ensure!(d == r, "token stream: {}", first_difference(&d, &r));
    // resetting starts over, and position queries follow the tokens
    let mut tk = AssTokenizer::new(&s);
    for _ in 0..t.us(5) {
        if let Ok(Some(x)) = tk.next_token() {
            let e = x.span.as_ptr() as usize - s.as_ptr() as usize + x.span.len();
            ensure_eq!(tk.position(), e, "position after a token");
        }
    }
    tk.reset();
    let a = tk.next_token().ok().flatten().map(|x| (format!("{:?}", x.token_type), x.span.to_string(), x.line, x.column));
    let b = AssTokenizer::new(&s).next_token().ok().flatten().map(|x| (format!("{:?}", x.token_type), x.span.to_string(), x.line, x.column));
    ensure_eq!(a, b, "first token after a reset");
    // the batch call returns the same tokens or an error
    let mut tk = AssTokenizer::new(&s);
    if let Ok(v) = tk.tokenize_all() {
        let x: String = v.iter().map(|x| {
            let a = x.span.as_ptr() as usize - s.as_ptr() as usize;
            format!("{:?} {} {} {} {}\n", x.token_type, a, a + x.span.len(), x.line, x.column)
        }).collect::<String>() + "end\n";
        ensure!(x == d, "tokenize_all: {}", first_difference(&x, &d));
    } else {
        ensure!(d.ends_with("error\n") || d.lines().count() > 50, "tokenize_all rejects {} tokens that next_token yields", d.lines().count() - 1);
    }
    Ok(())
}
pub fn simd_equal(t: &mut T) -> R {
    let s = input(t);
    t.input("text", &s);
    let d = dump(&s);
    t.nontrivial_if(s.len() >= 16 && d.lines().count() > 3);
    match scalar(&s)? {
        Some(r) => ensure!(d == r, "the build without SIMD disagrees: {}", first_difference(&d, &r)),
        None => t.label("no scalar build given"),
    }
    Ok(())
}
pub fn kernels(t: &mut T) -> R {
    kernels_impl(t)
}
#[cfg(not(feature = "simd"))]
fn kernels_impl(_: &mut T) -> R {
    Ok(())
}
#[cfg(feature = "simd")]
fn kernels_impl(t: &mut T) -> R {
    use ass_core::tokenizer::simd::*;
    let mut s = String::new();
    for _ in 0..t.span(1, 4) {
        let n = t.span(0, 36);
        let f = t.pick(&["a", "é", "日", "1", " ", "🎬", "z", ";", "\u{7f}", "\\", "|", "~", "\u{1a}", "/"]);
        s.push_str(&f.repeat(n));
        if t.chance(1, 2) {
            s.push_str(t.pick(&[":", ",", "{", "}", "[", "]", "\n", "\r"]));
        }
    }
    t.input("text", &s);
    t.nontrivial_if(s.len() >= 16);
    ensure_eq!(scan_delimiters(&s), s.find([':', ',', '{', '}', '[', ']', '\n', '\r']), "scan_delimiters");
    let mut b = s.into_bytes();
    if t.chance(1, 2) && !b.is_empty() {
        let i = t.us(b.len());
        b[i] = t.u(256) as u8;
        if t.chance(1, 4) {
            let n = t.us(b.len() + 1);
            b.truncate(n);
        }
    }
    t.input_dbg("bytes", &b);
    match (validate_utf8_batch(&b), std::str::from_utf8(&b)) {
        (Ok(()), Ok(_)) => {}
        (Err(ass_core::utils::CoreError::Utf8Error { position, .. }), Err(e)) => ensure_eq!(position, e.valid_up_to(), "position of the first invalid byte"),
        (a, e) => return Err(format!("validate_utf8_batch says {a:?}, the standard library {e:?}")),
    }
    let h = t.string_of(9, &["0", "9", "a", "f", "A", "F", "1", "g", "G", "+", "-", " ", "é", "@", "`", "/", ":"]);
    t.input("hex", &h);
    let want = if h.is_empty() || h.len() > 8 || !h.bytes().all(|c| c.is_ascii_hexdigit()) { None } else { u32::from_str_radix(&h, 16).ok() };
    ensure_eq!(parse_hex_u32(&h), want, "parse_hex_u32");
    Ok(())
}
