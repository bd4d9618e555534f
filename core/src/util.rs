//! C10-C13: times, colours and numbers, embedded data, text decoding.
use crate::parse::*;
use ass_core::parser::ast::Section;
use ass_core::utils::utf8::*;
use ass_core::utils::*;
use vkit::ass::*;
use vkit::*;

// ---- C10 -------------------------------------------------------------------------------------

fn any_cs(t: &mut T) -> u32 {
    match t.us(4) {
        0 => t.range(0, 20_000) as u32,
        1 => t.range(0, 36_000_000) as u32,
        2 => t.pick_c(&[0, 1, 99, 100, 5999, 6000, 6001, 359_999, 360_000, 360_001, u32::MAX, u32::MAX - 1, 99 * 360_000]),
        _ => t.range(0, u32::MAX as i64) as u32,
    }
}
pub fn time_values(t: &mut T) -> R {
    let cs = any_cs(t);
    t.input_dbg("centiseconds", &cs);
    t.nontrivial_if(cs > 0);
    let s = format_ass_time(cs);
    ensure_eq!(s, fmt_time(cs), "formatted time");
    ensure_eq!(parse_ass_time(&s).ok(), Some(cs), "parsing {s:?} back");
    let b = any_cs(t);
    let r = format!("{}", fmt_time(b));
    let doc = format!("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,{s},{r},Default,,0,0,0,,x\n");
    let sc = parse(&doc)?;
    if let Some(Section::Events(v)) = sc.sections().first() {
        ensure_eq!(v[0].start_time_cs().ok(), Some(cs), "start of the event");
        ensure_eq!(v[0].end_time_cs().ok(), Some(b), "end of the event");
        ensure_eq!(v[0].duration_cs().ok(), Some(b.saturating_sub(cs)), "duration of the event");
    } else {
        return Err("no event parsed".into());
    }
    Ok(())
}
/// The accepted form, written plainly; the fraction counts centiseconds.
fn ref_time(s: &str) -> Option<u32> {
    let p: Vec<&str> = s.split(':').collect();
    let [h, m, sec] = p[..] else { return None };
    let f: Vec<&str> = sec.split('.').collect();
    let num = |x: &str| -> Option<u64> {
        let d = x.strip_prefix('+').unwrap_or(x);
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let v = d.parse::<u128>().unwrap_or(u128::MAX);
        if v > u32::MAX as u128 { None } else { Some(v as u64) }
    };
    let (h, m, s) = (num(h)?, num(m)?, num(f[0])?);
    let c = match f.get(1) {
        Some(x) if x.starts_with('+') => return None,
        Some(x) => num(x)?,
        None => 0,
    };
    if m >= 60 || s >= 60 {
        return None;
    }
    u32::try_from(h.checked_mul(360_000)?.checked_add(m * 6000 + s * 100 + c)?).ok()
}
pub fn time_strings(t: &mut T) -> R {
    let part = |t: &mut T| -> String {
        match t.us(4) {
            0 => t.range(0, 70).to_string(),
            1 => format!("{:02}", t.range(0, 60)),
            2 => t.pick(&["", "0", "59", "60", "99", "100", "4294967295", "4294967296", "11930", "11931", "-1", "+1", " 1", "1 ", "x", "é", "1e2", "0x1", "٣", "00000000000000000000001", "-0", "1_0"]).to_string(),
            _ => t.range(0, 12_000).to_string(),
        }
    };
    let s = if t.chance(1, 8) {
        t.string_of(14, &["0", "1", ":", ".", "5", "9", "-", " ", "é", ","])
    } else {
        let (a, b, c, d) = (part(t), part(t), part(t), part(t));
        let sep = t.pick(&[":", ":", ":", ":", ".", ";", "::", " :"]);
        match t.us(6) {
            0 => format!("{a}:{b}:{c}"),
            1 => format!("{a}:{b}"),
            2 => format!("{a}:{b}:{c}.{d}.{a}"),
            3 => format!("{a}{sep}{b}{sep}{c}.{d}"),
            _ => format!("{a}:{b}:{c}.{d}"),
        }
    };
    t.input("time", &s);
    let want = ref_time(&s);
    t.nontrivial_if(s.matches(':').count() == 2);
    t.label_if(want.is_some(), "accepted");
    match (parse_ass_time(&s), want) {
        (Ok(a), Some(b)) => ensure_eq!(a, b, "value of {s:?}"),
        (Err(CoreError::InvalidTime(_)), None) => {}
        (a, b) => return Err(format!("{s:?} parsed as {a:?}, expected {b:?}")),
    }
    Ok(())
}

// ---- C11 -------------------------------------------------------------------------------------

pub fn color_values(t: &mut T) -> R {
    let v = match t.us(3) {
        0 => t.range(0, 0xFFFF_FFFF) as u32,
        1 => 0xFFu32 << (8 * t.us(4)),
        _ => t.range(0, 0xFFFF_FFFF) as u32 & 0x00FF_FFFF,
    };
    let (a, b, g, r) = ((v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8);
    let six = t.chance(1, 3);
    let mut h = if six { format!("{b:02X}{g:02X}{r:02X}") } else { format!("{a:02X}{b:02X}{g:02X}{r:02X}") };
    if t.chance(1, 3) {
        h = h.to_lowercase();
    }
    let s = match t.us(6) {
        0 => format!("&H{h}&"),
        1 => format!("&H{h}"),
        2 => format!("&h{h}&"),
        3 => format!("&h{h}"),
        4 => format!("0x{h}"),
        _ => h,
    };
    let s = format!("{}{s}{}", t.pick(&["", " ", "\t"]), t.pick(&["", " ", "\r"]));
    t.input("colour", &s);
    t.nontrivial_if(v != 0);
    ensure_eq!(parse_bgr_color(&s).ok(), Some([r, g, b, if six { 0 } else { a }]), "channels of {s:?}");
    Ok(())
}
pub fn color_strings(t: &mut T) -> R {
    let body = t.string_of(10, &["0", "F", "f", "9", "A", "1", "G", "+", "-", "&", "H", "é", " ", "x", "_"]);
    let s = format!("{}{body}{}", t.pick(&["", "&H", "&h", "0x", "&", "H", " &H", "0X", "&H&H"]), t.pick(&["", "&", "&&", " ", "& "]));
    t.input("colour", &s);
    let x = s.trim();
    let pre = x.strip_prefix("&H").or(x.strip_prefix("&h"));
    let hex = match pre {
        Some(p) => Some(p.strip_suffix('&').unwrap_or(p)),
        None => Some(x.strip_prefix("0x").unwrap_or(x)),
    };
    let good = hex.filter(|h| (h.len() == 6 || h.len() == 8) && h.bytes().all(|c| c.is_ascii_hexdigit())).and_then(|h| u32::from_str_radix(h, 16).ok().map(|v| (v, h.len())));
    let want = good.map(|(v, n)| [v as u8, (v >> 8) as u8, (v >> 16) as u8, if n == 8 { (v >> 24) as u8 } else { 0 }]);
    t.nontrivial_if(x.len() >= 6);
    t.label_if(want.is_some(), "accepted");
    match (parse_bgr_color(&s), want) {
        (Ok(a), Some(b)) => ensure_eq!(a, b, "channels of {s:?}"),
        (Err(CoreError::InvalidColor(_)), None) => {}
        (a, b) => return Err(format!("{s:?} parsed as {a:?}, expected {b:?}")),
    }
    // the format validator: six or eight hex digits after &H, or a decimal number
    let ok = match pre {
        Some(p) => {
            let h = p.strip_suffix('&').unwrap_or(p);
            (h.len() == 6 || h.len() == 8) && h.bytes().all(|c| c.is_ascii_hexdigit())
        }
        None => x.parse::<u32>().is_ok(),
    };
    ensure_eq!(ass_core::utils::errors::validate_color_format(&s).is_ok(), ok, "validate_color_format({s:?})");
    Ok(())
}
pub fn numbers(t: &mut T) -> R {
    let s = match t.us(4) {
        0 => t.range(i64::MIN / 2, i64::MAX / 2).to_string(),
        1 => t.pick(&["", "0", "-1", "+1", "255", "256", "-128", "2147483647", "2147483648", "-2147483649", "1.5", ".5", "5.", "1e3", "-1e-3", "nan", "inf", "NaN", "1 2", "é", "0x10", "1_000", "٣", "--1", "1,5", "-0", "-0.0", "18446744073709551616"]).to_string(),
        2 => t.string_of(8, &["0", "1", "9", ".", "-", "+", "e", " ", "E"]),
        _ => t.range(-300, 300).to_string(),
    };
    let s = format!("{}{s}{}", t.pick(&["", " ", "\t", "\u{a0}"]), t.pick(&["", "  ", "\r"]));
    t.input("number", &s);
    t.nontrivial_if(!s.trim().is_empty());
    macro_rules! same {
        ($($ty:ty),*) => { $(
            let (a, b) = (parse_numeric::<$ty>(&s), s.trim().parse::<$ty>());
            match (&a, &b) {
                (Ok(x), Ok(y)) => ensure!(format!("{x:?}") == format!("{y:?}"), "{s:?} as {}: got {x:?}, expected {y:?}", stringify!($ty)),
                (Err(CoreError::InvalidNumeric(_)), Err(_)) => {}
                _ => return Err(format!("{s:?} as {}: got {a:?}, expected {b:?}", stringify!($ty))),
            }
        )* };
    }
    same!(u8, i32, u32, i64, f32, f64, u16);
    ensure_eq!(normalize_field_value(&s), s.trim(), "normalized value");
    let n = t.string_of(6, &["a", "é", ",", ":", "{", "}", " ", "\t", "\n", "\u{0}", "\\", "*", "\u{7f}", "\u{85}", "日"]);
    t.input("name", &n);
    let ok = !n.is_empty() && n.chars().all(|c| !matches!(c, ',' | ':' | '{' | '}') && (!c.is_control() || c == '\t'));
    ensure_eq!(validate_ass_name(&n), ok, "validate_ass_name");
    // the curve: de Casteljau in double precision
    let mut p = [(0f32, 0f32); 4];
    for q in &mut p {
        *q = (t.range(-1000, 1000) as f32 / 4.0, t.range(-1000, 1000) as f32 / 4.0);
    }
    let u = t.range(0, 64) as f32 / 64.0;
    t.input_dbg("curve", &(p, u));
    let l = |a: (f64, f64), b: (f64, f64)| (a.0 + (b.0 - a.0) * u as f64, a.1 + (b.1 - a.1) * u as f64);
    let q: Vec<(f64, f64)> = p.iter().map(|x| (x.0 as f64, x.1 as f64)).collect();
    let (a, b, c) = (l(q[0], q[1]), l(q[1], q[2]), l(q[2], q[3]));
    let w = l(l(a, b), l(b, c));
    let g = eval_cubic_bezier(p[0], p[1], p[2], p[3], u);
    ensure!((g.0 as f64 - w.0).abs() < 1e-3 && (g.1 as f64 - w.1).abs() < 1e-3, "curve point {g:?}, expected {w:?}");
    Ok(())
}

// ---- C12 -------------------------------------------------------------------------------------

/// One data line for at most 45 bytes; `z` writes the zero, `cut` drops trailing zero characters.
pub fn uu_line(d: &[u8], z: char, cut: bool) -> String {
    let e = |v: u8| if v == 0 { z } else { (b' ' + v) as char };
    let mut s = String::new();
    s.push((b' ' + d.len() as u8) as char);
    for c in d.chunks(3) {
        let (a, b, g) = (c[0], c.get(1).copied().unwrap_or(0), c.get(2).copied().unwrap_or(0));
        for v in [a >> 2, (a & 3) << 4 | b >> 4, (b & 15) << 2 | g >> 6, g & 63] {
            s.push(e(v));
        }
    }
    if cut {
        // what the last group lacks counts as zero
        let n = s.trim_end_matches(z).len().max(s.len() - 3);
        s.truncate(n);
    }
    s
}
fn payload(t: &mut T) -> Vec<u8> {
    let n = t.len(200);
    let style = t.us(4);
    (0..n)
        .map(|_| match style {
            0 => t.u(256) as u8,
            1 => 0,
            2 => t.pick_c(&[0u8, 0xff, 0x20, 0x60, 0x3b]),
            _ => t.u(4) as u8,
        })
        .collect()
}
fn encode(t: &mut T, d: &[u8], may_cut: bool) -> Vec<String> {
    let z = if t.chance(1, 3) { ' ' } else { '`' };
    let cut = may_cut && t.chance(1, 4);
    let w = if t.chance(1, 2) { 45 } else { t.span(1, 45) };
    let mut v = vec![];
    let mut rest = d;
    while !rest.is_empty() {
        let k = if t.chance(1, 4) { t.span(1, 45) } else { w }.min(rest.len());
        v.push(uu_line(&rest[..k], z, cut));
        rest = &rest[k..];
    }
    v
}
pub fn uu(t: &mut T) -> R {
    let d = payload(t);
    let lines = encode(t, &d, true);
    t.input_dbg("bytes", &d);
    t.input_dbg("lines", &lines);
    t.nontrivial_if(d.len() > 3);
    let got = decode_uu_data(lines.iter().map(|s| s.as_str())).map_err(|e| format!("{e}"))?;
    ensure_eq!(got, d, "decoded bytes");
    // anything after the terminator is not data; blank lines and stray text with an impossible length are skipped
    let mut w = lines.clone();
    let i = t.us(w.len() + 1);
    w.insert(i, t.pick(&["", "  ", "comment in small letters", "\r", "日本"]).to_string());
    w.push(t.pick(&["`", " ", "end", "end of file"]).to_string());
    if t.chance(1, 2) {
        // an end marker, then more
        if w.last().unwrap().starts_with("end") {
            w.push("#86%T".into());
        }
    }
    t.input_dbg("with extras", &w);
    ensure_eq!(decode_uu_data(w.iter().map(|s| s.as_str())).ok(), Some(d.clone()), "decoded bytes with extra lines");
    // losing the last lines loses the last bytes only
    let k = t.us(lines.len() + 1);
    let part = decode_uu_data(lines[..k].iter().map(|s| s.as_str())).map_err(|e| format!("{e}"))?;
    ensure!(d.starts_with(&part), "a truncated file decodes to bytes that were not encoded");
    let want: usize = lines[..k].iter().map(|l| (l.as_bytes()[0] - b' ') as usize).sum();
    ensure_eq!(part.len(), want, "length of the truncated file");
    Ok(())
}
pub fn uu_document(t: &mut T) -> R {
    let mut doc = String::new();
    let nl = if t.chance(1, 4) { "\r\n" } else { "\n" };
    let mut want: Vec<(bool, Vec<(String, Vec<u8>)>)> = vec![];
    if t.chance(1, 2) {
        doc.push_str(&format!("[Script Info]{nl}Title: x{nl}"));
    }
    for font in if t.chance(1, 3) { vec![false, true] } else { vec![true, false] } {
        if t.chance(1, 4) {
            continue;
        }
        doc.push_str(if font { "[Fonts]" } else { "[Graphics]" });
        doc.push_str(nl);
        let mut v = vec![];
        for _ in 0..t.span(1, 3) {
            let name = t.pick(&["a.ttf", "Ärial 2.otf", "x", "logo.png"]).to_string();
            let d = payload(t);
            doc.push_str(&format!("{}: {name}{nl}", if font { "fontname" } else { "filename" }));
            for l in encode(t, &d, false) {
                doc.push_str(&l);
                doc.push_str(nl);
            }
            if t.chance(1, 4) {
                doc.push_str(nl);
            }
            v.push((name, d));
        }
        want.push((font, v));
    }
    if t.chance(1, 2) {
        doc.push_str(&format!("[Events]{nl}Format: Start, End, Text{nl}Dialogue: 0:00:00.00,0:00:01.00,x{nl}"));
    }
    t.input("text", &doc);
    t.nontrivial_if(want.iter().any(|x| x.1.iter().any(|y| y.1.len() > 3)));
    let check = |src: &str, what: &str| -> R {
        let sc = parse(src)?;
        let mut got = vec![];
        for s in sc.sections() {
            match s {
                Section::Fonts(v) => got.push((true, v.iter().map(|f| Ok((f.filename.to_string(), f.decode_data().map_err(|e| format!("{e}"))?))).collect::<Result<Vec<_>, String>>()?)),
                Section::Graphics(v) => got.push((false, v.iter().map(|f| Ok((f.filename.to_string(), f.decode_data().map_err(|e| format!("{e}"))?))).collect::<Result<Vec<_>, String>>()?)),
                _ => {}
            }
        }
        ensure_eq!(got, want, "{what}");
        Ok(())
    };
    check(&doc, "embedded files")?;
    let sc = parse(&doc)?;
    check(&sc.to_ass_string(), "embedded files after writing the script out")?;
    Ok(())
}

// ---- C13 -------------------------------------------------------------------------------------

fn bytes(t: &mut T) -> Vec<u8> {
    let mut b: Vec<u8> = t.pick_c(&[&b""[..], b"", b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"\xef\xbb", b"\xef"]).to_vec();
    for _ in 0..t.len(12) {
        match t.us(5) {
            0 => b.push(t.u(256) as u8),
            1 => b.extend_from_slice(t.pick(&["a", "é", "日本", "🎬", "\u{fffd}", "\n", "\r", "\r\n", " ", "\t", "\u{a0}", "\u{2003}", "\u{0}", "\u{85}", "\u{7f}", "\u{feff}", "  "]).as_bytes()),
            2 => b.extend_from_slice(t.pick(&["[Script Info]", "Dialogue:", "PlayRes", "Style:", "hello", "[V4+ Styles]"]).as_bytes()),
            3 => b.extend_from_slice(t.pick_c(&[&b"\xc3"[..], b"\xf0\x9f", b"\x80", b"\xe6\x97", b"\xed\xa0\x80", b"\xf5", b"\xc0\xaf"])),
            _ => b.extend_from_slice(b"text"),
        }
    }
    b
}
pub fn decoding(t: &mut T) -> R {
    let b = bytes(t);
    t.input_dbg("bytes", &b);
    t.nontrivial_if(b.len() > 4);
    let std = std::str::from_utf8(&b);
    // byte order marks
    let marks: [(&[u8], BomType, &str); 5] = [
        (b"\xff\xfe\0\0", BomType::Utf32Le, "UTF-32LE"),
        (b"\0\0\xfe\xff", BomType::Utf32Be, "UTF-32BE"),
        (b"\xef\xbb\xbf", BomType::Utf8, "UTF-8"),
        (b"\xff\xfe", BomType::Utf16Le, "UTF-16LE"),
        (b"\xfe\xff", BomType::Utf16Be, "UTF-16BE"),
    ];
    let m = marks.iter().find(|m| b.starts_with(m.0));
    ensure_eq!(detect_bom(&b), m.map(|m| (m.1, m.0.len())), "detect_bom");
    for m in &marks {
        ensure!(m.1.signature() == m.0 && m.1.len() == m.0.len() && !m.1.is_empty() && m.1.encoding_name() == m.2, "properties of {:?}", m.1);
    }
    let e = detect_encoding(&b);
    let likely = |s: &str| ["[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[Graphics]", "Dialogue:", "Comment:", "ScriptType:", "PlayRes", "Style:"].iter().any(|k| s.contains(k));
    let want = match (m, &std) {
        (Some(m), _) => (m.2, Some(m.1), true),
        (None, Ok(_)) => ("UTF-8", None, true),
        (None, Err(_)) => ("Windows-1252", None, false),
    };
    ensure_eq!((e.encoding.as_str(), e.bom_type, e.is_valid), (want.0, want.1, e.is_valid), "detect_encoding");
    ensure_eq!(e.has_bom, m.is_some(), "has_bom");
    ensure!(e.confidence > 0.0 && e.confidence <= 1.0, "confidence {}", e.confidence);
    if let (None, Ok(s)) = (m, &std) {
        ensure_eq!(is_likely_ass_content(s), likely(s), "is_likely_ass_content");
        ensure_eq!(e.confidence > 0.9, likely(s), "confidence {}", e.confidence);
    }
    // validation
    for (n, r) in [("validate_utf8", validate_utf8(&b)), ("validate_utf8_detailed", ass_core::utils::errors::validate_utf8_detailed(&b))] {
        match (r, &std) {
            (Ok(()), Ok(_)) => {}
            (Err(CoreError::Utf8Error { position, .. }), Err(e)) => ensure_eq!(position, e.valid_up_to(), "{n}: position"),
            (r, s) => return Err(format!("{n} says {r:?}, the standard library {s:?}")),
        }
    }
    // repair keeps every valid run and replaces each invalid sequence once
    let (rec, n) = recover_utf8(&b);
    let mut want = String::new();
    let mut bad = 0;
    let mut rest = &b[..];
    loop {
        match std::str::from_utf8(rest) {
            Ok(s) => {
                want.push_str(s);
                break;
            }
            Err(e) => {
                want.push_str(std::str::from_utf8(&rest[..e.valid_up_to()]).unwrap());
                want.push('\u{fffd}');
                bad += 1;
                match e.error_len() {
                    Some(l) => rest = &rest[e.valid_up_to() + l..],
                    None => break,
                }
            }
        }
    }
    ensure_eq!(rec, want, "repaired text");
    if bad == 0 || !String::from_utf8_lossy(&b).contains('\u{fffd}') || want.matches('\u{fffd}').count() == bad {
        ensure_eq!(n, bad, "number of replacements");
    }
    ensure_eq!(count_replacement_chars(&rec), rec.chars().filter(|c| *c == '\u{fffd}').count(), "count_replacement_chars");
    let handled = ass_core::utils::errors::validate_bom_handling(&b).is_ok();
    match m {
        Some(m) => ensure_eq!(handled, m.1 == BomType::Utf8, "validate_bom_handling of a {} mark", m.2),
        None if b.first() != Some(&0xef) => ensure!(handled, "validate_bom_handling rejects text without a mark"),
        None => {}
    }
    Ok(())
}
pub fn text(t: &mut T) -> R {
    let b = bytes(t);
    let s = String::from_utf8_lossy(&b).into_owned();
    t.input("text", &s);
    t.nontrivial_if(s.chars().count() > 4);
    let (x, had) = strip_bom(&s);
    ensure_eq!((x, had), (s.strip_prefix('\u{feff}').unwrap_or(&s), s.starts_with('\u{feff}')), "strip_bom");
    // line endings
    let mut w = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            w.push('\n');
        } else {
            w.push(c);
        }
    }
    let n = normalize_line_endings(&s);
    ensure_eq!(n, w, "normalize_line_endings");
    ensure_eq!(normalize_line_endings(&n), n, "normalizing line endings twice");
    let w: String = s.chars().filter(|c| !c.is_control() || matches!(c, '\n' | '\r' | '\t')).collect();
    ensure_eq!(remove_control_chars(&s), w, "remove_control_chars");
    let sp: String = s.chars().map(|c| if c.is_whitespace() && c != '\n' && c != '\t' { ' ' } else { c }).collect();
    ensure_eq!(normalize_whitespace(&s, false), sp, "normalize_whitespace");
    let mut col = sp.clone();
    while col.contains("  ") {
        col = col.replace("  ", " ");
    }
    ensure_eq!(normalize_whitespace(&s, true), col, "normalize_whitespace with collapsing");
    ensure_eq!(trim_lines(&s), s.lines().map(|l| l.trim()).collect::<Vec<_>>().join("\n"), "trim_lines");
    let k = t.us(s.len() + 4);
    let (u, cut) = truncate_at_char_boundary(&s, k);
    ensure!(s.starts_with(u) && u.len() <= k, "truncation to {k} bytes gives {u:?}");
    ensure_eq!(cut, s.len() > k, "was truncated");
    ensure!(!cut || u.len() + s[u.len()..].chars().next().map_or(0, |c| c.len_utf8()) > k, "truncation to {k} bytes drops more than needed");
    let ok = |c: char| c.is_ascii_graphic() || matches!(c, ' ' | '\t' | '\n' | '\r') || (!c.is_ascii() && !c.is_control());
    let want = s.chars().all(ok);
    ensure_eq!(is_valid_ass_text(&s), want, "is_valid_ass_text");
    ensure_eq!(ass_core::utils::errors::validate_ass_text_content(&s).is_ok(), want, "validate_ass_text_content");
    // span queries
    let q = Spans::new(&s);
    let bs: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
    let i = t.us(bs.len());
    let j = i + t.us(bs.len() - i);
    let sub = &s[bs[i]..bs[j]];
    ensure_eq!(q.span_offset(sub), Some(bs[i]), "span_offset");
    ensure_eq!(q.span_line(sub), Some(1 + s[..bs[i]].matches('\n').count()), "span_line");
    ensure_eq!(q.span_column(sub), Some(1 + s[..bs[i]].rsplit('\n').next().unwrap().chars().count()), "span_column");
    ensure_eq!(q.substring(bs[i]..bs[j]), Some(sub), "substring");
    let foreign = String::from("zzz");
    ensure!(!q.validate_span(&foreign) && q.span_offset(&foreign).is_none(), "a foreign string counts as a span");
    // limits
    use ass_core::utils::errors::*;
    let (a, b, l) = (any_size(t), any_size(t), any_size(t));
    ensure_eq!(check_memory_limit(a, b, l).is_ok(), a.checked_add(b).is_some_and(|x| x <= l), "check_memory_limit({a}, {b}, {l})");
    Ok(())
}
fn any_size(t: &mut T) -> usize {
    match t.us(3) {
        0 => t.us(20),
        1 => t.pick_c(&[0, 1, usize::MAX, usize::MAX - 1, usize::MAX / 2]),
        _ => t.us(1 << 40),
    }
}
