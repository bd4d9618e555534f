//! C01-C05: the parser.
use ass_core::parser::ast::{Event, Section, SectionType, Span, Style};
use ass_core::parser::sections::{parse_section_with_context, SectionFormats};
use ass_core::parser::Script;
use vkit::ass::*;
use vkit::*;

pub fn ev_fields<'a>(e: &Event<'a>) -> [(&'static str, Option<&'a str>); 12] {
    [
        ("Layer", Some(e.layer)), ("Start", Some(e.start)), ("End", Some(e.end)), ("Style", Some(e.style)), ("Name", Some(e.name)),
        ("MarginL", Some(e.margin_l)), ("MarginR", Some(e.margin_r)), ("MarginV", Some(e.margin_v)), ("Effect", Some(e.effect)), ("Text", Some(e.text)),
        ("MarginT", e.margin_t), ("MarginB", e.margin_b),
    ]
}
pub fn st_fields<'a>(s: &Style<'a>) -> [(&'static str, Option<&'a str>); 26] {
    [
        ("Name", Some(s.name)), ("Fontname", Some(s.fontname)), ("Fontsize", Some(s.fontsize)), ("PrimaryColour", Some(s.primary_colour)),
        ("SecondaryColour", Some(s.secondary_colour)), ("OutlineColour", Some(s.outline_colour)), ("BackColour", Some(s.back_colour)), ("Bold", Some(s.bold)),
        ("Italic", Some(s.italic)), ("Underline", Some(s.underline)), ("StrikeOut", Some(s.strikeout)), ("ScaleX", Some(s.scale_x)), ("ScaleY", Some(s.scale_y)),
        ("Spacing", Some(s.spacing)), ("Angle", Some(s.angle)), ("BorderStyle", Some(s.border_style)), ("Outline", Some(s.outline)), ("Shadow", Some(s.shadow)),
        ("Alignment", Some(s.alignment)), ("MarginL", Some(s.margin_l)), ("MarginR", Some(s.margin_r)), ("MarginV", Some(s.margin_v)), ("Encoding", Some(s.encoding)),
        ("MarginT", s.margin_t), ("MarginB", s.margin_b), ("RelativeTo", s.relative_to),
    ]
}

/// The AST without positions, as plain data.
#[derive(Debug, Clone, PartialEq)]
pub enum Flat {
    Info(Vec<(String, String)>),
    Styles(Vec<(Option<String>, Vec<Option<String>>)>),
    Events(Vec<(String, Vec<Option<String>>)>),
    Fonts(Vec<(String, Vec<String>)>),
    Graphics(Vec<(String, Vec<String>)>),
}
pub fn flat_section(s: &Section) -> Flat {
    let own = |o: Option<&str>| o.map(|x| x.to_string());
    match s {
        Section::ScriptInfo(i) => Flat::Info(i.fields.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()),
        Section::Styles(v) => Flat::Styles(v.iter().map(|s| (own(s.parent), st_fields(s).iter().map(|f| own(f.1)).collect())).collect()),
        Section::Events(v) => Flat::Events(v.iter().map(|e| (e.event_type.as_str().to_string(), ev_fields(e).iter().map(|f| own(f.1)).collect())).collect()),
        Section::Fonts(v) => Flat::Fonts(v.iter().map(|f| (f.filename.to_string(), f.data_lines.iter().map(|l| l.trim_end().to_string()).collect())).collect()),
        Section::Graphics(v) => Flat::Graphics(v.iter().map(|f| (f.filename.to_string(), f.data_lines.iter().map(|l| l.trim_end().to_string()).collect())).collect()),
    }
}
pub fn flat(s: &Script) -> Vec<Flat> {
    s.sections().iter().map(flat_section).collect()
}
pub fn flat_model(m: &MScript) -> Vec<Flat> {
    m.sections
        .iter()
        .map(|s| match s {
            MSection::Info(f) => Flat::Info(f.iter().map(|(k, v)| (k.trim().to_string(), v.trim().to_string())).collect()),
            MSection::Styles { rows, .. } => {
                let cols = s.style_cols();
                Flat::Styles(
                    rows.iter()
                        .map(|r| {
                            let mut v: Vec<Option<String>> = vec![];
                            for n in STYLE_FIELDS {
                                v.push(Some(col(&cols, &r.vals, n).unwrap_or("").to_string()));
                            }
                            for n in STYLE_EXTRA {
                                v.push(col(&cols, &r.vals, n).map(|s| s.to_string()));
                            }
                            (r.parent.clone(), v)
                        })
                        .collect(),
                )
            }
            MSection::Events { rows, .. } => {
                let cols = s.event_cols();
                Flat::Events(
                    rows.iter()
                        .map(|r| {
                            let mut v: Vec<Option<String>> = vec![];
                            for n in EVENT_FIELDS {
                                v.push(Some(col(&cols, &r.vals, n).unwrap_or("").to_string()));
                            }
                            for n in EVENT_EXTRA {
                                v.push(col(&cols, &r.vals, n).map(|s| s.to_string()));
                            }
                            (r.kind.to_string(), v)
                        })
                        .collect(),
                )
            }
            MSection::Fonts(v) => Flat::Fonts(v.clone()),
            MSection::Graphics(v) => Flat::Graphics(v.clone()),
        })
        .collect()
}
pub fn diff_flat(got: &[Flat], want: &[Flat]) -> R {
    if got == want {
        return Ok(());
    }
    ensure_eq!(got.len(), want.len(), "number of sections");
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            match (g, w) {
                (Flat::Events(a), Flat::Events(b)) => {
                    ensure_eq!(a.len(), b.len(), "section {i}: number of events");
                    for (j, (x, y)) in a.iter().zip(b).enumerate() {
                        ensure_eq!(x, y, "section {i} event {j}");
                    }
                }
                (Flat::Styles(a), Flat::Styles(b)) => {
                    ensure_eq!(a.len(), b.len(), "section {i}: number of styles");
                    for (j, (x, y)) in a.iter().zip(b).enumerate() {
                        ensure_eq!(x, y, "section {i} style {j}");
                    }
                }
                _ => return Err(format!("section {i}: got {g:?}, expected {w:?}")),
            }
        }
    }
    Err("documents differ".into())
}
pub fn parse(s: &str) -> Result<Script<'_>, String> {
    Script::parse(s).map_err(|e| format!("parse returned an error: {e}"))
}
pub fn rows(m: &MScript) -> usize {
    m.sections.iter().map(|s| match s {
        MSection::Styles { rows, .. } => rows.len(),
        MSection::Events { rows, .. } => rows.len(),
        MSection::Info(f) => f.len(),
        MSection::Fonts(v) | MSection::Graphics(v) => v.len(),
    }).sum()
}

// ---- C01 -------------------------------------------------------------------------------------

fn use_everything(s: &str) -> R {
    let sc = parse(s)?;
    let out = sc.to_ass_string();
    let _ = parse(&out)?;
    for sec in sc.sections() {
        let _ = sec.span();
        match sec {
            Section::Events(v) => {
                for e in v {
                    let _ = (e.start_time_cs(), e.end_time_cs(), e.duration_cs(), e.to_ass_string());
                }
            }
            Section::ScriptInfo(i) => {
                let _ = (i.play_resolution(), i.layout_resolution(), i.wrap_style(), i.title().len());
            }
            Section::Fonts(v) => {
                for f in v {
                    let _ = f.decode_data();
                }
            }
            Section::Graphics(v) => {
                for f in v {
                    let _ = f.decode_data();
                }
            }
            Section::Styles(v) => {
                for st in v {
                    let _ = st.to_ass_string();
                }
            }
        }
    }
    let _ = (sc.section_boundaries(), sc.section_at_offset(s.len() / 2), sc.section_range(SectionType::Events));
    for i in sc.issues() {
        let _ = i.format_for_display();
    }
    Ok(())
}
pub fn total_parse(t: &mut T) -> R {
    let s = match t.us(3) {
        0 => hostile(t, 30),
        1 => {
            let (_, s) = document(t, &Opts { unique: false, aliases: true, ..Opts::default() });
            mutate(t, &s, 6)
        }
        _ => {
            let mut s = String::from("[Script Info]\nScriptType: v4.00+\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\n");
            s.push_str(&hostile(t, 10));
            s.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\nDialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,");
            s.push_str(&hostile(t, 14));
            s
        }
    };
    t.input("text", &s);
    t.nontrivial_if(s.len() > 20);
    use_everything(&s)
}
pub fn total_analysis(t: &mut T) -> R {
    use ass_core::analysis::{linting, ScriptAnalysis, StyleAnalyzer};
    let s = match t.us(3) {
        0 => hostile(t, 30),
        1 => {
            let (_, s) = document(t, &Opts { unique: false, aliases: true, ..Opts::default() });
            mutate(t, &s, 4)
        }
        _ => {
            let mut s = String::from("[Script Info]\nScriptType: v4.00+\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, ScaleX\n");
            for _ in 0..t.len(3) {
                s.push_str(&format!("Style: {},{},{},{},{}\n", hostile(t, 2).replace(['\n', '\r', ','], ""), word(t), atom(t), tag_hostile(t).replace(',', ""), atom(t)));
            }
            s.push_str("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
            for _ in 0..t.span(1, 4) {
                let tt = t.pick(&["0:00:00.00,0:00:05.00", "0:00:05.00,0:00:01.00", "1193046:00:00.00,1193046:28:00.00", "x,y", "0:00:01.00,11930:00:00.00", "0:00:00.00,0:00:00.00"]);
                let mut x = String::new();
                for _ in 0..t.len(5) {
                    x.push_str(&tag_hostile(t));
                }
                x.push_str(&hostile(t, 4).replace(['\n', '\r'], " "));
                s.push_str(&format!("Dialogue: 0,{tt},{},,0,0,0,,{x}\n", word(t)));
            }
            s
        }
    };
    t.input("text", &s);
    let sc = parse(&s)?;
    t.nontrivial_if(sc.sections().iter().any(|x| matches!(x, Section::Events(v) if !v.is_empty())));
    if let Ok(a) = ScriptAnalysis::analyze(&sc) {
        let _ = (a.performance_summary(), a.has_critical_issues(), a.lint_issues().len());
        for d in a.dialogue_info() {
            let _ = (d.duration_ms(), d.override_count());
        }
        let _ = ass_core::analysis::events::utils::calculate_total_duration(a.dialogue_info());
        let _ = ass_core::analysis::events::utils::calculate_average_duration(a.dialogue_info());
    }
    let _ = linting::lint_script(&sc, &linting::LintConfig::default());
    let sa = StyleAnalyzer::new(&sc);
    let _ = sa.validate_styles();
    Ok(())
}
pub fn total_tokens(t: &mut T) -> R {
    let s = if t.chance(1, 2) { hostile(t, 30) } else { let (_, s) = document(t, &Opts { aliases: true, ..Opts::default() }); mutate(t, &s, 5) };
    t.input("text", &s);
    t.nontrivial_if(s.len() > 10);
    let mut tk = ass_core::AssTokenizer::new(&s);
    let mut n = 0usize;
    loop {
        match tk.next_token() {
            Ok(None) => break,
            Ok(Some(_)) => {}
            Err(_) => break,
        }
        n += 1;
        ensure!(n <= s.len() + 8, "tokenizer yields more tokens than the {} bytes of input", s.len());
    }
    let mut tk = ass_core::AssTokenizer::new(&s);
    let _ = tk.tokenize_all();
    Ok(())
}
pub fn total_bytes(t: &mut T) -> R {
    use ass_core::parser::streaming::StreamingParser;
    let n = t.len(400);
    let mut b: Vec<u8> = vec![];
    while b.len() < n {
        match t.us(4) {
            0 => b.push(t.u(256) as u8),
            1 => b.extend_from_slice(hostile(t, 4).as_bytes()),
            2 => b.extend_from_slice(t.pick_c(&[&b"\xef\xbb\xbf"[..], b"\xff\xfe", b"\xfe\xff", b"\xff\xfe\0\0", b"\0\0\xfe\xff", b"\xc3", b"\xf0\x9f", b"\x80"])),
            _ => b.extend_from_slice(b"Dialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,x\n"),
        }
    }
    t.input_dbg("bytes", &b);
    t.nontrivial_if(b.len() > 8);
    use ass_core::utils::utf8::*;
    let _ = (detect_bom(&b), detect_encoding(&b), validate_utf8(&b).is_ok());
    let (r, _) = recover_utf8(&b);
    let _ = use_everything(&r);
    let mut p = StreamingParser::new();
    let mut rest = &b[..];
    while !rest.is_empty() {
        let k = (1 + t.us(40)).min(rest.len());
        if p.feed_chunk(&rest[..k]).is_err() {
            break;
        }
        rest = &rest[k..];
    }
    let _ = p.finish();
    Ok(())
}

// ---- C02 -------------------------------------------------------------------------------------

fn within(src: &str, s: &str) -> bool {
    let (a, b) = (src.as_ptr() as usize, src.as_ptr() as usize + src.len());
    let p = s.as_ptr() as usize;
    s.is_empty() || (p >= a && p + s.len() <= b)
}
fn line_of(src: &str, off: usize) -> u32 {
    1 + src.as_bytes()[..off].iter().filter(|b| **b == b'\n').count() as u32
}
fn span_ok(src: &str, sp: &Span, what: &str) -> R {
    ensure!(sp.start <= sp.end && sp.end <= src.len(), "{what}: span {}..{} outside the source of {} bytes", sp.start, sp.end, src.len());
    ensure!(src.is_char_boundary(sp.start) && src.is_char_boundary(sp.end), "{what}: span cuts a character");
    let want = line_of(src, sp.start);
    ensure!(sp.line == want, "{what}: line {} reported for offset {}, which is on line {want}", sp.line, sp.start);
    let ls = src[..sp.start].rfind('\n').map_or(0, |i| i + 1);
    ensure!(sp.column as usize == sp.start - ls + 1, "{what}: column {} reported for byte {} of its line", sp.column, sp.start - ls + 1);
    Ok(())
}
pub fn check_spans(src: &str, sc: &Script) -> R {
    for sec in sc.sections() {
        match sec {
            Section::ScriptInfo(i) => {
                // an empty section at the end of the input has no position of its own
                if i.span.start < i.span.end {
                    span_ok(src, &i.span, "script info")?;
                }
                for (k, v) in &i.fields {
                    ensure!(within(src, k) && within(src, v), "script info field {k:?} does not point into the source");
                    if !k.is_empty() {
                        let o = k.as_ptr() as usize - src.as_ptr() as usize;
                        ensure!(i.span.start <= o && o < i.span.end, "field {k:?} lies outside the section span");
                    }
                }
            }
            Section::Styles(v) => {
                let mut last = 0;
                for s in v {
                    span_ok(src, &s.span, "style")?;
                    ensure!(s.span.start >= last, "style spans are out of order");
                    last = s.span.end;
                    let l = &src[s.span.start..s.span.end];
                    ensure!(!l.contains('\n') && l.trim().starts_with("Style:"), "style span covers {l:?}");
                    for (n, f) in st_fields(s).iter().chain([("parent", s.parent)].iter()) {
                        let f = f.unwrap_or("");
                        ensure!(within(src, f), "style field {n} does not point into the source");
                        ensure!(f.is_empty() || within(l, f), "style field {n}={f:?} lies outside its line {l:?}");
                    }
                }
            }
            Section::Events(v) => {
                let mut last = 0;
                for e in v {
                    span_ok(src, &e.span, "event")?;
                    ensure!(e.span.start >= last, "event spans are out of order");
                    last = e.span.end;
                    let l = &src[e.span.start..e.span.end];
                    ensure!(!l.contains('\n') && l.trim().starts_with(e.event_type.as_str()), "event span covers {l:?}");
                    for (n, f) in ev_fields(e) {
                        let f = f.unwrap_or("");
                        ensure!(f.is_empty() || within(l, f), "event field {n}={f:?} lies outside its line {l:?}");
                    }
                }
            }
            Section::Fonts(v) => {
                for f in v {
                    span_ok(src, &f.span, "font")?;
                    let l = &src[f.span.start..f.span.end];
                    ensure!(f.filename.is_empty() || within(l, f.filename), "font name outside its span");
                    ensure!(f.data_lines.iter().all(|d| within(l, d)), "font data outside its span");
                }
            }
            Section::Graphics(v) => {
                for f in v {
                    span_ok(src, &f.span, "graphic")?;
                    let l = &src[f.span.start..f.span.end];
                    ensure!(f.filename.is_empty() || within(l, f.filename), "graphic name outside its span");
                    ensure!(f.data_lines.iter().all(|d| within(l, d)), "graphic data outside its span");
                }
            }
        }
    }
    for i in sc.issues() {
        let n = 1 + src.matches('\n').count();
        ensure!(i.line >= 1 && i.line <= n + 1, "issue {:?} reported on line {} of {n}", i.message, i.line);
    }
    // the lookup API agrees with the spans
    let bounds: Vec<_> = sc.sections().iter().filter_map(|x| x.span().map(|p| (x.section_type(), p.start..p.end))).collect();
    ensure_eq!(sc.section_boundaries(), bounds, "section boundaries");
    let mut probes = vec![0, src.len(), src.len() / 2, src.len() + 1];
    for (ty, r) in &bounds {
        ensure!(r.start <= r.end && r.end <= src.len(), "boundary of {ty:?} outside the source");
        probes.extend([r.start.saturating_sub(1), r.start, (r.start + r.end) / 2, r.end.saturating_sub(1), r.end, r.end + 1]);
    }
    for o in probes {
        let want = sc.sections().iter().find(|x| x.span().is_some_and(|p| (p.start..p.end).contains(&o)));
        let at = sc.section_at_offset(o);
        ensure!(at.map(|s| s as *const _) == want.map(|s| s as *const _), "section at offset {o}: {:?} instead of {:?}", at.map(|s| s.section_type()), want.map(|s| s.section_type()));
    }
    Ok(())
}
pub fn spans(t: &mut T) -> R {
    let s = match t.us(3) {
        0 => document(t, &Opts { unique: false, aliases: true, ..Opts::default() }).1,
        1 => {
            let (_, s) = document(t, &Opts { unique: false, aliases: true, ..Opts::default() });
            mutate(t, &s, 5)
        }
        _ => hostile(t, 40),
    };
    t.input("text", &s);
    let sc = parse(&s)?;
    t.nontrivial_if(sc.sections().iter().filter(|x| x.span().is_some()).count() >= 2);
    t.label_if(s.contains("\r\n"), "crlf");
    t.label_if(!s.is_ascii(), "non-ascii");
    ensure!(sc.validate_spans(), "validate_spans refuses what the parser made");
    check_spans(&s, &sc)
}

// ---- C03 -------------------------------------------------------------------------------------

pub fn roundtrip(t: &mut T) -> R {
    let (m, s) = document(t, &Opts { aliases: true, ..Opts::default() });
    t.input("text", &s);
    t.nontrivial_if(rows(&m) >= 2);
    let sc = parse(&s)?;
    let out = sc.to_ass_string();
    t.input("serialized", &out);
    let sc2 = parse(&out)?;
    diff_flat(&flat(&sc2), &flat(&sc)).map_err(|e| format!("serialize then parse changed the document: {e}"))?;
    ensure_eq!(sc2.version(), sc.version(), "script version after a round trip");
    ensure_eq!(sc2.to_ass_string(), out, "serializing again");
    Ok(())
}
/// Does some section hold a second Format line, or one after a row?
fn late_format(s: &str) -> bool {
    let mut seen = false;
    for l in s.split('\n') {
        let l = l.trim();
        if l.starts_with('[') && l.ends_with(']') {
            seen = false;
        } else if l.starts_with("Format:") {
            if seen {
                return true;
            }
            seen = true;
        } else if l.starts_with("Style:") || EVENT_KINDS.iter().any(|k| l.starts_with(k)) {
            seen = true;
        }
    }
    false
}
/// Round trip of whatever the parser made of damaged text.
pub fn roundtrip_damaged(t: &mut T) -> R {
    let (_, s) = document(t, &Opts { binary: false, aliases: true, ..Opts::default() });
    let s = mutate(t, &s, 4);
    t.input("text", &s);
    let sc = parse(&s)?;
    let n = |ty| sc.sections().iter().filter(|x| x.section_type() == ty).count();
    if n(SectionType::Styles) > 1 || n(SectionType::Events) > 1 {
        // K01: two sections of one kind share one stored Format
        t.label("several sections of a kind");
        return Ok(());
    }
    // a Format line in mid-section re-reads later rows under other columns: one Format is stored
    if late_format(&s) {
        t.label("format line after rows");
        return Ok(());
    }
    // a parent whose own name starts with the inheritance marker cannot be written down
    if sc.sections().iter().any(|x| matches!(x, Section::Styles(v) if v.iter().any(|s| s.parent.is_some_and(|p| p.starts_with('*'))))) {
        return Ok(());
    }
    t.nontrivial_if(sc.sections().len() >= 2);
    let out = sc.to_ass_string();
    let sc2 = parse(&out)?;
    // a row whose comma-holding column is not the last cannot be told apart; compare when no column repeats
    diff_flat(&flat(&sc2), &flat(&sc)).map_err(|e| format!("serialize then parse changed the document: {e}\nserialized: {out:?}"))
}
/// K01: two sections of one kind with different formats.
pub fn known_two_formats() -> R {
    let s = "[V4+ Styles]\nFormat: Name, Fontname\nStyle: A,Arial\n\n[V4+ Styles]\nFormat: Name, Fontsize\nStyle: B,20\n";
    let sc = parse(s)?;
    let out = sc.to_ass_string();
    let sc2 = parse(&out)?;
    diff_flat(&flat(&sc2), &flat(&sc))
}
/// A line serialized on its own parses back to the same line.
pub fn roundtrip_lines(t: &mut T) -> R {
    let (m, s) = document(t, &Opts { binary: false, aliases: true, ..Opts::default() });
    t.input("text", &s);
    let sc = parse(&s)?;
    t.nontrivial_if(rows(&m) >= 2);
    for sec in sc.sections() {
        match sec {
            Section::Events(v) => {
                let f: Vec<&str> = sc.events_format().map(|f| f.to_vec()).unwrap_or(EVENT_FIELDS.to_vec());
                for e in v {
                    let l = e.to_ass_string_with_format(&f);
                    let back = sc.parse_event_line_with_context(&l, 1).map_err(|x| format!("{l:?} does not parse back: {x}"))?;
                    ensure_eq!(ev_fields(&back), ev_fields(e), "event line {l:?}");
                    ensure_eq!(back.event_type, e.event_type, "type of {l:?}");
                }
            }
            Section::Styles(v) => {
                let f: Vec<&str> = sc.styles_format().map(|f| f.to_vec()).unwrap_or(STYLE_FIELDS.to_vec());
                for st in v {
                    let full = st.to_ass_string_with_format(&f);
                    let l = full.strip_prefix("Style:").unwrap_or(&full).trim();
                    let back = sc.parse_style_line_with_context(l, 1).map_err(|x| format!("{l:?} does not parse back: {x}"))?;
                    ensure_eq!(st_fields(&back), st_fields(st), "style line {l:?}");
                    ensure_eq!(back.parent, st.parent, "parent of {l:?}");
                }
            }
            _ => {}
        }
    }
    Ok(())
}

// ---- C04 -------------------------------------------------------------------------------------

pub fn extract(t: &mut T) -> R {
    let (m, s) = document(t, &Opts { unique: false, aliases: true, ..Opts::default() });
    t.input("text", &s);
    t.nontrivial_if(rows(&m) >= 2);
    let sc = parse(&s)?;
    diff_flat(&flat(&sc), &flat_model(&m))?;
    // every line was taken in
    ensure!(sc.issues().is_empty(), "issues of a well-formed document: {:?}", sc.issues());
    // derived values
    for (sec, ms) in sc.sections().iter().zip(&m.sections) {
        if let (Section::ScriptInfo(i), MSection::Info(f)) = (sec, ms) {
            let first = |k: &str| f.iter().find(|x| x.0 == k).map(|x| x.1.trim());
            for k in ["Title", "ScriptType", "PlayResX", "WrapStyle", "Nope"] {
                ensure_eq!(i.get_field(k), first(k), "script info {k}");
            }
            let res = |a, b| Some((first(a)?.parse::<u32>().ok()?, first(b)?.parse::<u32>().ok()?));
            ensure_eq!(i.play_resolution(), res("PlayResX", "PlayResY"), "play resolution");
            ensure_eq!(i.layout_resolution(), res("LayoutResX", "LayoutResY"), "layout resolution");
            ensure_eq!(i.title(), first("Title").unwrap_or("<untitled>"), "title");
            ensure_eq!(i.script_type(), first("ScriptType"), "script type");
            ensure_eq!(i.wrap_style(), first("WrapStyle").and_then(|v| v.parse().ok()).unwrap_or(0), "wrap style");
        }
    }
    let fmt = |want: &MSection| match want {
        MSection::Styles { format, .. } | MSection::Events { format, .. } => format.clone(),
        _ => None,
    };
    let evs: Vec<&MSection> = m.sections.iter().filter(|s| matches!(s, MSection::Events { .. })).collect();
    if evs.len() == 1 {
        if let Some(f) = fmt(evs[0]) {
            let got: Vec<String> = sc.events_format().unwrap_or(&[]).iter().map(|s| s.to_string()).collect();
            ensure_eq!(got, f, "stored events format");
        }
    }
    Ok(())
}

/// A section's lines parsed under formats given from outside.
pub fn context(t: &mut T) -> R {
    let m = script(t, &Opts { unique: false, aliases: true, ..Opts::default() });
    let l = layout(t);
    if m.sections.is_empty() {
        return Ok(());
    }
    let ms = &m.sections[t.us(m.sections.len())];
    let one = MScript { sections: vec![ms.clone()] };
    let ls: Vec<_> = lines(t, &one, &l).into_iter().skip_while(|x| !matches!(x.0, Tag::Header(_))).skip(1).filter(|x| !matches!(x.0, Tag::Format(_))).collect();
    let s = assemble(&ls, &Layout { bom: false, ..l });
    t.input("text", &s);
    t.nontrivial_if(rows(&one) >= 1);
    let (sc, ec) = (ms.style_cols(), ms.event_cols());
    let give = |c: &[String]| c.to_vec();
    let (sc, ec) = (give(&sc), give(&ec));
    let with = t.chance(5, 6);
    let f = SectionFormats { styles_format: with.then(|| sc.iter().map(|s| s.as_str()).collect()), events_format: with.then(|| ec.iter().map(|s| s.as_str()).collect()) };
    let at = t.us(40) as u32;
    let ty = match ms {
        MSection::Info(_) => SectionType::ScriptInfo,
        MSection::Styles { .. } => SectionType::Styles,
        MSection::Events { .. } => SectionType::Events,
        MSection::Fonts(_) => SectionType::Fonts,
        MSection::Graphics(_) => SectionType::Graphics,
    };
    let got = parse_section_with_context(ty, &s, at, &f);
    let refused = matches!(ty, SectionType::Fonts | SectionType::Graphics) || (!with && ty != SectionType::ScriptInfo);
    ensure_eq!(got.is_err(), refused, "refusal of {ty:?}");
    if let Ok(g) = got {
        diff_flat(&[flat_section(&g)], &flat_model(&one))?;
    }
    Ok(())
}

/// A line of a document, read alone, says what it says there.
pub fn alone(t: &mut T) -> R {
    use ass_core::parser::script::LineContent;
    let m = script(t, &Opts { unique: true, aliases: true, ..Opts::default() });
    let l = layout(t);
    let ls = lines(t, &m, &l);
    let s = assemble(&ls, &l);
    t.input("text", &s);
    let kinds = |f: fn(&MSection) -> bool| m.sections.iter().filter(|s| f(s)).count();
    if kinds(|s| matches!(s, MSection::Styles { .. })) > 1 || kinds(|s| matches!(s, MSection::Events { .. })) > 1 {
        return Ok(());
    }
    t.nontrivial_if(rows(&m) >= 2);
    let sc = parse(&s)?;
    let secs = sc.sections();
    ensure_eq!(secs.len(), m.sections.len(), "sections");
    let f = |x: std::result::Result<LineContent<'_>, String>, what: &str, raw: &str| x.map_err(|e| format!("{what} {raw:?} alone: {e}")).map(|c| match c {
        LineContent::Style(s) => format!("{:?} {:?} line {}", s.parent, st_fields(&s), s.span.line),
        LineContent::Event(e) => format!("{:?} {:?} line {}", e.event_type, ev_fields(&e), e.span.line),
        LineContent::Field(k, v) => format!("{k:?} {v:?}"),
    });
    for (tag, raw) in &ls {
        let n = t.us(60) as u32;
        let e = |x: &dyn std::fmt::Display| x.to_string();
        match *tag {
            Tag::Style(i, j) => {
                let Section::Styles(v) = &secs[i] else { return Err(format!("section {i} is not styles")) };
                let w = &v[j];
                let want = format!("{:?} {:?} line {n}", w.parent, st_fields(w));
                let (ty, c) = sc.parse_line_auto(raw, n).map_err(|x| format!("{raw:?} alone: {x}"))?;
                ensure_eq!(ty, SectionType::Styles, "kind of {raw:?}");
                ensure_eq!(f(Ok(c), "style", raw)?, want, "{raw:?} alone");
                let data = raw.trim().strip_prefix("Style:").ok_or("HARNESS: a style line")?.trim();
                let got = sc.parse_line_in_section(SectionType::Styles, data, n);
                ensure_eq!(got.is_ok(), sc.styles_format().is_some(), "{data:?} in styles with the columns {:?}", sc.styles_format());
                if let Ok(c) = got {
                    ensure_eq!(f(Ok(c), "style", raw)?, want, "{data:?} in styles");
                }
                let c = sc.parse_style_line_with_context(data, n).map_err(|x| e(&x));
                ensure_eq!(f(c.map(|c| LineContent::Style(Box::new(c))), "style", raw)?, want, "{data:?} as a style");
            }
            Tag::Event(i, j) => {
                let Section::Events(v) = &secs[i] else { return Err(format!("section {i} is not events")) };
                let w = &v[j];
                let want = format!("{:?} {:?} line {n}", w.event_type, ev_fields(w));
                let (ty, c) = sc.parse_line_auto(raw, n).map_err(|x| format!("{raw:?} alone: {x}"))?;
                ensure_eq!(ty, SectionType::Events, "kind of {raw:?}");
                ensure_eq!(f(Ok(c), "event", raw)?, want, "{raw:?} alone");
                let line = raw.trim();
                let got = sc.parse_line_in_section(SectionType::Events, line, n);
                ensure_eq!(got.is_ok(), sc.events_format().is_some(), "{line:?} in events with the columns {:?}", sc.events_format());
                if let Ok(c) = got {
                    ensure_eq!(f(Ok(c), "event", raw)?, want, "{line:?} in events");
                }
                let c = sc.parse_event_line_with_context(line, n).map_err(|x| e(&x));
                ensure_eq!(f(c.map(|c| LineContent::Event(Box::new(c))), "event", raw)?, want, "{line:?} as an event");
            }
            Tag::Field(i, j) => {
                let Section::ScriptInfo(v) = &secs[i] else { return Err(format!("section {i} is not script info")) };
                let want = format!("{:?} {:?}", v.fields[j].0, v.fields[j].1);
                let c = sc.parse_line_in_section(SectionType::ScriptInfo, raw, n).map_err(|x| e(&x));
                ensure_eq!(f(c, "field", raw)?, want, "{raw:?} in script info");
                if !raw.trim().starts_with("Style:") && !EVENT_KINDS.iter().any(|k| raw.trim().starts_with(&format!("{k}:"))) {
                    let (ty, c) = sc.parse_line_auto(raw, n).map_err(|x| format!("{raw:?} alone: {x}"))?;
                    ensure_eq!(ty, SectionType::ScriptInfo, "kind of {raw:?}");
                    ensure_eq!(f(Ok(c), "field", raw)?, want, "{raw:?} alone");
                }
            }
            _ => {
                for ty in [SectionType::Fonts, SectionType::Graphics] {
                    ensure!(sc.parse_line_in_section(ty, raw, n).is_err(), "{raw:?} in {ty:?}");
                }
            }
        }
    }
    for ty in [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics] {
        let first = secs.iter().find(|s| s.section_type() == ty);
        ensure!(sc.find_section(ty).map(|s| s as *const _) == first.map(|s| s as *const _), "find_section {ty:?}");
        ensure_eq!(sc.section_range(ty), first.and_then(|s| s.span()).map(|s| s.start..s.end), "section_range {ty:?}");
    }
    Ok(())
}
/// A tracker of positions counts lines and columns as the text has them.
pub fn tracker(t: &mut T) -> R {
    use ass_core::parser::position_tracker::PositionTracker;
    let n = t.us(40);
    let s = t.string_of(n, &["a", "é", "日", "😀", "\n", "\r\n", "\r", " ", "\t", "ab"]);
    t.input("text", &s);
    t.nontrivial_if(s.matches('\n').count() > 0 && s.len() > 8);
    let b = s.as_bytes();
    let at = |o: usize| {
        let start = b[..o].iter().rposition(|x| *x == b'\n').map_or(0, |p| p + 1);
        (o, 1 + b[..o].iter().filter(|x| **x == b'\n').count() as u32, (o - start) as u32 + 1)
    };
    let mut p = PositionTracker::new(&s);
    let mut o = 0;
    let mut marks = vec![(p.checkpoint(), 0)];
    for _ in 0..t.span(1, 8) {
        match t.us(6) {
            0 => {
                let k = t.us(6);
                t.input_dbg("advance", &k);
                p.advance(k);
                o = (o + k).min(b.len());
            }
            1 => {
                let k = t.us(b.len() + 3);
                t.input_dbg("advance_to", &k);
                p.advance_to(k);
                o = o.max(k.min(b.len()));
            }
            2 => {
                t.input_dbg("skip_whitespace", &());
                p.skip_whitespace();
                while o < b.len() && b" \t\r".contains(&b[o]) {
                    o += 1;
                }
            }
            3 => {
                t.input_dbg("skip_line", &());
                p.skip_line();
                o = b[o..].iter().position(|x| *x == b'\n').map_or(b.len(), |k| o + k + 1);
            }
            4 => {
                // a tracker put at a place goes on from it
                let (a, l, c) = at(o);
                p = PositionTracker::new_at(&s, a, l, c);
            }
            _ => marks.push((p.checkpoint(), o)),
        }
        ensure_eq!((p.offset(), p.line(), p.column()), at(o), "offset, line and column");
        ensure_eq!(p.is_at_end(), o >= b.len(), "at end");
        if s.is_char_boundary(o) {
            ensure_eq!(p.remaining(), &s[o..], "remaining");
        }
        let k = t.us(9);
        let (a, l, c) = at(o);
        ensure_eq!(p.span_for(k), Span::new(a, a + k, l, c), "span_for {k}");
        for (m, from) in &marks {
            let (a, l, c) = at(*from);
            if a <= o {
                ensure_eq!(p.span_from(m), Span::new(a, o, l, c), "span_from");
            }
        }
    }
    Ok(())
}

// ---- C05 -------------------------------------------------------------------------------------

/// Insert damage between lines; everything else must come out unchanged.
pub fn isolate(t: &mut T) -> R {
    let m = script(t, &Opts { unique: true, aliases: true, ..Opts::default() });
    let l = layout(t);
    let mut ls = lines(t, &m, &l);
    t.input("clean", &assemble(&ls, &l));
    let n = t.span(1, 3);
    let mut must: Vec<usize> = vec![];
    let mut any: Vec<usize> = vec![];
    let mut kinds = vec![];
    for _ in 0..n {
        let mut must_warn = false;
        // a place, and the section it belongs to
        let at = t.us(ls.len() + 1);
        let sec = ls[..at].iter().rev().find_map(|(g, _)| match g {
            Tag::Header(s) | Tag::Field(s, _) | Tag::Format(s) | Tag::Style(s, _) | Tag::Event(s, _) | Tag::Entry(s, _) | Tag::Data(s, _, _) => Some(*s),
            Tag::Noise => None,
        });
        let bad = match sec.map(|s| &m.sections[s]) {
            Some(MSection::Events { .. }) => match t.us(4) {
                0 => {
                    must_warn = true;
                    t.pick(&["Dialogue: 0", "Comment:", "Dialogue: "]).to_string()
                }
                1 => t.pick(&["Dialog: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,oops", "garbage", "Dialogue 0,1,2,3,4,5,6,7,8,9", "dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,oops", "Style: A,B,C", "=====", ",,,,,,,,,"]).to_string(),
                2 => t.pick(&["日本語だけ", "é", "\u{301}", "🎬: 1,2,3"]).to_string(),
                _ => ";Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,oops".to_string(),
            },
            Some(MSection::Styles { format, .. }) => {
                let need = format.as_ref().map_or(23, |f| f.len());
                match t.us(3) {
                    0 if need > 1 => {
                        must_warn = true;
                        "Style: OnlyName".to_string()
                    }
                    1 => t.pick(&["garbage", "Styl: a,b", "Dialogue: 0,1,2", "style: x,y,z", ",,,"]).to_string(),
                    _ => ";Style: a,b,c".to_string(),
                }
            }
            Some(MSection::Info(_)) => {
                must_warn = true;
                t.pick(&["no colon here", "garbage", "=", "日本語"]).to_string()
            }
            _ => continue,
        };
        kinds.push(bad.clone());
        ls.insert(at, (Tag::Noise, bad));
        for i in must.iter_mut().chain(&mut any) {
            *i += usize::from(*i >= at);
        }
        any.push(at);
        if must_warn {
            must.push(at);
        }
    }
    let s = assemble(&ls, &l);
    t.input("damaged", &s);
    t.nontrivial_if(!kinds.is_empty() && rows(&m) >= 2);
    // a first-column comment marker is only that at the start of a section's own lines
    let sc = parse(&s)?;
    diff_flat(&flat(&sc), &flat_model(&m)).map_err(|e| format!("damage {kinds:?} changed other lines: {e}"))?;
    let at: Vec<usize> = sc.issues().iter().map(|i| i.line).collect();
    for i in must {
        ensure!(at.contains(&(i + 1)), "no issue names the damaged line {}: {:?}", i + 1, sc.issues());
    }
    for i in sc.issues() {
        ensure!(any.iter().any(|a| a + 1 == i.line), "an issue names a sound line: {i:?}");
    }
    check_spans(&s, &sc)
}
/// Unknown sections, garbage before the first header and unclosed headers do not cost later sections.
pub fn isolate_sections(t: &mut T) -> R {
    let m = script(t, &Opts { unique: true, aliases: true, ..Opts::default() });
    let l = layout(t);
    let ls = lines(t, &m, &l);
    let mut out: Vec<(Tag, String)> = vec![];
    let mut cut = false;
    let mut warn = false;
    for (g, x) in ls {
        if let Tag::Header(_) = g {
            if t.chance(1, 2) {
                cut = true;
                match t.us(3) {
                    0 => {
                        warn = true;
                        out.push((Tag::Noise, t.pick(&["[Aegisub Project Garbage]", "[Unknown]", "[Extra data]", "[]", "[ev]", "[Events ]x".trim_end_matches("x")]).replace("Events ", "Eventz")));
                        for _ in 0..t.len(3) {
                            out.push((Tag::Noise, t.pick(&["Data: 1", "Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,lost", "Style: x", "", "; c", "plain"]).to_string()));
                        }
                    }
                    1 => {
                        warn = true;
                        out.push((Tag::Noise, t.pick(&["[Unclosed", "[", "[Events", "[V4+ Styles"]).to_string()));
                        for _ in 0..t.len(2) {
                            out.push((Tag::Noise, t.pick(&["Data: 1", "plain", "Title: no"]).to_string()));
                        }
                    }
                    _ if out.iter().all(|x| x.0 == Tag::Noise && !x.1.trim_start().starts_with('[')) => {
                        warn = true;
                        out.push((Tag::Noise, t.pick(&["garbage", "Title: early", "Dialogue: 0,0:00:00.00,0:00:01.00,Default,,0,0,0,,early"]).to_string()));
                    }
                    _ => {}
                }
            }
        }
        out.push((g, x));
    }
    let s = assemble(&out, &l);
    t.input("text", &s);
    t.nontrivial_if(cut && rows(&m) >= 1);
    let sc = parse(&s)?;
    diff_flat(&flat(&sc), &flat_model(&m))?;
    if warn {
        ensure!(!sc.issues().is_empty(), "damaged section structure raised no issue");
    }
    check_spans(&s, &sc)
}
