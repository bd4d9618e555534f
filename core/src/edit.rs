//! C06-C08, C18: incremental parsing, deltas, streaming, line updates.
use crate::parse::*;
use ass_core::parser::ast::{Section, SectionType, Span};
use ass_core::parser::incremental::*;
use ass_core::parser::Script;
use vkit::ass::*;
use vkit::*;

fn bound(s: &str, i: usize) -> usize {
    let mut i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// A byte range of `s` and its replacement.
pub fn edit(t: &mut T, s: &str) -> (std::ops::Range<usize>, String) {
    let starts: Vec<usize> = std::iter::once(0).chain(s.match_indices('\n').map(|x| x.0 + 1)).collect();
    let li = t.us(starts.len());
    let line = starts[li]..starts.get(li + 1).copied().unwrap_or(s.len());
    let r = match t.us(6) {
        0 => line.start..line.start,
        1 => line.clone(),
        2 => {
            let a = bound(s, line.start + t.us(line.len() + 1));
            a..a
        }
        3 => {
            let a = bound(s, line.start + t.us(line.len() + 1));
            let b = bound(s, a + t.len(12));
            a..b.max(a)
        }
        4 => {
            let lj = (li + t.len(4)).min(starts.len() - 1);
            line.start..starts.get(lj + 1).copied().unwrap_or(s.len())
        }
        _ => s.len()..s.len(),
    };
    let text = match t.us(7) {
        0 => String::new(),
        1 => t.pick(&["x", "é", "日本", ",", "\n", "[", "]", " ", ":", "\r\n", ";", "{", "*"]).to_string(),
        2 => t.pick(&["Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,new\n", "Style: New,Arial,20\n", "Title: new\n", "Comment: 1\n", "; note\n"]).to_string(),
        3 => t.pick(&["[Events]\n", "[V4+ Styles]\n", "[Script Info]\n", "[Fonts]\n", "[Bogus]\n", "\n[Graphics]\n", "[Events", "[V4 Styles]\n"]).to_string(),
        4 => t.pick(&["Format: Text\n", "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n", "Format: Name, Fontname, Fontsize\n", "ScriptType: v4.00\n"]).to_string(),
        5 => s[line.clone()].to_string(),
        _ => hostile(t, 4),
    };
    (r, text)
}
pub fn splice(s: &str, r: &std::ops::Range<usize>, x: &str) -> String {
    format!("{}{}{}", &s[..r.start], x, &s[r.end..])
}
fn same(a: &Script, b: &Script, what: &str) -> R {
    diff_flat(&flat(a), &flat(b)).map_err(|e| format!("{what}: {e}"))?;
    for (i, (x, y)) in a.sections().iter().zip(b.sections()).enumerate() {
        ensure!(x == y, "{what}: section {i} differs in its positions: {x:?} instead of {y:?}");
    }
    ensure_eq!(a.version(), b.version(), "{what}: version");
    ensure_eq!(a.styles_format(), b.styles_format(), "{what}: styles format");
    ensure_eq!(a.events_format(), b.events_format(), "{what}: events format");
    ensure_eq!(a.source(), b.source(), "{what}: source");
    Ok(())
}
fn any_document(t: &mut T) -> String {
    let o = Opts { unique: !t.chance(1, 3), max_rows: 4, aliases: true, ..Opts::default() };
    let (_, s) = document(t, &o);
    if t.chance(1, 4) { mutate(t, &s, 3) } else { s }
}
/// A chain of edits, each parsed incrementally from the previous result.
pub fn incremental(t: &mut T) -> R {
    let mut texts = vec![any_document(t)];
    t.input("text", &texts[0]);
    let mut changes = vec![];
    for _ in 0..t.span(1, 4) {
        let s = texts.last().unwrap();
        let (r, x) = edit(t, s);
        t.input_dbg("edit", &(&r, &x));
        let n = splice(s, &r, &x);
        changes.push(TextChange { line_range: calculate_line_range(s, r.clone()), range: r, new_text: x });
        texts.push(n);
    }
    t.nontrivial_if(texts[0].len() > 40 && texts.windows(2).any(|w| w[0] != w[1]));
    let mut sc = parse(&texts[0])?;
    for (i, c) in changes.iter().enumerate() {
        let fresh = parse(&texts[i + 1])?;
        let aff = sc.affected_sections(c);
        let want: Vec<SectionType> = sc
            .sections()
            .iter()
            .filter(|s| {
                s.span().is_some_and(|p| (c.range.start < p.end && c.range.end > p.start) || (c.range.is_empty() && c.range.start == p.end))
            })
            .map(|s| s.section_type())
            .collect();
        ensure_eq!(aff, want, "affected sections of edit {i}");
        let d = sc.parse_partial(c.range.clone(), &c.new_text).map_err(|e| format!("partial parse of edit {i} failed: {e}"))?;
        let pd = ass_core::parser::calculate_delta(&sc, &fresh);
        let show = |s: &Section| format!("{s:?}");
        ensure_eq!(d.added, pd.added.iter().map(show).collect::<Vec<_>>(), "partial parse of edit {i}: added sections");
        ensure_eq!(d.modified, pd.modified.iter().map(|(k, s)| (*k, show(s))).collect::<Vec<_>>(), "partial parse of edit {i}: modified sections");
        ensure_eq!(d.removed, pd.removed, "partial parse of edit {i}: removed sections");
        let inc = sc.parse_incremental(&texts[i + 1], c).map_err(|e| format!("incremental parse of edit {i} failed: {e}"))?;
        same(&inc, &fresh, &format!("incremental parse after edit {i}"))?;
        sc = inc;
    }
    Ok(())
}
/// Range arithmetic used by incremental parsing, against characters carrying their identity.
pub fn ranges(t: &mut T) -> R {
    let s = if t.chance(1, 2) { any_document(t) } else { hostile(t, 12) };
    let (r, x) = edit(t, &s);
    t.input("text", &s);
    t.input_dbg("edit", &(&r, &x));
    let a = bound(&s, t.us(s.len() + 1));
    let b = bound(&s, t.us(s.len() + 1));
    let o = a.min(b)..a.max(b);
    t.input_dbg("range", &o);
    t.nontrivial_if(!o.is_empty() && (!r.is_empty() || !x.is_empty()));
    let n = ass_core::parser::build_modified_source(&s, r.clone(), &x);
    ensure_eq!(n, splice(&s, &r, &x), "modified source");
    let lr = calculate_line_range(&s, r.clone());
    let ln = |i: usize| 1 + s[..i].matches('\n').count() as u32;
    if r.start < s.len() {
        ensure_eq!(lr, ln(r.start)..ln(r.end), "line range");
    }
    ensure_eq!(calculate_line_number(&s, r.start), ln(r.start), "line number");
    let c = TextChange { range: r.clone(), new_text: x.clone(), line_range: lr };
    let q = adjust_range_for_change(o.clone(), &c);
    ensure!(q.start <= q.end && q.end <= n.len(), "adjusted range {q:?} outside the new text of {} bytes", n.len());
    if !o.is_empty() && r.start >= o.end {
        ensure_eq!(q, o, "a range before the edit");
    }
    // every byte of the range that survives is in the adjusted range, every surviving byte outside is not
    let place = |i: usize| if i < r.start { Some(i) } else if i >= r.end { Some(i - r.end + r.start + x.len()) } else { None };
    for i in 0..s.len() {
        if let Some(p) = place(i) {
            // bytes replaced together with the start of the range may drag its start to the edit
            let inside = o.contains(&i);
            if inside || o.is_empty() || !(r.start < o.end && r.end > o.start) {
                ensure!(q.contains(&p) == inside, "byte {i} of the text, now at {p}, {} the range {o:?} but not the adjusted {q:?}", if inside { "was in" } else { "was outside" });
            }
        }
    }
    // section bound searches: never fail on a hint, agree with the text
    let hint = t.us(s.len() + 20);
    let ty = t.pick_c(&[SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics]);
    let heads = ["[Script Info]", "[V4+ Styles]", "[Events]", "[Fonts]", "[Graphics]"];
    let head = heads[match ty { SectionType::ScriptInfo => 0, SectionType::Styles => 1, SectionType::Events => 2, SectionType::Fonts => 3, SectionType::Graphics => 4 }];
    let ls = |p: usize| s[..p].rfind('\n').map_or(0, |i| i + 1);
    let h = bound(&s, hint);
    if let Ok(p) = find_section_header_start(&s, hint, ty) {
        let at = s[..h].rfind(head).ok_or("a header was found where the text has none")?;
        ensure_eq!(p, ls(at), "start of the header line");
    } else if let Some(at) = s[..h].rfind(head) {
        ensure!(hint - at > 100 || hint > s.len(), "header at {at} not found from {hint}");
    }
    let e = find_section_end(&s, hint, ty).map_err(|e| format!("{e}"))?;
    let want = heads.iter().filter_map(|x| s[h..].find(x)).min().map_or(s.len(), |p| ls(h + p));
    ensure_eq!(e, want, "end of the section");
    Ok(())
}

// ---- C07 -------------------------------------------------------------------------------------

fn strip(s: &Section) -> Flat {
    match s {
        Section::Fonts(v) => Flat::Fonts(v.iter().map(|f| (f.filename.to_string(), f.data_lines.iter().map(|l| l.to_string()).collect())).collect()),
        Section::Graphics(v) => Flat::Graphics(v.iter().map(|f| (f.filename.to_string(), f.data_lines.iter().map(|l| l.to_string()).collect())).collect()),
        _ => flat_section(s),
    }
}
fn by_type(v: &[(SectionType, Flat)]) -> Vec<(SectionType, Vec<Flat>)> {
    [SectionType::ScriptInfo, SectionType::Styles, SectionType::Events, SectionType::Fonts, SectionType::Graphics]
        .into_iter()
        .map(|k| (k, v.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect()))
        .collect()
}
/// A second document: unrelated, edited, or with one value of the first changed.
fn pair(t: &mut T) -> (String, String) {
    let o = Opts { unique: !t.chance(1, 2), max_rows: 4, aliases: true, ..Opts::default() };
    match t.us(4) {
        0 => {
            let a = any_document(t);
            let b = any_document(t);
            (a, b)
        }
        1 => {
            let a = any_document(t);
            let mut b = a.clone();
            for _ in 0..t.span(1, 3) {
                let (r, x) = edit(t, &b);
                b = splice(&b, &r, &x);
            }
            (a, b)
        }
        _ => {
            // change, drop, duplicate or swap whole model parts
            let mut m = script(t, &o);
            // many sections of one kind
            if t.chance(1, 6) && !m.sections.is_empty() {
                let c = m.sections[t.us(m.sections.len())].clone();
                for _ in 0..t.span(1, 4) {
                    let j = t.us(m.sections.len() + 1);
                    m.sections.insert(j, c.clone());
                }
            }
            let mut n = m.clone();
            for _ in 0..t.len(3) {
                if n.sections.is_empty() {
                    break;
                }
                let i = t.us(n.sections.len());
                match t.us(6) {
                    0 => {
                        n.sections.remove(i);
                    }
                    1 => {
                        let c = n.sections[i].clone();
                        for _ in 0..t.weighted(&[0, 6, 1, 1, 1]) {
                            let j = t.us(n.sections.len() + 1);
                            n.sections.insert(j, c.clone());
                        }
                    }
                    2 => {
                        let j = t.us(n.sections.len());
                        n.sections.swap(i, j);
                    }
                    _ => {
                        let k = t.us(64);
                        let l = t.us(64);
                        let v = t.pick(&["", "changed", "0", "7"]).to_string();
                        match &mut n.sections[i] {
                            MSection::Info(f) if !f.is_empty() => {
                                let k = k % f.len();
                                if l % 3 == 0 { f.remove(k); } else { f[k].1 = v }
                            }
                            MSection::Styles { rows, .. } if !rows.is_empty() => {
                                let k = k % rows.len();
                                if l % 7 == 0 {
                                    rows.remove(k);
                                } else if l % 7 == 1 {
                                    rows[k].parent = if rows[k].parent.is_some() { None } else { Some("P".into()) };
                                } else {
                                    let n = rows[k].vals.len();
                                    rows[k].vals[l % n] = v;
                                }
                            }
                            MSection::Events { rows, .. } if !rows.is_empty() => {
                                let k = k % rows.len();
                                if l % 7 == 0 {
                                    rows.remove(k);
                                } else if l % 7 == 1 {
                                    rows[k].kind = if rows[k].kind == "Comment" { "Dialogue" } else { "Comment" };
                                } else {
                                    let n = rows[k].vals.len();
                                    rows[k].vals[l % n] = v;
                                }
                            }
                            MSection::Fonts(f) | MSection::Graphics(f) if !f.is_empty() => {
                                let k = k % f.len();
                                if l % 3 == 0 {
                                    f.remove(k);
                                } else if l % 3 == 1 && f[k].1.len() > 1 {
                                    f[k].1.pop();
                                } else {
                                    f[k].0 = "other.bin".into();
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
            let l = layout(t);
            let a = assemble(&lines(t, &m, &l), &l);
            let b = assemble(&lines(t, &n, &l), &l);
            (a, b)
        }
    }
}
pub fn delta(t: &mut T) -> R {
    let (a, b) = pair(t);
    t.input("old", &a);
    t.input("new", &b);
    let (x, y) = (parse(&a)?, parse(&b)?);
    let (fx, fy): (Vec<_>, Vec<_>) = (
        x.sections().iter().map(|s| (s.section_type(), strip(s))).collect(),
        y.sections().iter().map(|s| (s.section_type(), strip(s))).collect(),
    );
    t.nontrivial_if(!fx.is_empty() && fx != fy);
    let d = ass_core::parser::calculate_delta(&x, &y);
    let mut z: Vec<Option<(SectionType, Flat)>> = fx.iter().cloned().map(Some).collect();
    for (i, s) in &d.modified {
        ensure!(*i < z.len(), "modified section {i} of {}", z.len());
        ensure!(!d.removed.contains(i), "section {i} both modified and removed");
        ensure!(fx[*i].1 != strip(s), "section {i} listed as modified but equal");
        z[*i] = Some((s.section_type(), strip(s)));
    }
    for i in &d.removed {
        ensure!(*i < z.len() && z[*i].is_some(), "removed section {i} does not exist or is listed twice");
        z[*i] = None;
    }
    let mut z: Vec<(SectionType, Flat)> = z.into_iter().flatten().collect();
    z.extend(d.added.iter().map(|s| (s.section_type(), strip(s))));
    ensure_eq!(by_type(&z), by_type(&fy), "applying the delta");
    let quiet = d.added.is_empty() && d.modified.is_empty() && d.removed.is_empty();
    if by_type(&fx) == by_type(&fy) {
        ensure!(quiet, "a delta between equal scripts: {d:?}");
    }
    if d.is_empty() {
        ensure!(by_type(&fx) == by_type(&fy) && y.issues().is_empty(), "an empty delta between different scripts");
    }
    let e = ass_core::parser::calculate_delta(&x, &x);
    ensure!(e.added.is_empty() && e.modified.is_empty() && e.removed.is_empty(), "a script differs from itself: {e:?}");
    Ok(())
}
/// `a.diff(b)`: b with the listed removals and additions is a, and equal sections are not listed.
pub fn diff(t: &mut T) -> R {
    use ass_core::parser::script::Change;
    let (a, b) = pair(t);
    t.input("this", &a);
    t.input("other", &b);
    let (x, y) = (parse(&a)?, parse(&b)?);
    t.nontrivial_if(x.sections() != y.sections());
    let ch = x.diff(&y);
    let mut z: Vec<Option<Section>> = y.sections().iter().cloned().map(Some).collect();
    for c in &ch {
        match c {
            Change::SectionRemoved { section_type, index } => {
                ensure!(*index < z.len() && z[*index].as_ref().map(|s| s.section_type()) == Some(*section_type), "removal of section {index} of type {section_type:?} does not match");
                z[*index] = None;
            }
            Change::SectionAdded { section, index } => {
                while z.len() <= *index {
                    z.push(None);
                }
                ensure!(z[*index].is_none(), "section {index} added over an existing one");
                z[*index] = Some(section.clone());
            }
            c => return Err(format!("unexpected change {c:?}")),
        }
    }
    let z: Vec<Section> = z.into_iter().flatten().collect();
    ensure!(z.as_slice() == x.sections(), "applying the diff gives {z:?} instead of {:?}", x.sections());
    for (i, (p, q)) in x.sections().iter().zip(y.sections()).enumerate() {
        if p == q {
            let touched = ch.iter().any(|c| matches!(c, Change::SectionRemoved { index, .. } | Change::SectionAdded { index, .. } if *index == i));
            ensure!(!touched, "equal section {i} listed in the diff");
        }
    }
    Ok(())
}

// ---- C08 -------------------------------------------------------------------------------------

pub fn streaming(t: &mut T) -> R {
    use ass_core::parser::streaming::StreamingParser;
    let mut b: Vec<u8> = if t.chance(3, 4) { any_document(t).into_bytes() } else { hostile(t, 20).into_bytes() };
    if t.chance(1, 3) && !b.is_empty() {
        for _ in 0..t.span(1, 2) {
            let i = t.us(b.len());
            match t.us(3) {
                0 => b[i] = t.u(256) as u8,
                1 => b.insert(i, t.pick_c(&[0xff, 0x80, 0xc3, 0xf0, 0xe6])),
                _ => b.truncate(i),
            }
            if b.is_empty() {
                break;
            }
        }
    }
    let valid = std::str::from_utf8(&b).is_ok();
    t.input_dbg("bytes", &String::from_utf8_lossy(&b));
    let run = |cuts: &[usize], p: &mut StreamingParser| -> Result<usize, String> {
        let mut n = 0;
        let mut last = 0;
        for &c in cuts.iter().chain([b.len()].iter()) {
            n += p.feed_chunk(&b[last..c]).map_err(|e| format!("{e}"))?.len();
            last = c;
        }
        Ok(n)
    };
    let mut p = StreamingParser::new();
    let one = run(&[], &mut p).and_then(|n| p.finish().map(|r| (n, r)).map_err(|e| format!("{e}")));
    ensure_eq!(one.is_ok(), valid, "feeding valid={valid} bytes at once: accepted");
    let mut inside = false;
    let mut used = StreamingParser::new();
    for _ in 0..4 {
        let mut cuts = t.vec(12, |t| t.us(b.len() + 1));
        cuts.sort();
        inside |= valid && cuts.iter().any(|c| *c < b.len() && (b[*c] & 0xc0) == 0x80);
        t.input_dbg("cuts", &cuts);
        // an abandoned document leaves nothing behind
        if t.chance(1, 3) {
            let c = t.us(b.len() + 1);
            let _ = used.feed_chunk(&b[..c]);
            used.reset();
            t.input_dbg("abandoned after", &c);
        }
        let r = run(&cuts, &mut used);
        // the parser of a failed feed is reset and used again
        let r = match r {
            Ok(n) => {
                let p = std::mem::replace(&mut used, StreamingParser::with_capacity(16));
                p.finish().map(|x| (n, x)).map_err(|e| format!("{e}"))
            }
            Err(e) => {
                used.reset();
                Err(e)
            }
        };
        match (&one, &r) {
            (Ok((n, a)), Ok((m, c))) => {
                ensure_eq!(n, m, "deltas reported with cuts {cuts:?}");
                ensure_eq!(a.sections(), c.sections(), "sections with cuts {cuts:?}");
                ensure_eq!(a.version(), c.version(), "version with cuts {cuts:?}");
                ensure_eq!(a.issues().len(), c.issues().len(), "issues with cuts {cuts:?}");
            }
            (Err(_), Err(_)) => {}
            (a, c) => return Err(format!("cuts {cuts:?}: accepted {} instead of {} ({:?})", c.is_ok(), a.is_ok(), c.as_ref().err())),
        }
    }
    t.label_if(inside, "cut inside a character");
    t.nontrivial_if(b.len() > 20);
    Ok(())
}
/// The streaming line processor's public state, against a model of sections and the parser's own headers.
pub fn line_state(t: &mut T) -> R {
    use ass_core::parser::streaming::{LineProcessor, ParserState, SectionKind};
    let s = any_document(t);
    t.input("text", &s);
    let mut p = LineProcessor::new();
    let mut cur: Option<SectionKind> = None;
    let mut fmt: [Option<String>; 2] = [None, None];
    let mut cont = false;
    let mut n = 0;
    for (i, l) in s.lines().enumerate() {
        p.process_line(l).map_err(|e| format!("line {i}: {e}"))?;
        n += 1;
        let tr = l.trim();
        let skip = tr.is_empty() || tr.starts_with(';') || tr.starts_with("!:");
        if !skip && tr.starts_with('[') && tr.ends_with(']') {
            let name = &tr[1..tr.len() - 1];
            let k = SectionKind::from_header(name);
            // the same header means the same section to the document parser
            let probe = format!("[{}]\nFormat: Name, Text\n", name.trim());
            if !name.contains('[') && !name.contains(']') {
                let sc = parse(&probe)?;
                let got = sc.sections().first().map(|s| s.section_type());
                let want = match k {
                    SectionKind::ScriptInfo => Some(SectionType::ScriptInfo),
                    SectionKind::Styles => Some(SectionType::Styles),
                    SectionKind::Events => Some(SectionType::Events),
                    SectionKind::Fonts => Some(SectionType::Fonts),
                    SectionKind::Graphics => Some(SectionType::Graphics),
                    SectionKind::Unknown => None,
                };
                ensure_eq!(want, got, "kind of header [{name}]");
            }
            cur = Some(k);
            cont = false;
            match k {
                SectionKind::Styles => fmt[0] = None,
                SectionKind::Events => fmt[1] = None,
                _ => {}
            }
        } else if !skip {
            // a line after an event is its continuation and only ends it
            if !cont {
                if let (Some(k), Some(f)) = (cur, tr.strip_prefix("Format:")) {
                    match k {
                        SectionKind::Styles => fmt[0] = Some(f.trim().to_string()),
                        SectionKind::Events => fmt[1] = Some(f.trim().to_string()),
                        _ => {}
                    }
                }
            }
            cont = matches!(p.state, ParserState::InEvent { .. });
        }
        ensure_eq!(p.state.current_section(), cur, "section after line {}", i + 1);
        ensure_eq!(p.state.is_in_section(), cur.is_some(), "being in a section after line {}", i + 1);
        ensure_eq!(p.context.current_section, cur, "context section after line {}", i + 1);
        ensure_eq!(p.context.line_number as usize, n, "line number after line {}", i + 1);
        ensure_eq!(p.context.styles_format, fmt[0], "styles format after line {}", i + 1);
        ensure_eq!(p.context.events_format, fmt[1], "events format after line {}", i + 1);
    }
    t.nontrivial_if(n > 4);
    p.reset();
    ensure!(!p.state.is_in_section() && p.context.line_number == 0 && p.context.events_format.is_none() && p.context.styles_format.is_none(), "reset leaves state behind");
    Ok(())
}
#[allow(dead_code)]
pub fn span0() -> Span {
    Span::new(0, 0, 1, 1)
}
