//! C14-C17: event timing, text analysis, style resolution, linting.
use crate::parse::*;
use ass_core::analysis::events::*;
use ass_core::analysis::linting::*;
use ass_core::analysis::styles::analyzer::AnalysisOptions;
use ass_core::analysis::styles::*;
use ass_core::analysis::*;
use ass_core::parser::ast::{Event, EventType, Section, Style};
use ass_core::plugin::ExtensionRegistry;
use ass_core::utils::{parse_ass_time, parse_bgr_color};
use std::collections::BTreeMap;
use vkit::ass::*;
use vkit::*;

// ---- C14 -------------------------------------------------------------------------------------

fn small_time(t: &mut T) -> u32 {
    match t.weighted(&[5, 3, 1]) {
        0 => t.range(0, 12) as u32 * 50,
        1 => t.range(0, 3000) as u32,
        _ => t.pick_c(&[0u32, 1, 359_999, 360_000, 35_999_999, u32::MAX - 1, u32::MAX]),
    }
}
fn bad_time(t: &mut T) -> String {
    t.pick(&["", "x", "0:60:00.00", "0:00", "0:00:00.00.0:", "-1:00:00.00", "99999999999:00:00.00"]).to_string()
}
pub fn timing(t: &mut T) -> R {
    let n = t.len(12);
    let ordered = t.chance(1, 3);
    let mut times: Vec<(u32, u32)> = (0..n)
        .map(|_| {
            let a = small_time(t);
            let b = if t.chance(1, 4) { small_time(t) } else { a.saturating_add(small_time(t)) };
            (a, b)
        })
        .collect();
    if ordered {
        times.sort();
    }
    let mut strs: Vec<(String, String)> = times.iter().map(|x| (fmt_time(x.0), fmt_time(x.1))).collect();
    let mut bad = vec![];
    if n > 0 && t.chance(1, 8) {
        let i = t.us(n);
        let s = bad_time(t);
        if t.chance(1, 2) { strs[i].0 = s } else { strs[i].1 = s }
        bad.push(i);
    }
    t.input_dbg("times", &strs);
    t.nontrivial_if(n >= 3);
    let kinds = [EventType::Dialogue, EventType::Comment];
    let evs: Vec<Event> = strs
        .iter()
        .enumerate()
        .map(|(i, s)| Event { event_type: kinds[i % 2], start: &s.0, end: &s.1, text: "x", ..Event::default() })
        .collect();
    let on = |i: usize, j: usize| {
        let ((a, b), (c, d)) = (times[i], times[j]);
        a < b && c < d && a < d && c < b
    };
    let norm = |v: Vec<(usize, usize)>| {
        let mut v: Vec<(usize, usize)> = v.into_iter().map(|(a, b)| (a.min(b), a.max(b))).collect();
        v.sort();
        v
    };
    let mut want = vec![];
    for i in 0..n {
        for j in i + 1..n {
            if on(i, j) {
                want.push((i, j));
            }
        }
    }
    t.label_if(!want.is_empty(), "overlaps");
    let refs: Vec<&Event> = evs.iter().collect();
    if bad.is_empty() {
        ensure_eq!(find_overlapping_events(&evs).map(norm).ok(), Some(want.clone()), "overlapping pairs");
        ensure_eq!(find_overlapping_event_refs(&refs).map(norm).ok(), Some(want.clone()), "overlapping pairs of references");
        ensure_eq!(count_overlapping_events(&evs).ok(), Some(want.len()), "number of overlapping pairs");
    } else if n >= 2 {
        ensure!(find_overlapping_events(&evs).is_err(), "a malformed time was accepted by the overlap search");
        ensure!(count_overlapping_events(&evs).is_err(), "a malformed time was accepted by the overlap count");
    }
    // durations straight on the events
    for (i, e) in evs.iter().enumerate() {
        if bad.contains(&i) {
            ensure!(e.duration_cs().is_err(), "a duration of event {i} with a malformed time");
        } else {
            ensure_eq!(e.duration_cs().ok(), Some(times[i].1.saturating_sub(times[i].0)), "duration of event {i}");
            ensure_eq!(e.start_time_cs().ok(), Some(times[i].0), "start of event {i}");
            ensure_eq!(e.end_time_cs().ok(), Some(times[i].1), "end of event {i}");
        }
    }
    // analysed events: exactly those with a positive duration
    let mut infos = vec![];
    let mut ids = vec![];
    for (i, e) in evs.iter().enumerate() {
        let ok = !bad.contains(&i) && times[i].0 < times[i].1;
        match DialogueInfo::analyze(e) {
            Ok(d) => {
                ensure!(ok, "event {i} has no positive duration but was analysed");
                infos.push(d);
                ids.push(i);
            }
            Err(_) => ensure!(!ok, "event {i} was refused"),
        }
    }
    let tm: Vec<(u32, u32)> = ids.iter().map(|i| times[*i]).collect();
    for (k, d) in infos.iter().enumerate() {
        ensure_eq!((d.start_time_cs(), d.end_time_cs()), tm[k], "times of event {k}");
        ensure_eq!(d.duration_cs(), tm[k].1 - tm[k].0, "duration of event {k}");
        ensure_eq!(d.duration_ms(), (tm[k].1 - tm[k].0).saturating_mul(10), "duration in ms of event {k}");
        ensure!(std::ptr::eq(d.event(), &evs[ids[k]]), "event of analysis {k}");
        for (l, e) in infos.iter().enumerate() {
            let ((a, b), (c, f)) = (tm[k], tm[l]);
            let want = if (a, b) == (c, f) {
                TimingRelation::Identical
            } else if !(a < f && c < b) {
                TimingRelation::NoOverlap
            } else if (a <= c && f <= b) || (c <= a && b <= f) {
                TimingRelation::FullOverlap
            } else {
                TimingRelation::PartialOverlap
            };
            ensure_eq!(d.timing_relation(e), want, "relation of {:?} to {:?}", tm[k], tm[l]);
        }
    }
    let (qa, qb) = (small_time(t), small_time(t));
    let (qa, qb) = (qa.min(qb), qa.max(qb));
    if qa < qb {
        let want: Vec<usize> = (0..tm.len()).filter(|k| tm[*k].0 < qb && qa < tm[*k].1).collect();
        ensure_eq!(find_events_in_range(&infos, qa, qb), want, "events in {qa}..{qb}");
        for (k, d) in infos.iter().enumerate() {
            ensure_eq!(d.overlaps_time_range(qa, qb), want.contains(&k), "event {k} overlaps {qa}..{qb}");
        }
    }
    let mut pairs = vec![];
    for k in 0..tm.len() {
        for l in k + 1..tm.len() {
            if on(ids[k], ids[l]) {
                pairs.push((k, l));
            }
        }
    }
    ensure_eq!(norm(find_overlapping_dialogue_events(&infos)), pairs, "overlapping pairs of analysed events");
    ensure_eq!(count_overlapping_dialogue_events(&infos), pairs.len(), "count of overlapping analysed events");
    let total = tm.iter().map(|x| x.1).max().map(|e| e - tm.iter().map(|x| x.0).min().unwrap());
    ensure_eq!(calculate_total_duration(&infos), total, "total duration");
    let avg = if tm.is_empty() { None } else { Some((tm.iter().map(|x| (x.1 - x.0) as u64).sum::<u64>() / tm.len() as u64) as u32) };
    ensure_eq!(calculate_average_duration(&infos), avg, "average duration");
    let mut sorted = infos.clone();
    sort_events_by_time(&mut sorted);
    let mut want: Vec<usize> = (0..tm.len()).collect();
    want.sort_by_key(|k| tm[*k]);
    let got: Vec<*const Event> = sorted.iter().map(|d| d.event() as *const Event).collect();
    let want: Vec<*const Event> = want.iter().map(|k| &evs[ids[*k]] as *const Event).collect();
    ensure!(got == want, "order after sorting: got {:?}", sorted.iter().map(|d| (d.start_time_cs(), d.end_time_cs())).collect::<Vec<_>>());
    Ok(())
}

pub fn tag_cost(n: &str) -> (u8, u32) {
    // (complexity of one tag, share of the animation score)
    match n {
        "b" | "i" | "u" | "s" | "c" | "1c" | "2c" | "3c" | "4c" | "alpha" | "1a" | "2a" | "3a" | "4a" => (1, 1),
        "fn" | "fs" => (1, 2),
        "fad" | "fade" | "frx" | "fry" | "frz" | "fscx" | "fscy" | "fsp" | "clip" | "iclip" => (3, 3),
        "move" => (3, 4),
        "t" | "pbo" => (4, 5),
        "p" => (5, 8),
        _ => (2, 2),
    }
}
/// Whole-script summary and per-event scores.
pub fn summary(t: &mut T) -> R {
    let n = if t.chance(1, 40) { t.pick_c(&[499usize, 500, 501, 502, 999, 1000, 1001, 1002]) } else { t.len(60) };
    let styles = t.len(14);
    let mut doc = String::from("[V4+ Styles]\nFormat: ");
    doc.push_str(&STYLE_FIELDS.join(", "));
    doc.push('\n');
    let mut large = 0;
    for i in 0..styles {
        let fs = t.pick_c(&["10", "72", "72.5", "73", "200", "71.9"]);
        large += usize::from(fs.parse::<f32>().unwrap() > 72.0);
        doc.push_str(&format!("Style: S{i},Arial,{fs},&H00FFFFFF,&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,2,2,2,10,10,10,1\n"));
    }
    doc.push_str("\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
    let mode = t.us(3);
    let mut ev = vec![];
    for i in 0..n {
        let (a, d) = match mode {
            0 => (i as u32 * 10, t.pick_c(&[10u32, 11, 20, 5, 0])),
            1 => (i as u32 * 10, t.range(0, 40) as u32),
            _ => (t.range(0, 300) as u32, t.range(0, 20) as u32),
        };
        let seg = outer(line(t, 3, n < 70));
        doc.push_str(&format!("Dialogue: 0,{},{},Default,,0,0,0,,{}\n", fmt_time(a), fmt_time(a + d), seg.text));
        if d > 0 {
            ev.push((a, a + d, seg));
        }
    }
    t.input("document", &doc);
    t.nontrivial_if(n >= 3);
    let sc = parse(&doc)?;
    let an = ScriptAnalysis::analyze(&sc).map_err(|e| format!("analysis failed: {e}"))?;
    ensure_eq!(an.dialogue_info().len(), ev.len(), "analysed events");
    let mut anim = 0;
    for (d, (a, b, s)) in an.dialogue_info().iter().zip(&ev) {
        ensure_eq!((d.start_time_cs(), d.end_time_cs()), (*a, *b), "times");
        let sc = s.tags.iter().map(|x| tag_cost(&x.0).1).sum::<u32>().min(10) as u8;
        ensure_eq!(d.animation_score(), sc, "animation score of {:?}", s.text);
        ensure_eq!(d.override_count(), s.tags.len(), "tags of {:?}", s.text);
        let cs = match s.plain.chars().count() {
            0..=50 => 0,
            51..=200 => 5,
            201..=500 => 15,
            501..=1000 => 30,
            _ => 50,
        } + match s.tags.len() {
            0 => 0,
            1..=5 => 5,
            6..=15 => 15,
            16..=30 => 25,
            _ => 35,
        } + sc as u32 * 5;
        let cs = cs.min(100) as u8;
        ensure_eq!(d.complexity_score(), cs, "complexity of {:?}", s.text);
        let imp = [PerformanceImpact::Minimal, PerformanceImpact::Low, PerformanceImpact::Medium, PerformanceImpact::High, PerformanceImpact::Critical];
        ensure_eq!(d.performance_impact(), imp[((cs.max(1) as usize - 1) / 20).min(4)], "impact of {cs}");
        anim += usize::from(sc > 3);
    }
    let mut ov = 0usize;
    for i in 0..ev.len() {
        for j in i + 1..ev.len() {
            ov += usize::from(ev[i].0 < ev[j].1 && ev[j].0 < ev[i].1);
        }
    }
    let s = an.performance_summary();
    ensure_eq!((s.total_events, s.overlapping_events, s.complex_animations, s.large_fonts), (ev.len(), ov, anim, large), "summary (events, overlaps, animations, large fonts)");
    let step = |v: usize, a: (usize, u8), b: (usize, u8)| if v > a.0 { a.1 } else if v > b.0 { b.1 } else { 0 };
    let score = 100 - step(ev.len(), (1000, 20), (500, 10)) - step(ov, (50, 15), (20, 8)) - step(anim, (100, 10), (50, 5)) - step(large, (10, 5), (usize::MAX, 0));
    ensure_eq!(s.performance_score, score, "performance score of {s:?}");
    ensure_eq!(s.has_performance_issues(), score < 80, "performance issues");
    ensure_eq!(s.recommendation().is_some(), ov > 10 || anim > 20 || large > 5 || ev.len() > 1000, "a recommendation for {s:?}");
    Ok(())
}

// ---- C15 -------------------------------------------------------------------------------------

/// A dialogue text together with what it means.
#[derive(Debug, Clone, Default)]
pub struct Line {
    pub text: String,
    pub plain: String,
    /// name, arguments, byte position of the backslash
    pub tags: Vec<(String, String, usize)>,
    /// byte positions of empty overrides
    pub diags: Vec<usize>,
    pub drawing: bool,
}
const NAMES: [&str; 40] = [
    "b", "i", "u", "s", "fs", "c", "1c", "2c", "3c", "4c", "alpha", "1a", "4a", "an", "a", "pos", "move", "org", "fad", "fade", "frx", "frz", "fr", "fscx",
    "fsp", "clip", "iclip", "k", "kf", "K", "bord", "xbord", "shad", "blur", "be", "q", "fe", "pbo", "zzz", "Bold",
];
fn arg(t: &mut T, free: bool) -> String {
    let first = if free { "" } else { t.pick(&["1", "0", "-", "(", "&H", " ", ".", "é", "漢", "=", "2"]) };
    let mut s = first.to_string();
    s.push_str(&t.string_of(6, &["1", "0", "5", "(", ")", ",", "&", "H", "F", "a", " ", "é", "日", "🎬", ".", "-", "*"]));
    s
}
impl Line {
    fn block(&mut self, t: &mut T, closed: bool, tags: usize) {
        self.text.push('{');
        let start = self.text.len();
        if t.chance(1, 5) {
            self.text.push_str(t.pick(&["comment", " ", "é", "note (x)", "*", "日本"]));
        }
        for _ in 0..t.len(tags) {
            let pos = self.text.len();
            match t.weighted(&[8, 2, 2, 1, 1, 1]) {
                0 => {
                    let n = t.pick(&NAMES);
                    let a = if t.chance(1, 5) { String::new() } else { arg(t, false) };
                    self.text.push_str(&format!("\\{n}{a}"));
                    self.tags.push((n.into(), a, pos));
                }
                1 => {
                    let n = t.pick(&["r", "fn"]);
                    let a = arg(t, true);
                    self.text.push_str(&format!("\\{n}{a}"));
                    self.tags.push((n.into(), a, pos));
                }
                2 => {
                    // \t with nested tags
                    let mut a = String::from("(");
                    a.push_str(t.pick(&["", "0,100,", "1.5,", "0,é,"]));
                    for _ in 0..t.len(3) {
                        a.push_str(t.pick(&["\\fs20", "\\c&HFF&", "\\clip(0,0,1,1)", "\\frz(3)", "\\blur2", "\\1a&H10&"]));
                    }
                    a.push(')');
                    self.text.push_str(&format!("\\t{a}"));
                    self.tags.push(("t".into(), a, pos));
                    if t.chance(1, 4) {
                        self.text.push_str(t.pick(&[" ", "x", "é", ")"]));
                    }
                }
                3 => {
                    // drawing
                    let v = t.pick_c(&[1i32, 0, 2, 4, -1, 10]);
                    self.text.push_str(&format!("\\p{v}"));
                    self.tags.push(("p".into(), v.to_string(), pos));
                    self.drawing = v > 0;
                }
                4 => {
                    // no name: one character goes with the backslash
                    self.text.push('\\');
                    self.text.push_str(t.pick(&[" ", "\\", "(", "é", "日", "&", "-"]));
                    self.text.push_str(t.pick(&["", "b1", "x", " é"]));
                    self.diags.push(pos);
                }
                _ => {
                    // no arguments at all, then something that is not a letter
                    let n = t.pick(&NAMES);
                    self.text.push_str(&format!("\\{n}"));
                    self.tags.push((n.into(), String::new(), pos));
                }
            }
        }
        if self.text.len() == start {
            self.diags.push(start);
        } else if t.chance(1, 15) {
            // a backslash with nothing after it
            self.diags.push(self.text.len());
            self.text.push('\\');
        }
        if closed {
            self.text.push('}');
        }
    }
    fn show(&mut self, raw: &str, plain: &str) {
        self.text.push_str(raw);
        if !self.drawing {
            self.plain.push_str(plain);
        }
    }
}
pub fn line(t: &mut T, max: usize, big: bool) -> Line {
    let mut l = Line::default();
    for _ in 0..t.len(max) {
        match t.weighted(&[4, 4, 2, 1]) {
            0 => {
                let w = t.pick(&["Hello", "a", "é", "日本語", " ", "}", "world, ", "שלום", "سلام", "🎬", "\u{200d}", "ÿ", "Ā", "\t", "[x]", "m 0 0 l 1 1"]);
                l.show(w, w)
            }
            1 => {
                let k = if big && t.chance(1, 8) { 40 } else { 5 };
                l.block(t, true, k)
            }
            2 => {
                let (r, p) = t.pick_c(&[("\\N", "\n"), ("\\n", "\n"), ("\\h", "\u{a0}")]);
                l.show(r, p)
            }
            _ => {
                let w = t.pick(&["\\x", "\\ ", "\\é", "\\\\", "\\1", "\\日"]);
                l.show(w, w)
            }
        }
    }
    if big && t.chance(1, 12) {
        let w = "x".repeat(t.pick_c(&[49usize, 50, 51, 199, 200, 201, 499, 500, 501, 999, 1001]).saturating_sub(if t.chance(1, 2) { l.plain.chars().count() } else { 0 }));
        l.show(&w.clone(), &w);
    }
    if t.chance(1, 25) {
        l.block(t, false, 3);
    } else if t.chance(1, 25) {
        l.show("\\", "\\");
    }
    l
}
/// In a document, leading and trailing blanks belong to the layout, not to the text.
fn outer(l: Line) -> Line {
    if l.text.trim() != l.text { Line { text: "x".into(), plain: "x".into(), ..Line::default() } } else { l }
}
pub fn text_analysis(t: &mut T) -> R {
    let l = line(t, 8, true);
    t.input("text", &l.text);
    t.nontrivial_if(!l.tags.is_empty() && !l.plain.is_empty());
    let a = TextAnalysis::analyze(&l.text).map_err(|e| format!("refused: {e}"))?;
    let reg = ExtensionRegistry::new();
    let b = TextAnalysis::analyze_with_registry(&l.text, Some(&reg)).map_err(|e| format!("refused with a registry: {e}"))?;
    for (what, a) in [("", &a), (" with an empty registry", &b)] {
        ensure_eq!(a.plain_text(), l.plain.as_str(), "visible text{what}");
        ensure_eq!(a.char_count(), l.plain.chars().count(), "characters{what}");
        let nl = l.plain.matches('\n').count();
        let lines = if nl == 0 {
            1
        } else if l.plain.bytes().all(|c| c == b'\n') {
            nl + 1
        } else {
            nl + usize::from(!l.plain.ends_with('\n'))
        };
        ensure_eq!(a.line_count(), lines, "lines of {:?}{what}", l.plain);
        let got: Vec<(String, String, usize)> = a.override_tags().iter().map(|x| (x.name().into(), x.args().into(), x.position())).collect();
        ensure_eq!(got, l.tags, "tags{what}");
        for x in a.override_tags() {
            ensure_eq!(x.complexity(), tag_cost(x.name()).0, "complexity of \\{}", x.name());
            ensure_eq!(calculate_tag_complexity(x.name()), tag_cost(x.name()).0, "table entry of \\{}", x.name());
        }
        let got: Vec<usize> = a.diagnostics().iter().map(|d| d.offset).collect();
        ensure_eq!(got, l.diags, "empty overrides{what}");
        for d in a.diagnostics() {
            ensure_eq!(d.kind, DiagnosticKind::EmptyOverride, "kind of the diagnostic");
            ensure!(l.text[d.offset..].starts_with(d.span), "the diagnostic's span {:?} is not at {}", d.span, d.offset);
        }
        let rtl = |c: char| ('\u{590}'..='\u{6ff}').contains(&c) || ('\u{750}'..='\u{77f}').contains(&c) || ('\u{8a0}'..='\u{8ff}').contains(&c);
        ensure_eq!(a.has_bidi_text(), l.plain.chars().any(rtl), "right-to-left text{what}");
        let complex = |c: char| c > 'ÿ' || c.is_control();
        ensure_eq!(a.has_complex_unicode(), l.plain.chars().any(complex), "complex text{what}");
    }
    // the block parser on its own, at any base offset
    if let Some(s) = l.text.find('{') {
        let e = l.text[s..].find('}').map_or(l.text.len(), |x| s + x);
        let base = t.us(50);
        let (mut tags, mut diags) = (vec![], vec![]);
        parse_override_block(&l.text[s + 1..e], base, &mut tags, &mut diags);
        let want: Vec<(&str, &str, usize)> = l.tags.iter().filter(|x| x.2 < e).map(|x| (x.0.as_str(), x.1.as_str(), x.2 - s - 1 + base)).collect();
        let got: Vec<(&str, &str, usize)> = tags.iter().map(|x: &OverrideTag| (x.name(), x.args(), x.position())).collect();
        ensure_eq!(got, want, "tags of the first block");
    }
    Ok(())
}
pub fn line_breaks(t: &mut T) -> R {
    let (mut raw, mut plain) = (String::new(), String::new());
    let (mut brk, mut nb) = (vec![], vec![]);
    let drawing = t.chance(1, 5);
    for _ in 0..t.len(10) {
        match t.us(5) {
            0 => {
                raw.push_str("\\N");
                if !drawing {
                    brk.push((plain.len(), LineBreakType::Hard));
                    plain.push('\n');
                }
            }
            1 => {
                raw.push_str("\\n");
                if !drawing {
                    brk.push((plain.len(), LineBreakType::Soft));
                    plain.push('\n');
                }
            }
            2 => {
                raw.push_str("\\h");
                if !drawing {
                    nb.push(plain.len());
                    plain.push('\u{a0}');
                }
            }
            3 => {
                let w = t.pick(&["\\x", "\\\\", "\\é", "\\ "]);
                raw.push_str(w);
                plain.push_str(w);
            }
            _ => {
                let w = t.pick(&["a", "日本", "é ", "N", "h", "\u{a0}", "\n", "{\\b1}"]);
                raw.push_str(w);
                plain.push_str(w);
            }
        }
    }
    t.input("text", &raw);
    t.nontrivial_if(!brk.is_empty() || !nb.is_empty());
    let x = TextWithLineBreaks::from_text(&raw, drawing);
    ensure_eq!(x.text, plain, "text");
    let got: Vec<(usize, LineBreakType)> = x.line_breaks.iter().map(|b| (b.position, b.break_type)).collect();
    ensure_eq!(got, brk, "line breaks");
    ensure_eq!(x.nbsp_positions, nb, "hard spaces");
    for p in 0..=plain.len() {
        ensure_eq!(x.get_break_type_at(p), brk.iter().find(|b| b.0 == p).map(|b| b.1), "break at {p}");
        ensure_eq!(x.is_nbsp_at(p), nb.contains(&p), "hard space at {p}");
    }
    // where lines may wrap: boundaries, in order, the end always mandatory, and only there or after a newline
    let w = wrap_opportunities(&plain);
    let soft: Vec<usize> = w.iter().filter(|o| !o.mandatory).map(|o| o.offset).collect();
    ensure_eq!(soft_wrap_offsets(&plain), soft, "optional wraps");
    ensure!(w.windows(2).all(|p| p[0].offset < p[1].offset), "wrap offsets out of order: {w:?}");
    for o in &w {
        ensure!(plain.is_char_boundary(o.offset), "wrap inside a character: {o:?}");
        let ends = o.offset == plain.len() || plain[..o.offset].ends_with('\n');
        ensure_eq!(o.mandatory, ends, "mandatory wrap at {}", o.offset);
        ensure!(!(plain[..o.offset].ends_with('\u{a0}') && !ends), "wrap after a hard space at {}", o.offset);
    }
    for (p, _) in plain.match_indices('\n') {
        ensure!(w.iter().any(|o| o.offset == p + 1 && o.mandatory), "no mandatory wrap after the newline at {p}");
    }
    Ok(())
}

// ---- C16 -------------------------------------------------------------------------------------

/// Values by style column; `None` for columns the format line does not have.
type Vals = Vec<(String, String)>;
fn get<'a>(v: &'a Vals, n: &str) -> Option<&'a str> {
    v.iter().find(|x| x.0 == n).map(|x| x.1.as_str())
}
fn style_value(t: &mut T, col: &str, child: bool) -> String {
    if child && t.chance(2, 5) {
        return t.pick(&["", "0", "100"]).to_string();
    }
    if t.chance(1, 60) {
        return t.pick(&["x", "-1", "70000", "1e9", "yes", "&HZZ"]).to_string();
    }
    match col {
        "Fontname" => t.pick(&["Arial", "Verdana", "日本", ""]).into(),
        "Fontsize" => t.pick(&["20", "48", "48.5", "72", "73", "1000", "1001", "0.5", "60"]).into(),
        c if c.ends_with("Colour") => t.pick(&["&H00FFFFFF", "&HFF0000&", "&H80123456", "&H0A0B0C", "", "&H00000000"]).into(),
        "Bold" | "Italic" | "Underline" | "StrikeOut" => t.pick(&["0", "1"]).into(),
        "ScaleX" | "ScaleY" => t.pick(&["100", "50", "0", "1000", "100.5", "1001"]).into(),
        "Spacing" | "Angle" => t.pick(&["0", "1", "-2.5", "30", "0.0"]).into(),
        "Outline" | "Shadow" => t.pick(&["0", "1", "2", "2.5", "3.5", "4", "5", "10"]).into(),
        "BorderStyle" | "Alignment" | "Encoding" => t.pick(&["1", "3", "0", "2", "255", "9"]).into(),
        _ => t.pick(&["0", "10", "7", "333", "65535", "20"]).into(),
    }
}
fn mk_style<'a>(name: &'a str, v: &'a Vals) -> Style<'a> {
    let g = |n: &str| get(v, n).unwrap_or("");
    Style {
        name,
        parent: None,
        fontname: g("Fontname"),
        fontsize: g("Fontsize"),
        primary_colour: g("PrimaryColour"),
        secondary_colour: g("SecondaryColour"),
        outline_colour: g("OutlineColour"),
        back_colour: g("BackColour"),
        bold: g("Bold"),
        italic: g("Italic"),
        underline: g("Underline"),
        strikeout: g("StrikeOut"),
        scale_x: g("ScaleX"),
        scale_y: g("ScaleY"),
        spacing: g("Spacing"),
        angle: g("Angle"),
        border_style: g("BorderStyle"),
        outline: g("Outline"),
        shadow: g("Shadow"),
        alignment: g("Alignment"),
        margin_l: g("MarginL"),
        margin_r: g("MarginR"),
        margin_v: g("MarginV"),
        margin_t: get(v, "MarginT"),
        margin_b: get(v, "MarginB"),
        encoding: g("Encoding"),
        relative_to: None,
        ..Style::default()
    }
}
fn num(s: &str) -> Option<f32> {
    s.parse().ok()
}
fn valid(col: &str, s: &str) -> bool {
    match col {
        "Name" | "Fontname" => true,
        "Fontsize" => num(s).is_some_and(|x| x > 0.0 && x <= 1000.0),
        c if c.ends_with("Colour") => s.trim().is_empty() || parse_bgr_color(s).is_ok(),
        "Bold" | "Italic" | "Underline" | "StrikeOut" => s == "0" || s == "1",
        "ScaleX" | "ScaleY" => num(s).is_some_and(|x| (0.0..=1000.0).contains(&x)),
        "Spacing" | "Angle" | "Outline" | "Shadow" => num(s).is_some(),
        "BorderStyle" | "Alignment" | "Encoding" => s.parse::<u8>().is_ok(),
        _ => s.parse::<u16>().is_ok(),
    }
}
/// The columns that count: margins come as T and B together, or as V.
fn own_columns(v: &Vals) -> Vec<&'static str> {
    let mut c: Vec<&str> = STYLE_FIELDS.iter().copied().filter(|n| *n != "Name" && *n != "MarginV").collect();
    if get(v, "MarginT").is_some() && get(v, "MarginB").is_some() {
        c.extend(["MarginT", "MarginB"]);
    } else {
        c.push("MarginV");
    }
    c
}
/// A style without parent: every value must be there and make sense.
fn root_value(v: &Vals) -> Option<Vals> {
    let mut out = vec![];
    for c in own_columns(v) {
        let s = get(v, c).unwrap_or("");
        if !valid(c, s) {
            return None;
        }
        out.push((c.to_string(), s.to_string()));
    }
    Some(both_margins(out))
}
fn both_margins(v: Vals) -> Vals {
    match get(&v, "MarginV").map(str::to_string) {
        Some(m) => {
            let mut v: Vals = v.into_iter().filter(|x| x.0 != "MarginV").collect();
            v.push(("MarginT".into(), m.clone()));
            v.push(("MarginB".into(), m));
            v
        }
        None => v,
    }
}
/// A child: what it sets, else its parent's. `None`: a value it sets makes no sense.
fn child_value(v: &Vals, parent: &Vals) -> Option<Vals> {
    let mut out = parent.clone();
    for c in own_columns(v) {
        let s = get(v, c).unwrap_or("");
        let keep = match c {
            _ if s.is_empty() => true,
            "Fontsize" | "Spacing" | "Angle" | "Outline" | "Shadow" | "MarginV" => s == "0",
            "ScaleX" | "ScaleY" => s == "100",
            "Bold" | "Italic" | "Underline" | "StrikeOut" => s != "0" && s != "1",
            _ => false,
        };
        if keep {
            continue;
        }
        if !valid(c, s) {
            return None;
        }
        for x in out.iter_mut() {
            if x.0 == c || (c == "MarginV" && (x.0 == "MarginT" || x.0 == "MarginB")) {
                x.1 = s.to_string();
            }
        }
    }
    Some(out)
}
pub fn styles(t: &mut T) -> R {
    let names = ["A", "B", "C", "D", "E", "é", "Z"];
    let n = t.len(8);
    let mut cols: Vec<&str> = STYLE_FIELDS.to_vec();
    if t.chance(1, 3) {
        let v = cols.iter().position(|c| *c == "MarginV").unwrap();
        match t.us(3) {
            0 => {
                cols.remove(v);
                cols.insert(v, "MarginT");
                cols.insert(v + 1, "MarginB");
            }
            1 => cols.extend(["MarginT", "MarginB"]),
            _ => cols.push("MarginT"),
        }
    }
    if t.chance(1, 20) {
        let i = t.span(1, cols.len() - 1);
        cols.remove(i);
    }
    let uniq = t.chance(3, 4);
    let cyc = t.chance(1, 4);
    let mut rows: Vec<(String, Option<String>, Vals)> = vec![];
    let mut order: Vec<usize> = (0..names.len()).collect();
    for i in (1..order.len()).rev() {
        let j = t.us(i + 1);
        order.swap(i, j);
    }
    for i in 0..n {
        let name = if uniq && i < names.len() { names[i] } else { t.pick(&names) };
        let parent = match t.weighted(&[3, 5, 1]) {
            0 => None,
            1 => {
                let p = t.pick(&names);
                // acyclic unless asked for: parents come earlier in `order`
                let rank = |x: &str| order.iter().position(|k| names[*k] == x).unwrap();
                if cyc || rank(p) < rank(name) { Some(p.to_string()) } else { None }
            }
            _ => Some("Nowhere".to_string()),
        };
        let vals: Vals = cols
            .iter()
            .map(|c| {
                let v = if *c == "Name" { name.to_string() } else { style_value(t, c, parent.is_some()) };
                (c.to_string(), v)
            })
            .collect();
        rows.push((name.to_string(), parent, vals));
    }
    let mut doc = String::new();
    let res = t.us(5);
    let mut scale = None;
    if res > 0 {
        let s: [(u32, u32); 6] = [(640, 480), (1920, 1080), (1280, 720), (640, 480), (640, 640), (480, 480)];
        let (p, l) = (t.pick_c(&s), t.pick_c(&s));
        doc.push_str("[Script Info]\n");
        if res != 2 {
            doc.push_str(&format!("PlayResX: {}\nPlayResY: {}\n", p.0, p.1));
        }
        if res != 3 {
            doc.push_str(&format!("LayoutResX: {}\nLayoutResY: {}\n", l.0, l.1));
        }
        if res != 2 && res != 3 && p != l {
            scale = Some((p.0 as f32 / l.0 as f32, p.1 as f32 / l.1 as f32));
        }
        doc.push('\n');
    }
    doc.push_str(&format!("[V4+ Styles]\nFormat: {}\n", cols.join(", ")));
    for (_, p, v) in &rows {
        let p = p.as_ref().map(|p| format!("*{p},")).unwrap_or_default();
        doc.push_str(&format!("Style: {p}{}\n", v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",")));
    }
    if t.chance(1, 10) {
        // only the first styles section counts
        doc.push_str("\n[V4+ Styles]\nStyle: Other,Arial,20,&H0,&H0,&H0,&H0,0,0,0,0,100,100,0,0,1,0,0,2,0,0,0,1\n");
    }
    t.input("document", &doc);
    t.nontrivial_if(rows.iter().any(|r| r.1.as_ref().is_some_and(|p| rows.iter().any(|q| q.0 == *p))));
    let sc = parse(&doc)?;
    let parsed = match sc.sections().iter().find(|s| matches!(s, Section::Styles(_))) {
        Some(Section::Styles(v)) => v.len(),
        _ => 0,
    };
    ensure_eq!(parsed, rows.len(), "parsed styles");
    // reference
    let win: BTreeMap<&str, usize> = rows.iter().enumerate().map(|(i, r)| (r.0.as_str(), i)).collect();
    let parent_of = |i: usize| rows[i].1.as_deref().and_then(|p| win.get(p).copied());
    let cycle = win.values().any(|&i| {
        let mut k = i;
        for _ in 0..=rows.len() {
            match parent_of(k) {
                Some(p) => k = p,
                None => return false,
            }
        }
        true
    });
    t.label_if(cycle, "cycle");
    fn resolve(i: usize, rows: &[(String, Option<String>, Vals)], parent_of: &dyn Fn(usize) -> Option<usize>) -> Option<Vals> {
        match parent_of(i).and_then(|p| resolve(p, rows, parent_of)) {
            Some(p) => child_value(&rows[i].2, &p),
            None => root_value(&rows[i].2),
        }
    }
    let mut want: BTreeMap<&str, Vals> = BTreeMap::new();
    for (i, r) in rows.iter().enumerate() {
        if cycle {
            // later definitions win, but only those that resolve
            if let Some(v) = root_value(&r.2) {
                want.insert(&r.0, v);
            }
        } else if win[r.0.as_str()] == i {
            if let Some(v) = resolve(i, &rows, &parent_of) {
                want.insert(&r.0, v);
            }
        }
    }
    let all = [AnalysisOptions::INHERITANCE, AnalysisOptions::CONFLICTS, AnalysisOptions::PERFORMANCE, AnalysisOptions::VALIDATION, AnalysisOptions::STRICT_VALIDATION];
    let default = t.chance(1, 3);
    let mut cfg = StyleAnalysisConfig::default();
    if !default {
        cfg.options = AnalysisOptions::empty();
        for o in all {
            if t.chance(1, 2) {
                cfg.options |= o;
            }
        }
        cfg.performance_thresholds.large_font_threshold = t.pick_c(&[50.0, 20.0, 72.0, 10.0]);
    }
    let an = if default { StyleAnalyzer::new(&sc) } else { StyleAnalyzer::new_with_config(&sc, cfg.clone()) };
    let got: Vec<&str> = an.resolved_styles().keys().copied().collect();
    ensure_eq!(got, want.keys().copied().collect::<Vec<_>>(), "names of the resolved styles");
    let whole = ScriptAnalysis::analyze(&sc).map_err(|e| format!("analysis failed: {e}"))?;
    ensure_eq!(whole.resolved_styles().len(), want.len(), "styles resolved by the script analysis");
    let mut issues = vec![];
    for (name, v) in &want {
        let st = mk_style(name, v);
        let mut r = ResolvedStyle::from_style(&st).map_err(|e| format!("style {name} with values {v:?} refused: {e}"))?;
        check_root(&r, name, v)?;
        if let Some((x, y)) = scale {
            let before = r.clone();
            r.apply_resolution_scaling(x, y);
            check_scaled(&before, &r, x, y)?;
        }
        let g = an.resolve_style(name).ok_or_else(|| format!("style {name} missing"))?;
        ensure!(*g == r, "style {name}: got {g:?}, expected {r:?}");
        ensure!(whole.resolve_style(name) == Some(&r), "style {name} in the script analysis: {:?}, expected {r:?}", whole.resolve_style(name));
        use ValidationSeverity::*;
        if cfg.options.contains(AnalysisOptions::VALIDATION) && cfg.options.contains(AnalysisOptions::STRICT_VALIDATION) && r.font_size() > 200.0 {
            issues.push(Warning);
        }
        if cfg.options.contains(AnalysisOptions::PERFORMANCE) {
            if r.font_size() > cfg.performance_thresholds.large_font_threshold {
                issues.push(Info);
            }
            if r.complexity_score() > 70 {
                issues.push(Warning);
            }
        }
    }
    let mut g: Vec<ValidationSeverity> = an.validate_styles().iter().map(|i| i.severity).collect();
    g.sort();
    issues.sort();
    ensure_eq!(g, issues, "validation issues");
    // conflicts
    let kinds = |k: ConflictType| {
        let mut v: Vec<Vec<&str>> = an.conflicts().iter().filter(|c| c.conflict_type == k).map(|c| c.styles.clone()).collect();
        v.sort();
        v
    };
    let mut missing: Vec<Vec<&str>> =
        rows.iter().filter(|r| r.1.as_deref().is_some_and(|p| !win.contains_key(p))).map(|r| vec![r.0.as_str()]).collect();
    missing.sort();
    ensure_eq!(kinds(ConflictType::MissingReference), missing, "missing parents");
    ensure_eq!(kinds(ConflictType::CircularInheritance).len(), usize::from(cycle), "reported cycles");
    let mut dup: Vec<Vec<&str>> = vec![];
    if cfg.options.contains(AnalysisOptions::CONFLICTS) {
        for name in win.keys() {
            let k = rows.iter().filter(|r| r.0 == *name).count();
            if k > 1 {
                dup.push(vec![name; k]);
            }
        }
    }
    ensure_eq!(kinds(ConflictType::DuplicateName), dup, "duplicate names");
    if cfg.options.contains(AnalysisOptions::INHERITANCE) && uniq && n <= names.len() {
        for (i, r) in rows.iter().enumerate() {
            let inh = an.inheritance_info().get(r.0.as_str());
            match (parent_of(i), &r.1) {
                (Some(_), Some(p)) => ensure_eq!(inh.map(|x| x.parents.clone()), Some(vec![p.as_str()]), "recorded parent of {}", r.0),
                (None, None) => ensure!(inh.is_some_and(|x| x.is_root()), "style {} without parent recorded as {inh:?}", r.0),
                _ => {}
            }
        }
    } else if !cfg.options.contains(AnalysisOptions::INHERITANCE) {
        ensure!(an.inheritance_info().is_empty(), "inheritance recorded although not asked for");
    }
    // one hidden value at a time: a change of a valid value must show
    if let Some((name, v)) = want.iter().next() {
        let st = mk_style(name, v);
        let r = ResolvedStyle::from_style(&st).map_err(|e| e.to_string())?;
        for c in own_columns(v) {
            let mut w = v.clone();
            let old = get(v, c).unwrap().to_string();
            let new = match c {
                "Fontname" => "Other",
                "Fontsize" => "33",
                c if c.ends_with("Colour") => "&H01020304",
                "Bold" | "Italic" | "Underline" | "StrikeOut" => if old == "1" { "0" } else { "1" },
                "ScaleX" | "ScaleY" => "87",
                "BorderStyle" | "Alignment" | "Encoding" => "77",
                _ => "13",
            };
            w.iter_mut().find(|x| x.0 == c).unwrap().1 = new.to_string();
            let st2 = mk_style(name, &w);
            let r2 = ResolvedStyle::from_style(&st2).map_err(|e| e.to_string())?;
            ensure!(r != r2, "{c} = {old:?} and {new:?} resolve alike");
        }
    }
    Ok(())
}
fn check_root(r: &ResolvedStyle, name: &str, v: &Vals) -> R {
    let g = |n: &str| get(v, n).unwrap_or("");
    let f = |n: &str| num(g(n)).unwrap();
    let c = |n: &str| if g(n).trim().is_empty() { [255; 4] } else { parse_bgr_color(g(n)).unwrap() };
    ensure_eq!(r.name, name, "name");
    ensure_eq!(r.font_name(), if g("Fontname").is_empty() { "Arial" } else { g("Fontname") }, "font of {name}");
    ensure_eq!(r.font_size(), f("Fontsize"), "font size of {name}");
    ensure_eq!(r.primary_color(), c("PrimaryColour"), "primary colour of {name}");
    ensure_eq!(r.secondary_color(), c("SecondaryColour"), "secondary colour of {name}");
    ensure_eq!(r.outline_color(), c("OutlineColour"), "outline colour of {name}");
    ensure_eq!((r.is_bold(), r.is_italic(), r.is_underline(), r.is_strike_out()), (g("Bold") == "1", g("Italic") == "1", g("Underline") == "1", g("StrikeOut") == "1"), "flags of {name}");
    ensure_eq!((r.spacing(), r.angle(), r.outline(), r.shadow()), (f("Spacing"), f("Angle"), f("Outline"), f("Shadow")), "spacing, angle, outline, shadow of {name}");
    let m = |n: &str| g(n).parse::<u16>().unwrap();
    ensure_eq!((r.margin_l(), r.margin_r(), r.margin_t(), r.margin_b()), (m("MarginL"), m("MarginR"), m("MarginT"), m("MarginB")), "margins of {name}");
    check_complexity(r, Some((f("ScaleX") - 100.0).abs() > 0.001 || (f("ScaleY") - 100.0).abs() > 0.001))
}
fn check_complexity(r: &ResolvedStyle, scaled: Option<bool>) -> R {
    let s = |v: f32, a: (f32, u8), b: (f32, u8)| if v > a.0 { a.1 } else if v > b.0 { b.1 } else { 0 };
    let mut c = s(r.font_size(), (72.0, 20), (48.0, 10)) + s(r.outline(), (4.0, 15), (2.0, 8)) + s(r.shadow(), (3.0, 10), (1.0, 5));
    if r.angle().abs() > 0.001 {
        c += 15;
    }
    c += 2 * (u8::from(r.is_bold()) + u8::from(r.is_italic())) + 5 * u8::from(r.is_underline() || r.is_strike_out());
    match scaled {
        Some(x) => ensure_eq!(r.complexity_score(), c + 10 * u8::from(x), "complexity of {r:?}"),
        None => ensure!(r.complexity_score() == c || r.complexity_score() == c + 10, "complexity {} of {r:?}", r.complexity_score()),
    }
    ensure_eq!(r.has_performance_issues(), r.complexity_score() > 70, "performance issues");
    Ok(())
}
/// Every scalable value is multiplied once; nothing else moves.
fn check_scaled(a: &ResolvedStyle, b: &ResolvedStyle, x: f32, y: f32) -> R {
    let avg = (x + y) / 2.0;
    let near = |p: f32, q: f32| (p - q).abs() <= 1e-3 * (1.0 + q.abs());
    ensure!(near(b.font_size(), a.font_size() * avg), "scaled font size {} of {} by {avg}", b.font_size(), a.font_size());
    ensure!(near(b.outline(), a.outline() * avg), "scaled outline");
    ensure!(near(b.shadow(), a.shadow() * avg), "scaled shadow");
    ensure!(near(b.spacing(), a.spacing() * x), "scaled spacing");
    let m = |p: u16, q: u16, k: f32| (p as f32 - (q as f32 * k).min(65535.0)).abs() <= 1.0;
    ensure!(m(b.margin_l(), a.margin_l(), x) && m(b.margin_r(), a.margin_r(), x), "scaled side margins {b:?}");
    ensure!(m(b.margin_t(), a.margin_t(), y) && m(b.margin_b(), a.margin_b(), y), "scaled vertical margins {b:?}");
    ensure!(a.angle() == b.angle() && a.font_name() == b.font_name() && a.primary_color() == b.primary_color() && a.formatting() == b.formatting(), "scaling changed something else: {b:?}");
    check_complexity(b, None)
}

// ---- C17 -------------------------------------------------------------------------------------

type Found = Vec<(&'static str, IssueSeverity)>;
struct Ev {
    start: String,
    end: String,
    style: String,
    line: Line,
}
fn bad_colours(l: &Line) -> usize {
    let mut n = 0;
    for (name, args, _) in &l.tags {
        for part in format!("\\{name}{args}").split('\\').skip(1) {
            let p = match part.as_bytes() {
                [b'1'..=b'4', ..] => &part[1..],
                _ => part,
            };
            let Some(rest) = p.strip_prefix("c&H").or_else(|| p.strip_prefix("c&h")) else { continue };
            let Some(e) = rest.find('&') else { continue };
            n += usize::from(parse_bgr_color(&format!("&H{}&", &rest[..e])).is_err());
        }
    }
    n
}
/// The rules, one by one, in their documented form.
fn expected(info: &[(String, String)], cols: &[Vec<String>], names: &[String], evs: &[Ev]) -> Found {
    use IssueSeverity::*;
    let mut v: Found = vec![];
    let add = |v: &mut Found, n: usize, r: &'static str, s: IssueSeverity| v.extend(std::iter::repeat((r, s)).take(n));
    let times: Vec<Option<(u32, u32)>> = evs.iter().map(|e| Some((parse_ass_time(&e.start).ok()?, parse_ass_time(&e.end).ok()?))).collect();
    if evs.len() >= 2 {
        if times.iter().any(|x| x.is_none()) {
            add(&mut v, 1, "timing-overlap", Warning);
        } else {
            let tm: Vec<(u32, u32)> = times.iter().map(|x| x.unwrap()).collect();
            for i in 0..tm.len() {
                for j in i + 1..tm.len() {
                    let ((a, b), (c, d)) = (tm[i], tm[j]);
                    add(&mut v, usize::from(a < b && c < d && a < d && c < b), "timing-overlap", Warning);
                }
            }
        }
    }
    for x in times.iter().flatten() {
        add(&mut v, usize::from(x.0 >= x.1), "negative-duration", Error);
    }
    for c in cols.iter().flatten() {
        add(&mut v, usize::from(parse_bgr_color(c).is_err()), "invalid-color", Error);
    }
    for e in evs {
        add(&mut v, bad_colours(&e.line), "invalid-color", Error);
    }
    for e in evs {
        add(&mut v, usize::from(!names.contains(&e.style)), "missing-style", Error);
    }
    for e in evs {
        add(&mut v, e.line.diags.len(), "invalid-tag", Warning);
    }
    let shown: Vec<&Ev> = evs.iter().zip(&times).filter(|(_, x)| x.is_some_and(|(a, b)| a < b)).map(|x| x.0).collect();
    add(&mut v, usize::from(shown.len() > 1000), "performance", Hint);
    for e in shown {
        add(&mut v, usize::from(e.line.plain.chars().count() > 500), "performance", Hint);
        add(&mut v, usize::from(e.line.tags.len() > 20), "performance", Hint);
    }
    for e in evs {
        let s = &e.line.text;
        add(&mut v, usize::from(s.chars().any(|c| c.is_control() && !['\n', '\r', '\t'].contains(&c))), "encoding", Warning);
        add(&mut v, usize::from(s.contains('\u{fffd}')), "encoding", Warning);
        add(&mut v, usize::from(s.len() > 3 * s.chars().count()), "encoding", Hint);
    }
    for (_, x) in info {
        add(&mut v, usize::from(x.chars().any(|c| c.is_control() && !['\n', '\r'].contains(&c))), "encoding", Warning);
    }
    for (e, x) in evs.iter().zip(&times) {
        let len = e.line.plain.chars().count();
        if let Some((a, b)) = x {
            if b >= a {
                add(&mut v, usize::from(b - a < 50), "accessibility", Hint);
                let fast = b > a && (len.min(10_000) as u64) * 100 > 20 * (b - a) as u64;
                add(&mut v, usize::from(fast), "accessibility", Hint);
            }
        }
        add(&mut v, usize::from(len > 200), "accessibility", Hint);
    }
    v
}
/// The overlaps reported name the times of the events that overlap.
fn overlaps_named(full: &[LintIssue], evs: &[Ev]) -> R {
    let times: Vec<Option<(u32, u32)>> = evs.iter().map(|e| Some((parse_ass_time(&e.start).ok()?, parse_ass_time(&e.end).ok()?))).collect();
    if times.iter().any(|x| x.is_none()) {
        return Ok(());
    }
    let mut want = vec![];
    for i in 0..evs.len() {
        for j in i + 1..evs.len() {
            let ((a, b), (c, d)) = (times[i].unwrap(), times[j].unwrap());
            if a < b && c < d && a < d && c < b {
                let mut w = vec![&evs[i].start, &evs[i].end, &evs[j].start, &evs[j].end];
                w.sort();
                want.push(w);
            }
        }
    }
    let mut got = vec![];
    for i in full.iter().filter(|i| i.rule_id() == "timing-overlap") {
        let mut g: Vec<String> = i.message().split_whitespace().map(|w| w.trim_matches(|c: char| !c.is_ascii_digit())).filter(|w| w.contains(':') && parse_ass_time(w).is_ok()).map(|w| w.to_string()).collect();
        g.sort();
        got.push(g);
    }
    want.sort();
    got.sort();
    ensure_eq!(format!("{got:?}"), format!("{want:?}"), "times named by the overlaps");
    Ok(())
}
pub fn lint(t: &mut T) -> R {
    let mut doc = String::new();
    let mut info = vec![];
    if t.chance(2, 3) {
        doc.push_str("[Script Info]\n");
        for i in 0..t.len(4) {
            let v = t.pick(&["x", "a\u{7f}b", "a\tb", "é", "", "a\u{1}", "\u{85}x", "x\u{85}y", "\u{9f}"]).to_string();
            doc.push_str(&format!("Key{i}: {v}\n"));
            info.push((format!("Key{i}"), v.trim().to_string()));
        }
        doc.push('\n');
    }
    let (mut names, mut cols) = (vec![], vec![]);
    for k in 0..t.weighted(&[1, 6, 1]) {
        doc.push_str("[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold\n");
        for _ in 0..t.len(4) {
            let n = t.pick(&["Default", "Alt", "Ünï"]).to_string();
            let c: Vec<String> = (0..4).map(|_| if t.chance(4, 5) { t.pick(&["&H00FFFFFF", "&HFF&", "&h0"]) } else { t.pick(&["", "x", "&HGG", "&H123456789", "255"]) }.to_string()).collect();
            doc.push_str(&format!("Style: {n},Arial,{},{},{}\n", t.pick(&["20", "x"]), c.join(","), t.pick(&["0", "-1"])));
            names.push(n);
            if k == 0 {
                cols.push(c);
            }
        }
        doc.push('\n');
    }
    let many = t.chance(1, 300);
    let mut evs: Vec<Ev> = vec![];
    let n = if many { t.pick_c(&[1000usize, 1001, 1002]) } else { t.len(7) };
    for i in 0..n {
        let mut l = if many { line(t, 1, false) } else { line(t, 4, true) };
        if !many && t.chance(1, 4) {
            let w = t.pick(&["{\\c&HFF&}", "{\\c&HGG&}", "{\\1c&hXX&}", "{\\3c&H12345678901&}", "{\\2c&H&}", "{\\4c&HFF}", "{\\t(0,1,\\c&HZ&)}", "{\\c&h00FF00&}", "{\\5c&HXX&}", "{\\1c&éé&}", "{\\ac&HXX&}"]);
            for p in w[1..w.len() - 1].match_indices('\\') {
                if w.starts_with("{\\t") && p.0 > 0 {
                    continue;
                }
                let body = &w[p.0 + 2..w.len() - 1];
                let digits = usize::from(body.as_bytes()[0].is_ascii_digit());
                let k = digits + body[digits..].bytes().take_while(|c| c.is_ascii_alphabetic()).count();
                l.tags.insert(0, (body[..k].into(), body[k..].into(), 0));
            }
            l.text = format!("{w}{}", l.text);
        }
        if t.chance(1, 12) {
            let w = t.pick(&["\u{fffd}", "\u{1b}", "\u{9f}", "🎬🎬🎬", "日本日本"]);
            let pre = l.text.len();
            if !l.text[..pre].contains('{') || l.text.ends_with('}') {
                if !l.text.ends_with('\\') || l.drawing {
                    l.show(w, w);
                }
            }
        }
        l = outer(l);
        let len = l.plain.chars().count() as u32;
        let a = if many { i as u32 * 100 } else { t.range(0, 40) as u32 * 25 };
        let b = match t.us(5) {
            0 => a + t.pick_c(&[0u32, 49, 50, 51, 1]),
            1 => (a + len * 5 + t.range(0, 4) as u32).saturating_sub(2),
            2 => t.range(0, 40) as u32 * 25,
            _ => a + t.range(1, 500) as u32,
        };
        let b = if many { a + 100 - t.us(2) as u32 } else { b };
        let (mut s, mut e) = (fmt_time(a), fmt_time(b));
        if !many && t.chance(1, 30) {
            let x = bad_time(t).replace(',', "");
            if t.chance(1, 2) { s = x } else { e = x }
        }
        evs.push(Ev { start: s, end: e, style: t.pick(&["Default", "Alt", "Ünï", "Gone"]).into(), line: l });
    }
    let present = !evs.is_empty() || t.chance(1, 2);
    if present {
        doc.push_str("[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n");
        for e in &evs {
            doc.push_str(&format!("{}: 0,{},{},{},,0,0,0,,{}\n", t.pick(&["Dialogue", "Comment"]), e.start, e.end, e.style, e.line.text));
        }
        if t.chance(1, 12) {
            doc.push_str("\n[Events]\nDialogue: 0,0:00:09.00,0:00:01.00,Nope,,0,0,0,,{\\}\n");
        }
    }
    t.input("document", &doc);
    t.nontrivial_if(evs.len() >= 2);
    let sc = parse(&doc)?;
    let got_ev = sc.sections().iter().find_map(|s| match s {
        Section::Events(v) => Some(v.len()),
        _ => None,
    });
    ensure_eq!(got_ev.unwrap_or(0), evs.len(), "parsed events");
    let full = lint_script(&sc, &LintConfig::default()).map_err(|e| format!("lint failed: {e}"))?;
    let key = |v: &[LintIssue]| -> Found { v.iter().map(|i| (i.rule_id(), i.severity())).collect() };
    let rules: Vec<&'static str> = BuiltinRules::all_rules().iter().map(|r| r.id()).collect();
    let want = expected(&info, &cols, &names, &evs);
    for r in &rules {
        let pick = |v: &Found| {
            let mut x: Vec<IssueSeverity> = v.iter().filter(|i| i.0 == *r).map(|i| i.1).collect();
            x.sort();
            x
        };
        ensure_eq!(pick(&key(&full)), pick(&want), "issues of rule {r}");
    }
    ensure_eq!(full.len(), want.len(), "issues in all");
    overlaps_named(&full, &evs)?;
    for i in &full {
        let r = BuiltinRules::all_rules().into_iter().find(|r| r.id() == i.rule_id()).ok_or("an issue of no rule")?;
        ensure_eq!(i.category(), r.category(), "category of an issue of {}", r.id());
        ensure!(!i.message().is_empty(), "an issue without message");
    }
    let an = ScriptAnalysis::analyze(&sc).map_err(|e| format!("analysis failed: {e}"))?;
    ensure_eq!(key(an.lint_issues()), key(&full), "issues of the script analysis");
    ensure_eq!(an.has_critical_issues(), full.iter().any(|i| i.severity() == IssueSeverity::Critical), "critical issues");
    // any configuration selects from these
    let sev = [IssueSeverity::Info, IssueSeverity::Hint, IssueSeverity::Warning, IssueSeverity::Error, IssueSeverity::Critical];
    for _ in 0..2 {
        let min = t.pick_c(&sev);
        let max = if t.chance(1, 2) { 0 } else { t.us(full.len() + 3) };
        let mut cfg = LintConfig::default().with_min_severity(min).with_max_issues(max).with_strict_compliance(t.chance(1, 2));
        for r in &rules {
            match t.weighted(&[6, 1, 1]) {
                1 => cfg.disabled_rules.push(r),
                2 => cfg.enabled_rules.push(r),
                _ => {}
            }
        }
        let mut want: Vec<String> = full
            .iter()
            .filter(|i| i.severity() >= min && !cfg.disabled_rules.contains(&i.rule_id()) && (cfg.enabled_rules.is_empty() || cfg.enabled_rules.contains(&i.rule_id())))
            .map(|i| format!("{i:?}"))
            .collect();
        if max > 0 {
            want.truncate(max);
        }
        let got: Vec<String> = lint_script(&sc, &cfg).map_err(|e| format!("lint failed: {e}"))?.iter().map(|i| format!("{i:?}")).collect();
        ensure_eq!(got, want, "issues under {cfg:?}");
        let got: Vec<String> = lint_script_with_analysis(&an, &cfg).map_err(|e| format!("lint failed: {e}"))?.iter().map(|i| format!("{i:?}")).collect();
        ensure_eq!(got, want, "issues from an analysis under {cfg:?}");
    }
    Ok(())
}
