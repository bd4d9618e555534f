//! C18: line updates, additions, batches and change tracking.
use crate::parse::*;
use ass_core::parser::ast::{Event, Section, Style};
use ass_core::parser::script::*;
use ass_core::parser::Script;
use vkit::ass::*;
use vkit::*;

#[derive(Clone, Debug, PartialEq)]
enum Row {
    Style(Option<String>, Vec<Option<String>>),
    Event(String, Vec<Option<String>>),
    Field(String, String),
}
#[derive(Clone, Debug, PartialEq)]
enum Chg {
    Added(usize, Row, u32),
    Modified(usize, Row, Row, u32),
    SecAdded(Flat, usize),
    SecRemoved(String, usize),
}
/// One section of the model: its content, and the span of each of its rows (one for script info).
#[derive(Clone)]
struct Sec {
    flat: Flat,
    spans: Vec<(usize, usize)>,
}
#[derive(Clone)]
struct Model {
    secs: Vec<Sec>,
    on: bool,
    log: Vec<Chg>,
}
fn kind_of(f: &Flat) -> String {
    match f {
        Flat::Info(_) => "ScriptInfo",
        Flat::Styles(_) => "Styles",
        Flat::Events(_) => "Events",
        Flat::Fonts(_) => "Fonts",
        Flat::Graphics(_) => "Graphics",
    }
    .into()
}
fn sec_of(s: &Section) -> Sec {
    let spans = match s {
        Section::ScriptInfo(i) => vec![(i.span.start, i.span.end)],
        Section::Styles(v) => v.iter().map(|x| (x.span.start, x.span.end)).collect(),
        Section::Events(v) => v.iter().map(|x| (x.span.start, x.span.end)).collect(),
        Section::Fonts(v) => v.iter().map(|x| (x.span.start, x.span.end)).collect(),
        Section::Graphics(v) => v.iter().map(|x| (x.span.start, x.span.end)).collect(),
    };
    Sec { flat: flat_section(s), spans }
}
fn style_row(s: &Style) -> Row {
    match flat_section(&Section::Styles(vec![s.clone()])) {
        Flat::Styles(mut v) => {
            let x = v.remove(0);
            Row::Style(x.0, x.1)
        }
        _ => unreachable!(),
    }
}
fn event_row(e: &Event) -> Row {
    match flat_section(&Section::Events(vec![e.clone()])) {
        Flat::Events(mut v) => {
            let x = v.remove(0);
            Row::Event(x.0, x.1)
        }
        _ => unreachable!(),
    }
}
fn row_of(c: &LineContent) -> Row {
    match c {
        LineContent::Style(s) => style_row(s),
        LineContent::Event(e) => event_row(e),
        LineContent::Field(k, v) => Row::Field(k.to_string(), v.to_string()),
    }
}
fn chg_of(c: &Change) -> Option<Chg> {
    Some(match c {
        Change::Added { offset, content, line_number } => Chg::Added(*offset, row_of(content), *line_number),
        Change::Modified { offset, old_content, new_content, line_number } => Chg::Modified(*offset, row_of(old_content), row_of(new_content), *line_number),
        Change::SectionAdded { section, index } => Chg::SecAdded(flat_section(section), *index),
        Change::SectionRemoved { section_type, index } => Chg::SecRemoved(format!("{section_type:?}"), *index),
        Change::Removed { .. } => return None,
    })
}
impl Model {
    fn rec(&mut self, c: Chg) {
        if self.on {
            self.log.push(c);
        }
    }
    /// The old content, or `None` when the operation must fail.
    fn update(&mut self, off: usize, new: Option<&Row>, ln: u32) -> Option<Row> {
        let new = new?;
        let hit = self.secs.iter().enumerate().find_map(|(i, s)| s.spans.iter().position(|p| p.0 <= off && off < p.1).map(|j| (i, j)))?;
        let old = match (&mut self.secs[hit.0].flat, new) {
            (Flat::Styles(v), Row::Style(p, f)) => {
                let old = std::mem::replace(&mut v[hit.1], (p.clone(), f.clone()));
                Row::Style(old.0, old.1)
            }
            (Flat::Events(v), Row::Event(k, f)) => {
                let old = std::mem::replace(&mut v[hit.1], (k.clone(), f.clone()));
                Row::Event(old.0, old.1)
            }
            (Flat::Info(v), Row::Field(k, x)) => match v.iter_mut().find(|f| f.0 == *k) {
                Some(f) => Row::Field(k.clone(), std::mem::replace(&mut f.1, x.clone())),
                None => {
                    v.push((k.clone(), x.clone()));
                    self.rec(Chg::Added(off, new.clone(), ln));
                    return Some(Row::Field(k.clone(), String::new()));
                }
            },
            _ => return None,
        };
        self.rec(Chg::Modified(off, old.clone(), new.clone(), ln));
        Some(old)
    }
    fn add(&mut self, r: Row, span: (usize, usize, u32)) -> usize {
        self.rec(Chg::Added(span.0, r.clone(), span.2));
        let want = matches!(r, Row::Style(..));
        let i = self.secs.iter().position(|s| if want { matches!(s.flat, Flat::Styles(_)) } else { matches!(s.flat, Flat::Events(_)) });
        let i = i.unwrap_or_else(|| {
            self.secs.push(Sec { flat: if want { Flat::Styles(vec![]) } else { Flat::Events(vec![]) }, spans: vec![] });
            self.secs.len() - 1
        });
        let s = &mut self.secs[i];
        s.spans.push((span.0, span.1));
        match (&mut s.flat, r) {
            (Flat::Styles(v), Row::Style(p, f)) => v.push((p, f)),
            (Flat::Events(v), Row::Event(k, f)) => v.push((k, f)),
            _ => unreachable!(),
        }
        s.spans.len() - 1
    }
}
fn same(sc: &Script, m: &Model, what: &str) -> R {
    let want: Vec<Flat> = m.secs.iter().map(|s| s.flat.clone()).collect();
    diff_flat(&flat(sc), &want).map_err(|e| format!("after {what}: {e}"))?;
    for (s, w) in sc.sections().iter().zip(&m.secs) {
        ensure_eq!(sec_of(s).spans, w.spans, "after {what}: positions of the rows");
    }
    ensure_eq!(sc.is_change_tracking_enabled(), m.on, "after {what}: tracking");
    let got: Vec<Option<Chg>> = sc.changes().iter().map(chg_of).collect();
    ensure_eq!(got, m.log.iter().cloned().map(Some).collect::<Vec<_>>(), "after {what}: recorded changes");
    ensure_eq!(sc.change_count(), m.log.len(), "after {what}: number of changes");
    Ok(())
}
/// A line and what it says, `None` if it says nothing usable.
fn new_line(t: &mut T, scols: &[String], ecols: &[String]) -> (String, Option<Row>) {
    let (l, r) = bare_line(t, scols, ecols);
    let l = if t.chance(1, 6) { format!("{}{l}{}", t.pick(&["", " ", "\t"]), t.pick(&["", "  ", "\t"])) } else { l };
    (l, r)
}
fn bare_line(t: &mut T, scols: &[String], ecols: &[String]) -> (String, Option<Row>) {
    match t.weighted(&[6, 4, 4, 1]) {
        0 => {
            let vals = event_vals(t, ecols, &[]);
            let kind = if t.chance(1, 3) { EVENT_KINDS[t.us(6)] } else { "Dialogue" };
            let l = format!("{kind}: {}", vals.join(","));
            let m = MSection::Events { format: Some(ecols.to_vec()), rows: vec![MEvent { kind, vals }] };
            let r = match flat_model(&MScript { sections: vec![m] }).remove(0) {
                Flat::Events(mut v) => v.remove(0),
                _ => unreachable!(),
            };
            (l, Some(Row::Event(r.0, r.1)))
        }
        1 => {
            let vals = style_vals(t, scols);
            let parent = if t.chance(1, 6) { Some(word(t)) } else { None };
            let l = format!("Style: {}{}", parent.as_ref().map(|p| format!("*{p},")).unwrap_or_default(), vals.join(","));
            let m = MSection::Styles { format: Some(scols.to_vec()), rows: vec![MStyle { parent, vals }] };
            let r = match flat_model(&MScript { sections: vec![m] }).remove(0) {
                Flat::Styles(mut v) => v.remove(0),
                _ => unreachable!(),
            };
            (l, Some(Row::Style(r.0, r.1)))
        }
        2 => {
            let k = t.pick(&["Title", "PlayResX", "New Key", "WrapStyle", "Custom Key", "é"]);
            let v = t.pick(&["1", "x: y", "", "日本", "a,b"]);
            let l = format!("{}{k}:{}{v}", t.pick(&["", " "]), t.pick(&[" ", "", "  "]));
            (l, Some(Row::Field(k.into(), v.into())))
        }
        _ => (t.pick(&["garbage", "", "Format: Name", "  ", "Style", "é"]).to_string(), None),
    }
}
pub fn updates(t: &mut T) -> R {
    let (m, src) = document(t, &Opts { aliases: true, ..Opts::default() });
    let cols = |styles: bool| -> Vec<String> {
        m.sections
            .iter()
            .find_map(|s| match s {
                MSection::Styles { .. } if styles => Some(s.style_cols()),
                MSection::Events { .. } if !styles => Some(s.event_cols()),
                _ => None,
            })
            .unwrap_or_else(|| if styles { STYLE_FIELDS.iter().map(|s| s.to_string()).collect() } else { EVENT_FIELDS.iter().map(|s| s.to_string()).collect() })
    };
    let (sc_, ec) = (cols(true), cols(false));
    let n = t.span(1, 14);
    let pool: Vec<(String, Option<Row>)> = (0..n).map(|_| new_line(t, &sc_, &ec)).collect();
    t.input("text", &src);
    t.input_dbg("lines", &pool.iter().map(|p| &p.0).collect::<Vec<_>>());
    let mut s = parse(&src)?;
    diff_flat(&flat(&s), &flat_model(&m))?;
    let mut w = Model { secs: s.sections().iter().map(sec_of).collect(), on: false, log: vec![] };
    ensure!(!s.is_change_tracking_enabled() && s.changes().is_empty(), "tracking is on in a fresh script");
    let mut ops: Vec<String> = vec![];
    let mut dup = false;
    let mut ok_ops = 0;
    fn offset(t: &mut T, w: &Model, r: Option<&Row>, len: usize) -> usize {
        let fit = |f: &Flat| match (f, r) {
            (Flat::Info(_), Some(Row::Field(..))) | (Flat::Styles(_), Some(Row::Style(..))) | (Flat::Events(_), Some(Row::Event(..))) => true,
            _ => false,
        };
        let c: Vec<(usize, usize)> = w.secs.iter().filter(|s| fit(&s.flat)).flat_map(|s| s.spans.iter().copied()).filter(|p| p.0 < p.1).collect();
        let any: Vec<(usize, usize)> = w.secs.iter().flat_map(|s| s.spans.iter().copied()).filter(|p| p.0 < p.1).collect();
        match t.weighted(&[9, 2, 1]) {
            0 if !c.is_empty() => {
                let p = c[t.us(c.len())];
                t.pick_c(&[p.0, p.1 - 1, p.0 + (p.1 - p.0) / 2])
            }
            1 if !any.is_empty() => {
                let p = any[t.us(any.len())];
                p.0 + t.us(p.1 - p.0)
            }
            _ => t.us(len + 3),
        }
    }
    for step in 0..t.span(1, 8) {
        let what;
        match t.weighted(&[6, 2, 3, 3, 3, 1, 1, 2]) {
            0 => {
                let i = t.us(n);
                let off = offset(t, &w, pool[i].1.as_ref(), src.len());
                let ln = t.us(50) as u32;
                what = format!("update of {off} with {:?}", pool[i].0);
                ops.push(what.clone());
                let got = s.update_line_at_offset(off, &pool[i].0, ln);
                let want = w.update(off, pool[i].1.as_ref(), ln);
                ensure_eq!(got.as_ref().ok().map(row_of), want, "step {step}: {what}: old content ({got:?})");
                ok_ops += usize::from(want.is_some());
            }
            1 => {
                let mut v = vec![];
                let mut u: Vec<(usize, usize, u32)> = vec![];
                for _ in 0..t.len(5) {
                    let i = t.us(n);
                    let off = offset(t, &w, pool[i].1.as_ref(), src.len());
                    let ln = t.us(50) as u32;
                    u.push((off, i, ln));
                    v.push(UpdateOperation { offset: off, new_line: &pool[i].0, line_number: ln });
                }
                what = format!("batch {u:?}");
                ops.push(what.clone());
                let got = s.batch_update_lines(v);
                u.sort_by_key(|x| x.0);
                let (mut good, mut bad) = (vec![], vec![]);
                for (off, i, ln) in u {
                    match w.update(off, pool[i].1.as_ref(), ln) {
                        Some(o) => good.push((off, o)),
                        None => bad.push(off),
                    }
                }
                ensure_eq!(got.updated.iter().map(|(o, c)| (*o, row_of(c))).collect::<Vec<_>>(), good, "{what}: updated");
                ensure_eq!(got.failed.iter().map(|x| x.0).collect::<Vec<_>>(), bad, "{what}: failed");
                ok_ops += good.len();
            }
            2 => {
                // all or nothing
                let mut v = vec![];
                let mut tmp = w.clone();
                let mut fail = false;
                let mut u = vec![];
                for _ in 0..t.len(4) {
                    let mut i = t.us(n);
                    let mut off = offset(t, &tmp, pool[i].1.as_ref(), src.len());
                    if tmp.clone().update(off, pool[i].1.as_ref(), 0).is_none() && t.chance(2, 3) {
                        i = t.us(n);
                        off = offset(t, &tmp, pool[i].1.as_ref(), src.len());
                    }
                    let ln = t.us(50) as u32;
                    fail |= tmp.update(off, pool[i].1.as_ref(), ln).is_none();
                    u.push((off, i));
                    v.push(UpdateOperation { offset: off, new_line: &pool[i].0, line_number: ln });
                }
                let st: Vec<Style> = if t.chance(1, 2) { parsed_styles(t, &s, &pool) } else { vec![] };
                let ev: Vec<Event> = if t.chance(1, 2) { parsed_events(t, &s, &pool) } else { vec![] };
                let (has_s, has_e) = (!st.is_empty() || t.chance(1, 8), !ev.is_empty() || t.chance(1, 8));
                let had = |m: &Model, st: bool| m.secs.iter().any(|s| if st { matches!(s.flat, Flat::Styles(_)) } else { matches!(s.flat, Flat::Events(_)) });
                if has_s && st.is_empty() && !had(&tmp, true) {
                    tmp.secs.push(Sec { flat: Flat::Styles(vec![]), spans: vec![] });
                }
                for x in &st {
                    tmp.add(style_row(x), (x.span.start, x.span.end, x.span.line));
                }
                if has_e && ev.is_empty() && !had(&tmp, false) {
                    tmp.secs.push(Sec { flat: Flat::Events(vec![]), spans: vec![] });
                }
                for x in &ev {
                    tmp.add(event_row(x), (x.span.start, x.span.end, x.span.line));
                }
                what = format!("atomic {u:?} and {} styles, {} events", st.len(), ev.len());
                ops.push(what.clone());
                let before = s.clone();
                let got = s.atomic_batch_update(v, has_s.then_some(StyleBatch { styles: st }), has_e.then_some(EventBatch { events: ev }));
                ensure_eq!(got.is_ok(), !fail, "{what}: success ({got:?})");
                if fail {
                    t.label("atomic batch fails");
                    ensure!(s == before, "{what}: failed, but changed the script");
                } else {
                    w = tmp;
                    ok_ops += u.len();
                }
            }
            3 => {
                let st = parsed_styles(t, &s, &pool);
                let ev = parsed_events(t, &s, &pool);
                what = format!("adding {} styles and {} events", st.len(), ev.len());
                ops.push(what.clone());
                if t.chance(1, 2) {
                    for x in st {
                        let want = w.add(style_row(&x), (x.span.start, x.span.end, x.span.line));
                        ensure_eq!(s.add_style(x), want, "{what}: index of the style");
                        ok_ops += 1;
                    }
                    for x in ev {
                        let want = w.add(event_row(&x), (x.span.start, x.span.end, x.span.line));
                        ensure_eq!(s.add_event(x), want, "{what}: index of the event");
                        ok_ops += 1;
                    }
                } else {
                    if !st.is_empty() {
                        let want: Vec<usize> = st.iter().map(|x| w.add(style_row(x), (x.span.start, x.span.end, x.span.line))).collect();
                        ensure_eq!(s.batch_add_styles(StyleBatch { styles: st }), want, "{what}: indices of the styles");
                    }
                    if !ev.is_empty() {
                        let want: Vec<usize> = ev.iter().map(|x| w.add(event_row(x), (x.span.start, x.span.end, x.span.line))).collect();
                        ensure_eq!(s.batch_add_events(EventBatch { events: ev }), want, "{what}: indices of the events");
                    }
                }
            }
            4 => {
                w.on = t.chance(3, 4);
                what = format!("tracking {}", w.on);
                ops.push(what.clone());
                if w.on { s.enable_change_tracking() } else { s.disable_change_tracking() }
            }
            5 => {
                what = "clearing the changes".to_string();
                ops.push(what.clone());
                s.clear_changes();
                w.log.clear();
            }
            6 => {
                let i = t.us(w.secs.len() + 1);
                what = format!("removing section {i}");
                ops.push(what.clone());
                let got = s.remove_section(i);
                if i < w.secs.len() {
                    let old = w.secs.remove(i);
                    ensure_eq!(got.as_ref().ok().map(flat_section), Some(old.flat.clone()), "{what}: the removed section");
                    w.rec(Chg::SecRemoved(kind_of(&old.flat), i));
                } else {
                    ensure!(got.is_err(), "{what}: there is none");
                }
            }
            _ => {
                if s.sections().is_empty() {
                    continue;
                }
                let i = t.us(s.sections().len());
                let x = s.sections()[i].clone();
                let y = sec_of(&x);
                what = format!("adding a copy of section {i}");
                ops.push(what.clone());
                dup = true;
                ensure_eq!(s.add_section(x), w.secs.len(), "{what}: index");
                w.rec(Chg::SecAdded(y.flat.clone(), w.secs.len()));
                w.secs.push(y);
            }
        }
        same(&s, &w, &what).map_err(|e| format!("step {step}: {e}"))?;
    }
    t.input_dbg("operations", &ops);
    t.nontrivial_if(ok_ops >= 2);
    // what was changed reads back; two sections of one kind would share one Format (K01)
    if !dup {
        let out = s.to_ass_string();
        let back = parse(&out)?;
        let full: Vec<Flat> = w.secs.iter().map(|s| s.flat.clone()).collect();
        diff_flat(&flat(&back), &full).map_err(|e| format!("serialized and parsed again: {e}\nserialized: {out:?}"))?;
    }
    Ok(())
}
fn parsed_styles<'a>(t: &mut T, s: &Script<'a>, pool: &'a [(String, Option<Row>)]) -> Vec<Style<'a>> {
    let mut v = vec![];
    for (l, r) in pool {
        if let (Some(Row::Style(..)), true) = (r, t.chance(1, 3)) {
            if let Ok((_, LineContent::Style(x))) = s.parse_line_auto(l, t.us(40) as u32) {
                v.push(*x);
            }
        }
    }
    v
}
fn parsed_events<'a>(t: &mut T, s: &Script<'a>, pool: &'a [(String, Option<Row>)]) -> Vec<Event<'a>> {
    let mut v = vec![];
    for (l, r) in pool {
        if let (Some(Row::Event(..)), true) = (r, t.chance(1, 3)) {
            if let Ok((_, LineContent::Event(x))) = s.parse_line_auto(l, t.us(40) as u32) {
                v.push(*x);
            }
        }
    }
    v
}
