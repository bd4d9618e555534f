//! E12: queries equal filtering and sorting by hand.
use crate::cmd::event_step;
use crate::rows::*;
use ass_editor::*;
use std::cmp::Ordering;
use vkit::ass::*;
use vkit::*;

use ass_core::parser::ast::EventType;

#[derive(Clone, Debug)]
struct Ev {
    index: usize,
    kind: EventType,
    layer: String,
    start: String,
    end: String,
    style: String,
    name: String,
    ml: String,
    mr: String,
    mv: String,
    mt: Option<String>,
    mb: Option<String>,
    effect: String,
    text: String,
    line: usize,
    from: usize,
    to: usize,
}
fn kind_of(s: &str) -> Option<EventType> {
    Some(match s {
        "Dialogue" => EventType::Dialogue,
        "Comment" => EventType::Comment,
        "Picture" => EventType::Picture,
        "Sound" => EventType::Sound,
        "Movie" => EventType::Movie,
        "Command" => EventType::Command,
        _ => return None,
    })
}
/// The events as the lines have them; a column the section lacks reads as the document reports it.
fn model(r: &Rows, all: &[EventInfo]) -> std::result::Result<Vec<Ev>, String> {
    let v = r.events();
    ensure_eq!(all.len(), v.len(), "number of events");
    let mut out = vec![];
    for (k, l) in v.into_iter().enumerate() {
        let g = &all[k].event;
        let f = |n: &str, d: &str| r.get(l, n).unwrap_or_else(|| d.to_string());
        let from = r.at(l) + if l == 0 && r.bom { 3 } else { 0 };
        out.push(Ev {
            index: k,
            kind: kind_of(&r.kind(l)).ok_or("HARNESS: kind of a line")?,
            layer: f("Layer", &g.layer),
            start: f("Start", &g.start),
            end: f("End", &g.end),
            style: f("Style", &g.style),
            name: f("Name", &g.name),
            ml: f("MarginL", &g.margin_l),
            mr: f("MarginR", &g.margin_r),
            mv: f("MarginV", &g.margin_v),
            mt: r.get(l, "MarginT"),
            mb: r.get(l, "MarginB"),
            effect: f("Effect", &g.effect),
            text: f("Text", &g.text),
            line: l + 1,
            from,
            to: from + r.ls[l].s.len(),
        });
    }
    Ok(out)
}
fn same(e: &Ev, g: &EventInfo) -> R {
    let o = &g.event;
    let got = (g.index, o.event_type, &o.layer, &o.start, &o.end, &o.style, &o.name, &o.effect, o.text.trim(), g.line_number);
    let want = (e.index, e.kind, &e.layer, &e.start, &e.end, &e.style, &e.name, &e.effect, e.text.trim(), e.line);
    ensure_eq!(got, want, "event (index, kind, layer, start, end, style, name, effect, text, line)");
    let got = (&o.margin_l, &o.margin_r, &o.margin_v, &o.margin_t, &o.margin_b);
    let want = (&e.ml, &e.mr, &e.mv, &e.mt, &e.mb);
    ensure_eq!(got, want, "margins of event {}", e.index);
    let got = (g.range.start.offset, g.range.end.offset);
    ensure_eq!(got, (e.from, e.to), "range of event {}", e.index);
    Ok(())
}
fn time(s: &str) -> u32 {
    cs(s).unwrap_or(0)
}
fn crit(t: &mut T) -> EventSortCriteria {
    use EventSortCriteria::*;
    t.pick_c(&[0, 1, 2, 3, 4, 5, 6, 7].map(|i| i)).pipe(|i: usize| [StartTime, EndTime, Duration, Style, Speaker, Layer, Index, Text][i].clone())
}
trait Pipe: Sized {
    fn pipe<X>(self, f: impl FnOnce(Self) -> X) -> X {
        f(self)
    }
}
impl Pipe for usize {}
fn cmp(a: &Ev, b: &Ev, c: &EventSortCriteria) -> Ordering {
    use EventSortCriteria::*;
    let layer = |e: &Ev| e.layer.parse::<u32>().unwrap_or(0);
    let dur = |e: &Ev| time(&e.end).saturating_sub(time(&e.start));
    match c {
        StartTime => time(&a.start).cmp(&time(&b.start)),
        EndTime => time(&a.end).cmp(&time(&b.end)),
        Duration => dur(a).cmp(&dur(b)),
        Style => a.style.cmp(&b.style),
        Speaker => a.name.cmp(&b.name),
        Layer => layer(a).cmp(&layer(b)),
        Index => a.index.cmp(&b.index),
        Text => a.text.cmp(&b.text),
    }
}
/// A pattern likely to be found in some events and not in others.
fn pattern(t: &mut T, v: &[Ev], f: impl Fn(&Ev) -> &String) -> String {
    if v.is_empty() || t.chance(1, 8) {
        return t.pick(&["", "zzz", "def", "É", "ß", "I", "Default"]).to_string();
    }
    let i = t.us(v.len());
    let c: Vec<char> = f(&v[i]).chars().collect();
    let a = t.us(c.len() + 1);
    let n = t.us(5);
    let s: String = c[a..].iter().take(n).collect();
    match t.us(4) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        _ => s,
    }
}
fn hit(s: &str, p: &str, case: bool) -> bool {
    if case {
        s.contains(p)
    } else {
        s.to_lowercase().contains(&p.to_lowercase())
    }
}
fn e<X>(x: std::result::Result<X, EditorError>, what: &str) -> std::result::Result<X, String> {
    x.map_err(|e| format!("{what} failed: {e}"))
}
pub fn queries(t: &mut T) -> R {
    let o = Opts { parents: false, unique: false, max_rows: 8, ..Opts::default() };
    let Some((mut r, mut d)) = Rows::open(t, &o) else { return Ok(()) };
    for _ in 0..t.span(1, 3) {
        if t.chance(1, 2) {
            event_step(t, &mut r, &mut d)?;
        }
        query(t, &mut r, &mut d)?;
    }
    Ok(())
}
fn query(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> R {
    let all = e(d.events().all(), "all events")?;
    let v = model(r, &all)?;
    for (m, g) in v.iter().zip(&all) {
        same(m, g)?;
    }
    let n = e(d.events().count(), "count")?;
    ensure_eq!(n, v.len(), "count of events");
    // one event by its index
    let i = t.us(v.len() + 2);
    let one = e(d.events().get(i), "event by index")?;
    ensure_eq!(one.is_some(), i < v.len(), "event {i} exists");
    if let Some(g) = one {
        same(&v[i], &g)?;
    }
    let want = v.get(i);
    macro_rules! acc {
        ($f:ident, $w:expr) => {
            let got = e(d.events().event(i).$f(), stringify!($f))?;
            let w = want.map($w);
            ensure_eq!(got, w, "{} of event {i}", stringify!($f));
        };
    }
    acc!(text, |e: &Ev| all[e.index].event.text.clone());
    acc!(style, |e: &Ev| e.style.clone());
    acc!(speaker, |e: &Ev| e.name.clone());
    acc!(timing, |e: &Ev| (e.start.clone(), e.end.clone()));
    acc!(start_time, |e: &Ev| e.start.clone());
    acc!(end_time, |e: &Ev| e.end.clone());
    acc!(layer, |e: &Ev| e.layer.clone());
    acc!(effect, |e: &Ev| e.effect.clone());
    acc!(event_type, |e: &Ev| e.kind);
    acc!(margins, |e: &Ev| (e.ml.clone(), e.mr.clone(), e.mv.clone()));
    let got = e(d.events().event(i).exists(), "exists")?;
    ensure_eq!(got, want.is_some(), "exists of event {i}");

    // a filter
    let p = |t: &mut T| t.chance(1, 4);
    let mut f = EventFilter::default();
    let kinds = [EventType::Dialogue, EventType::Comment, EventType::Picture, EventType::Sound, EventType::Movie, EventType::Command];
    if p(t) {
        let few = if t.chance(1, 4) { 6 } else { 2 };
        let k = t.us(few);
        f.event_type = Some(kinds[k]);
    }
    if p(t) {
        f.style_pattern = Some(pattern(t, &v, |e| &e.style));
    }
    if p(t) {
        f.speaker_pattern = Some(pattern(t, &v, |e| &e.name));
    }
    if p(t) {
        f.text_pattern = Some(pattern(t, &v, |e| &e.text));
    }
    if p(t) {
        f.effect_pattern = Some(pattern(t, &v, |e| &e.effect));
    }
    if p(t) {
        let l = if v.is_empty() { 0 } else { let i = t.us(v.len()); v[i].layer.parse().unwrap_or(0) };
        f.layer = Some(l);
    }
    if p(t) {
        let at = |t: &mut T| {
            let base = if v.is_empty() { 0 } else { let i = t.us(v.len()); if t.chance(1, 2) { time(&v[i].start) } else { time(&v[i].end) } };
            (base as i64 + t.range(-2, 2)).max(0) as u32
        };
        let (a, b) = (at(t), at(t));
        f.time_range = Some(if t.chance(3, 4) { (a.min(b), a.max(b)) } else { (a, b) });
    }
    f.case_sensitive = t.chance(1, 2);
    let sort = if t.chance(2, 3) { Some(EventSortOptions { criteria: crit(t), secondary: if t.chance(1, 2) { Some(crit(t)) } else { None }, ascending: t.chance(1, 2) }) } else { None };
    let limit = if t.chance(1, 4) { Some(t.us(4)) } else { None };
    let what = format!("query {f:?} sorted {sort:?} limit {limit:?}");
    t.input_dbg("op", &what);
    let some = |o: &Option<String>, s: &str| o.as_ref().is_none_or(|p| hit(s, p, f.case_sensitive));
    let mut w: Vec<&Ev> = v
        .iter()
        .filter(|e| {
            f.event_type.is_none_or(|k| k == e.kind)
                && some(&f.style_pattern, &e.style)
                && some(&f.speaker_pattern, &e.name)
                && some(&f.text_pattern, &all[e.index].event.text)
                && some(&f.effect_pattern, &e.effect)
                && f.layer.is_none_or(|l| e.layer.parse() == Ok(l))
                && f.time_range.is_none_or(|(a, b)| matches!((cs(&e.start), cs(&e.end)), (Some(x), Some(y)) if x >= a && y <= b))
        })
        .collect();
    let matching = w.len();
    if let Some(s) = &sort {
        // insertion sort: stable, and reversed per comparison
        for i in 1..w.len() {
            let mut j = i;
            while j > 0 {
                let mut c = cmp(w[j - 1], w[j], &s.criteria);
                if c == Ordering::Equal {
                    if let Some(x) = &s.secondary {
                        c = cmp(w[j - 1], w[j], x);
                    }
                }
                if !s.ascending {
                    c = c.reverse();
                }
                if c != Ordering::Greater {
                    break;
                }
                w.swap(j - 1, j);
                j -= 1;
            }
        }
    }
    w.truncate(limit.unwrap_or(usize::MAX));
    t.nontrivial_if(v.len() > 2 && (matching < v.len() || sort.is_some()) && matching > 0);
    let want: Vec<usize> = w.iter().map(|e| e.index).collect();
    let step = t.chance(1, 2);
    let make = |d: &mut EditorDocument, run: &mut dyn FnMut(EventQuery<'_>) -> R| -> R {
        let mut q = d.events().query();
        if step {
            if let Some(k) = f.event_type {
                q = q.filter_by_type(k);
            }
            if let Some(p) = &f.style_pattern {
                q = q.filter_by_style(p);
            }
            if let Some(p) = &f.speaker_pattern {
                q = q.filter_by_speaker(p);
            }
            if let Some(p) = &f.text_pattern {
                q = q.filter_by_text(p);
            }
            if let Some(p) = &f.effect_pattern {
                q = q.filter_by_effect(p);
            }
            if let Some(l) = f.layer {
                q = q.filter_by_layer(l);
            }
            if let Some((a, b)) = f.time_range {
                q = q.filter_by_time_range(a, b);
            }
            q = q.case_sensitive(f.case_sensitive);
            if let Some(s) = &sort {
                q = match &s.criteria {
                    EventSortCriteria::StartTime => q.sort_by_time(),
                    EventSortCriteria::Style => q.sort_by_style(),
                    EventSortCriteria::Duration => q.sort_by_duration(),
                    c => q.sort(c.clone()),
                };
                if let Some(x) = &s.secondary {
                    q = q.then_by(x.clone());
                }
                if !s.ascending {
                    q = q.descending();
                }
            }
        } else {
            q = q.filter(f.clone());
            if let Some(s) = &sort {
                q = q.sort_by(s.clone());
            }
        }
        if let Some(n) = limit {
            q = if step { q.limit(n) } else { q.take(n) };
        }
        run(q)
    };
    make(d, &mut |q| {
        let got = e(q.execute(), &what)?;
        let ix: Vec<usize> = got.iter().map(|g| g.index).collect();
        ensure_eq!(ix, want, "{what}: indices of");
        for g in &got {
            same(&v[g.index], g)?;
        }
        Ok(())
    })?;
    make(d, &mut |q| {
        let got = e(q.indices(), &what)?;
        ensure_eq!(got, want, "{what}: indices()");
        Ok(())
    })?;
    make(d, &mut |q| {
        let got = e(q.count(), &what)?;
        ensure_eq!(got, want.len(), "{what}: count()");
        Ok(())
    })?;
    make(d, &mut |q| {
        let got: Vec<(usize, OwnedEvent)> = e(q.with_indices(), &what)?;
        let w: Vec<(usize, OwnedEvent)> = want.iter().map(|i| (*i, all[*i].event.clone())).collect();
        ensure_eq!(got, w, "{what}: with_indices()");
        Ok(())
    })?;
    if limit != Some(0) {
        make(d, &mut |q| {
            let got = e(q.first(), &what)?.map(|g| g.index);
            ensure_eq!(got, want.first().copied(), "{what}: first()");
            Ok(())
        })?;
    }
    // the short forms
    {
        let k = t.us(7);
        let (st, tx) = (pattern(t, &v, |e| &e.style), pattern(t, &v, |e| &e.text));
        let (a, b) = f.time_range.unwrap_or((0, 500));
        let what = format!("short form {k} style {st:?} text {tx:?} range {a} {b}");
        t.input_dbg("op", &what);
        let o = d.events();
        let got = match k {
            0 => o.dialogues(),
            1 => o.comments(),
            2 => o.in_time_range(a, b),
            3 => o.with_style(&st),
            4 => o.containing(&tx),
            5 => o.in_order(),
            _ => o.by_time(),
        }
        .indices();
        let mut want: Vec<&Ev> = v
            .iter()
            .filter(|e| match k {
                0 => e.kind == EventType::Dialogue,
                1 => e.kind == EventType::Comment,
                2 => matches!((cs(&e.start), cs(&e.end)), (Some(x), Some(y)) if x >= a && y <= b),
                3 => hit(&e.style, &st, false),
                4 => hit(&all[e.index].event.text, &tx, false),
                _ => true,
            })
            .collect();
        if k == 6 {
            want.sort_by_key(|e| time(&e.start));
        }
        ensure_eq!(e(got, &what)?, want.iter().map(|e| e.index).collect::<Vec<_>>(), "{what}: indices of");
    }
    r.untouched(d, &what)?;

    // deleting what a query finds
    if t.chance(1, 3) && !r.events().is_empty() {
        let k = t.us(6);
        let st = pattern(t, &v, |e| &e.style);
        let tx = pattern(t, &v, |e| &e.text);
        let (a, b) = f.time_range.unwrap_or((0, 500));
        let what = format!("delete query {k} style {st:?} text {tx:?} range {a} {b}");
        t.input_dbg("op", &what);
        let q = d.events().delete_query();
        let got = match k {
            0 => q.dialogues(),
            1 => q.comments(),
            2 => q.in_time_range(a, b),
            3 => q.with_style(&st),
            4 => q.containing(&tx),
            _ => q.all(),
        };
        e(got.map(|_| ()), &what)?;
        let gone: Vec<usize> = v
            .iter()
            .filter(|e| match k {
                0 => e.kind == EventType::Dialogue,
                1 => e.kind == EventType::Comment,
                2 => matches!((cs(&e.start), cs(&e.end)), (Some(x), Some(y)) if x >= a && y <= b),
                3 => hit(&e.style, &st, false),
                4 => hit(&all[e.index].event.text, &tx, false),
                _ => true,
            })
            .map(|e| e.line - 1)
            .collect();
        let mut i = 0;
        r.ls.retain(|_| {
            i += 1;
            !gone.contains(&(i - 1))
        });
        r.agree(d, &what)?;
    }
    Ok(())
}
