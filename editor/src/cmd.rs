//! E03, E04, E06, E07: commands change what they name, and nothing else.
use crate::rows::*;
use ass_editor::commands::*;
use ass_editor::*;
use vkit::ass::*;
use vkit::*;

fn opts() -> Opts {
    Opts { parents: false, unique: false, ..Opts::default() }
}
fn index(t: &mut T, n: usize) -> usize {
    if n > 0 && !t.chance(1, 12) {
        t.us(n)
    } else {
        n + t.us(3)
    }
}
fn indices(t: &mut T, n: usize) -> Vec<usize> {
    let k = t.us(4);
    (0..k).map(|_| index(t, n)).collect()
}
fn is_events(s: &MSection) -> bool {
    matches!(s, MSection::Events { .. })
}
/// A time near those of an event.
fn near(t: &mut T, r: &Rows, i: Option<usize>) -> u32 {
    let Some(i) = i else { return time_cs(t) };
    let (a, b) = (r.get(i, "Start").and_then(|x| cs(&x)).unwrap_or(0), r.get(i, "End").and_then(|x| cs(&x)).unwrap_or(0));
    match t.us(6) {
        0 => a,
        1 => b,
        2 => a + 1,
        3 => b.saturating_sub(1),
        4 => time_cs(t),
        _ => a + t.range(0, (b.saturating_sub(a)) as i64) as u32,
    }
}
fn outcome<X>(r: &mut Rows, d: &EditorDocument, got: std::result::Result<X, EditorError>, ok: bool, what: &str) -> std::result::Result<bool, String> {
    match got {
        Ok(_) => {
            ensure!(ok, "{what} succeeded");
            Ok(true)
        }
        Err(e) => {
            ensure!(!ok, "{what} failed: {e}");
            r.untouched(d, &format!("failed {what}"))?;
            Ok(false)
        }
    }
}
/// Runs a command plainly; checks what it says about itself.
fn run(d: &mut EditorDocument, c: &dyn EditorCommand) -> std::result::Result<bool, EditorError> {
    let before = d.text();
    let r = d.execute_command(c)?;
    let after = d.text();
    crate::doc::told(&r, &before, &after, "the command").map_err(|e| EditorError::command_failed(format!("HARNESS: {e}")))?;
    Ok(true)
}

/// One event command on the document and on the model. Returns whether the model changed.
pub fn event_step(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> std::result::Result<bool, String> {
    let ev = r.events();
    let n = ev.len();
    let any = r.has(is_events).is_some();
    let before = r.h.text.clone();
    let fluent = t.chance(1, 3);
    match t.weighted(&[3, 3, 2, 2, 4, 3, 4]) {
        0 => {
            let i = index(t, n);
            let line = ev.get(i).copied();
            let bad = t.chance(1, 20);
            let at = near(t, r, line);
            let time = if bad { t.pick(&["", "1", "x:y:z", "0:00", "0:00:aa.00"]).to_string() } else { fmt_time(at) };
            let what = format!("split {i} at {time:?}");
            t.input_dbg("op", &what);
            let (a, b) = line.map(|l| (r.get(l, "Start").and_then(|x| cs(&x)), r.get(l, "End").and_then(|x| cs(&x)))).unwrap_or((None, None));
            let ok = !bad && a.is_some_and(|a| a < at) && b.is_some_and(|b| at < b);
            let got = if fluent { d.events().split(i, &time).map(|_| true) } else { run(d, &SplitEventCommand::new(i, time.clone())) };
            if outcome(r, d, got, ok, &what)? {
                let l = line.unwrap();
                let (x, y) = (r.with(l, &[("End", &time)]), r.with(l, &[("Start", &time)]));
                let nl = r.ls[l].nl;
                let mut second = r.ls[l].clone();
                second.s = y;
                second.nl = nl;
                r.ls[l].s = x;
                if nl.is_empty() {
                    // the break between the two halves of a last line is the command's choice
                    let got = d.text();
                    let p = r.at(l) + r.ls[l].s.len();
                    r.ls[l].nl = if got[p.min(got.len())..].starts_with("\r\n") { "\r\n" } else { "\n" };
                }
                r.ls.insert(l + 1, second);
                r.agree(d, &what)?;
            }
        }
        1 => {
            let a = index(t, n);
            let b = if t.chance(1, 2) { a + 1 } else { index(t, n) };
            let sep = t.pick(&[" ", "\\N", "", " / ", ", ", "é"]);
            let what = format!("merge {a} {b} {sep:?}");
            t.input_dbg("op", &what);
            let ok = a < b && b < n;
            let got = if fluent {
                d.events().merge(a, b).with_separator(sep).apply().map(|_| true)
            } else if sep == " " {
                run(d, &MergeEventsCommand::new(a, b))
            } else {
                run(d, &MergeEventsCommand::new(a, b).with_separator(sep.into()))
            };
            if outcome(r, d, got, ok, &what)? {
                let (x, y) = (ev[a], ev[b]);
                let text = format!("{}{sep}{}", r.get(x, "Text").unwrap(), r.get(y, "Text").unwrap());
                let end = r.get(y, "End").unwrap();
                r.ls[x].s = r.with(x, &[("End", &end), ("Text", &text)]);
                r.ls.remove(y);
                r.agree(d, &what)?;
            }
        }
        2 => {
            let i = index(t, n);
            let what = format!("delete {i}");
            t.input_dbg("op", &what);
            let got = if fluent { d.events().delete(i).map(|_| true) } else { run(d, &DeleteEventCommand::new(i)) };
            if outcome(r, d, got, i < n, &what)? {
                r.ls.remove(ev[i]);
                r.agree(d, &what)?;
            }
        }
        3 => {
            let v = indices(t, n);
            let what = format!("delete {v:?}");
            t.input_dbg("op", &what);
            let got = match t.us(3) {
                _ if !any => run(d, &BatchDeleteEventsCommand::new(v.clone())),
                0 => d.events().delete_multiple(v.clone()).map(|_| true),
                1 => d.events().delete_query().by_indices(v.clone()).execute().map(|_| true),
                _ => run(d, &BatchDeleteEventsCommand::new(v.clone())),
            };
            if !any {
                return r.untouched(d, &what).map(|_| false);
            }
            if outcome(r, d, got, true, &what)? {
                let gone: Vec<usize> = v.iter().filter_map(|i| ev.get(*i).copied()).collect();
                let mut i = 0;
                r.ls.retain(|_| {
                    i += 1;
                    !gone.contains(&(i - 1))
                });
                r.agree(d, &what)?;
            }
        }
        k => {
            // timing, toggling, effects: an empty list means every event
            let v = indices(t, n);
            let pick: Vec<usize> = (0..n).filter(|i| v.is_empty() || v.contains(i)).map(|i| ev[i]).collect();
            match k {
                4 => {
                    let off = |t: &mut T| match t.us(5) {
                        0 => 0,
                        1 => t.range(-100, 100) as i32,
                        2 => t.range(-5000, 5000) as i32,
                        3 => t.pick_c(&[i32::MIN, i32::MIN + 1, -40_000_000]),
                        _ => t.range(0, 400_000) as i32,
                    };
                    let (mut a, mut b) = (off(t), off(t));
                    let form = t.us(6);
                    // scaling by a factor, then no offset
                    let factor = t.pick_c(&[1.0, 2.0, 0.5, 1.5, 0.0, 0.25, 3.0, 10.0, 1e6]);
                    match form {
                        5 => (a, b) = (0, 0),
                        0 => b = a,
                        1 if fluent => b = 0,
                        // the command keeps the duration
                        1 => b = a,
                        2 => a = 0,
                        _ => {}
                    }
                    let what = if form == 5 { format!("scale {v:?} {factor}") } else { format!("timing {v:?} {a} {b}") };
                    t.input_dbg("op", &what);
                    let one = fluent && v.len() == 1 && t.chance(1, 2);
                    let got = match form {
                        5 if one => d.events().event(v[0]).timing_ops().scale_duration(factor).map(|_| true),
                        0 if one => d.events().event(v[0]).timing_ops().shift(a).map(|_| true),
                        5 if fluent => d.events().timing().events(v).scale_duration(factor).map(|_| true),
                        5 => run(d, &TimingAdjustCommand::scale_duration(v, factor)),
                        0 if fluent => d.events().timing().events(v).shift(a).map(|_| true),
                        1 if fluent => d.events().timing().events(v).shift_start(a).map(|_| true),
                        2 if fluent => d.events().timing().events(v).shift_end(b).map(|_| true),
                        1 => run(d, &TimingAdjustCommand::shift_start(v, a)),
                        2 => run(d, &TimingAdjustCommand::shift_end(v, b)),
                        _ if fluent => d.events().timing().events(v).adjust(a, b).map(|_| true),
                        _ if v.is_empty() => run(d, &TimingAdjustCommand::all_events(a, b)),
                        _ => run(d, &TimingAdjustCommand::new(v, a, b)),
                    };
                    if outcome(r, d, got, any, &what)? {
                        for l in pick {
                            let (Some(s), Some(e)) = (r.get(l, "Start").and_then(|x| cs(&x)), r.get(l, "End").and_then(|x| cs(&x))) else { continue };
                            let e = if form == 5 {
                                // to the nearest centisecond
                                let n = (e.saturating_sub(s) as f64 * factor + 0.5).floor().min(u32::MAX as f64);
                                s.saturating_add(n as u32)
                            } else {
                                e
                            };
                            let s2 = (s as i64 + a as i64).clamp(0, u32::MAX as i64);
                            let e2 = (e as i64 + b as i64).max(s2 + 1).min(u32::MAX as i64);
                            r.ls[l].s = r.with(l, &[("Start", &fmt_time(s2 as u32)), ("End", &fmt_time(e2 as u32))]);
                        }
                        r.agree(d, &what)?;
                    }
                }
                5 => {
                    let what = format!("toggle {v:?}");
                    t.input_dbg("op", &what);
                    let got = if fluent && v.len() == 1 {
                        d.events().event(v[0]).toggle_ops().apply().map(|_| true)
                    } else if fluent {
                        d.events().toggle_type().events(v).apply().map(|_| true)
                    } else if v.len() == 1 {
                        run(d, &ToggleEventTypeCommand::single(v[0]))
                    } else if v.is_empty() {
                        run(d, &ToggleEventTypeCommand::all())
                    } else {
                        run(d, &ToggleEventTypeCommand::new(v))
                    };
                    if outcome(r, d, got, any, &what)? {
                        for l in pick {
                            let (from, to) = match r.kind(l).as_str() {
                                "Dialogue" => ("Dialogue", "Comment"),
                                "Comment" => ("Comment", "Dialogue"),
                                _ => continue,
                            };
                            r.ls[l].s = r.ls[l].s.replacen(from, to, 1);
                        }
                        r.agree(d, &what)?;
                    }
                }
                _ => {
                    let e = t.pick(&["fx", "Banner;5", "Scroll down;1;2;3", "é", "Karaoke"]).to_string();
                    let op = t.us(4);
                    let what = format!("effect {op} {v:?} {e:?}");
                    t.input_dbg("op", &what);
                    let got = if fluent {
                        let f = match v.as_slice() {
                            [i] if t.chance(1, 2) => d.events().event(*i).effect_ops(),
                            _ => d.events().effects().events(v.clone()),
                        };
                        match op {
                            0 => f.set(&e),
                            1 => f.clear(),
                            2 => f.append(&e),
                            _ => f.prepend(&e),
                        }
                        .map(|_| true)
                    } else {
                        let c = match op {
                            0 => EventEffectCommand::set_effect(v, e.clone()),
                            1 => EventEffectCommand::clear_effect(v),
                            2 => EventEffectCommand::append_effect(v, e.clone()),
                            _ => EventEffectCommand::new(v, e.clone(), EffectOperation::Prepend),
                        };
                        run(d, &c)
                    };
                    if outcome(r, d, got, any, &what)? {
                        for l in pick {
                            let Some(old) = r.get(l, "Effect") else { continue };
                            let new = match op {
                                0 => e.clone(),
                                1 => String::new(),
                                _ if old.is_empty() => e.clone(),
                                2 => format!("{old} {e}"),
                                _ => format!("{e} {old}"),
                            };
                            r.ls[l].s = r.with(l, &[("Effect", &new)]);
                        }
                        r.agree(d, &what)?;
                    }
                }
            }
        }
    }
    Ok(r.h.text != before)
}
fn finish(t: &mut T, r: &mut Rows, d: &mut EditorDocument, changes: usize) -> R {
    t.nontrivial_if(changes > 0 && r.ls.len() > 2);
    r.h.sweep(d)
}
pub fn events(t: &mut T) -> R {
    let Some((mut r, mut d)) = Rows::open(t, &opts()) else { return Ok(()) };
    let mut c = 0;
    for _ in 0..t.span(1, 4) {
        c += event_step(t, &mut r, &mut d)? as usize;
        let n = d.events_count().map_err(|e| format!("{e}"))?;
        ensure_eq!(n, r.events().len(), "events after the command");
    }
    finish(t, &mut r, &mut d, c)
}

fn style_pos(r: &Rows, name: &str) -> Option<usize> {
    r.styles().into_iter().find(|i| r.get(*i, "Name").as_deref() == Some(name))
}
fn style_name(t: &mut T, r: &Rows) -> String {
    let v = r.styles();
    if !v.is_empty() && t.chance(4, 5) {
        let i = t.pick_c(&v);
        if let Some(n) = r.get(i, "Name").filter(|n| !n.contains(',')) {
            return n;
        }
    }
    t.pick(&["Default", "Fresh", "Alt", "a", "St", "Défaut", "Main"]).to_string()
}
/// One style command.
pub fn style_step(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> std::result::Result<bool, String> {
    let before = r.h.text.clone();
    let fluent = t.chance(1, 3);
    match t.weighted(&[3, 4, 3, 2, 3]) {
        0 => {
            let name = style_name(t, r);
            let (font, size) = (t.pick(&["Arial", "Noto Sans", "Ü"]), t.span(1, 200) as u32);
            let what = format!("create style {name:?}");
            t.input_dbg("op", &what);
            let b = StyleBuilder::new().font(font).size(size);
            let got = if fluent { d.styles().create(&name, b).map(|_| true) } else { run(d, &CreateStyleCommand::new(name.clone(), b)) };
            if let Some(h) = r.has(|s| matches!(s, MSection::Styles { .. })) {
                let Tag::Header(si) = r.ls[h].tag else { unreachable!() };
                let cols = r.m.sections[si].style_cols();
                // columns the builder knows nothing of are refused
                let known = |c: &String| STYLE_FIELDS.contains(&c.as_str()) || ["MarginT", "MarginB", "RelativeTo"].contains(&c.as_str());
                if !cols.iter().all(known) {
                    if got.is_err() {
                        return r.untouched(d, &what).map(|_| false);
                    }
                }
                if let Err(e) = got {
                    return Err(format!("{what} failed: {e}"));
                }
                let at = (h + 1..r.ls.len()).take_while(|i| !matches!(r.ls[*i].tag, Tag::Header(_))).find(|i| matches!(r.ls[*i].tag, Tag::Format(_))).unwrap_or(h) + 1;
                let ins = r.inserted(d, at, &what)?;
                r.take(at, Tag::Style(si, 999), &ins, &what)?;
                ensure_eq!(r.kind(at), "Style", "{what}: kind of line {:?}", r.ls[at].s);
                ensure_eq!(fields(&r.ls[at].s, cols.len()).len(), cols.len(), "{what}: fields of {:?}", r.ls[at].s);
                for (f, w) in [("Name", &name), ("Fontname", &font.to_string()), ("Fontsize", &size.to_string())] {
                    if let Some(g) = r.get(at, f) {
                        ensure_eq!(&g, w, "{what}: {f} of {:?} under {cols:?}", r.ls[at].s);
                    }
                }
            } else {
                if let Err(e) = got {
                    return Err(format!("{what} failed: {e}"));
                }
                new_style_section(r, d, &name, font, &what)?;
            }
        }
        1 => {
            let name = style_name(t, r);
            let mut c = EditStyleCommand::new(name.clone());
            let mut e: Vec<(String, String)> = vec![];
            for _ in 0..t.us(4) {
                let (f, v) = match t.us(8) {
                    0 => {
                        c = c.set_font("Verdana");
                        ("Fontname".into(), "Verdana".into())
                    }
                    1 => {
                        let n = t.span(1, 99) as u32;
                        c = c.set_size(n);
                        ("Fontsize".into(), n.to_string())
                    }
                    2 => {
                        c = c.set_color("&H00ABCDEF");
                        ("PrimaryColour".into(), "&H00ABCDEF".into())
                    }
                    3 => {
                        let b = t.chance(1, 2);
                        c = c.set_bold(b);
                        ("Bold".into(), if b { "-1" } else { "0" }.to_string())
                    }
                    4 => {
                        let b = t.chance(1, 2);
                        c = c.set_italic(b);
                        ("Italic".into(), if b { "-1" } else { "0" }.to_string())
                    }
                    5 => {
                        let n = t.span(1, 9) as u32;
                        c = c.set_alignment(n);
                        ("Alignment".into(), n.to_string())
                    }
                    6 => {
                        c = c.set_field("Nonsense", "1".into());
                        ("Nonsense".into(), "1".to_string())
                    }
                    _ => {
                        let f = t.pick(&STYLE_FIELDS).to_string();
                        let v = t.pick(&["Renamed", "7", "é", ""]).to_string();
                        if f == "Name" && v.is_empty() {
                            continue;
                        }
                        c = c.set_field(&f, v.clone());
                        (f, v)
                    }
                };
                e.retain(|x| x.0 != f);
                e.push((f, v));
            }
            let what = format!("edit style {name:?} {e:?}");
            t.input_dbg("op", &what);
            let l = style_pos(r, &name);
            let got = run(d, &c);
            if outcome(r, d, got, l.is_some(), &what)? {
                let l = l.unwrap();
                let ed: Vec<(&str, &str)> = e.iter().map(|x| (x.0.as_str(), x.1.as_str())).collect();
                r.ls[l].s = r.with(l, &ed);
                r.agree(d, &what)?;
            }
        }
        2 => {
            let (a, b) = (style_name(t, r), if t.chance(1, 3) { style_name(t, r) } else { "Copy".to_string() });
            let what = format!("clone style {a:?} as {b:?}");
            t.input_dbg("op", &what);
            let src = style_pos(r, &a);
            let ok = src.is_some() && style_pos(r, &b).is_none();
            let got = if fluent { d.styles().clone(&a, &b).map(|_| true) } else { run(d, &CloneStyleCommand::new(a.clone(), b.clone())) };
            if outcome(r, d, got, ok, &what)? {
                let l = src.unwrap();
                let mut c = r.ls[l].clone();
                c.s = r.with(l, &[("Name", &b)]);
                if r.ls[l].nl.is_empty() {
                    let p = r.at(l) + r.ls[l].s.len();
                    let got = d.text();
                    r.ls[l].nl = if got[p..].starts_with("\r\n") { "\r\n" } else { "\n" };
                }
                r.ls.insert(l + 1, c);
                r.agree(d, &what)?;
            }
        }
        3 => {
            let a = style_name(t, r);
            let what = format!("delete style {a:?}");
            t.input_dbg("op", &what);
            let l = style_pos(r, &a);
            let got = if fluent { d.styles().delete(&a).map(|_| true) } else { run(d, &DeleteStyleCommand::new(a.clone())) };
            if outcome(r, d, got, l.is_some(), &what)? {
                r.ls.remove(l.unwrap());
                r.agree(d, &what)?;
            }
        }
        _ => {
            let ev = r.events();
            let a = if !ev.is_empty() && t.chance(3, 4) {
                let i = t.pick_c(&ev);
                r.get(i, "Style").unwrap_or_default()
            } else {
                style_name(t, r)
            };
            let b = style_name(t, r);
            let filter = if t.chance(1, 2) { Some(t.pick(&["Hello", "line", "\\b1", "Default", "é", ",", "0:00"])) } else { None };
            let what = format!("apply style {b:?} for {a:?} where {filter:?}");
            t.input_dbg("op", &what);
            let mut c = ApplyStyleCommand::new(a.clone(), b.clone());
            if let Some(f) = filter {
                c = c.with_filter(f.to_string());
            }
            let got = if fluent {
                let f = d.styles().apply(&a, &b);
                match filter {
                    Some(x) => f.with_filter(x).apply(),
                    None => f.apply(),
                }
                .map(|_| true)
            } else {
                run(d, &c)
            };
            let any = r.has(is_events).is_some();
            if outcome(r, d, got, any, &what)? {
                for l in ev {
                    if r.get(l, "Style").as_ref() == Some(&a) && !filter.is_some_and(|f| !r.get(l, "Text").unwrap().contains(f)) {
                        r.ls[l].s = r.with(l, &[("Style", &b)]);
                    }
                }
                r.agree(d, &what)?;
            }
        }
    }
    Ok(r.h.text != before)
}
/// A section of styles was added to a document without one; the model is told about it.
fn new_style_section(r: &mut Rows, d: &EditorDocument, name: &str, font: &str, what: &str) -> R {
    let at = r.has(is_events).unwrap_or(r.ls.len());
    let ins = r.inserted(d, at, what)?;
    let si = r.m.sections.len();
    r.m.sections.push(MSection::Styles { format: None, rows: vec![] });
    take_section(r, at, &ins, what, |s| if s.trim_start().starts_with("Style:") { Tag::Style(si, 0) } else if s.starts_with('[') { Tag::Header(si) } else { Tag::Format(si) })?;
    let v: Vec<usize> = (0..r.ls.len()).filter(|i| matches!(r.ls[*i].tag, Tag::Style(s, _) if s == si)).collect();
    ensure_eq!(v.len(), 1, "{what}: styles of the new section in {ins:?}");
    let f = ins.lines().find(|l| l.starts_with("Format:")).ok_or_else(|| format!("{what}: no format in {ins:?}"))?;
    let cols: Vec<String> = f["Format:".len()..].split(',').map(|c| c.trim().to_string()).collect();
    r.m.sections[si] = MSection::Styles { format: Some(cols), rows: vec![] };
    let (n, f) = (r.get(v[0], "Name"), r.get(v[0], "Fontname"));
    ensure_eq!(n.as_deref(), Some(name), "{what}: name in {ins:?}");
    ensure_eq!(f.as_deref(), Some(font), "{what}: font in {ins:?}");
    Ok(())
}
/// Takes inserted lines over; a line break before them ends the line above if it had none.
fn take_section(r: &mut Rows, at: usize, ins: &str, what: &str, tag: impl Fn(&str) -> Tag) -> R {
    let mut rest = ins;
    if at > 0 && r.ls[at - 1].nl.is_empty() {
        ensure!(rest.starts_with(['\n', '\r']), "{what}: {ins:?} was appended to the line before");
        let n = if rest.starts_with("\r\n") { "\r\n" } else { "\n" };
        r.ls[at - 1].nl = n;
        rest = &rest[n.len()..];
    }
    ensure!(at == r.ls.len() || rest.ends_with('\n'), "{what}: {ins:?} has the next line appended");
    let mut i = at;
    for l in rest.split_inclusive('\n') {
        let nl = if l.ends_with("\r\n") { "\r\n" } else if l.ends_with('\n') { "\n" } else { "" };
        let s = &l[..l.len() - nl.len()];
        let g = if s.trim().is_empty() { Tag::Noise } else { tag(s) };
        r.ls.insert(i, Ln { tag: g, s: s.to_string(), nl });
        i += 1;
    }
    ensure_eq!(r.text(), r.h.text, "{what}: HARNESS the new lines");
    Ok(())
}
pub fn styles(t: &mut T) -> R {
    let Some((mut r, mut d)) = Rows::open(t, &opts()) else { return Ok(()) };
    let mut c = 0;
    for _ in 0..t.span(1, 4) {
        c += style_step(t, &mut r, &mut d)? as usize;
        let n = d.styles_count().map_err(|e| format!("{e}"))?;
        ensure_eq!(n, r.styles().len(), "styles after the command");
    }
    finish(t, &mut r, &mut d, c)
}

/// A piece of event text.
#[derive(Clone, Debug)]
enum P {
    T(String),
    /// A comment, then tags as name and arguments.
    B(String, Vec<(String, String)>),
}
fn put(p: &[P]) -> String {
    p.iter()
        .map(|p| match p {
            P::T(s) => s.clone(),
            P::B(c, v) => format!("{{{c}{}}}", v.iter().map(|(n, a)| format!("\\{n}{a}")).collect::<String>()),
        })
        .collect()
}
fn one_tag(t: &mut T) -> (String, String) {
    let (n, a) = match t.us(13) {
        0 => (t.pick(&["b", "i", "u", "s"]), t.pick(&["0", "1"]).to_string()),
        1 => ("fs", t.range(1, 90).to_string()),
        2 => ("pos", format!("({},{})", t.range(-9, 700), t.range(0, 500))),
        3 => (t.pick(&["c", "1c", "3c"]), format!("&H{:06X}&", t.range(0, 0xFFFFFF))),
        4 => ("an", t.range(1, 9).to_string()),
        5 => ("fad", format!("({}, {})", t.range(0, 900), t.range(0, 900))),
        6..=8 => (t.pick(&["k", "kf", "ko", "K", "kt"]), t.range(0, 300).to_string()),
        9 => ("bord", t.range(0, 9).to_string()),
        10 => ("blur", t.range(0, 9).to_string()),
        11 => ("r", String::new()),
        _ => ("be", t.range(0, 3).to_string()),
    };
    (n.to_string(), a)
}
fn pieces(t: &mut T) -> Vec<P> {
    let mut v = vec![];
    for _ in 0..t.span(1, 7) {
        if t.chance(2, 5) {
            let c = if t.chance(1, 6) { t.pick(&["note", "é ", "b1"]).to_string() } else { String::new() };
            let n = t.span(1, 3) as usize;
            v.push(P::B(c, (0..n).map(|_| one_tag(t)).collect()));
        } else {
            v.push(P::T(t.pick(&["Hello", " world", "ka", "ra o", "ke", "日本", " é", "\\N", "a, b", "!", "Two  words", "日 本 語"]).to_string()));
        }
    }
    // a field has no blanks at its ends
    v.insert(0, P::T("S".into()));
    v.push(P::T("E".into()));
    v
}
fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut deep = 0;
    for c in s.chars() {
        match c {
            '{' => deep += 1,
            '}' => deep -= 1,
            _ if deep == 0 => o.push(c),
            _ => {}
        }
    }
    o
}
/// Text in front of each block and the content of the block, and the text after the last.
fn blocks(s: &str) -> (Vec<(String, String)>, String) {
    let mut v = vec![];
    let mut rest = s;
    while let Some(i) = rest.find('{') {
        let j = i + rest[i..].find('}').unwrap_or(rest.len() - i - 1);
        v.push((rest[..i].to_string(), rest[i + 1..j].to_string()));
        rest = &rest[j + 1..];
    }
    (v, rest.to_string())
}
fn ktype(t: &mut T) -> (KaraokeType, &'static str) {
    match t.us(4) {
        0 => (KaraokeType::Standard, "k"),
        1 => (KaraokeType::Fill, "kf"),
        2 => (KaraokeType::Outline, "ko"),
        _ => (KaraokeType::Transition, "kt"),
    }
}
/// Gives an event structured text and runs a tag or karaoke command on a part of it.
pub fn tag_step(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> std::result::Result<bool, String> {
    let ev = r.events();
    if ev.is_empty() {
        return Ok(false);
    }
    let l = t.pick_c(&ev);
    let ps = pieces(t);
    let f = r.field(l, "Text").unwrap();
    let at = r.at(l) + f.start;
    let full = put(&ps);
    d.replace(crate::doc::rng(at, r.at(l) + f.end), &full).map_err(|e| format!("replace: {e}"))?;
    r.ls[l].s.replace_range(f.clone(), &full);
    r.agree(d, "setting the text")?;
    t.input_dbg("event text", &full);
    let before = r.h.text.clone();

    // pieces a..b
    let a = t.us(ps.len());
    let b = a + t.us(ps.len() - a + 1);
    let (head, tail) = (put(&ps[..a]), put(&ps[b..]));
    let sel = &ps[a..b];
    let old = put(sel);
    let x = at + head.len();
    let range = crate::doc::rng(x, x + old.len());
    let fluent = t.chance(1, 3);
    let karaoke = |n: &str| n.starts_with(['k', 'K']);
    let (what, got, ok, want): (String, std::result::Result<bool, EditorError>, bool, Option<String>);
    match t.weighted(&[2, 2, 3, 2, 2, 2, 3, 3, 2, 2]) {
        0 => {
            let (n, g) = one_tag(t);
            let tag = format!("\\{n}{g}");
            let form = t.us(4);
            let given = match form {
                0 => format!("{{{tag}}}"),
                1 => format!(" {tag} "),
                2 => n.clone(),
                _ => tag.clone(),
            };
            what = format!("insert {given:?} at {x}");
            let p = Position::new(x);
            let raw = t.chance(1, 5);
            got = match (raw, fluent) {
                (true, true) => d.tags().at(p).insert_raw(&given).map(|_| true),
                (true, false) => run(d, &InsertTagCommand::new(p, given).no_auto_wrap()),
                (false, true) => d.tags().at(p).insert(&given).map(|_| true),
                _ => run(d, &InsertTagCommand::new(p, given)),
            };
            ok = form != 2;
            want = Some(format!("{head}{}{old}{tail}", if raw && form != 0 { tag } else { format!("{{{tag}}}") }));
        }
        1 => {
            let keep = !fluent && t.chance(1, 3);
            what = format!("remove all tags in {range:?}, keeping blocks: {keep}");
            got = if fluent {
                d.tags().in_range(range).remove_all().map(|_| true)
            } else if keep {
                run(d, &RemoveTagCommand::new(range).keep_empty_overrides())
            } else {
                run(d, &RemoveTagCommand::new(range))
            };
            ok = true;
            want = Some(format!(
                "{head}{}{tail}",
                sel.iter()
                    .map(|p| match p {
                        P::T(s) => s.clone(),
                        _ if keep => "{}".into(),
                        _ => String::new(),
                    })
                    .collect::<String>()
            ));
        }
        2 => {
            let (n, _) = one_tag(t);
            let keep = !fluent && t.chance(1, 3);
            let pat = if t.chance(1, 2) { format!("\\{n}") } else { n.clone() };
            what = format!("remove {pat:?} in {range:?}, keeping blocks: {keep}");
            let mut c = RemoveTagCommand::new(range).pattern(pat.clone());
            if keep {
                c = c.keep_empty_overrides();
            }
            got = if fluent { d.tags().in_range(range).remove_pattern(&pat).map(|_| true) } else { run(d, &c) };
            ok = true;
            let mut o = head.clone();
            for p in sel {
                match p {
                    P::T(s) => o.push_str(s),
                    P::B(c, v) => {
                        let left: Vec<_> = v.iter().filter(|x| x.0 != n).cloned().collect();
                        if !left.is_empty() || !c.is_empty() || keep {
                            o.push_str(&put(&[P::B(c.clone(), left)]));
                        }
                    }
                }
            }
            want = Some(o + &tail);
        }
        3 => {
            let (n, g) = one_tag(t);
            let find = if t.chance(1, 2) { format!("\\{n}{g}") } else { format!("\\{n}") };
            let with = t.pick(&["\\b1", "\\fs40", "\\c&H00FF00&", ""]);
            let all = t.chance(1, 2);
            what = format!("replace {find:?} by {with:?} in {range:?}, all: {all}");
            let c = ReplaceTagCommand::new(range, find.clone(), with.into());
            got = match (fluent, all) {
                (true, true) => d.tags().in_range(range).replace_all(&find, with).map(|_| true),
                (true, false) => d.tags().in_range(range).replace(&find, with).map(|_| true),
                (false, true) => run(d, &c.all()),
                _ => run(d, &c),
            };
            ok = true;
            let mut done = false;
            let mut o = head.clone();
            for p in sel {
                match p {
                    P::T(s) => o.push_str(s),
                    P::B(c, v) => {
                        o.push('{');
                        o.push_str(c);
                        for (n, g) in v {
                            let s = format!("\\{n}{g}");
                            match s.strip_prefix(&find) {
                                Some(rest) if all || !done => {
                                    done = true;
                                    o.push_str(with);
                                    o.push_str(rest);
                                }
                                _ => o.push_str(&s),
                            }
                        }
                        o.push('}');
                    }
                }
            }
            want = Some(o + &tail);
        }
        4 => {
            let (open, close) = match t.us(8) {
                0 => ("\\b1", "\\b0"),
                1 => ("\\i1", "\\i0"),
                2 => ("\\u1", "\\u0"),
                3 => ("\\s1", "\\s0"),
                4 => ("\\c&H0000FF&", "\\c"),
                5 => ("\\bord3", "\\r"),
                6 => ("\\blur2", "\\r"),
                _ => ("\\fs30", "\\fs20"),
            };
            what = format!("wrap {range:?} in {open:?}");
            let given = close == "\\fs20" || t.chance(1, 4);
            let c = WrapTagCommand::new(range, open.into());
            got = match (fluent, given) {
                (true, true) => d.tags().in_range(range).wrap_with(open, close).map(|_| true),
                (true, false) => d.tags().in_range(range).wrap(open).map(|_| true),
                (false, true) => run(d, &c.closing_tag(close.into())),
                _ => run(d, &c),
            };
            ok = true;
            want = Some(format!("{head}{{{open}}}{old}{{{close}}}{tail}"));
        }
        5 => {
            what = format!("parse {range:?}");
            let v = if fluent {
                d.tags().in_range(range).parse()
            } else {
                let c = ParseTagCommand::new(range).with_positions();
                d.text_range(range).and_then(|s| c.parse_tags_from_text(&s))
            }
            .map_err(|e| format!("{what} failed: {e}"))?;
            let mut w = vec![];
            let mut p = x;
            for q in sel {
                if let P::B(c, tags) = q {
                    let mut y = p + 1 + c.len();
                    for (n, g) in tags {
                        let params: Vec<String> = g.strip_prefix('(').map(|g| g.trim_end_matches(')').split(',').map(|s| s.trim().to_string()).collect()).unwrap_or_default();
                        let tag = if params.is_empty() { format!("\\{n}{g}") } else { format!("\\{n}") };
                        w.push((tag, params, y));
                        y += 1 + n.len() + g.len();
                    }
                }
                p += put(std::slice::from_ref(q)).len();
            }
            ensure_eq!(v.iter().map(|x| (x.tag.clone(), x.parameters.clone())).collect::<Vec<_>>(), w.iter().map(|x| (x.0.clone(), x.1.clone())).collect::<Vec<_>>(), "{what}: tags");
            for (g, w) in v.iter().zip(&w) {
                if let Some(p) = g.position {
                    ensure_eq!(p.offset, w.2, "{what}: position of {:?}", g.tag);
                }
            }
            ensure!(fluent || v.iter().all(|x| x.position.is_some()), "{what}: positions are missing");
            r.untouched(d, &what)?;
            return Ok(false);
        }
        6 => {
            let dur = t.range(0, 500) as u32;
            let (ty, k) = ktype(t);
            let manual = t.chance(1, 3);
            what = format!("generate {dur} {ty:?} in {range:?}, manual: {manual}");
            let mut c = GenerateKaraokeCommand::new(range, dur).karaoke_type(ty);
            if manual {
                c = c.manual_syllables();
            }
            got = if fluent {
                let g = d.karaoke().in_range(range).generate(dur).karaoke_type(ty);
                if manual { g.manual_syllables() } else { g }.execute().map(|_| true)
            } else {
                run(d, &c)
            };
            ok = !old.contains(['{', '}']);
            want = None;
            if ok && got.is_ok() && !old.is_empty() {
                let new = middle(r, d, l, &head, &tail, &what)?;
                ensure_eq!(strip(&new), old, "{what}: visible text of {new:?}");
                let (v, rest) = blocks(&new);
                ensure!(v.iter().all(|x| x.1 == format!("\\{k}{dur}")), "{what}: blocks of {new:?}");
                ensure!(v.first().is_some_and(|x| x.0.is_empty()), "{what}: {new:?} starts without timing");
                ensure!(!manual || v.len() == 1, "{what}: one syllable was asked for, {new:?}");
                let blank = |s: &str| s.trim().is_empty();
                let all: Vec<&str> = v.iter().skip(1).map(|x| x.0.as_str()).chain([rest.as_str()]).collect();
                ensure!(blank(&old) || !all.iter().any(|s| blank(s)), "{what}: a syllable of {new:?} has no text");
                // each word is timed apart from the next
                ensure!(manual || all.iter().all(|s| s.split_whitespace().count() <= 1), "{what}: a syllable of {new:?} holds two words");
            }
        }
        7 => {
            let op = t.us(4);
            let fac = t.pick_c(&[0.0f32, 0.5, 1.0, 1.2, 2.0, 10.0]);
            let off = t.pick_c(&[-1000, -10, -1, 0, 1, 5, 100, i32::MIN, i32::MAX]);
            let all = t.range(0, 500) as u32;
            let custom: Vec<u32> = (0..t.us(5)).map(|_| t.range(0, 300) as u32).collect();
            what = format!("adjust {range:?}: {}", ["scale by ", "offset by ", "set to ", "take "][op].to_string() + &[format!("{fac}"), format!("{off}"), format!("{all}"), format!("{custom:?}")][op]);
            got = if fluent {
                let f = d.karaoke().in_range(range).adjust();
                match op {
                    0 => f.scale(fac),
                    1 => f.offset(off),
                    2 => f.set_all(all),
                    _ => f.custom(custom.clone()),
                }
                .map(|_| true)
            } else {
                run(d, &match op {
                    0 => AdjustKaraokeCommand::scale(range, fac),
                    1 => AdjustKaraokeCommand::offset(range, off),
                    2 => AdjustKaraokeCommand::set_all(range, all),
                    _ => AdjustKaraokeCommand::custom(range, custom.clone()),
                })
            };
            ok = true;
            let mut i = 0;
            let w: Vec<P> = sel
                .iter()
                .map(|p| match p {
                    P::T(_) => p.clone(),
                    P::B(c, v) => P::B(
                        c.clone(),
                        v.iter()
                            .map(|(n, g)| {
                                if !karaoke(n) {
                                    return (n.clone(), g.clone());
                                }
                                let cur: u32 = g.parse().unwrap();
                                let new = match op {
                                    0 => ((cur as f32 * fac) as u32).max(1),
                                    1 => (cur as i64 + off as i64).max(1) as u32,
                                    2 => all,
                                    _ => custom.get(i).copied().unwrap_or(cur),
                                };
                                i += 1;
                                (n.clone(), new.to_string())
                            })
                            .collect(),
                    ),
                })
                .collect();
            want = Some(format!("{head}{}{tail}", put(&w)));
        }
        8 => {
            if old.contains('{') {
                return Ok(false);
            }
            let n = old.chars().count();
            let pos: Vec<usize> = (0..t.us(4)).map(|_| t.us(n + 3)).collect();
            let dur = if t.chance(1, 2) { Some(t.range(0, 200) as u32) } else { None };
            what = format!("split {range:?} at {pos:?} with {dur:?}");
            let c = SplitKaraokeCommand::new(range, pos.clone());
            got = match (fluent, dur) {
                (true, Some(x)) => d.karaoke().in_range(range).split(pos.clone()).duration(x).execute().map(|_| true),
                (true, None) => d.karaoke().in_range(range).split(pos.clone()).execute().map(|_| true),
                (false, Some(x)) => run(d, &c.duration(x)),
                _ => run(d, &c),
            };
            ok = true;
            let mut o = head.clone();
            // positions out of order or outside the text are passed over
            let mut cuts = vec![0];
            for p in pos {
                if p > *cuts.last().unwrap() && p < n {
                    cuts.push(p);
                }
            }
            for (i, c) in old.chars().enumerate() {
                if cuts.contains(&i) {
                    o.push_str(&format!("{{\\k{}}}", dur.unwrap_or(50)));
                }
                o.push(c);
            }
            want = Some(o + &tail);
        }
        _ => {
            let (ty, k) = ktype(t);
            let dur = t.range(0, 300) as u32;
            let pat: Vec<u32> = (0..t.us(4)).map(|_| t.range(0, 300) as u32).collect();
            let (bpm, beats) = (t.range(30, 240) as u32, t.pick_c(&[0.5f32, 1.0, 2.0]));
            let op = t.us(3);
            what = format!("apply {} {ty:?} to {range:?}", [format!("{dur}"), format!("{bpm} {beats}"), format!("{pat:?}")][op]);
            got = if fluent {
                let f = d.karaoke().in_range(range).apply();
                match op {
                    0 => f.equal(dur, ty),
                    1 => f.beat(bpm, beats, ty),
                    _ => f.pattern(pat.clone(), ty),
                }
                .map(|_| true)
            } else {
                run(d, &match op {
                    0 => ApplyKaraokeCommand::equal(range, dur, ty),
                    1 => ApplyKaraokeCommand::beat(range, bpm, beats, ty),
                    _ => ApplyKaraokeCommand::pattern(range, pat.clone(), ty),
                })
            };
            ok = op != 2 || !pat.is_empty();
            want = if !ok {
                Some(String::new())
            } else {
                let clean = strip(&old);
                let w: Vec<String> = clean
                    .split_whitespace()
                    .enumerate()
                    .map(|(i, w)| {
                        let n = match op {
                            0 => dur,
                            1 => ((60.0 / bpm as f32) * beats * 100.0) as u32,
                            _ => pat[i % pat.len()],
                        };
                        format!("{{\\{k}{n}}}{w}")
                    })
                    .collect();
                Some(format!("{head}{}{tail}", w.join(" ")))
            };
        }
    }
    t.input_dbg("op", &what);
    if outcome(r, d, got, ok, &what)? {
        if let Some(w) = want {
            r.ls[l].s = r.with(l, &[("Text", &w)]);
            r.agree(d, &what)?;
        } else {
            let got = middle(r, d, l, &head, &tail, &what)?;
            r.ls[l].s = r.with(l, &[("Text", &format!("{head}{got}{tail}"))]);
            r.agree(d, &what)?;
        }
    }
    Ok(r.h.text != before)
}
/// What stands in the document between the kept parts of the text of an event.
fn middle(r: &Rows, d: &EditorDocument, l: usize, head: &str, tail: &str, what: &str) -> std::result::Result<String, String> {
    let f = r.field(l, "Text").unwrap();
    let old = r.text();
    let base = r.at(l);
    let a = format!("{}{head}", &old[..base + f.start]);
    let b = format!("{tail}{}", &old[base + f.end..]);
    let got = d.text();
    ensure!(got.len() >= a.len() + b.len() && got.starts_with(&a) && got.ends_with(&b), "{what}: more than the range changed\n got {got:?}\n was {old:?}");
    Ok(got[a.len()..got.len() - b.len()].to_string())
}
pub fn tags(t: &mut T) -> R {
    let Some((mut r, mut d)) = Rows::open(t, &opts()) else { return Ok(()) };
    let mut c = 0;
    for _ in 0..t.span(1, 4) {
        c += tag_step(t, &mut r, &mut d)? as usize;
    }
    finish(t, &mut r, &mut d, c)
}

fn info_at(r: &Rows) -> Option<(usize, Vec<(usize, String, String)>)> {
    let h = r.ls.iter().position(|l| matches!(l.tag, Tag::Header(s) if matches!(r.m.sections[s], MSection::Info(_))))?;
    let v = (h + 1..r.ls.len())
        .take_while(|i| !matches!(r.ls[*i].tag, Tag::Header(_)))
        .filter(|i| matches!(r.ls[*i].tag, Tag::Field(..)))
        .map(|i| {
            let (k, v) = r.ls[i].s.split_once(':').unwrap();
            (i, k.trim().to_string(), v.trim().to_string())
        })
        .collect();
    Some((h, v))
}
fn info_step(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> R {
    let key = t.pick(&["Title", "WrapStyle", "PlayResX", "PlayResY", "ScaledBorderAndShadow", "Original Script", "Custom Key", "Key", "Play", "Matrix", "Neu", "Clé"]).to_string();
    let val = t.pick(&["x", "640", "a: b", "é, ü", "yes", "v4.00+"]).to_string();
    let info = info_at(r);
    let found = info.as_ref().and_then(|(_, v)| v.iter().find(|x| x.1 == key).cloned());
    match t.weighted(&[4, 2, 2, 3]) {
        0 => {
            let fluent = t.chance(1, 2);
            // the properties that have a setter of their own
            let named = fluent && t.chance(1, 2);
            let n = t.pick_c(&[0u8, 1, 2, 3, 7, 255]);
            let val = match key.as_str() {
                "WrapStyle" if named => n.to_string(),
                "ScaledBorderAndShadow" if named => if n & 1 == 0 { "yes" } else { "no" }.to_string(),
                _ => val,
            };
            let what = format!("set {key:?} to {val:?}");
            t.input_dbg("op", &what);
            let got = if named && key == "Title" {
                d.info().title(&val).map(|_| true)
            } else if named && key == "Original Script" {
                d.info().author(&val).map(|_| true)
            } else if named && key == "WrapStyle" {
                d.info().wrap_style(n).map(|_| true)
            } else if named && key == "ScaledBorderAndShadow" {
                d.info().scaled_border_and_shadow(n & 1 == 0).map(|_| true)
            } else if fluent {
                d.info().set(&key, &val).map(|_| true)
            } else { run(d, &SetScriptInfoCommand::new(key.clone(), val.clone())) };
            if outcome(r, d, got, info.is_some(), &what)? {
                let i = match &found {
                    Some((i, _, _)) => {
                        r.replaced(d, *i, &what)?;
                        *i
                    }
                    None => {
                        let h = info.unwrap().0;
                        let ins = r.inserted(d, h + 1, &what)?;
                        r.take(h + 1, Tag::Field(0, 99), &ins, &what)?;
                        h + 1
                    }
                };
                let (k, v) = r.ls[i].s.split_once(':').ok_or_else(|| format!("{what}: {:?}", r.ls[i].s))?;
                ensure_eq!((k.trim(), v.trim()), (key.as_str(), val.as_str()), "{what}: the new line");
            }
        }
        1 => {
            let what = format!("delete {key:?}");
            t.input_dbg("op", &what);
            let got = if t.chance(1, 2) { d.info().delete(&key).map(|_| true) } else { run(d, &DeleteScriptInfoCommand::new(key.clone())) };
            if outcome(r, d, got, info.is_some(), &what)? {
                if let Some((i, _, _)) = found {
                    r.ls.remove(i);
                }
                r.agree(d, &what)?;
            }
        }
        2 => {
            // a field that does not exist is not set
            let what = format!("set field {key:?} to {val:?}");
            t.input_dbg("op", &what);
            if t.chance(1, 3) { (|| script_info!(d, { &key => &val }))() } else { d.set_script_info_field(&key, &val) }.map_err(|e: EditorError| format!("{what} failed: {e}"))?;
            match found {
                None => r.untouched(d, &what)?,
                Some((i, _, _)) => {
                    let s = r.replaced(d, i, &what)?;
                    let (k, v) = s.split_once(':').ok_or_else(|| format!("{what}: {s:?}"))?;
                    ensure_eq!((k.trim(), v.trim()), (key.as_str(), val.as_str()), "{what}: the new line");
                }
            }
        }
        _ => {
            t.input_dbg("op", &format!("get {key:?}"));
            let all = GetAllScriptInfoCommand::new().get_all(d);
            let one = d.info().get(&key);
            let at = |k: &str| info.as_ref().and_then(|(_, v)| v.iter().find(|x| x.1 == k)).map(|x| x.2.clone());
            if info.is_some() {
                let o = d.info();
                ensure_eq!(o.get_title().map_err(|e| format!("{e}"))?, at("Title"), "the title");
                ensure_eq!(o.get_author().map_err(|e| format!("{e}"))?, at("Original Script"), "the author");
                let num = |k: &str| at(k).map(|v| v.parse::<u32>());
                ensure_eq!(o.get_wrap_style().ok(), at("WrapStyle").map(|v| v.parse::<u8>()).transpose().ok(), "the wrap style");
                let want = match (num("PlayResX"), num("PlayResY")) {
                    (Some(Ok(x)), Some(Ok(y))) => Some(Some((x, y))),
                    (Some(_), Some(_)) => None,
                    _ => Some(None),
                };
                ensure_eq!(o.get_resolution().ok(), want, "the resolution");
                let yes = at("ScaledBorderAndShadow").map(|v| v.to_lowercase() == "yes" || v == "1");
                ensure_eq!(o.get_scaled_border_and_shadow().map_err(|e| format!("{e}"))?, yes, "the scaling of borders");
            }
            // what the core reads of the document
            let keys = d.script_info_fields();
            let field = d.get_script_info_field(&key);
            let (keys, field) = (keys.map_err(|e| format!("{e}"))?, field.map_err(|e| format!("{e}"))?);
            let every: Vec<(String, String)> = r
                .ls
                .iter()
                .filter(|l| matches!(l.tag, Tag::Field(..)))
                .map(|l| l.s.split_once(':').map(|(k, v)| (k.trim().to_string(), v.trim().to_string())).unwrap())
                .collect();
            ensure_eq!(keys, every.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "the script info fields");
            ensure_eq!(field, every.into_iter().find(|x| x.0 == key).map(|x| x.1), "script info field {key:?}");
            let has = |f: fn(&MSection) -> bool| r.ls.iter().any(|l| matches!(l.tag, Tag::Header(i) if f(&r.m.sections[i])));
            ensure_eq!(d.has_events().ok(), Some(has(|s| matches!(s, MSection::Events { .. }))), "whether there are events");
            ensure_eq!(d.has_styles().ok(), Some(has(|s| matches!(s, MSection::Styles { .. }))), "whether there are styles");
            if let Some((_, v)) = &info {
                let want: Vec<(String, String)> = v.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
                ensure_eq!(all.map_err(|e| format!("{e}"))?, want, "all script info");
                ensure_eq!(one.map_err(|e| format!("{e}"))?, found.map(|x| x.2), "script info {key:?}");
            } else {
                ensure!(!matches!(one, Ok(Some(_))), "script info {key:?} of a document without the section");
            }
            r.untouched(d, "get")?;
        }
    }
    Ok(())
}
fn setter_step(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> R {
    match t.us(6) {
        0 => {
            let kind = t.pick(&["Dialogue", "Comment"]);
            let text = t.pick(&["New line", "a, b, c", "{\\b1}é", ""]);
            let line = format!("{kind}: 3,0:00:01.00,0:00:02.50,Default,Who,1,2,3,fx,{text}");
            let what = format!("add event {line:?}");
            t.input_dbg("op", &what);
            d.add_event_line(&line).map_err(|e| format!("{what} failed: {e}"))?;
            match r.has(is_events) {
                Some(h) => {
                    let Tag::Header(si) = r.ls[h].tag else { unreachable!() };
                    let at = (h + 1..r.ls.len()).take_while(|i| !matches!(r.ls[*i].tag, Tag::Header(_))).find(|i| matches!(r.ls[*i].tag, Tag::Format(_))).unwrap_or(h) + 1;
                    let ins = r.inserted(d, at, &what)?;
                    let got = r.take(at, Tag::Event(si, 999), &ins, &what)?;
                    ensure_eq!(got, line, "{what}: the new line");
                    // a line that does not fit the columns of the section says nothing about the command
                    if r.m.sections[si].event_cols() != EVENT_FIELDS.map(String::from) {
                        r.ls.remove(at);
                        let back = r.text();
                        let now = d.text();
                        d.delete(crate::doc::rng(r.at(at), r.at(at) + now.len() - back.len())).map_err(|e| format!("{e}"))?;
                        r.agree(d, "taking it out")?;
                    }
                }
                None => {
                    let n = r.ls.len();
                    let ins = r.inserted(d, n, &what)?;
                    let si = r.m.sections.len();
                    r.m.sections.push(MSection::Events { format: None, rows: vec![] });
                    take_section(r, n, &ins, &what, |s| if s == line { Tag::Event(si, 0) } else if s.starts_with('[') { Tag::Header(si) } else { Tag::Format(si) })?;
                }
            }
            let got = d.find_event_text(text).map_err(|e| format!("{e}"))?;
            let want: Vec<String> = r.events().iter().map(|i| r.get(*i, "Text").unwrap()).filter(|x| x.contains(text)).collect();
            ensure_eq!(got, want, "{what}: events with {text:?}");
        }
        1 => {
            let name = style_name(t, r);
            let edit = t.chance(1, 2);
            // a line for the section it goes to
            let old = if edit { style_pos(r, &name) } else { None };
            let cols = match (old, r.has(|s| matches!(s, MSection::Styles { .. }))) {
                (Some(i), _) => r.cols(i),
                (None, Some(h)) => {
                    let Tag::Header(si) = r.ls[h].tag else { unreachable!() };
                    r.m.sections[si].style_cols()
                }
                _ => STYLE_FIELDS.map(String::from).to_vec(),
            };
            let value = |c: &str| match c.to_ascii_lowercase().as_str() {
                "name" => name.clone(),
                "fontname" => "Noto".into(),
                c => if c.contains("colour") { "&H00FFFFFF" } else { "1" }.to_string(),
            };
            let line = format!("Style: {}", cols.iter().map(|c| value(c)).collect::<Vec<_>>().join(","));
            let what = format!("{} style line {line:?}", if edit { "edit" } else { "add" });
            t.input_dbg("op", &what);
            if edit { d.edit_style_line(&name, &line) } else { d.add_style_line(&line) }.map_err(|e| format!("{what} failed: {e}"))?;
            if let Some(i) = old {
                let s = r.replaced(d, i, &what)?;
                ensure_eq!(s, line, "{what}: the line");
            } else if let Some(h) = r.has(|s| matches!(s, MSection::Styles { .. })) {
                let Tag::Header(si) = r.ls[h].tag else { unreachable!() };
                let at = (h + 1..r.ls.len()).take_while(|i| !matches!(r.ls[*i].tag, Tag::Header(_))).find(|i| matches!(r.ls[*i].tag, Tag::Format(_))).unwrap_or(h) + 1;
                let ins = r.inserted(d, at, &what)?;
                let got = r.take(at, Tag::Style(si, 999), &ins, &what)?;
                ensure_eq!(got, line, "{what}: the new line");
            } else {
                new_style_section(r, d, &name, "Noto", &what)?;
            }
        }
        2 | 3 => {
            let ev = r.events();
            let i = index(t, ev.len());
            let names = [("layer", "Layer"), ("start", "Start"), ("end", "End"), ("style", "Style"), ("name", "Name"), ("margin_l", "MarginL"), ("margin_r", "MarginR"), ("margin_v", "MarginV"), ("effect", "Effect"), ("text", "Text")];
            let mut e: Vec<(&'static str, &'static str, String)> = vec![];
            for _ in 0..t.us(4) {
                let (k, f) = t.pick_c(&names);
                let v = match k {
                    "start" | "end" => fmt_time(time_cs(t)),
                    "layer" | "margin_l" | "margin_r" | "margin_v" => t.range(0, 99).to_string(),
                    "text" => t.pick(&["Changed, twice", "é", "{\\i1}x", ""]).to_string(),
                    _ => t.pick(&["Alt", "é", "", "fx 1"]).to_string(),
                };
                e.retain(|x| x.0 != k);
                e.push((k, f, v));
            }
            let bogus = t.chance(1, 15);
            let what = format!("edit event {i} {e:?} bogus: {bogus}");
            t.input_dbg("op", &what);
            let l = ev.get(i).copied();
            let lacks = l.is_some_and(|l| e.iter().any(|x| r.field(l, x.1).is_none()));
            let mut seen: Option<String> = None;
            let want = l.map(|l| r.get(l, "Text").unwrap());
            let got = d.edit_event_by_index(i, |x| {
                seen = Some(x.text.to_string());
                let mut v: Vec<(&'static str, String)> = e.iter().map(|x| (x.0, x.2.clone())).collect();
                if bogus {
                    v.push(("bogus", "1".into()));
                }
                v
            });
            if l.is_some() {
                ensure_eq!(seen, want, "{what}: text of the event given to the closure");
            }
            if lacks {
                // the section has no such column
                if got.is_err() {
                    return r.untouched(d, &what);
                }
                return Err(format!("{what}: succeeded though the section has no such column"));
            }
            let line = got.as_ref().ok().cloned();
            if outcome(r, d, got, l.is_some() && !bogus, &what)? {
                let l = l.unwrap();
                let ed: Vec<(&str, &str)> = e.iter().map(|x| (x.1, x.2.as_str())).collect();
                r.ls[l].s = r.with(l, &ed);
                r.agree(d, &what)?;
                let line = line.unwrap();
                ensure_eq!(line.trim(), r.ls[l].s.trim(), "{what}: the line returned");
            }
        }
        4 => {
            let ev = r.events();
            let i = index(t, ev.len());
            let f = t.us(8);
            let v = if f > 4 && f < 7 { "0:01:02.34" } else { t.pick(&["Built", "é", "x y"]) };
            let what = format!("edit event {i} by builder: field {f} to {v:?}");
            t.input_dbg("op", &what);
            let got = if f == 7 {
                edit_event!(d, i, "a literal")
            } else if t.chance(1, 2) {
                match f {
                    0 => edit_event!(d, i, text = v),
                    1 => edit_event!(d, i, style = v,),
                    2 => edit_event!(d, i, speaker = v),
                    3 => edit_event!(d, i, effect = v),
                    4 => edit_event!(d, i, layer = 7),
                    5 => edit_event!(d, i, start = v),
                    _ => edit_event!(d, i, end = v),
                }
            } else {
                d.edit_event_with_builder(i, |b| match f {
                    0 => b.text(v.to_string()),
                    1 => b.style(v.to_string()),
                    2 => b.speaker(v.to_string()),
                    3 => b.effect(v.to_string()),
                    4 => b.layer(7),
                    5 => b.start_time(v),
                    _ => b.end_time(v),
                })
            };
            let Some(l) = ev.get(i).copied() else {
                return outcome(r, d, got, false, &what).map(|_| ());
            };
            let cols = r.cols(l);
            let fine = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Effect", "Text"];
            if !cols.iter().all(|c| fine.contains(&c.as_str())) {
                // columns the builder does not know are refused
                if got.is_err() {
                    return r.untouched(d, &what);
                }
            }
            let line = got.map_err(|e| format!("{what} failed: {e}"))?;
            let old: Vec<(String, Option<String>)> = cols.iter().map(|c| (c.clone(), r.get(l, c))).collect();
            let kind = r.kind(l);
            let now = r.replaced(d, l, &what)?;
            ensure_eq!(now.trim(), line.trim(), "{what}: the line returned");
            ensure_eq!(r.kind(l), kind, "{what}: kind of the event in {now:?}");
            let target = ["Text", "Style", "Name", "Effect", "Layer", "Start", "End", "Text"][f];
            for (c, o) in old {
                let g = r.get(l, &c);
                if c.eq_ignore_ascii_case(target) {
                    ensure_eq!(g.as_deref(), Some(["7", "a literal", v][if f == 4 { 0 } else { 1 + (f != 7) as usize }]), "{what}: {c} of {now:?}");
                } else {
                    let num = |x: &Option<String>| x.as_ref().and_then(|x| x.parse::<i64>().ok());
                    ensure!(g == o || (num(&g).is_some() && num(&g) == num(&o)), "{what}: {c} was {o:?} and is {g:?} in {now:?}");
                }
            }
        }
        _ => {
            let ev = r.events();
            let old = if !ev.is_empty() && t.chance(2, 3) {
                let i = t.pick_c(&ev);
                let s = r.get(i, "Text").unwrap();
                let n = 1 + t.us(4);
                s.chars().take(n).collect::<String>()
            } else {
                t.pick(&["Default", "Arial", "Nothing like it"]).to_string()
            };
            if old.is_empty() {
                return Ok(());
            }
            let new = t.pick(&["NEW", "é", ""]);
            let what = format!("edit event text {old:?} to {new:?}");
            t.input_dbg("op", &what);
            let got = if t.chance(1, 2) {
                d.edit_event_text(&old, new)
            } else {
                // the same, reporting what changed; what is not there is an error
                match d.edit_event_incremental(&old, new) {
                    Err(_) if !r.h.text.contains(&old) => Ok(()),
                    Ok(_) if !r.h.text.contains(&old) => return Err(format!("{what} succeeded where there is no such text")),
                    x => x.map(|_| ()),
                }
            };
            got.map_err(|e| format!("{what} failed: {e}"))?;
            if let Some(l) = ev.iter().copied().find(|l| r.get(*l, "Text").unwrap().contains(&old)) {
                let s = r.get(l, "Text").unwrap().replacen(&old, new, 1);
                r.ls[l].s = r.with(l, &[("Text", &s)]);
                r.agree(d, &what)?;
            } else if r.h.text.contains(&old) {
                // not the text of any event: the text as such is edited, which the lines know nothing of
                let s = r.h.text.replacen(&old, new, 1);
                r.h.edited(d, s, &what)?;
                return Ok(());
            } else {
                r.untouched(d, &what)?;
            }
        }
    }
    Ok(())
}
pub fn setters(t: &mut T) -> R {
    let Some((mut r, mut d)) = Rows::open(t, &opts()) else { return Ok(()) };
    let s = r.h.text.clone();
    for _ in 0..t.span(1, 4) {
        if t.chance(2, 5) {
            info_step(t, &mut r, &mut d)?;
        } else {
            setter_step(t, &mut r, &mut d)?;
        }
        if r.text() != r.h.text {
            // text outside the lines was edited
            break;
        }
    }
    let c = (r.h.text != s) as usize;
    finish(t, &mut r, &mut d, c)
}

/// Header, index past the last line with content, entries as (name, first line, end) of the first section of a kind.
fn binary_at(r: &Rows, fonts: bool) -> Option<(usize, usize, Vec<(String, usize, usize)>)> {
    let h = r.has(|s| if fonts { matches!(s, MSection::Fonts(_)) } else { matches!(s, MSection::Graphics(_)) })?;
    let mut end = h + 1;
    let mut v: Vec<(String, usize, usize)> = vec![];
    for i in (h + 1..r.ls.len()).take_while(|i| !matches!(r.ls[*i].tag, Tag::Header(_))) {
        match r.ls[i].tag {
            Tag::Entry(..) => {
                v.push((r.ls[i].s.split_once(':').unwrap().1.trim().to_string(), i, i + 1));
                end = i + 1;
            }
            _ if !r.ls[i].s.trim().is_empty() => {
                end = i + 1;
                if let Some(e) = v.last_mut() {
                    e.2 = i + 1;
                }
            }
            _ => {}
        }
    }
    Some((h, end, v))
}
fn decoded(d: &EditorDocument, fonts: bool) -> std::result::Result<Vec<(String, std::result::Result<Vec<u8>, String>)>, String> {
    d.parse_script_with(|s| {
        let mut v = vec![];
        for x in s.sections() {
            match x {
                Section::Fonts(f) if fonts => v.extend(f.iter().map(|f| (f.filename.to_string(), f.decode_data().map_err(|e| format!("{e}"))))),
                Section::Graphics(f) if !fonts => v.extend(f.iter().map(|f| (f.filename.to_string(), f.decode_data().map_err(|e| format!("{e}"))))),
                _ => {}
            }
        }
        v
    })
    .map_err(|e| format!("{e}"))
}
pub fn binary_step(t: &mut T, r: &mut Rows, d: &mut EditorDocument) -> R {
    let fonts = t.chance(1, 2);
    let sec = binary_at(r, fonts);
    let noun = if fonts { "font" } else { "graphic" };
    match t.weighted(&[4, 3, 1, 2]) {
        0 => {
            let name = t.pick(&["a.ttf", "b c.png", "é.otf", "font.ttf", "x"]).to_string();
            let n = t.pick_c(&[0usize, 1, 2, 3, 44, 45, 46, 47, 90, 91, 135, 200]);
            let data: Vec<u8> = (0..n).map(|_| match t.us(4) { 0 => 0, 1 => 255, _ => t.us(256) as u8 }).collect();
            let what = format!("add {noun} {name:?} of {n} bytes {data:?}");
            t.input_dbg("op", &what);
            let old = decoded(d, fonts)?;
            let got = match (fonts, t.chance(1, 2)) {
                (true, true) => d.fonts().add_binary(&name, &data).map(|_| true),
                (true, false) => run(d, &AddFontCommand::from_binary(name.clone(), &data)),
                (false, true) => d.graphics().add_binary(&name, &data).map(|_| true),
                _ => run(d, &AddGraphicCommand::from_binary(name.clone(), &data)),
            };
            got.map_err(|e| format!("{what} failed: {e}"))?;
            let at = sec.as_ref().map_or(r.ls.len(), |s| s.1);
            let ins = r.inserted(d, at, &what)?;
            let si = match &sec {
                Some((h, ..)) => {
                    let Tag::Header(s) = r.ls[*h].tag else { unreachable!() };
                    s
                }
                None => {
                    r.m.sections.push(if fonts { MSection::Fonts(vec![]) } else { MSection::Graphics(vec![]) });
                    r.m.sections.len() - 1
                }
            };
            let key = if fonts { "fontname:" } else { "filename:" };
            take_section(r, at, &ins, &what, |s| if s.starts_with(key) { Tag::Entry(si, 0) } else if s.starts_with('[') && s.ends_with("s]") { Tag::Header(si) } else { Tag::Data(si, 0, 0) })?;
            let now = decoded(d, fonts)?;
            let k = sec.as_ref().map_or(0, |s| s.2.len());
            // of several sections of this kind, the first one is added to
            ensure_eq!(now.len(), old.len() + 1, "{what}: entries");
            ensure_eq!(now[..k], old[..k], "{what}: the entries before");
            ensure_eq!(now[k + 1..], old[k..], "{what}: the entries after");
            ensure_eq!(now[k].0, name, "{what}: name");
            ensure_eq!(now[k].1.as_ref().ok(), Some(&data), "{what}: data, written as {ins:?}");
        }
        1 => {
            let name = match &sec {
                Some((_, _, v)) if !v.is_empty() && t.chance(4, 5) => t.pick_c(&v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()),
                _ => t.pick(&["font", "a.ttf", "logo", "none"]).to_string(),
            };
            let what = format!("remove {noun} {name:?}");
            t.input_dbg("op", &what);
            let got = match (fonts, t.chance(1, 2)) {
                (true, true) => d.fonts().remove(&name).map(|_| true),
                (true, false) => run(d, &RemoveFontCommand::new(name.clone())),
                (false, true) => d.graphics().remove(&name).map(|_| true),
                _ => run(d, &RemoveGraphicCommand::new(name.clone())),
            };
            if outcome(r, d, got, sec.is_some(), &what)? {
                if let Some((_, a, b)) = sec.unwrap().2.into_iter().find(|x| x.0 == name) {
                    r.ls.drain(a..b);
                }
                r.agree(d, &what)?;
            }
        }
        2 => {
            let what = format!("clear {noun}s");
            t.input_dbg("op", &what);
            let got = match (fonts, t.chance(1, 2)) {
                (true, true) => d.fonts().clear().map(|_| true),
                (true, false) => run(d, &ClearFontsCommand::new()),
                (false, true) => d.graphics().clear().map(|_| true),
                _ => run(d, &ClearGraphicsCommand::new()),
            };
            if outcome(r, d, got, true, &what)? {
                if let Some((h, end, _)) = sec {
                    r.ls.drain(h + 1..end);
                }
                r.agree(d, &what)?;
            }
        }
        _ => {
            t.input_dbg("op", &format!("list {noun}s"));
            let want: Vec<String> = sec.map(|s| s.2.into_iter().map(|x| x.0).collect()).unwrap_or_default();
            let (got, n, has) = if fonts {
                (d.fonts().list(), d.fonts().count(), d.fonts().exists("font.ttf"))
            } else {
                (d.graphics().list(), d.graphics().count(), d.graphics().exists("font.ttf"))
            };
            ensure_eq!(got.map_err(|e| format!("{e}"))?, want, "{noun} names");
            ensure_eq!(n.map_err(|e| format!("{e}"))?, want.len(), "{noun} count");
            ensure_eq!(has.map_err(|e| format!("{e}"))?, want.contains(&"font.ttf".to_string()), "{noun} exists");
            r.untouched(d, "list")?;
        }
    }
    Ok(())
}
pub fn binaries(t: &mut T) -> R {
    let Some((mut r, mut d)) = Rows::open(t, &opts()) else { return Ok(()) };
    let s = r.h.text.clone();
    for _ in 0..t.span(1, 4) {
        binary_step(t, &mut r, &mut d)?;
    }
    let c = (r.h.text != s) as usize;
    finish(t, &mut r, &mut d, c)
}

/// E07: any commands, with undo and redo between them.
pub fn history(t: &mut T) -> R {
    let Some((mut r, mut d)) = Rows::open(t, &opts()) else { return Ok(()) };
    let mut snaps: Vec<(String, Vec<Ln>, MScript)> = vec![(r.h.text.clone(), r.ls.clone(), r.m.clone())];
    let (mut changes, mut undone) = (0, 0);
    for _ in 0..t.span(2, 8) {
        let before = r.h.text.clone();
        match t.weighted(&[4, 3, 3, 2, 2, 2, 4, 3]) {
            0 => {
                event_step(t, &mut r, &mut d)?;
            }
            1 => {
                style_step(t, &mut r, &mut d)?;
            }
            2 => {
                tag_step(t, &mut r, &mut d)?;
            }
            3 => info_step(t, &mut r, &mut d)?,
            4 => setter_step(t, &mut r, &mut d)?,
            5 => binary_step(t, &mut r, &mut d)?,
            k => {
                t.input_dbg("op", &if k == 6 { "undo" } else { "redo" });
                if k == 6 {
                    undone += !r.h.undo.is_empty() as usize;
                    r.h.undo(&mut d)?;
                } else {
                    r.h.redo(&mut d)?;
                }
                match snaps.iter().rev().find(|s| s.0 == r.h.text) {
                    Some(s) => {
                        r.ls = s.1.clone();
                        r.m = s.2.clone();
                    }
                    // a text in the middle of a step of several edits
                    None => break,
                }
                continue;
            }
        }
        changes += (r.h.text != before) as usize;
        if r.text() == r.h.text {
            snaps.push((r.h.text.clone(), r.ls.clone(), r.m.clone()));
        } else {
            // text outside the lines was edited
            break;
        }
    }
    t.nontrivial_if(changes > 1 && undone > 0);
    r.h.sweep(&mut d)
}
