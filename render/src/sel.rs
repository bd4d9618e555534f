//! R01: which events are on screen.
use ass_core::parser::Script;
use ass_renderer::renderer::EventSelector;
use std::collections::BTreeSet;
use vkit::*;

struct Ev {
    dialogue: bool,
    comment: bool,
    start: u32,
    end: u32,
}
fn spell(t: &mut T, cs: u32) -> String {
    let (h, m, s, c) = (cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100);
    match t.us(8) {
        0 => format!("{h:02}:{m:02}:{s:02}.{c:02}"),
        _ => format!("{h}:{m:02}:{s:02}.{c:02}"),
    }
}
fn a_time(t: &mut T, pool: &[u32]) -> u32 {
    match t.us(6) {
        0 if !pool.is_empty() => pool[t.us(pool.len())],
        1 => t.us(500) as u32,
        2 => t.us(3_600_000) as u32,
        _ => t.us(40) as u32,
    }
}
/// A script, its events as the selector is to see them.
fn script(t: &mut T, pool: &mut Vec<u32>) -> (String, Vec<Ev>) {
    let mut s = String::from("[Script Info]\nPlayResX: 384\n\n");
    if t.chance(1, 3) {
        s += "[V4+ Styles]\nFormat: Name, Fontname\nStyle: Default,Arial\n\n";
    }
    let mut evs = vec![];
    let sections = 1 + t.weighted(&[8, 3, 1]);
    for _ in 0..sections {
        s += "[Events]\n";
        if t.chance(1, 3) {
            s += "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
        } else {
            s += "Format: Start, End, Layer, Style, Text\n";
        }
        let short = s.ends_with("Style, Text\n");
        for _ in 0..t.len(9) {
            let a = a_time(t, pool);
            let b = if t.chance(1, 6) { a_time(t, pool) } else { a + t.us(60) as u32 };
            pool.push(a);
            pool.push(b);
            let k = *t.pick(&[&"Dialogue", &"Dialogue", &"Dialogue", &"Comment", &"Comment", &"Picture", &"Movie", &"Command", &"Sound"]);
            let (x, y) = (spell(t, a), spell(t, b));
            let layer = t.us(3);
            let n = evs.len();
            s += &if short { format!("{k}: {x},{y},{layer},Default,{n}\n") } else { format!("{k}: {layer},{x},{y},Default,,0,0,0,,{n}\n") };
            evs.push(Ev { dialogue: k == "Dialogue", comment: k == "Comment", start: a, end: b });
        }
        if t.chance(1, 2) {
            s += "\n";
        }
    }
    (s, evs)
}
pub fn select(t: &mut T) -> R {
    let mut pool = vec![];
    let mut scripts = vec![script(t, &mut pool)];
    while t.chance(1, 3) && scripts.len() < 4 {
        // another one, often of the same shape
        if t.chance(2, 3) {
            let (mut s, mut evs) = (scripts[t.us(scripts.len())].0.clone(), vec![]);
            let lines: Vec<String> = s.lines().map(String::from).collect();
            s.clear();
            let mut short = false;
            for l in lines {
                if l.starts_with("Format: ") {
                    short = l.starts_with("Format: Start");
                }
                let is_event = l.ends_with(|c: char| c.is_ascii_digit()) && l.contains(",Default,");
                if !is_event {
                    s += &l;
                } else {
                    let a = a_time(t, &pool);
                    let b = a + t.us(60) as u32;
                    let mut k = l.split(':').next().unwrap().to_string();
                    if t.chance(1, 5) {
                        k = (if k == "Comment" { "Dialogue" } else { "Comment" }).into();
                    }
                    pool.push(a);
                    pool.push(b);
                    let n = evs.len();
                    s += &if short { format!("{k}: {},{},0,Default,{n}", fmt(a), fmt(b)) } else { format!("{k}: 0,{},{},Default,,0,0,0,,{n}", fmt(a), fmt(b)) };
                    evs.push(Ev { dialogue: k == "Dialogue", comment: k == "Comment", start: a, end: b });
                }
                s.push('\n');
            }
            scripts.push((s, evs));
        } else {
            scripts.push(script(t, &mut pool));
        }
    }
    for (i, (s, _)) in scripts.iter().enumerate() {
        t.input(&format!("script {i}"), s);
    }
    let mut sel = EventSelector::new();
    let mut comments = false;
    let mut before: Option<(usize, u32, BTreeSet<usize>)> = None;
    let mut seen = BTreeSet::new();
    let mut cur = 0;
    // a script which stays where it is, as a caller keeps one
    let mut log = String::new();
    let mut k = 0;
    let steps = t.span(1, 12);
    while k < steps {
        cur = if t.chance(1, 3) { t.us(scripts.len()) } else { cur };
        let (text, evs) = &scripts[cur];
        let parsed = Script::parse(text).map_err(|e| format!("{e}"))?;
        for _ in 0..t.span(1, 4) {
            k += 1;
            match t.us(8) {
                0 => {
                    comments = t.chance(1, 2);
                    sel.set_render_comments(comments);
                    log += &format!("comments {comments}; ");
                }
                1 if t.chance(1, 3) => {
                    sel.reset();
                    before = None;
                    log += "reset; ";
                }
                _ => {}
            }
            let at = match t.us(8) {
                0 => t.pick_c(&[0, u32::MAX, i32::MAX as u32, i32::MAX as u32 + 1]),
                1 => t.us(3_600_000) as u32,
                2 | 3 => t.us(60) as u32,
                _ if pool.is_empty() => 3,
                _ => (pool[t.us(pool.len())] as i64 + t.range(-1, 1)).max(0) as u32,
            };
            log += &format!("script {cur} at {at}; ");
            let want: Vec<usize> = (0..evs.len()).filter(|&i| (evs[i].dialogue || comments && evs[i].comment) && evs[i].start <= at && at < evs[i].end).collect();
            let got = sel.select_active(&parsed, at).map_err(|e| format!("{log}: {e:?}"))?;
            let ids: Vec<usize> = got.events.iter().map(|e| e.text.parse().unwrap_or(usize::MAX)).collect();
            ensure!(ids == want, "{log}: chose {ids:?}, on screen are {want:?}");
            let now: BTreeSet<usize> = want.iter().copied().collect();
            match &before {
                Some((script, last, old)) => {
                    if *script == cur {
                        let new: BTreeSet<usize> = got.newly_active.iter().copied().collect();
                        let gone: BTreeSet<usize> = got.newly_inactive.iter().copied().collect();
                        let (wn, wg): (BTreeSet<_>, BTreeSet<_>) = (now.difference(old).copied().collect(), old.difference(&now).copied().collect());
                        ensure!(new == wn && got.newly_active.len() == wn.len(), "{log}: newly on screen {:?}, not {wn:?}", got.newly_active);
                        ensure!(gone == wg && got.newly_inactive.len() == wg.len(), "{log}: newly gone {:?}, not {wg:?}", got.newly_inactive);
                        ensure!(got.is_dirty || wn.is_empty() && wg.is_empty(), "{log}: the events on screen changed, and the frame is not to be drawn again");
                        ensure!(got.is_dirty || last.abs_diff(at) <= 100, "{log}: a jump from {last} leaves the frame");
                        t.label_if(!wn.is_empty() && !wg.is_empty(), "came and went");
                    }
                }
                None => ensure!(got.is_dirty, "{log}: the first frame is not to be drawn"),
            }
            seen.insert(want.len());
            t.label_if(want.len() > 1, "two on screen");
            t.label_if(comments && want.iter().any(|&i| evs[i].comment), "a comment shown");
            before = Some((cur, at, now));
        }
    }
    t.input("queries", &log);
    t.label_if(scripts.len() > 1, "two scripts");
    t.nontrivial_if(seen.len() > 1 && seen.iter().any(|&n| n > 0));
    Ok(())
}
fn fmt(cs: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", cs / 360000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}
