//! R08: animations.
use ass_renderer::animation::*;
use ass_renderer::pipeline::animation::{calculate_fade_progress, calculate_move_progress};
use ass_renderer::pipeline::transform::{interpolate_alpha, interpolate_color, interpolate_f32, TransformAnimation};
use vkit::*;

fn a_time(t: &mut T) -> u32 {
    match t.us(5) {
        0 => t.us(4) as u32,
        1 => t.us(400_000) as u32,
        2 => u32::MAX - t.us(3) as u32,
        _ => t.us(2000) as u32,
    }
}
fn accel(t: &mut T) -> f32 {
    let x = some_accel(t);
    // so near to one of these the curve is that one's
    [0.5f32, 1.0, 2.0, 3.0].into_iter().find(|y| (x - y).abs() < 0.002).unwrap_or(x)
}
fn some_accel(t: &mut T) -> f32 {
    match t.us(5) {
        0 => t.pick_c(&[0.5f32, 2.0, 3.0, 1.0]),
        1 => t.span(1, 40) as f32 / 10.0,
        2 => t.span(1, 9000) as f32 / 1000.0,
        _ => 1.0,
    }
}
fn real(t: &mut T) -> f32 {
    match t.us(5) {
        0 => t.range(-3, 3) as f32,
        1 => t.range(-1_000_000, 1_000_000) as f32 / 997.0,
        2 => t.range(-1_000_000_000_000, 1_000_000_000_000) as f32,
        _ => t.range(-20000, 20000) as f32 / 10.0,
    }
}
fn int(t: &mut T) -> i32 {
    match t.us(4) {
        0 => t.pick_c(&[i32::MIN, i32::MAX, 0, -1, 16_777_217, -16_777_219]),
        1 => t.range(i32::MIN as i64, i32::MAX as i64) as i32,
        _ => t.range(-300, 300) as i32,
    }
}
fn rgba(t: &mut T) -> [u8; 4] {
    [0; 4].map(|_: u8| if t.chance(1, 4) { t.pick_c(&[0u8, 255]) } else { t.us(256) as u8 })
}
/// How far an animation has gone, 0 to 1.
fn went(at: u32, a: u32, b: u32, accel: f32, kind: usize) -> f64 {
    let p = if at <= a {
        0.0
    } else if at >= b {
        1.0
    } else {
        ((at - a) as f64 / (b - a) as f64).powf(accel as f64)
    };
    let q = match kind {
        1 => p * p * (3.0 - 2.0 * p),
        2 => p * p * p * (p * (p * 6.0 - 15.0) + 10.0),
        _ => p,
    };
    if at <= a || at >= b { q } else { q.clamp(1e-15, 1.0 - 1e-13) }
}
/// `got` is between the ends, and near enough to the point `p` between them.
fn near(what: &str, got: f32, from: f32, to: f32, p: f64, log: &str) -> R {
    let (a, b) = (from as f64, to as f64);
    let want = a + (b - a) * p;
    let slack = 1e-5 * ((b - a).abs() + a.abs().max(b.abs()) * 0.05);
    let ends = p == 0.0 && got != from || p == 1.0 && got != to;
    ensure!(!ends && (got as f64 - want).abs() <= slack, "{log}: {what} is {got}, not {want} (from {from} to {to}, {p} of the way)");
    Ok(())
}
fn near_int(what: &str, got: i64, from: i64, to: i64, p: f64, log: &str) -> R {
    let want = from as f64 + (to - from) as f64 * p;
    let slack = 1.0 + 2e-6 * (to - from).abs() as f64;
    let ends = p == 0.0 && got != from || p == 1.0 && got != to;
    ensure!(!ends && (got as f64 - want).abs() <= slack && got >= from.min(to) && got <= from.max(to), "{log}: {what} is {got}, not about {want} (from {from} to {to}, {p} of the way)");
    Ok(())
}
#[derive(Clone, Debug)]
enum V {
    I(i32, i32),
    F(f32, f32),
    C([u8; 4], [u8; 4]),
    P((f32, f32), (f32, f32)),
    S((f32, f32), (f32, f32)),
}
fn value(t: &mut T) -> V {
    match t.us(5) {
        0 => V::I(int(t), int(t)),
        1 => V::C(rgba(t), rgba(t)),
        2 => V::P((real(t), real(t)), (real(t), real(t))),
        3 => V::S((real(t), real(t)), (real(t), real(t))),
        _ => V::F(real(t), real(t)),
    }
}
fn judge(v: &V, got: &AnimatedResult, p: f64, log: &str) -> R {
    match (v, got) {
        (V::I(a, b), AnimatedResult::Integer(g)) => near_int("the number", *g as i64, *a as i64, *b as i64, p, log),
        (V::F(a, b), AnimatedResult::Float(g)) => near("the number", *g, *a, *b, p, log),
        (V::C(a, b), AnimatedResult::Color(g)) => {
            for k in 0..4 {
                near_int("a channel", g[k] as i64, a[k] as i64, b[k] as i64, p, log)?;
            }
            Ok(())
        }
        (V::P(a, b), AnimatedResult::Position(g)) | (V::S(a, b), AnimatedResult::Scale(g)) => {
            near("x", g.0, a.0, b.0, p, log)?;
            near("y", g.1, a.1, b.1, p, log)
        }
        _ => Err(format!("{log}: a value of another kind, {got:?} for {v:?}")),
    }
}
/// The one number of a value, to see its direction.
fn scalar(r: &AnimatedResult) -> f64 {
    match r {
        AnimatedResult::Integer(x) => *x as f64,
        AnimatedResult::Float(x) => *x as f64,
        AnimatedResult::Color(x) => x[0] as f64,
        AnimatedResult::Position(x) | AnimatedResult::Scale(x) => x.0 as f64,
    }
}
pub fn tracks(t: &mut T) -> R {
    let mut c = AnimationController::new();
    let mut v = vec![];
    let mut log = String::new();
    for _ in 0..1 + t.us(3) {
        let name = *t.pick(&[&"fs", &"fscx", &"fscy", &"frz", &"c", &"own"]);
        let a = a_time(t);
        let b = if t.chance(1, 8) { a_time(t) } else { a.saturating_add(a_time(t)) };
        let (acc, kind, val) = (accel(t), t.us(3), value(t));
        log += &format!("{name} {a}..{b} accel {acc} kind {kind} {val:?}; ");
        let value = match val.clone() {
            V::I(from, to) => AnimatedValue::Integer { from, to },
            V::F(from, to) => AnimatedValue::Float { from, to },
            V::C(from, to) => AnimatedValue::Color { from, to },
            V::P(from, to) => AnimatedValue::Position { from, to },
            V::S(from, to) => AnimatedValue::Scale { from, to },
        };
        let k = [AnimationInterpolation::Linear, AnimationInterpolation::Smooth, AnimationInterpolation::Smoother][kind];
        let track = AnimationTrack::new(name.to_string(), AnimationTiming::new(a, b, acc), value, k);
        c.add_track(track.clone());
        v.push((name, a, b, acc, kind, val, track));
    }
    t.input("tracks", &log);
    let mut moved = 0;
    for _ in 0..t.span(1, 6) {
        let (_, a, b, ..) = v[t.us(v.len())];
        let at = match t.us(4) {
            0 => a_time(t),
            1 => (t.pick_c(&[a, b]) as i64 + t.range(-1, 1)).clamp(0, u32::MAX as i64) as u32,
            _ if b > a => a + t.u((b - a) as u64) as u32,
            _ => a,
        };
        let log = format!("{log}at {at}");
        let state = c.evaluate(at);
        let mut last: std::collections::BTreeMap<&str, usize> = Default::default();
        for (i, (name, a, b, acc, kind, val, track)) in v.iter().enumerate() {
            let p = went(at, *a, *b, *acc, *kind);
            let got = track.evaluate(at);
            judge(val, &got, p, &log)?;
            moved += (p > 0.0 && p < 1.0) as usize;
            // never back
            let later = at.saturating_add(1 + t.us(50) as u32);
            let (x, y, end) = (scalar(&got), scalar(&track.evaluate(later)), scalar(&track.evaluate(u32::MAX)));
            let start = scalar(&track.evaluate(0));
            // whole numbers may waver by one where the way is flat
            let slack = 4e-6 * start.abs().max(end.abs()) + if matches!(val, V::I(..) | V::C(..)) { 1.0 } else { 0.0 };
            ensure!(if end >= start { y >= x - slack } else { y <= x + slack }, "{log}: goes back from {x} to {y} on the way from {start} to {end}");
            last.insert(name, i);
        }
        for (name, i) in &last {
            let Some(r) = state.get_property(name) else { return Err(format!("{log}: no value for {name}")) };
            let (_, a, b, acc, kind, val, _) = &v[*i];
            judge(val, r, went(at, *a, *b, *acc, *kind), &format!("{log}, {name} of all"))?;
        }
        ensure!(state.get_property("nothing").is_none(), "{log}: a value nobody animates");
        let float = |n: &str| match state.get_property(n) {
            Some(AnimatedResult::Float(x)) => Some(*x),
            _ => None,
        };
        ensure_eq!(&state.font_size(), &float("fs"), "{log}: font_size");
        ensure_eq!(&state.rotation(), &float("frz"), "{log}: rotation");
        let scale = match (float("fscx"), float("fscy")) {
            (None, None) => None,
            (x, y) => Some((x.unwrap_or(100.0), y.unwrap_or(100.0))),
        };
        ensure_eq!(&state.scale(), &scale, "{log}: scale");
        let colour = match state.get_property("c") {
            Some(AnimatedResult::Color(x)) => Some(*x),
            _ => None,
        };
        ensure_eq!(&state.color(), &colour, "{log}: color");
        let on: Vec<&str> = v.iter().filter(|x| x.1 <= at && at <= x.2).map(|x| x.0).collect();
        let got: Vec<String> = c.active_tracks(at).iter().map(|x| x.property.clone()).collect();
        ensure!(got == on && c.is_active(at) != on.is_empty(), "{log}: active are {got:?}, not {on:?}");
    }
    t.nontrivial_if(moved > 0);
    Ok(())
}
/// Tags turned into tracks.
pub fn tags(t: &mut T) -> R {
    let a = a_time(t);
    let b = a.saturating_add(a_time(t));
    let t1 = if t.chance(1, 2) { Some(a_time(t)) } else { None };
    let t2 = if t.chance(1, 2) { Some(t1.unwrap_or(0).saturating_add(a_time(t))) } else { None };
    let acc = if t.chance(1, 2) { Some(accel(t)) } else { None };
    let mut mods = vec![];
    let mut want: Vec<(&str, V)> = vec![];
    for _ in 0..t.span(1, 5) {
        let num = |t: &mut T| -> f32 { t.range(-5000, 5000) as f32 / 8.0 };
        match t.us(11) {
            0 | 1 | 2 => {
                let (tag, name) = t.pick_c(&[("fscx", "fscx"), ("fscy", "fscy"), ("fs", "fs"), ("frz", "frz"), ("fr", "frz")]);
                let (x, y) = (num(t), num(t));
                mods.push(format!("\\{tag}({x},{y})"));
                want.push((name, V::F(x, y)));
            }
            3 | 4 => {
                let (mut x, mut y) = (rgba(t), rgba(t));
                let hex = |t: &mut T, c: &mut [u8; 4]| {
                    let low = t.chance(1, 2);
                    let s = if t.chance(1, 2) {
                        c[3] = 255;
                        format!("{:02X}{:02X}{:02X}", c[2], c[1], c[0])
                    } else {
                        format!("{:02X}{:02X}{:02X}{:02X}", 255 - c[3], c[2], c[1], c[0])
                    };
                    format!("&H{}&", if low { s.to_lowercase() } else { s })
                };
                let (p, q) = (hex(t, &mut x), hex(t, &mut y));
                let tag = *t.pick(&[&"c", &"1c"]);
                mods.push(format!("\\{tag}({p},{q})"));
                want.push(("c", V::C(x, y)));
            }
            5 => {
                let (x, y) = (t.us(256) as i32, t.us(256) as i32);
                mods.push(format!("\\alpha(&H{:02X}&,&H{:02X}&)", 255 - x, 255 - y));
                want.push(("alpha", V::I(x, y)));
            }
            6 => {
                // tags nothing here animates
                let (x, y) = (num(t), num(t));
                let tag = *t.pick(&[&"fsp", &"frx", &"fry", &"clip", &"bord", &"fax", &"fe", &"be"]);
                mods.push(format!("\\{tag}({x},{y})"));
            }
            _ => mods.push(vkit::ass::tag_hostile(t).chars().filter(|c| !matches!(c, '0'..='9')).collect::<String>().replace("\\", "\\q")),
        }
    }
    let log = format!("event {a}..{b}, t1 {t1:?} t2 {t2:?} accel {acc:?}, {mods:?}");
    t.input("tag", &log);
    let mut c = AnimationController::new();
    c.add_from_tag(&AnimationTag { t1, t2, accel: acc, modifiers: mods }, a, b).map_err(|e| format!("{log}: {e:?}"))?;
    let (from, to) = (a.saturating_add(t1.unwrap_or(0)), t2.map_or(b, |x| a.saturating_add(x)));
    for _ in 0..t.span(1, 4) {
        let at = match t.us(4) {
            0 => a_time(t),
            1 => (t.pick_c(&[from, to]) as i64 + t.range(-1, 1)).clamp(0, u32::MAX as i64) as u32,
            _ if to > from => from + t.u((to - from) as u64) as u32,
            _ => from,
        };
        let state = c.evaluate(at);
        for name in ["fs", "fscx", "fscy", "frz", "c", "alpha"] {
            let last = want.iter().rev().find(|x| x.0 == name);
            match (last, state.get_property(name)) {
                (None, None) => {}
                (Some((_, v)), Some(r)) => judge(v, r, went(at, from, to, acc.unwrap_or(1.0), 0), &format!("{log} at {at}: {name}"))?,
                (w, g) => return Err(format!("{log} at {at}: {name} is {g:?}, written is {w:?}")),
            }
        }
    }
    t.nontrivial_if(!want.is_empty());
    Ok(())
}
/// `\t` as the renderer reads it.
pub fn transforms(t: &mut T) -> R {
    let (mut text, mut want) = (String::new(), vec![]);
    for _ in 0..t.span(1, 5) {
        let x = t.range(-5000, 5000) as f32 / 8.0;
        match t.us(6) {
            0 => {
                let c = rgba(t);
                let (tag, name) = t.pick_c(&[("c", "PrimaryColor"), ("1c", "PrimaryColor"), ("2c", "SecondaryColor"), ("3c", "OutlineColor"), ("4c", "ShadowColor")]);
                let s = format!("{:02X}{:02X}{:02X}", c[2], c[1], c[0]);
                text += &format!("\\{tag}&H{}&", if t.chance(1, 2) { s.to_lowercase() } else { s });
                // the alpha a colour without one has is not settled here
                want.push(format!("{name}([{}, {}, {}", c[0], c[1], c[2]));
            }
            1 => {
                let a = t.us(256);
                let s = format!("{a:02X}");
                text += &format!("\\alpha&H{}&", if t.chance(1, 2) { s.to_lowercase() } else { s });
                want.push(format!("Alpha({})", 255 - a));
            }
            2 => text += *t.pick(&[&"\\1", &"\\zz3", &"\\fscz20", &"\\cx", &"\\fsabc", &"\\alpha&HXX&"]),
            _ => {
                let (tag, name) = t.pick_c(&[("fs", "FontSize"), ("fscx", "FontScaleX"), ("fscy", "FontScaleY"), ("fsp", "FontSpacing"), ("frz", "FontRotationZ"), ("fr", "FontRotationZ"), ("frx", "FontRotationX"), ("fry", "FontRotationY"), ("bord", "BorderWidth"), ("shad", "ShadowDepth"), ("blur", "Blur"), ("be", "Blur")]);
                text += &format!("\\{tag}{x}");
                want.push(format!("{name}({x:?})"));
            }
        }
    }
    let (t1, t2) = (a_time(t), a_time(t));
    let acc = accel(t);
    let sp = if t.chance(1, 4) { " " } else { "" };
    let (args, times, acc) = match t.us(4) {
        0 => (format!("({text})"), None, 1.0),
        1 => (format!("({acc},{sp}{text})"), None, acc),
        2 => (format!("({t1},{sp}{t2},{text})"), Some((t1, t2)), 1.0),
        _ => (format!("({t1},{t2}{sp},{acc},{text})"), Some((t1, t2)), acc),
    };
    t.input("args", &args);
    let Some(tr) = TransformAnimation::parse(&args) else {
        ensure!(want.is_empty(), "\\t{args}: not read, it animates {want:?}");
        return Ok(());
    };
    let got: Vec<String> = tr.target_tags.iter().map(|x| format!("{x:?}")).collect();
    ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.starts_with(w.as_str())), "\\t{args}: read as {got:?}, it animates {want:?}");
    let full = a_time(t).min(40_000_000);
    for _ in 0..t.span(1, 5) {
        let (a, b) = match times {
            None => (0, full),
            // no end means the end of the event
            Some((a, 0)) => (a, full),
            Some((a, b)) => (a, b),
        };
        let at = match t.us(3) {
            0 => a_time(t),
            1 => (t.pick_c(&[a, b]) as i64 + t.range(-1, 1)).clamp(0, u32::MAX as i64) as u32,
            _ if b > a => a + t.u((b - a) as u64) as u32,
            _ => a,
        };
        let p = tr.calculate_progress(at, full) as f64;
        let x = went(at, a, b, 1.0, 0);
        let w = if (acc - 0.5).abs() < 1e-6 { 1.0 - (1.0 - x).powi(2) } else { x.powf(acc as f64) };
        ensure!((p - w).abs() < 2e-3 && (x != 0.0 || p == 0.0) && (x != 1.0 || p == 1.0), "\\t{args} of {full} ms at {at}: {p} of the way, not {w}");
        t.label_if(x > 0.0 && x < 1.0, "under way");
        let plain = went(at, a, b, 1.0, 0) as f32;
        let (m, f) = (calculate_move_progress(at, a, b), calculate_fade_progress(at, a, b));
        ensure!((m - plain).abs() < 1e-5 && (f - plain).abs() < 1e-5 && (plain != 0.0 || m == 0.0 && f == 0.0) && (at <= a || at < b || m == 1.0 && f == 1.0), "a move from {a} to {b} at {at}: {m}, a fade {f}, not {plain}");
        let (c, d) = (rgba(t), rgba(t));
        let log = format!("from {c:?} to {d:?}, {p} of the way");
        let got = interpolate_color(c, d, p as f32);
        for k in 0..4 {
            near_int("a channel", got[k] as i64, c[k] as i64, d[k] as i64, p, &log)?;
        }
        near_int("alpha", interpolate_alpha(c[0], d[0], p as f32) as i64, c[0] as i64, d[0] as i64, p, &log)?;
        let (x, y) = (real(t), real(t));
        let got = interpolate_f32(x, y, p as f32);
        let want = x as f64 + (y as f64 - x as f64) * p;
        ensure!((got as f64 - want).abs() <= 1e-6 * (x.abs().max(y.abs()) as f64) && (p > 0.0 || got == x), "{log}: a number is {got}, not {want} (from {x} to {y})");
    }
    t.nontrivial_if(want.len() > 1);
    Ok(())
}
