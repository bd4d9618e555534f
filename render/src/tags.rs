//! R07: override tags and drawings, as parsed for rendering.
use ass_renderer::pipeline::drawing::{parse_draw_commands, process_drawing_commands, DrawCommand};
use ass_renderer::pipeline::tag_processor::*;
use ass_renderer::pipeline::text_segmenter::segment_text_with_tags;
use ass_renderer::pipeline::transform::TransformAnimation;
use vkit::*;

pub fn num(t: &mut T) -> String {
    match t.us(6) {
        0 => t.us(3).to_string(),
        1 => format!("{:.1}", t.range(-500, 500) as f64 / 10.0),
        2 => format!("{:.3}", t.range(-5_000_000, 5_000_000) as f64 / 1000.0),
        3 => t.range(-400, 400).to_string(),
        _ => t.us(150).to_string(),
    }
}
pub fn ms(t: &mut T) -> u32 {
    match t.us(5) {
        0 => t.pick_c(&[0u32, 1, 9, 10, 11]),
        1 => t.us(100_000) as u32,
        2 => u32::MAX - t.us(20) as u32,
        _ => t.us(300) as u32 * 10,
    }
}
/// Arguments in parentheses, blanks about them.
fn args(t: &mut T, v: &[String]) -> String {
    let mut s = String::from("(");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let b = t.chance(1, 6);
        if b {
            s.push(' ');
        }
        s += x;
        if t.chance(1, 8) {
            s.push(' ');
        }
    }
    s + ")"
}
fn f(s: &str) -> f32 {
    s.parse().unwrap()
}
/// A block's tag, and what it does to the state (`whole`: read over the whole event, not block by block).
pub fn tag(t: &mut T, m: &mut ProcessedTags, whole: bool) -> String {
    match t.us(20) {
        0 | 1 => {
            let (r, g, b) = (t.us(256) as u8, t.us(256) as u8, t.us(256) as u8);
            let name = *t.pick(&[&"c", &"1c", &"2c", &"3c", &"4c"]);
            let c = Some([r, g, b, 0]);
            match name {
                "2c" => m.colors.secondary = c,
                "3c" => m.colors.outline = c,
                "4c" => m.colors.shadow = c,
                _ => m.colors.primary = c,
            }
            // a stray letter before the value is common, and passed over
            let stray = if !whole && name != "c" && t.chance(1, 6) { "H" } else { "" };
            let v = match t.us(4) {
                0 => format!("&h{b:02x}{g:02x}{r:02x}&"),
                1 => format!("&H{b:02X}{g:02X}{r:02X}"),
                _ => format!("&H{b:02X}{g:02X}{r:02X}&"),
            };
            format!("\\{name}{stray}{v}")
        }
        2 => {
            let a = t.us(256) as u8;
            let name = *t.pick(&[&"alpha", &"1a", &"2a", &"3a", &"4a"]);
            let v = Some(255 - a);
            match name {
                "1a" => m.colors.alpha1 = v,
                "2a" => m.colors.alpha2 = v,
                "3a" => m.colors.alpha3 = v,
                "4a" => m.colors.alpha4 = v,
                _ => {
                    // all four at once
                    m.colors.alpha = v;
                    (m.colors.alpha1, m.colors.alpha2, m.colors.alpha3, m.colors.alpha4) = (None, None, None, None);
                }
            }
            let s = if t.chance(1, 4) { format!("&h{a:02x}&") } else { format!("&H{a:02X}{}", if t.chance(1, 4) { "" } else { "&" }) };
            format!("\\{name}{s}")
        }
        3..=6 => {
            let v = num(t);
            let x = Some(f(&v));
            let name = *t.pick(&[
                &"fs", &"fscx", &"fscy", &"fsp", &"blur", &"be", &"fax", &"fay", &"frz", &"fr", &"frx", &"fry", &"bord", &"xbord", &"ybord", &"shad", &"xshad", &"yshad",
            ]);
            match name {
                "fs" => m.font.size = x,
                "fscx" => m.font.scale_x = x,
                "fscy" => m.font.scale_y = x,
                "fsp" => m.font.spacing = x,
                "blur" => m.formatting.blur = x,
                "be" => m.formatting.blur_edges = x,
                "fax" => m.shear_x = x,
                "fay" => m.shear_y = x,
                "frx" => m.font.rotation_x = x,
                "fry" => m.font.rotation_y = x,
                "bord" => m.formatting.border = x,
                "xbord" => m.formatting.border_x = x,
                "ybord" => m.formatting.border_y = x,
                "shad" => m.formatting.shadow = x,
                "xshad" => m.formatting.shadow_x = x,
                "yshad" => m.formatting.shadow_y = x,
                _ => {
                    m.font.rotation_z = x;
                    if whole {
                        m.font.angle = x;
                    }
                }
            }
            format!("\\{name}{v}")
        }
        7 => {
            let on = t.chance(1, 2);
            let name = *t.pick(&[&"b", &"i", &"u", &"s"]);
            match name {
                "b" => m.formatting.bold = Some(on),
                "i" => m.formatting.italic = Some(on),
                "u" => m.formatting.underline = Some(on),
                _ => m.formatting.strikeout = Some(on),
            }
            let v = if !on { "0" } else if name == "b" && t.chance(1, 4) { "700" } else { "1" };
            format!("\\{name}{v}")
        }
        8 => {
            let n = *t.pick(&[&"Arial", &"Times New Roman", &"ＭＳ 明朝", &"scx", &"7seg"]);
            if !whole && t.chance(1, 4) {
                m.font.name = None;
                return "\\fn".into();
            }
            m.font.name = Some(n.into());
            format!("\\fn{n}")
        }
        9 => {
            let v: Vec<String> = (0..4).map(|_| num(t)).collect();
            let inverse = t.chance(1, 2);
            let n = if t.chance(1, 6) { t.pick_c(&[3usize, 5]) } else { 4 };
            if n == 4 {
                m.clip = Some(ClipData { x1: f(&v[0]), y1: f(&v[1]), x2: f(&v[2]), y2: f(&v[3]), inverse });
            }
            let mut w = v.clone();
            w.resize(n, "7".into());
            format!("\\{}{}", if inverse { "iclip" } else { "clip" }, args(t, &w))
        }
        10 => {
            let v: Vec<String> = (0..4).map(|_| num(t)).collect();
            match t.us(4) {
                0 => {
                    m.origin = Some((f(&v[0]), f(&v[1])));
                    format!("\\org{}", args(t, &v[..2]))
                }
                1 => {
                    m.movement = Some((f(&v[0]), f(&v[1]), f(&v[2]), f(&v[3]), 0, 0));
                    format!("\\move{}", args(t, &v))
                }
                2 => {
                    let (a, b) = (ms(t), ms(t));
                    m.movement = Some((f(&v[0]), f(&v[1]), f(&v[2]), f(&v[3]), a / 10, b / 10));
                    let mut w = v.clone();
                    w.extend([a.to_string(), b.to_string()]);
                    format!("\\move{}", args(t, &w))
                }
                _ => {
                    m.position = Some((f(&v[0]), f(&v[1])));
                    format!("\\pos{}", args(t, &v[..2]))
                }
            }
        }
        11 => {
            if t.chance(1, 2) {
                let (a, b) = (ms(t), ms(t));
                m.fade = Some(FadeData { alpha_start: 0, alpha_end: 0, time_start: a / 10, time_end: b / 10, alpha_middle: None, time_fade_in: None, time_fade_out: None });
                format!("\\{}{}", t.pick(&[&"fad", &"fad", &"fade"]), args(t, &[a.to_string(), b.to_string()]))
            } else {
                let mut v = [ms(t), ms(t), ms(t), ms(t)];
                if t.chance(3, 4) {
                    v.sort();
                }
                let a = [t.us(256) as u8, t.us(256) as u8, t.us(256) as u8];
                let c = v.map(|x| x / 10);
                m.fade = Some(FadeData {
                    alpha_start: a[0],
                    alpha_end: a[2],
                    time_start: c[0],
                    time_end: c[3],
                    alpha_middle: Some(a[1]),
                    time_fade_in: Some(c[1].saturating_sub(c[0])),
                    time_fade_out: Some(c[3].saturating_sub(c[2])),
                });
                let w: Vec<String> = a.iter().map(|x| x.to_string()).chain(v.iter().map(|x| x.to_string())).collect();
                format!("\\fade{}", args(t, &w))
            }
        }
        12 => match t.us(3) {
            0 => {
                let q = t.us(4) as u8;
                m.formatting.wrap_style = Some(q);
                format!("\\q{q}")
            }
            1 => {
                let a = t.pick_c(&[(1u8, 1u8), (2, 2), (3, 3), (5, 7), (6, 8), (7, 9), (9, 4), (10, 5), (11, 6)]);
                m.formatting.alignment = Some(a.1);
                format!("\\a{}", a.0)
            }
            _ => {
                let a = t.span(1, 9) as u8;
                m.formatting.alignment = Some(a);
                format!("\\an{a}")
            }
        },
        13 => {
            let p = t.us(5) as u8;
            m.drawing_mode = Some(p);
            format!("\\p{p}")
        }
        14 => {
            let mut v = vec![];
            match t.us(4) {
                0 => {}
                1 => v.push("2".into()),
                k => {
                    v.extend([t.us(3000).to_string(), t.us(5000).to_string()]);
                    if k == 3 {
                        v.push("0.5".into());
                    }
                }
            }
            let mut inner = String::new();
            for _ in 0..t.span(1, 2) {
                inner += &match t.us(4) {
                    0 => "\\1c&H0000FF&".to_string(),
                    1 => format!("\\fscx{}", t.us(200)),
                    2 => format!("\\frz{}", t.range(-360, 360)),
                    _ => "\\clip(1,2,3,4)".to_string(),
                };
            }
            v.push(inner);
            let a = format!("({})", v.join(","));
            if let Some(animation) = TransformAnimation::parse(&a) {
                m.transforms.push(TransformData { animation });
            }
            format!("\\t{a}")
        }
        15 => {
            let d = t.us(300) as u32;
            let (name, style) = t.pick_c(&[("k", 0), ("kf", 1), ("ko", 2), ("K", 3)]);
            let style = [KaraokeStyle::Basic, KaraokeStyle::Fill, KaraokeStyle::Outline, KaraokeStyle::Sweep][style].clone();
            // syllables follow one another
            let next = m.karaoke.as_ref().map_or(0, |k| k.start_time.unwrap_or(0) + k.duration);
            m.karaoke = Some(KaraokeData { duration: d, style, start_time: (!whole).then_some(next) });
            format!("\\{name}{d}")
        }
        16 => {
            let name = if t.chance(1, 2) { "" } else { *t.pick(&[&"Alt", &"Sign 2", &"脚注"]) };
            if whole {
                m.reset = Some(name.into());
            } else {
                // back to a style; what holds for the whole line stays
                let line = ProcessedTags {
                    position: m.position,
                    movement: m.movement,
                    origin: m.origin,
                    clip: m.clip.clone(),
                    fade: m.fade.clone(),
                    karaoke: m.karaoke.clone(),
                    drawing_mode: m.drawing_mode,
                    reset: (!name.is_empty()).then(|| name.into()),
                    formatting: FormattingOverrides { alignment: m.formatting.alignment, wrap_style: m.formatting.wrap_style, ..Default::default() },
                    ..Default::default()
                };
                *m = line;
            }
            format!("\\r{name}")
        }
        17 => {
            // malformed or unknown: nothing changes
            t.pick(&[
                &"\\fsabc", &"\\bord--1", &"\\pos(1)", &"\\pos(1,2,3)", &"\\pos(a,b)", &"\\move(1,2,3)", &"\\clip(1,2)", &"\\clip(m 0 0 l 5 5)", &"\\1c&HGGGGGG&", &"\\alpha&HXY&", &"\\zzz", &"\\zzz(1,2)", &"\\fad(1)", &"\\fad(x,y)",
                &"\\fade(1,2,3)", &"\\an", &"\\anx", &"\\qx", &"\\px", &"\\kx", &"\\frzz", &"\\9é", &"\\1é", &"\\ü", &"\\fscx", &"\\org(5)",
            ])
            .to_string()
        }
        _ => {
            let v = t.us(60) as u32;
            m.font.size = Some(v as f32);
            format!("\\fs{v}")
        }
    }
}
pub fn block(t: &mut T, m: &mut ProcessedTags, whole: bool) -> String {
    let mut s = String::from("{");
    if !whole && t.chance(1, 6) {
        // a comment before the tags
        s += *t.pick(&[&"note", &"fs20 b1", &"b1", &" ", &"注"]);
    }
    let n = t.weighted(&[1, 5, 3, 2]);
    for _ in 0..n {
        s += &tag(t, m, whole);
    }
    s.push('}');
    s
}
/// Text outside blocks: as written, and as read.
pub fn words(t: &mut T) -> (String, String) {
    let (mut a, mut b) = (String::new(), String::new());
    for _ in 0..t.span(1, 4) {
        match t.us(8) {
            0 => {
                a += t.pick(&[&"\\N", &"\\n"]);
                b.push('\n');
            }
            1 => {
                a += "\\h";
                b.push('\u{a0}');
            }
            2 => {
                let x = t.pick(&[&"é", &"日本", &"👍🏽", &"(", &")", &"}", &"&H"]);
                a += *x;
                b += *x;
            }
            _ => {
                let x = t.pick(&[&"ab", &" c", &"word ", &"x", &"k20"]);
                a += *x;
                b += *x;
            }
        }
    }
    (a, b)
}
/// The fields in which two debug forms differ.
pub fn apart(a: &str, b: &str) -> String {
    let split = |s: &str| -> Vec<String> { s.split(", ").map(|x| x.to_string()).collect() };
    let (a, b) = (split(a), split(b));
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let e = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count().min(a.len().min(b.len()) - k);
    format!("{}, not {}", a[k..a.len() - e].join(", "), b[k..b.len() - e].join(", "))
}
pub fn segments(t: &mut T) -> R {
    let mut m = ProcessedTags::default();
    let mut text = String::new();
    // text, start, end, tags
    let mut want: Vec<(String, usize, usize, ProcessedTags)> = vec![];
    let mut blocks = 0;
    for _ in 0..t.len(6) {
        if t.chance(1, 2) {
            text += &block(t, &mut m, false);
            blocks += 1;
        } else {
            let (a, b) = words(t);
            let start = text.len();
            text += &a;
            let end = text.len();
            match want.last_mut() {
                Some(l) if l.2 == start => {
                    l.0 += &b;
                    l.2 = end;
                }
                _ => want.push((b, start, end, m.clone())),
            }
        }
    }
    t.input("text", &text);
    let got = segment_text_with_tags(&text, None).map_err(|e| format!("{text:?}: {e}"))?;
    if want.is_empty() {
        // one empty run
        ensure!(got.len() == 1 && got[0].text.is_empty(), "{text:?}: {got:?}");
        return Ok(());
    }
    // runs of the same state may be one
    let join = |v: &mut dyn Iterator<Item = (String, usize, usize, String)>| {
        let mut o: Vec<(String, usize, usize, String)> = vec![];
        for r in v {
            match o.last_mut() {
                Some(l) if l.3 == r.3 => {
                    l.0 += &r.0;
                    l.2 = r.2;
                }
                _ => o.push(r),
            }
        }
        o
    };
    let runs = want.len();
    let got = join(&mut got.into_iter().map(|g| (g.text, g.start, g.end, format!("{:?}", g.tags))));
    let want = join(&mut want.into_iter().map(|w| (w.0, w.1, w.2, format!("{:?}", w.3))));
    ensure!(got.len() == want.len(), "{text:?}: {} runs, not {}: {:?}", got.len(), want.len(), got.iter().map(|g| &g.0).collect::<Vec<_>>());
    for (g, w) in got.iter().zip(&want) {
        ensure!(g.0 == w.0, "{text:?}: a run reads {:?}, not {:?}", g.0, w.0);
        ensure!(g.3 == w.3, "{text:?}: the run {:?} has {}", g.0, apart(&g.3, &w.3));
        if got.len() > 1 {
            ensure!((g.1, g.2) == (w.1, w.2), "{text:?}: the run {:?} lies at {}..{}, not {}..{}", g.0, g.1, g.2, w.1, w.2);
        }
    }
    t.nontrivial_if(blocks > 1 && runs > 1);
    Ok(())
}
pub fn events(t: &mut T) -> R {
    let mut m = ProcessedTags::default();
    let (mut text, mut plain) = (String::new(), String::new());
    for _ in 0..t.len(5) {
        if t.chance(1, 2) {
            text += &block(t, &mut m, true);
        } else {
            let (a, b) = words(t);
            text += &a;
            // a drawing is no text
            if m.drawing_mode.unwrap_or(0) == 0 {
                plain += &b;
            }
        }
    }
    for (i, c) in plain.char_indices() {
        match c {
            '\n' => m.line_breaks.push(LineBreakType::Hard(i)),
            '\u{a0}' => m.nbsp_positions.push(i),
            _ => {}
        }
    }
    t.input("text", &text);
    let (got, clean) = process_event_tags(&text, None).map_err(|e| format!("{text:?}: {e}"))?;
    ensure_eq!(&clean, &plain, "{text:?}");
    let (a, b) = (format!("{got:?}"), format!("{m:?}"));
    ensure!(a == b, "{text:?}: read as {}", apart(&a, &b));
    t.nontrivial_if(text.matches('\\').count() > 2);
    Ok(())
}

fn spline(p: &[(f32, f32)], b: &mut tiny_skia::PathBuilder) {
    let n = p.len();
    for i in 0..n - 1 {
        let (p0, p1, p2, p3) = (p[i.saturating_sub(1)], p[i], p[i + 1], p[(i + 2).min(n - 1)]);
        let at = |a: (f32, f32), s: f32, c: (f32, f32), d: (f32, f32)| (a.0 + s * (c.0 - d.0) / 6.0, a.1 + s * (c.1 - d.1) / 6.0);
        let (c1, c2) = (at(p1, 1.0, p2, p0), at(p2, -1.0, p3, p1));
        b.cubic_to(c1.0, c1.1, c2.0, c2.1, p2.0, p2.1);
    }
}
/// A drawing, its commands and its path.
pub fn sketch(t: &mut T) -> (String, Vec<DrawCommand>, Option<tiny_skia::Path>) {
    let mut s = String::new();
    let mut cmds = vec![];
    let mut b = tiny_skia::PathBuilder::new();
    fn sep(t: &mut T, s: &mut String) {
        *s += t.pick(&[&" ", &" ", &" ", &"  ", &"\t"]);
    }
    for i in 0..t.len(7) {
        let points = |t: &mut T, s: &mut String, n: usize| -> Vec<(f32, f32)> {
            let mut first: Option<(String, String)> = None;
            (0..n)
                .map(|_| {
                    let (mut x, mut y) = (num(t), num(t));
                    // now and then level with the first, or back at it
                    if let Some((u, v)) = &first {
                        if t.chance(1, 4) {
                            x = u.clone();
                        }
                        if t.chance(1, 4) {
                            y = v.clone();
                        }
                    } else {
                        first = Some((x.clone(), y.clone()));
                    }
                    sep(t, s);
                    *s += &x;
                    sep(t, s);
                    *s += &y;
                    (f(&x), f(&y))
                })
                .collect()
        };
        let upper = t.chance(1, 8);
        let k = if i == 0 && t.chance(7, 8) { 0 } else { t.us(8) };
        let letter = ["m", "l", "l", "b", "n", "s", "p", "c"][k];
        s += &if upper { letter.to_uppercase() } else { letter.into() };
        match k {
            0 => {
                let n = if t.chance(1, 5) { t.span(1, 3) } else { 1 };
                for (j, p) in points(t, &mut s, n as usize).into_iter().enumerate() {
                    if j == 0 {
                        b.move_to(p.0, p.1);
                        cmds.push(DrawCommand::MoveTo { x: p.0, y: p.1 });
                    } else {
                        b.line_to(p.0, p.1);
                        cmds.push(DrawCommand::LineTo { x: p.0, y: p.1 });
                    }
                }
            }
            1 | 2 => {
                let n = t.span(1, 4) as usize;
                for p in points(t, &mut s, n) {
                    b.line_to(p.0, p.1);
                    cmds.push(DrawCommand::LineTo { x: p.0, y: p.1 });
                }
            }
            3 => {
                let n = t.span(1, 2) as usize;
                for p in points(t, &mut s, 3 * n).chunks(3) {
                    b.cubic_to(p[0].0, p[0].1, p[1].0, p[1].1, p[2].0, p[2].1);
                    cmds.push(DrawCommand::BezierTo { x1: p[0].0, y1: p[0].1, x2: p[1].0, y2: p[1].1, x3: p[2].0, y3: p[2].1 });
                }
            }
            4 => {
                for p in points(t, &mut s, 1) {
                    b.move_to(p.0, p.1);
                    cmds.push(DrawCommand::MoveToNoDraw { x: p.0, y: p.1 });
                }
            }
            5 => {
                let n = t.span(3, 5) as usize;
                let mut p = points(t, &mut s, n);
                let (a, z) = (p[0], p[n - 1]);
                if (a.0 - z.0).abs() > 0.01 || (a.1 - z.1).abs() > 0.01 {
                    p.push(a);
                }
                spline(&p, &mut b);
                cmds.push(DrawCommand::Spline { points: p });
            }
            6 => {
                let n = t.span(3, 5) as usize;
                let p = points(t, &mut s, n);
                spline(&p, &mut b);
                cmds.push(DrawCommand::ExtendSpline { points: p });
            }
            _ => {
                b.close();
                cmds.push(DrawCommand::ClosePath);
            }
        }
        if !t.chance(1, 4) {
            sep(t, &mut s);
        }
    }
    if s.ends_with(|c: char| c.is_ascii_digit()) && t.chance(1, 6) {
        s += " 5";
    }
    (s, cmds, b.finish())
}
fn trace(p: &tiny_skia::Path) -> Vec<(u8, [f32; 6])> {
    use tiny_skia::PathSegment::*;
    p.segments()
        .map(|s| match s {
            MoveTo(a) => (0, [a.x, a.y, 0.0, 0.0, 0.0, 0.0]),
            LineTo(a) => (1, [a.x, a.y, 0.0, 0.0, 0.0, 0.0]),
            QuadTo(a, b) => (2, [a.x, a.y, b.x, b.y, 0.0, 0.0]),
            CubicTo(a, b, c) => (3, [a.x, a.y, b.x, b.y, c.x, c.y]),
            Close => (4, [0.0; 6]),
        })
        .collect()
}
pub fn same_path(a: &tiny_skia::Path, b: &tiny_skia::Path, slack: f32) -> bool {
    let (a, b) = (trace(a), trace(b));
    a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && x.1.iter().zip(&y.1).all(|(p, q)| (p - q).abs() <= slack + 1e-5 * p.abs().max(q.abs())))
}
pub fn drawing(t: &mut T) -> R {
    let (mut s, cmds, path) = sketch(t);
    if t.chance(1, 6) {
        // the tag that ends a drawing ends it
        s += t.pick(&[&"\\p0", &"\\p0}", &"\\p0 l 5 5"]);
    }
    t.input("drawing", &s);
    let got = parse_draw_commands(&s).map_err(|e| format!("{s:?}: {e}"))?;
    ensure!(format!("{got:?}") == format!("{cmds:?}"), "{s:?} reads as\n{got:?}\nnot\n{cmds:?}");
    let made = process_drawing_commands(&s).map_err(|e| format!("{s:?}: {e}"))?;
    match (&made, &path) {
        (None, None) => {}
        (Some(a), Some(b)) => ensure!(same_path(a, b, 1e-3), "{s:?} draws {a:?}, not {b:?}"),
        _ => return Err(format!("{s:?} draws {made:?}, not {path:?}")),
    }
    t.nontrivial_if(cmds.len() > 2 && path.is_some());
    Ok(())
}
