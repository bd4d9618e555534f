//! R13: how the runs and drawings of events are put on the screen.
use ass_core::parser::{Event, Script, Section};
use ass_renderer::pipeline::drawing::process_drawing_commands;
use ass_renderer::pipeline::{IntermediateLayer, Pipeline, SoftwarePipeline, TextData, TextEffect, VectorData};
use ass_renderer::RenderContext;
use std::cell::RefCell;
use std::collections::HashMap;
use vkit::*;

pub const FACES: [(&str, &str); 4] = [("Go", "Go-Regular"), ("Go", "Go-Bold"), ("Go", "Go-Italic"), ("Go Mono", "Go-Mono")];
pub fn face_bytes(i: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static F: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    &F.get_or_init(|| {
        let d = std::env::var("HOME").unwrap();
        FACES.iter().map(|f| std::fs::read(format!("{d}/.fonts/{}.ttf", f.1)).unwrap()).collect()
    })[i]
}
pub fn face_of(font: &str, bold: bool, italic: bool) -> usize {
    match (font, italic, bold) {
        ("Go Mono", ..) => 3,
        (_, true, _) => 2,
        (_, _, true) => 1,
        _ => 0,
    }
}
/// Advances (in ems) of a text, and the font's ascent and descent.
pub fn measure(face: usize, text: &str) -> (f64, usize, f64, f64) {
    thread_local!(static C: RefCell<HashMap<(usize, String), (f64, usize, f64, f64)>> = RefCell::default());
    C.with(|c| {
        let k = (face, text.to_string());
        if let Some(v) = c.borrow().get(&k) {
            return *v;
        }
        let data = face_bytes(face);
        let f = rustybuzz::Face::from_slice(data, 0).unwrap();
        let tt = ttf_parser::Face::parse(data, 0).unwrap();
        let mut b = rustybuzz::UnicodeBuffer::new();
        b.push_str(text);
        let out = rustybuzz::shape(&f, &[], b);
        let em = tt.units_per_em() as f64;
        let w: f64 = out.glyph_positions().iter().map(|p| p.x_advance as f64).sum();
        let os2 = tt.tables().os2.unwrap();
        let v = (w / em, out.len(), os2.windows_ascender() as f64 / em, (os2.windows_descender() as f64).abs() / em);
        c.borrow_mut().insert(k, v);
        v
    })
}

#[derive(Clone, Debug)]
pub struct Sty {
    pub name: String,
    pub font: &'static str,
    pub fs: f64,
    /// primary, secondary, outline and back colour, opacity last
    pub c: [[u8; 4]; 4],
    pub b: bool,
    pub i: bool,
    pub u: bool,
    pub s: bool,
    pub scx: f64,
    pub scy: f64,
    pub sp: f64,
    pub angle: f64,
    pub boxed: bool,
    pub outline: f64,
    pub shadow: f64,
    pub align: u8,
    pub m: [f64; 3],
}
pub const STYLE_FORMAT: &str = "Format: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n";
pub const EVENT_FORMAT: &str = "Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
impl Sty {
    pub fn line(&self) -> String {
        let y = |b: bool| if b { "-1" } else { "0" };
        let c: Vec<String> = self.c.iter().map(|c| format!("&H{:02X}{:02X}{:02X}{:02X}", 255 - c[3], c[2], c[1], c[0])).collect();
        format!(
            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},1\n",
            self.name, self.font, self.fs, c[0], c[1], c[2], c[3], y(self.b), y(self.i), y(self.u), y(self.s), self.scx, self.scy, self.sp, self.angle,
            if self.boxed { 3 } else { 1 }, self.outline, self.shadow, self.align, self.m[0], self.m[1], self.m[2]
        )
    }
}
fn some(t: &mut T, usual: f64, other: &[f64]) -> f64 {
    if t.chance(1, 2) { usual } else { t.pick_c(other) }
}
pub fn style(t: &mut T, name: &str) -> Sty {
    let mut c = [[255, 255, 255, 255], [255, 0, 0, 255], [0, 0, 0, 255], [0, 0, 0, 127]];
    if t.chance(1, 2) {
        for x in c.iter_mut() {
            *x = [t.us(256) as u8, t.us(256) as u8, t.us(256) as u8, if t.chance(1, 2) { 255 } else { t.us(256) as u8 }];
        }
    }
    Sty {
        name: name.into(),
        font: t.pick_c(&["Go", "Go", "Go Mono"]),
        fs: some(t, 20.0, &[8.0, 31.5, 48.0, 12.0]),
        c,
        b: t.chance(1, 5),
        i: t.chance(1, 5),
        u: t.chance(1, 6),
        s: t.chance(1, 6),
        scx: some(t, 100.0, &[50.0, 120.0, 200.0]),
        scy: some(t, 100.0, &[50.0, 80.0, 150.0]),
        sp: some(t, 0.0, &[1.0, 2.5, -0.5, 6.0]),
        angle: some(t, 0.0, &[0.0, 0.0, 30.0, -45.0]),
        boxed: t.chance(1, 6),
        outline: some(t, 0.0, &[1.0, 2.0, 3.5]),
        shadow: some(t, 0.0, &[1.0, 2.0, 4.5]),
        align: if t.chance(1, 3) { 2 } else { 1 + t.us(9) as u8 },
        m: [some(t, 10.0, &[0.0, 25.0, 40.0]), some(t, 10.0, &[0.0, 5.0, 33.0]), some(t, 10.0, &[0.0, 20.0, 15.0])],
    }
}
#[derive(Clone, Debug, Default)]
pub struct Tr {
    t1: f64,
    t2: f64,
    accel: f64,
    what: Vec<(usize, f64)>,
    color: Option<(usize, [u8; 3])>,
    alpha: Option<u8>,
}
/// Numbers that tags set, by place: see `NUM`.
#[derive(Clone, Debug, Default)]
pub struct St {
    n: [Option<f64>; 17],
    font: Option<&'static str>,
    on: [Option<bool>; 4],
    c: [Option<[u8; 3]>; 4],
    a: [Option<u8>; 4],
    kar: Option<(u8, u32, u32)>,
    reset: Option<usize>,
    trs: Vec<Tr>,
}
const NUM: [&str; 17] = ["fs", "fscx", "fscy", "fsp", "frz", "frx", "fry", "fax", "fay", "bord", "xbord", "ybord", "shad", "xshad", "yshad", "blur", "be"];
/// Which of them a transform animates.
const ANIMATED: [usize; 11] = [0, 1, 2, 3, 4, 5, 6, 9, 12, 15, 0];
fn value(t: &mut T, i: usize) -> f64 {
    match i {
        0 => t.pick_c(&[10.0, 20.0, 36.5, 64.0]),
        1 | 2 => t.pick_c(&[50.0, 100.0, 130.0, 200.0]),
        3 => t.pick_c(&[0.0, 1.0, 3.5, -1.0]),
        4..=6 => t.pick_c(&[0.0, 15.0, -30.5, 90.0, 400.0]),
        7 | 8 => t.pick_c(&[0.0, 0.25, -0.5]),
        9..=12 => t.pick_c(&[0.0, 1.0, 2.5, 5.0]),
        13 | 14 => t.pick_c(&[0.0, 2.0, -3.5]),
        15 => t.pick_c(&[0.0, 1.0, 4.5]),
        _ => t.pick_c(&[0.0, 1.0, 2.0]),
    }
}
/// What holds for the whole line.
#[derive(Clone, Debug, Default)]
pub struct Whole {
    pos: Option<[f64; 2]>,
    mov: Option<[f64; 6]>,
    org: Option<[f64; 2]>,
    clip: Option<([f64; 4], bool)>,
    fad: Option<[u32; 2]>,
    fade: Option<([u8; 3], [u32; 4])>,
    an: Option<u8>,
}
pub enum Piece {
    Run { text: String, st: St },
    Draw { commands: String, level: i32, st: St },
}
/// An event: its lines of runs and drawings, and the text that says so.
pub struct Ev {
    pub text: String,
    pub lines: Vec<Vec<Piece>>,
    pub whole: Whole,
}
fn hex(c: [u8; 3]) -> String {
    format!("&H{:02X}{:02X}{:02X}&", c[2], c[1], c[0])
}
fn transform(t: &mut T, st: &mut St, dur: u32) -> String {
    let mut tr = Tr { accel: 1.0, ..Tr::default() };
    let mut inner = String::new();
    for _ in 0..1 + t.us(3) {
        match t.us(5) {
            0 => {
                let (k, c) = (t.us(4), [t.us(256) as u8, t.us(256) as u8, t.us(256) as u8]);
                if tr.color.is_none() {
                    tr.color = Some((k, c));
                    inner += &format!("\\{}c{}", k + 1, hex(c));
                }
            }
            1 if tr.alpha.is_none() => {
                let a = t.us(256) as u8;
                tr.alpha = Some(255 - a);
                inner += &format!("\\alpha&H{a:02X}&");
            }
            _ => {
                let i = t.pick_c(&ANIMATED);
                let v = value(t, i);
                if !tr.what.iter().any(|w| w.0 == i) {
                    tr.what.push((i, v));
                    inner += &format!("\\{}{v}", NUM[i]);
                }
            }
        }
    }
    let d = dur as f64 * 10.0;
    (tr.t1, tr.t2) = (0.0, d);
    let mut head = String::new();
    if t.chance(2, 3) {
        let a = t.us(dur as usize + 1) as u32 * 10;
        let b = a + 10 + t.us(200) as u32 * 10;
        (tr.t1, tr.t2) = (a as f64, b as f64);
        head = format!("{a},{b},");
    }
    if t.chance(1, 3) {
        tr.accel = t.pick_c(&[0.5, 2.0, 3.0, 1.5]);
        head += &format!("{},", tr.accel);
    }
    st.trs.push(tr);
    format!("\\t({head}{inner})")
}
fn block(t: &mut T, st: &mut St, w: &mut Whole, first: bool, can_an: bool, styles: &[Sty], dur: u32, size: (f64, f64)) -> String {
    let mut s = String::from("{");
    for _ in 0..1 + t.us(4) {
        s += &match t.us(16) {
            0..=4 => {
                let i = t.us(17);
                let v = value(t, i);
                st.n[i] = Some(v);
                format!("\\{}{v}", NUM[i])
            }
            5 | 6 => {
                let (k, c) = (t.us(4), [t.us(256) as u8, t.us(256) as u8, t.us(256) as u8]);
                st.c[k] = Some(c);
                format!("\\{}c{}", k + 1, hex(c))
            }
            7 => {
                let a = t.us(256) as u8;
                let k = t.us(6);
                if k < 4 {
                    st.a[k] = Some(255 - a);
                    format!("\\{}a&H{a:02X}&", k + 1)
                } else {
                    st.a = [Some(255 - a); 4];
                    format!("\\alpha&H{a:02X}&")
                }
            }
            8 => {
                let (k, on) = (t.us(4), t.chance(1, 2));
                st.on[k] = Some(on);
                format!("\\{}{}", ["b", "i", "u", "s"][k], on as u8)
            }
            9 => {
                let f = t.pick_c(&["Go", "Go Mono"]);
                st.font = Some(f);
                format!("\\fn{f}")
            }
            10 => {
                let next = st.kar.map_or(0, |k| k.1 + k.2);
                let (k, d) = (t.us(4), t.us(dur as usize) as u32);
                st.kar = Some((k as u8, next, d));
                format!("\\{}{d}", ["k", "kf", "ko", "K"][k])
            }
            11 => {
                let k = t.us(styles.len() + 1);
                *st = St { kar: st.kar, reset: (k < styles.len()).then_some(k), ..St::default() };
                format!("\\r{}", styles.get(k).map_or("", |s| &s.name))
            }
            12 => transform(t, st, dur),
            13 if can_an && w.an.is_none() => {
                let a = 1 + t.us(9) as u8;
                w.an = Some(a);
                if t.chance(1, 3) {
                    format!("\\a{}", [1, 2, 3, 9, 10, 11, 5, 6, 7][a as usize - 1])
                } else {
                    format!("\\an{a}")
                }
            }
            14 if can_an && w.pos.is_none() && w.mov.is_none() => {
                let p = |t: &mut T| [t.range(-20, 2 * size.0 as i64) as f64 / 2.0, t.range(-20, 2 * size.1 as i64) as f64 / 2.0];
                let a = p(t);
                if t.chance(1, 2) {
                    w.pos = Some(a);
                    format!("\\pos({},{})", a[0], a[1])
                } else {
                    let b = p(t);
                    let mut m = [a[0], a[1], b[0], b[1], 0.0, 0.0];
                    let mut s = format!("\\move({},{},{},{}", a[0], a[1], b[0], b[1]);
                    if t.chance(1, 2) {
                        m[4] = t.us(dur as usize) as f64 * 10.0;
                        m[5] = m[4] + 10.0 + t.us(100) as f64 * 10.0;
                        s += &format!(",{},{}", m[4], m[5]);
                    }
                    w.mov = Some(m);
                    s + ")"
                }
            }
            _ if first => match t.us(4) {
                0 => {
                    let o = [t.us(size.0 as usize) as f64, t.us(size.1 as usize) as f64];
                    w.org = Some(o);
                    format!("\\org({},{})", o[0], o[1])
                }
                1 => {
                    let c = [t.us(200) as f64 / 2.0, t.us(200) as f64 / 2.0, t.us(800) as f64 / 2.0, t.us(400) as f64];
                    let inv = t.chance(1, 3);
                    w.clip = Some((c, inv));
                    format!("\\{}clip({},{},{},{})", if inv { "i" } else { "" }, c[0], c[1], c[2], c[3])
                }
                2 if w.fade.is_none() => {
                    let f = [t.us(dur as usize * 10) as u32 / 10 * 10, t.us(dur as usize * 10) as u32 / 10 * 10];
                    w.fad = Some(f);
                    format!("\\fad({},{})", f[0], f[1])
                }
                3 if w.fad.is_none() => {
                    let a = [t.us(256) as u8, t.us(256) as u8, t.us(256) as u8];
                    let mut k: Vec<u32> = (0..4).map(|_| t.us(dur as usize) as u32 * 10).collect();
                    k.sort();
                    w.fade = Some((a, [k[0], k[1], k[2], k[3]]));
                    format!("\\fade({},{},{},{},{},{},{})", a[0], a[1], a[2], k[0], k[1], k[2], k[3])
                }
                _ => String::new(),
            },
            _ => String::new(),
        };
    }
    if s == "{" {
        st.n[15] = Some(0.0);
        s += "\\blur0";
    }
    s + "}"
}
fn shape(t: &mut T) -> String {
    let (x, y, w, h) = (t.range(-20, 20), t.range(-20, 20), 5 + t.us(60) as i64, 5 + t.us(60) as i64);
    if t.chance(1, 2) {
        format!("m {x} {y} l {} {y} {} {} {x} {}", x + w, x + w, y + h, y + h)
    } else {
        format!("m {x} {y} b {} {y} {} {} {x} {}", x + w, x + w, y + h, y + h)
    }
}
const WORDS: [&str; 8] = ["a", "go", "Word", "ilia", "WAVE", "x y", "moon 12", "Quay"];
pub fn event(t: &mut T, styles: &[Sty], dur: u32, size: (f64, f64), drawings: bool) -> Ev {
    let (mut st, mut whole) = (St::default(), Whole::default());
    let mut text = String::new();
    let mut lines = vec![];
    let mut first = true;
    for i in 0..1 + t.weighted(&[5, 3, 1]) {
        if i > 0 {
            text += "\\N";
        }
        let mut line = vec![];
        let mut has_text = false;
        first &= i == 0;
        for j in 0..1 + t.weighted(&[5, 3, 2]) {
            if t.chance(2, 3) || j > 0 {
                text += &block(t, &mut st, &mut whole, first, true, styles, dur, size);
            }
            first = false;
            if drawings && t.chance(1, 6) {
                let level = 1 + t.us(3) as i32;
                let commands = shape(t);
                text += &format!("{{\\p{level}}}{commands}{{\\p0}}");
                line.push(Piece::Draw { commands, level, st: st.clone() });
            } else {
                let s = *t.pick(&WORDS.each_ref());
                text += s;
                line.push(Piece::Run { text: s.to_string(), st: st.clone() });
                has_text = true;
            }
        }
        if !has_text {
            text += "end";
            line.push(Piece::Run { text: "end".into(), st: st.clone() });
        }
        lines.push(line);
    }
    Ev { text, lines, whole }
}
/// Runs that follow one another under the same tags are one.
fn joined(lines: &[Vec<Piece>]) -> Vec<Vec<(String, &St)>> {
    lines
        .iter()
        .map(|l| {
            let mut o: Vec<(String, &St, bool)> = vec![];
            for p in l {
                match p {
                    Piece::Run { text, st } => o.push((text.clone(), st, true)),
                    Piece::Draw { .. } => {}
                }
            }
            o.into_iter().map(|x| (x.0, x.1)).collect()
        })
        .collect()
}
#[derive(Clone)]
struct Look {
    style: Sty,
    fs: f64,
    n: [Option<f64>; 17],
    font: String,
    on: [bool; 4],
    c: [[f64; 4]; 4],
}
/// How far a transform has come.
fn progress(tr: &Tr, at_ms: f64) -> f64 {
    if at_ms <= tr.t1 && !(at_ms >= tr.t2) {
        return 0.0;
    }
    if at_ms >= tr.t2 {
        return 1.0;
    }
    let x = (at_ms - tr.t1) / (tr.t2 - tr.t1);
    // the decelerating curve
    if tr.accel == 0.5 { 1.0 - (1.0 - x).powi(2) } else { x.powf(tr.accel) }
}
fn look(st: &St, base: &Sty, styles: &[Sty], at_ms: f64) -> Look {
    let style = st.reset.map_or(base, |k| &styles[k]).clone();
    let mut n = st.n;
    let mut c: [[f64; 4]; 4] = std::array::from_fn(|k| {
        let b = style.c[k];
        let rgb = st.c[k].unwrap_or([b[0], b[1], b[2]]);
        [rgb[0] as f64, rgb[1] as f64, rgb[2] as f64, st.a[k].unwrap_or(b[3]) as f64]
    });
    let base_of = |i: usize| match i {
        0 => style.fs,
        1 => style.scx,
        2 => style.scy,
        3 => style.sp,
        4 => style.angle,
        9 => style.outline,
        12 => style.shadow,
        _ => 0.0,
    };
    for tr in &st.trs {
        let p = progress(tr, at_ms);
        if p <= 0.0 {
            continue;
        }
        for &(i, v) in &tr.what {
            let from = n[i].unwrap_or(base_of(i));
            n[i] = Some(from + (v - from) * p);
        }
        if let Some((k, to)) = tr.color {
            for j in 0..3 {
                c[k][j] += (to[j] as f64 - c[k][j]) * p;
            }
        }
        if let Some(a) = tr.alpha {
            let v = c[0][3] + (a as f64 - c[0][3]) * p;
            for x in c.iter_mut() {
                x[3] = v;
            }
        }
    }
    for i in [0, 1, 2, 3, 4] {
        n[i] = Some(n[i].unwrap_or(base_of(i)));
    }
    let on = [style.b, style.i, style.u, style.s];
    Look { fs: n[0].unwrap(), n, font: st.font.unwrap_or(style.font).into(), on: std::array::from_fn(|k| st.on[k].unwrap_or(on[k])), c, style }
}
/// Opacity that a fade leaves.
fn faded(w: &Whole, start: f64, end: f64, at: f64) -> f64 {
    if let Some([a, b]) = w.fad {
        let (a, b) = (a as f64 / 10.0, b as f64 / 10.0);
        return if at < start + a {
            (at - start) / a
        } else if b > 0.0 && at >= (end - b).max(0.0) {
            ((end - at) / b).min(1.0)
        } else {
            1.0
        };
    }
    if let Some((a, k)) = w.fade {
        let k = k.map(|x| start + x as f64 / 10.0);
        let a = a.map(|x| x as f64);
        let v = if at <= k[0] {
            a[0]
        } else if at < k[1] {
            a[0] + (a[1] - a[0]) * (at - k[0]) / (k[1] - k[0])
        } else if at <= k[2] {
            a[1]
        } else if at < k[3] {
            a[1] + (a[2] - a[1]) * (at - k[2]) / (k[3] - k[2])
        } else {
            a[2]
        };
        return 1.0 - v / 255.0;
    }
    1.0
}
pub struct Scene {
    pub res: (u32, u32),
    pub size: (u32, u32),
    pub scaled: bool,
    pub styles: Vec<Sty>,
    pub head: String,
    /// What styles and places are written in, for one of the script's pixels.
    pub k: [f64; 2],
}
/// The line of a style that comes out as `s`.
fn written(s: &Sty, k: [f64; 2], scaled: bool) -> String {
    let mut s = s.clone();
    s.fs *= k[1];
    s.sp *= k[0];
    s.m = [s.m[0] * k[0], s.m[1] * k[0], s.m[2] * k[1]];
    if scaled {
        s.outline *= k[1];
        s.shadow *= k[1];
    }
    s.line()
}
pub fn scene(t: &mut T, wrap: u8) -> Scene {
    let res = t.pick_c(&[(384u32, 288u32), (640, 480), (1920, 1080), (400, 300)]);
    let size = match t.us(4) {
        0 => (res.0 * 2, res.1 * 2),
        1 => (res.0 / 2, res.1 / 2),
        2 => (res.0, res.1 / 2),
        _ => res,
    };
    let scaled = t.chance(2, 3);
    let mut styles = vec![style(t, "Default")];
    for n in ["Sign", "Alt 2"].iter().take(t.us(3)) {
        styles.push(style(t, n));
    }
    if t.chance(1, 6) {
        styles.rotate_left(1);
    }
    let mut head = format!("[Script Info]\nPlayResX: {}\nPlayResY: {}\nWrapStyle: {wrap}\n", res.0, res.1);
    if !scaled || t.chance(1, 2) {
        head += &format!("ScaledBorderAndShadow: {}\n", if scaled { "yes" } else { "no" });
    }
    // styles written for another resolution come out scaled to the one of the script
    let k = if t.chance(1, 4) {
        let k = [t.pick_c(&[1.0, 0.5, 2.0, 4.0]), t.pick_c(&[1.0, 0.5, 2.0, 4.0])];
        head += &format!("LayoutResX: {}\nLayoutResY: {}\n", res.0 as f64 * k[0], res.1 as f64 * k[1]);
        k
    } else {
        [1.0; 2]
    };
    head += &format!("\n[V4+ Styles]\n{STYLE_FORMAT}");
    for s in &styles {
        head += &written(s, k, scaled);
    }
    head += &format!("\n[Events]\n{EVENT_FORMAT}");
    Scene { res, size, scaled, styles, head, k }
}
thread_local!(pub static PIPE: RefCell<SoftwarePipeline> = RefCell::new(SoftwarePipeline::new()));
pub fn layers(sc: &Scene, script: &Script, at: u32) -> Result<Vec<IntermediateLayer>, String> {
    let evs: Vec<&Event> = script.sections().iter().filter_map(|s| if let Section::Events(e) = s { Some(e) } else { None }).flatten().collect();
    let ctx = RenderContext::new(sc.size.0, sc.size.1);
    PIPE.with(|p| {
        let mut p = p.borrow_mut();
        p.prepare_script(script, None).map_err(|e| e.to_string())?;
        p.process_events(&evs, at, &ctx).map_err(|e| e.to_string())
    })
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 0.02 + b.abs() * 1e-4
}
fn near_color(g: [u8; 4], w: [f64; 4], slack: f64) -> bool {
    (0..4).all(|k| (g[k] as f64 - w[k]).abs() <= slack)
}
struct Fx {
    on: [bool; 4],
    outline: Option<([u8; 4], f64, f64)>,
    boxed: Option<([u8; 4], f64, f64)>,
    shadow: Option<([u8; 4], f64, f64)>,
    blur: f64,
    be: f64,
    karaoke: Option<(f64, u8, [u8; 4])>,
    rot: [f64; 3],
    org: Option<(f32, f32)>,
    shear: [f64; 2],
    scale: [f64; 2],
    clip: Option<([f64; 4], bool)>,
    order: Vec<u8>,
}
fn effects(d: &TextData) -> Fx {
    let mut f = Fx { on: [false; 4], outline: None, boxed: None, shadow: None, blur: 0.0, be: 0.0, karaoke: None, rot: [0.0; 3], org: None, shear: [0.0; 2], scale: [100.0; 2], clip: None, order: vec![] };
    for e in &d.effects {
        match e {
            TextEffect::Bold => f.on[0] = true,
            TextEffect::Italic => f.on[1] = true,
            TextEffect::Underline => f.on[2] = true,
            TextEffect::Strikethrough => f.on[3] = true,
            TextEffect::Outline { color, width_x, width_y } => f.outline = Some((*color, *width_x as f64, *width_y as f64)),
            TextEffect::OpaqueBox { color, padding_x, padding_y } => f.boxed = Some((*color, *padding_x as f64, *padding_y as f64)),
            TextEffect::Shadow { color, x_offset, y_offset } => f.shadow = Some((*color, *x_offset as f64, *y_offset as f64)),
            TextEffect::Blur { radius } => f.blur = *radius as f64,
            TextEffect::EdgeBlur { radius } => f.be = *radius as f64,
            TextEffect::Karaoke { progress, style, secondary } => f.karaoke = Some((*progress as f64, *style, *secondary)),
            TextEffect::Rotation { x, y, z, origin } => {
                f.rot = [*x as f64, *y as f64, *z as f64];
                f.org = *origin;
                f.order.push(0);
            }
            TextEffect::Shear { x, y } => {
                f.shear = [*x as f64, *y as f64];
                f.order.push(1);
            }
            TextEffect::Scale { x, y } => {
                f.scale = [*x as f64, *y as f64];
                f.order.push(2);
            }
            TextEffect::Clip { x1, y1, x2, y2, inverse } => f.clip = Some(([*x1 as f64, *y1 as f64, *x2 as f64, *y2 as f64], *inverse)),
        }
    }
    f
}
fn times(t: &mut T) -> (u32, u32, u32) {
    let start = t.us(3) as u32 * 100 + t.us(50) as u32;
    let dur = 20 + t.us(300) as u32;
    let at = start + match t.us(5) {
        0 => 0,
        1 => dur - 1,
        _ => t.us(dur as usize) as u32,
    };
    (start, start + dur, at)
}
fn moved(m: &[f64; 6], start: f64, end: f64, at: f64) -> [f64; 2] {
    let (a, b) = if m[4] == 0.0 && m[5] == 0.0 { (start, end) } else { (start + m[4] / 10.0, start + m[5] / 10.0) };
    let p = ((at - a) / (b - a)).clamp(0.0, 1.0);
    [m[0] + (m[2] - m[0]) * p, m[1] + (m[3] - m[1]) * p]
}
fn margin(ev: &str, style: f64) -> f64 {
    match ev.parse::<f64>() {
        Ok(v) if v != 0.0 => v,
        _ => style,
    }
}
/// One event on the screen: every run and drawing as its style and tags say.
pub fn runs(t: &mut T) -> R {
    let sc = scene(t, 2);
    let (sx, sy) = (sc.size.0 as f64 / sc.res.0 as f64, sc.size.1 as f64 / sc.res.1 as f64);
    let (start, end, at) = times(t);
    let unknown = t.chance(1, 8);
    let k = t.us(sc.styles.len());
    let base = if unknown { sc.styles.iter().find(|s| s.name == "Default").unwrap_or(&sc.styles[0]) } else { &sc.styles[k] };
    let mut ev = event(t, &sc.styles, end - start, (sc.res.0 as f64, sc.res.1 as f64), true);
    let m: Vec<String> = (0..3).map(|_| if t.chance(1, 3) { (5 + t.us(30)).to_string() } else { t.pick_c(&["0", "0000", "00", ""]).to_string() }).collect();
    // without a place of its own it could be moved to stay on the screen
    if ev.whole.pos.is_none() && ev.whole.mov.is_none() && t.chance(1, 2) {
        let p = [t.range(0, sc.res.0 as i64) as f64, t.range(0, sc.res.1 as i64) as f64];
        ev.whole.pos = Some(p);
        ev.text = format!("{{\\pos({},{})}}{}", p[0], p[1], ev.text);
    }
    if let Some(p) = &mut ev.whole.pos {
        *p = [p[0] / sc.k[0], p[1] / sc.k[1]];
    }
    if let Some(v) = &mut ev.whole.mov {
        for (i, x) in v.iter_mut().take(4).enumerate() {
            *x /= sc.k[i % 2];
        }
    }
    let name = if unknown { "Nowhere" } else { &base.name };
    let src = format!("{}Dialogue: 0,{},{},{name},,{},{},{},,{}\n", sc.head, vkit::ass::fmt_time(start), vkit::ass::fmt_time(end), m[0], m[1], m[2], ev.text);
    t.input("script", &src);
    t.input("at", &format!("{at} cs on {}x{}", sc.size.0, sc.size.1));
    let script = Script::parse(&src).map_err(|e| e.to_string())?;
    let got = layers(&sc, &script, at)?;
    let (s, e, a) = (start as f64, end as f64, at as f64);
    let ms = (a - s) * 10.0;
    let fade = faded(&ev.whole, s, e, a);
    // in the order they are written
    let mut want: Vec<(usize, &Piece)> = vec![];
    for (i, l) in ev.lines.iter().enumerate() {
        want.extend(l.iter().map(|p| (i, p)));
    }
    // runs under the same tags may come as one: take them together where they do
    let mut it = got.iter().peekable();
    let align = ev.whole.an.unwrap_or(base.align);
    let pinned = ev.whole.pos.is_some() || ev.whole.mov.is_some();
    let (w, h) = (sc.size.0 as f64, sc.size.1 as f64);
    let anchor = if let Some(p) = ev.whole.pos {
        [p[0] * sx, p[1] * sy]
    } else if let Some(mv) = &ev.whole.mov {
        let p = moved(mv, s, e, a);
        [p[0] * sx, p[1] * sy]
    } else {
        let (ml, mr, mv) = (margin(&m[0], base.m[0]), margin(&m[1], base.m[1]), margin(&m[2], base.m[2]));
        [
            [ml * sx, w / 2.0, w - mr * sx][(align as usize - 1) % 3],
            [h - mv * sy, h / 2.0, mv * sy][(align as usize - 1) / 3],
        ]
    };
    // the looks of all runs, line by line
    let looks: Vec<Vec<(String, Look, &St)>> = joined(&ev.lines).into_iter().map(|l| l.into_iter().map(|(x, st)| (x, look(st, base, &sc.styles, ms), st)).collect()).collect();
    let metrics = |x: &str, l: &Look| {
        let size = l.fs * sy * l.n[2].unwrap() / 100.0 * 0.9;
        let (adv, glyphs, asc, desc) = measure(face_of(&l.font, l.on[0], l.on[1]), x);
        let across = l.n[1].unwrap() / l.n[2].unwrap();
        (size, (adv * size, glyphs as f64 * across * l.n[3].unwrap()), across, asc * size, desc * size)
    };
    // lines step by the largest size the event is written with
    let step = looks.iter().flatten().map(|(_, l, st)| st.n[0].unwrap_or(if st.reset.is_some() { l.style.fs } else { 0.0 })).fold(base.fs, f64::max) * sy;
    let n = looks.len();
    let mut shift: Option<f64> = None;
    let mut seen = 0;
    let mut line_of = 0;
    let mut x = 0.0;
    let mut slack = 0.0;
    let mut at_line = usize::MAX;
    let mut wi = 0;
    let mut in_line = 0;
    while wi < want.len() {
        let (li, p) = want[wi];
        if li != at_line {
            at_line = li;
            in_line = 0;
            line_of = li;
        }
        let l = it.next().ok_or_else(|| format!("only {} of {} pieces of {:?} come out", seen, want.len(), ev.text))?;
        seen += 1;
        match (p, l) {
            (Piece::Run { .. }, IntermediateLayer::Text(d)) => {
                let (text, lk, st) = &looks[line_of][in_line];
                ensure!(&d.text == text, "{:?}: the run {text:?} comes out as {:?}", ev.text, d.text);
                ensure!(d.font_family == lk.font, "{:?}: {text:?} is set in {:?}, not {:?}", ev.text, d.font_family, lk.font);
                let (size, _, _, asc, _) = metrics(text, lk);
                ensure!(near(d.font_size as f64, size), "{:?}: {text:?} is {} high, not {size}", ev.text, d.font_size);
                let mut c = lk.c;
                for x in c.iter_mut() {
                    x[3] *= fade;
                }
                let cs = 1.5 + st.trs.len() as f64;
                ensure!(near_color(d.color, c[0], cs), "{:?}: {text:?} has the colour {:?}, not {:?}", ev.text, d.color, c[0]);
                let sp = lk.n[3].unwrap();
                ensure!(near(d.spacing as f64, sp * sx) || near(d.spacing as f64, sp * sy), "{:?}: {text:?} is spaced {}, not {}", ev.text, d.spacing, sp * sx);
                let f = effects(d);
                ensure!(f.on == lk.on, "{:?}: {text:?} is bold, italic, underlined, struck {:?}, not {:?}", ev.text, f.on, lk.on);
                let (kx, ky) = if sc.scaled { (sx, sy) } else { (1.0, 1.0) };
                // both widths of a border, by axis; common ones scale by either axis
                let axis = |own: Option<f64>, both: Option<f64>, dflt: f64, k: f64, g: f64| match (own, both) {
                    (Some(v), _) => near(g, v * k),
                    (None, Some(v)) => near(g, v * kx) || near(g, v * ky),
                    (None, None) => near(g, dflt * kx) || near(g, dflt * ky),
                };
                let (g, color) = if lk.style.boxed { (f.boxed, 2) } else { (f.outline, 2) };
                ensure!(lk.style.boxed || f.boxed.is_none(), "{:?}: {text:?} has a box", ev.text);
                ensure!(!lk.style.boxed || f.outline.is_none(), "{:?}: {text:?} has an outline, not a box", ev.text);
                let (gc, gx, gy) = g.unwrap_or(([0; 4], 0.0, 0.0));
                ensure!(
                    axis(lk.n[10], lk.n[9], lk.style.outline, kx, gx) && axis(lk.n[11], lk.n[9], lk.style.outline, ky, gy),
                    "{:?}: {text:?} has a border of {gx} by {gy}: tags {:?}, style {}", ev.text, &lk.n[9..12], lk.style.outline
                );
                ensure!(g.is_none() || near_color(gc, c[color], cs), "{:?}: the border of {text:?} is {gc:?}, not {:?}", ev.text, c[2]);
                let (gc, gx, gy) = f.shadow.unwrap_or(([0; 4], 0.0, 0.0));
                ensure!(
                    axis(lk.n[13], lk.n[12], lk.style.shadow, kx, gx) && axis(lk.n[14], lk.n[12], lk.style.shadow, ky, gy),
                    "{:?}: {text:?} has a shadow of {gx} by {gy}: tags {:?}, style {}", ev.text, &lk.n[12..15], lk.style.shadow
                );
                ensure!(f.shadow.is_none() || near_color(gc, c[3], cs), "{:?}: the shadow of {text:?} is {gc:?}, not {:?}", ev.text, c[3]);
                ensure!(near(f.blur, lk.n[15].unwrap_or(0.0) * sy), "{:?}: {text:?} is blurred by {}", ev.text, f.blur);
                let be = lk.n[16].unwrap_or(0.0);
                ensure!(near(f.be, be) || near(f.be, be * sy), "{:?}: the edges of {text:?} are blurred by {}", ev.text, f.be);
                let rot = [lk.n[5].unwrap_or(0.0), lk.n[6].unwrap_or(0.0), lk.n[4].unwrap()];
                ensure!((0..3).all(|k| near(f.rot[k], rot[k])), "{:?}: {text:?} is turned by {:?}, not {rot:?}", ev.text, f.rot);
                if rot != [0.0; 3] {
                    let org = ev.whole.org.map(|o| (o[0] * sx, o[1] * sy));
                    ensure!(f.org.is_some() == org.is_some() && org.iter().zip(f.org).all(|(a, b)| near(a.0, b.0 as f64) && near(a.1, b.1 as f64)), "{:?}: {text:?} turns about {:?}, not {org:?}", ev.text, f.org);
                }
                let shear = [lk.n[7].unwrap_or(0.0), lk.n[8].unwrap_or(0.0)];
                ensure!((0..2).all(|k| near(f.shear[k], shear[k])), "{:?}: {text:?} is sheared by {:?}, not {shear:?}", ev.text, f.shear);
                let scale = [lk.n[1].unwrap(), lk.n[2].unwrap()];
                ensure!((0..2).all(|k| near(f.scale[k], scale[k])), "{:?}: {text:?} is scaled by {:?}, not {scale:?}", ev.text, f.scale);
                ensure!(f.order.windows(2).all(|w| w[0] < w[1]), "{:?}: {text:?} is turned, sheared and scaled in the order {:?}", ev.text, f.order);
                clips(&ev, f.clip, sx, sy)?;
                match (st.kar, f.karaoke) {
                    (None, None) => {}
                    (Some((kind, from, d)), Some((p, gkind, sec))) => {
                        let from = s + from as f64;
                        let want = if a < from { 0.0 } else if a >= from + d as f64 { 1.0 } else { (a - from) / d as f64 };
                        ensure!(near(p, want) && gkind == kind, "{:?}: the syllable {text:?} of kind {gkind} is {p} sung, not {want}", ev.text);
                        ensure!(near_color(sec, c[1], cs), "{:?}: the secondary colour of {text:?} is {sec:?}, not {:?}", ev.text, c[1]);
                    }
                    (k, g) => return Err(format!("{:?}: {text:?} has the syllable {g:?}, not {k:?}", ev.text)),
                }
                // where it is put
                let ms: Vec<_> = looks[line_of].iter().map(|(x, l, _)| metrics(x, l)).collect();
                // letter spacing scales by either axis
                let width = |m: &(f64, (f64, f64), f64, f64, f64)| m.1 .0 * m.2 + m.1 .1 * sx;
                if in_line == 0 {
                    let total: f64 = ms.iter().map(width).sum();
                    let last = ms.last().unwrap();
                    // whether room for spacing is left after the last letter is open
                    let trail = (looks[line_of].last().unwrap().1.n[3].unwrap() * last.2 * sx).abs();
                    let near_spacing: f64 = ms.iter().map(|m| m.1 .1.abs() * (sx - sy).abs()).sum();
                    (x, slack) = match (align - 1) % 3 {
                        0 => (anchor[0], 0.0),
                        1 => (anchor[0] - total / 2.0, (trail + near_spacing) / 2.0),
                        _ => (anchor[0] - total, trail + near_spacing),
                    };
                    ensure!((d.x as f64 - x).abs() <= 0.05 + slack + total * 1e-4, "{:?}: the line of {text:?} starts at {}, not {x}", ev.text, d.x);
                    x = d.x as f64;
                } else {
                    let sp: f64 = ms[in_line - 1].1 .1.abs() * (sx - sy).abs();
                    ensure!((d.x as f64 - x).abs() <= 0.05 + sp + x.abs() * 1e-4, "{:?}: {text:?} starts at {}, though the run before ends at {x}", ev.text, d.x);
                    x = d.x as f64;
                }
                x += width(&ms[in_line]);
                let asc_max = ms.iter().map(|m| m.3).fold(0.0, f64::max);
                let desc_max = ms.iter().map(|m| m.4).fold(0.0, f64::max);
                let height = if n > 1 { step * n as f64 } else { asc_max + desc_max };
                let top = anchor[1] - [height, height / 2.0, 0.0][(align as usize - 1) / 3] + if n > 1 { step * line_of as f64 } else { 0.0 };
                let y = top + asc_max - asc;
                if pinned {
                    ensure!((d.y as f64 - y).abs() <= 0.05 + y.abs() * 1e-4, "{:?}: {text:?} is put at {}, not {y}", ev.text, d.y);
                } else {
                    // all of the event may be moved to stay on the screen
                    let by = d.y as f64 - y;
                    let first = *shift.get_or_insert(by);
                    ensure!((by - first).abs() <= 0.1, "{:?}: {text:?} is moved by {by}, the text before by {first}", ev.text);
                    let all = anchor[1] - [height, height / 2.0, 0.0][(align as usize - 1) / 3];
                    let tallest = looks.iter().flatten().map(|(_, l, _)| l.fs * l.n[2].unwrap() / 100.0 * sy).fold(step, f64::max);
                    if all >= 0.0 && all + step * n as f64 * 1.3 + tallest <= h {
                        ensure!(by.abs() <= 0.05 + y.abs() * 1e-4, "{:?}: {text:?} is put at {}, not {y}", ev.text, d.y);
                    }
                }
                in_line += 1;
            }
            (Piece::Draw { commands, level, st }, IntermediateLayer::Vector(d)) => {
                drawn(&ev, commands, *level, &look(st, base, &sc.styles, ms), st, d, base, &sc, fade, align, anchor, pinned)?;
            }
            (p, _) => return Err(format!("{:?}: piece {seen} is not {}", ev.text, if matches!(p, Piece::Run { .. }) { "text" } else { "a drawing" })),
        }
        wi += 1;
    }
    ensure!(it.next().is_none(), "{:?}: more pieces come out than were written", ev.text);
    t.nontrivial_if(want.len() > 1 && ev.text.matches('\\').count() > 3);
    Ok(())
}
fn clips(ev: &Ev, g: Option<([f64; 4], bool)>, sx: f64, sy: f64) -> R {
    let want = ev.whole.clip.map(|(c, i)| ([c[0] * sx, c[1] * sy, c[2] * sx, c[3] * sy], i));
    ensure!(
        match (g, want) {
            (None, None) => true,
            (Some(g), Some(w)) => g.1 == w.1 && (0..4).all(|k| near(g.0[k], w.0[k])),
            _ => false,
        },
        "{:?}: clipped to {g:?}, not {want:?}",
        ev.text
    );
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn drawn(ev: &Ev, commands: &str, level: i32, lk: &Look, st: &St, d: &VectorData, base: &Sty, sc: &Scene, fade: f64, align: u8, anchor: [f64; 2], pinned: bool) -> R {
    let (sx, sy) = (sc.size.0 as f64 / sc.res.0 as f64, sc.size.1 as f64 / sc.res.1 as f64);
    // a drawing takes the line's style
    let mut c = lk.c;
    if st.reset.is_none() {
        for x in c.iter_mut() {
            x[3] *= fade;
        }
        let cs = 1.5 + st.trs.len() as f64;
        ensure!(near_color(d.color, c[0], cs), "{:?}: the drawing is {:?}, not {:?}", ev.text, d.color, c[0]);
        let (kx, ky) = if sc.scaled { (sx, sy) } else { (1.0, 1.0) };
        if lk.n[10].is_none() && lk.n[11].is_none() {
            if let Some(b) = lk.n[9] {
                let g = d.stroke.as_ref().map_or(0.0, |s| s.width as f64);
                ensure!(near(g, b * kx) || near(g, b * ky), "{:?}: the drawing's border is {g}, not {}", ev.text, b * ky);
                if let Some(s) = &d.stroke {
                    ensure!(near_color(s.color, c[2], cs), "{:?}: the drawing's border is {:?}, not {:?}", ev.text, s.color, c[2]);
                }
            }
        }
    }
    ensure!(near(d.blur as f64, lk.n[15].unwrap_or(0.0) * sy), "{:?}: the drawing is blurred by {}", ev.text, d.blur);
    clips(ev, d.clip.map(|c| ([c.0 as f64, c.1 as f64, c.2 as f64, c.3 as f64], c.4)), sx, sy)?;
    let unit = 0.5f32.powi(level - 1);
    let p = process_drawing_commands(commands).map_err(|e| e.to_string())?.ok_or("no path")?;
    let p = p.transform(tiny_skia::Transform::from_scale(sx as f32 * unit, sy as f32 * unit)).ok_or("no path")?;
    let b = p.bounds();
    let got = d.path.as_ref().ok_or_else(|| format!("{:?}: the drawing {commands:?} has no path", ev.text))?;
    let g = got.bounds();
    let (dx, dy) = (g.left() - b.left(), g.top() - b.top());
    let moved = p.transform(tiny_skia::Transform::from_translate(dx, dy)).ok_or("no path")?;
    ensure!(crate::tags::same_path(&moved, got, 0.05 + g.right().abs().max(g.bottom().abs()) * 1e-4), "{:?}: the drawing {commands:?} comes out as {got:?}", ev.text);
    let _ = base;
    if pinned {
        let wx = [g.left(), (g.left() + g.right()) / 2.0, g.right()][(align as usize - 1) % 3] as f64;
        let wy = [g.bottom(), (g.top() + g.bottom()) / 2.0, g.top()][(align as usize - 1) / 3] as f64;
        ensure!((wx - anchor[0]).abs() <= 0.1 && (wy - anchor[1]).abs() <= 0.1, "{:?}: the drawing stands at ({wx}, {wy}), not ({}, {})", ev.text, anchor[0], anchor[1]);
    }
    Ok(())
}

/// Ink of a text at one em: advance, left edge, right edge, glyphs.
fn ink(face: usize, text: &str) -> (f64, f64, f64, usize) {
    thread_local!(static C: RefCell<HashMap<(usize, String), (f64, f64, f64, usize)>> = RefCell::default());
    C.with(|c| {
        let k = (face, text.to_string());
        if let Some(v) = c.borrow().get(&k) {
            return *v;
        }
        let data = face_bytes(face);
        let f = rustybuzz::Face::from_slice(data, 0).unwrap();
        let tt = ttf_parser::Face::parse(data, 0).unwrap();
        let mut b = rustybuzz::UnicodeBuffer::new();
        b.push_str(text);
        let out = rustybuzz::shape(&f, &[], b);
        let em = tt.units_per_em() as f64;
        let (mut x, mut lo, mut hi) = (0.0, f64::MAX, f64::MIN);
        for (i, p) in out.glyph_infos().iter().zip(out.glyph_positions()) {
            if let Some(b) = tt.glyph_bounding_box(ttf_parser::GlyphId(i.glyph_id as u16)) {
                lo = lo.min(x + p.x_offset as f64 + b.x_min as f64);
                hi = hi.max(x + p.x_offset as f64 + b.x_max as f64);
            }
            x += p.x_advance as f64;
        }
        if lo > hi {
            (lo, hi) = (0.0, x);
        }
        let v = (x / em, lo / em, hi / em, out.len());
        c.borrow_mut().insert(k, v);
        v
    })
}
/// Long lines: broken between words, to fit.
pub fn wrapped(t: &mut T) -> R {
    let q = t.us(4) as u8;
    let mut sc = scene(t, q);
    for s in sc.styles.iter_mut() {
        s.font = "Go";
    }
    let k = t.us(sc.styles.len());
    let base = sc.styles[k].clone();
    let (sx, sy) = (sc.size.0 as f64 / sc.res.0 as f64, sc.size.1 as f64 / sc.res.1 as f64);
    let m: Vec<f64> = (0..2).map(|_| if t.chance(1, 2) { t.us(sc.res.0 as usize / 2) as f64 } else { 0.0 }).collect();
    // tags that hold for all of it
    let mut st = St::default();
    let mut text = String::new();
    let mut style = q;
    if t.chance(1, 2) {
        text.push('{');
        for _ in 0..1 + t.us(3) {
            let i = t.us(4);
            let v = value(t, i);
            st.n[i] = Some(v);
            text += &format!("\\{}{v}", NUM[i]);
        }
        if t.chance(1, 2) {
            let v = t.us(5) as u8;
            // an unknown one leaves the script's
            if v < 4 {
                style = v;
            }
            text += &format!("\\q{v}");
        }
        text.push('}');
    }
    let lk = look(&st, &base, &sc.styles, 0.0);
    let face = face_of("Go", base.b, base.i);
    let mut logical: Vec<String> = vec![];
    let mut runs = 1;
    // the colour each letter is given, where one is
    let (mut now, mut given): (Option<[u8; 3]>, Vec<(char, Option<[u8; 3]>)>) = (None, vec![]);
    for i in 0..1 + t.weighted(&[5, 1]) {
        if i > 0 {
            text += "\\N";
        }
        let mut line = String::new();
        for j in 0..1 + t.len(24) {
            if j > 0 {
                let gap = if t.chance(1, 20) { "  " } else { " " };
                // a run may start with the blanks
                if t.chance(1, 12) {
                    let c = [t.us(256) as u8, 0, 40];
                    text += &format!("{{\\c{}}}", hex(c));
                    now = Some(c);
                    runs += 1;
                }
                text += gap;
                line += gap;
                given.extend(gap.chars().map(|c| (c, now)));
            }
            if t.chance(1, 8) {
                let c = [t.us(256) as u8, 0, 0];
                text += &format!("{{\\c{}}}", hex(c));
                now = Some(c);
                runs += 1;
            }
            let w = match t.us(12) {
                0 => "incomprehensibilities".to_string(),
                1 => "i".to_string(),
                _ => t.string_of(7, &["a", "b", "l", "m", "W", "o", ".", "j"]) + "e",
            };
            let cut = if t.chance(1, 20) { t.us(w.len()) } else { 0 };
            if cut > 0 {
                // a run may start within a word
                text += &format!("{}{{\\1c&H00FF00&}}{}", &w[..cut], &w[cut..]);
                runs += 1;
                given.extend(w[..cut].chars().map(|c| (c, now)));
                now = Some([0, 255, 0]);
                given.extend(w[cut..].chars().map(|c| (c, now)));
            } else {
                text += &w;
                given.extend(w.chars().map(|c| (c, now)));
            }
            line += &w;
        }
        logical.push(line);
    }
    let head = sc.head.split("[V4+").next().unwrap().to_string();
    let src = format!("{head}[V4+ Styles]\n{STYLE_FORMAT}{}\n[Events]\n{EVENT_FORMAT}Dialogue: 0,0:00:00.00,0:00:05.00,{},,{},{},0,,{text}\n", written(&base, sc.k, sc.scaled), base.name, m[0], m[1]);
    t.input("script", &src);
    t.input("on", &format!("{}x{}", sc.size.0, sc.size.1));
    let script = Script::parse(&src).map_err(|e| e.to_string())?;
    let got = layers(&sc, &script, 100)?;
    let mut lines: Vec<(f64, String)> = vec![];
    let mut seen = 0;
    for l in &got {
        let IntermediateLayer::Text(d) = l else { return Err("no text".into()) };
        for c in d.text.chars() {
            // the blanks a line is broken at are dropped
            while seen < given.len() && given[seen].0 == ' ' && c != ' ' {
                seen += 1;
            }
            let Some(&(want, colour)) = given.get(seen) else { return Err(format!("{text:?}: {c:?} comes after its end")) };
            seen += 1;
            let own = [d.color[0], d.color[1], d.color[2]];
            ensure!(c == want && colour.is_none_or(|x| x == own), "{text:?}: letter {seen}, {c:?}, comes in {own:?}, not {want:?} in {colour:?}");
        }
        match lines.last_mut() {
            Some(l) if (l.0 - d.y as f64).abs() < 0.01 => l.1 += &d.text,
            _ => lines.push((d.y as f64, d.text.clone())),
        }
    }
    ensure!(lines.windows(2).all(|w| w[0].0 < w[1].0), "{text:?}: lines out of order: {lines:?}");
    let pick = |e: usize| if m[e] != 0.0 { m[e] } else { base.m[e] };
    let room = (sc.size.0 as f64 - (pick(0) + pick(1)) * sx).max(1.0);
    let size = lk.fs * sy * lk.n[2].unwrap() / 100.0 * 0.9;
    let across = lk.n[1].unwrap() / lk.n[2].unwrap();
    let gap = lk.n[3].unwrap() * sy;
    let gap2 = lk.n[3].unwrap() * sx;
    let wide = |s: &str, gap: f64| {
        let (adv, lo, hi, n) = ink(face, s.trim_end_matches(' '));
        across * ((hi.min(adv) - lo) * size + gap * n.saturating_sub(1) as f64)
    };
    let tol = 0.02 * size.max(1.0) + (gap - gap2).abs() * 200.0;
    let mut at = 0;
    let mut broken = false;
    for whole in &logical {
        // the lines it came out as
        let from = at;
        let mut left: &str = whole;
        while !left.is_empty() {
            let Some(l) = lines.get(at) else { return Err(format!("{text:?}: {left:?} is missing from {lines:?}")) };
            if !left.starts_with(l.1.as_str()) && at > from {
                // the blanks a line is broken at are dropped
                left = left.trim_start_matches(' ');
            }
            let Some(rest) = left.strip_prefix(l.1.as_str()) else { return Err(format!("{text:?}: a line reads {:?}, not the start of {left:?}", l.1)) };
            ensure!(rest.is_empty() || rest.starts_with(' '), "{text:?}: broken within a word: {:?}", l.1);
            left = rest.get(1..).unwrap_or("");
            at += 1;
        }
        let out = &lines[from..at];
        if style == 2 {
            ensure!(out.len() == 1, "{text:?}: broken into {out:?} though wrapping is off");
            continue;
        }
        broken |= out.len() > 1;
        let words: Vec<&str> = whole.split(' ').collect();
        let span = |i: usize, j: usize| words[i..j].join(" ");
        let fits = |s: &str, slack: f64| wide(s, gap) <= room + slack;
        for l in out {
            ensure!(!l.1.trim().contains(' ') || fits(&l.1, tol), "{text:?}: {:?} is {} wide, with {room} there", l.1, wide(&l.1, gap));
        }
        // the fewest lines it can be set in, should widths be a little off either way
        let fewest = |slack: f64| {
            let (mut n, mut i) = (1, 0);
            for j in 1..words.len() {
                if !fits(&span(i, j + 1), slack) && !span(i, j).is_empty() {
                    n += 1;
                    i = j;
                }
            }
            n
        };
        if words.iter().any(|w| w.is_empty()) {
            continue;
        }
        let (a, b) = (fewest(tol), fewest(-tol));
        ensure!(a <= out.len() && out.len() <= b, "{text:?}: {} lines, where {a} are needed", out.len());
        if style == 1 {
            for w in out.windows(2) {
                let more = format!("{} {}", w[0].1, w[1].1.split(' ').next().unwrap());
                ensure!(!fits(&more, -tol), "{text:?}: {:?} had room for one more word", w[0].1);
            }
        } else if out.len() > 1 {
            // no other way to set it in as many lines has a narrower widest line
            let n = words.len();
            let mut best = vec![vec![f64::MAX; out.len() + 1]; n + 1];
            best[0][0] = 0.0;
            for j in 1..=n {
                for k in 1..=out.len() {
                    for i in 0..j {
                        if best[i][k - 1] < f64::MAX {
                            best[j][k] = best[j][k].min(best[i][k - 1].max(wide(&span(i, j), gap)));
                        }
                    }
                }
            }
            let widest = out.iter().map(|l| wide(&l.1, gap)).fold(0.0, f64::max);
            ensure!(widest <= best[n][out.len()] + 2.0 * tol, "{text:?}: the widest of {out:?} is {widest}, where {} would do", best[n][out.len()]);
        }
    }
    ensure!(at == lines.len(), "{text:?}: lines too many: {lines:?}");
    t.nontrivial_if(broken && runs > 1);
    t.label_if(broken, "broken");
    Ok(())
}
/// Several events at once: drawn by layer and start, those of a layer beside one another.
pub fn stacked(t: &mut T) -> R {
    let mut sc = scene(t, 2);
    sc.k = [1.0; 2];
    sc.head = sc.head.lines().filter(|l| !l.starts_with("LayoutRes")).map(|l| format!("{l}\n")).collect();
    sc.size = (sc.res.0.max(640), sc.res.1.max(480));
    sc.res = sc.size;
    let head = sc.head.split("[V4+").next().unwrap().replace("PlayResX", "X").replace("PlayResY", "Y").replace("[Script Info]\n", &format!("[Script Info]\nPlayResX: {}\nPlayResY: {}\n", sc.res.0, sc.res.1));
    let mut base = style(t, "Default");
    (base.fs, base.align, base.m) = (t.pick_c(&[16.0, 20.0]), 1 + t.us(9) as u8, [10.0; 3]);
    (base.scx, base.scy, base.sp, base.angle) = (100.0, 100.0, 0.0, 0.0);
    let mut src = format!("{head}[V4+ Styles]\n{STYLE_FORMAT}{}\n[Events]\n{EVENT_FORMAT}", base.line());
    let n = 2 + t.us(4);
    // layer, start, alignment, place, lines
    let mut evs = vec![];
    let aligns: Vec<u8> = vec![base.align, 1 + t.us(9) as u8];
    for i in 0..n {
        let far = t.pick_c(&[1, 1, 1, 40_000, -300]);
        let (layer, start) = ((t.us(3) as i64 - (t.us(8) == 0) as i64) * far, t.us(4) as u32 * 50);
        let mut text = String::new();
        let mut al = base.align;
        if t.chance(1, 2) {
            al = t.pick_c(&aligns);
            text += &format!("{{\\an{al}}}");
        }
        let pos = t.chance(1, 5).then(|| (t.us(300) as f64, t.us(300) as f64));
        if let Some(p) = pos {
            text += &format!("{{\\pos({},{})}}", p.0, p.1);
        }
        let lines = 1 + t.us(2);
        text += &format!("e{i}");
        if lines > 1 {
            text += &format!("\\Nf{i}");
        }
        src += &format!("Dialogue: {layer},{},0:00:09.00,Default,,0,0,0,,{text}\n", vkit::ass::fmt_time(start));
        evs.push((layer, start, al, pos, lines, i));
    }
    t.input("script", &src);
    let script = Script::parse(&src).map_err(|e| e.to_string())?;
    let got = layers(&sc, &script, 300)?;
    let mut order: Vec<_> = evs.iter().collect();
    order.sort_by_key(|e| (e.0, e.1));
    let names: Vec<String> = order.iter().flat_map(|e| (0..e.4).map(|k| format!("{}{}", ["e", "f"][k], e.5))).collect();
    let texts: Vec<&TextData> = got.iter().filter_map(|l| if let IntermediateLayer::Text(d) = l { Some(d) } else { None }).collect();
    let seen: Vec<&str> = texts.iter().map(|d| d.text.as_str()).collect();
    ensure!(seen == names.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "drawn in the order {seen:?}, not {names:?}: {src}");
    // nominal places
    let step = base.fs;
    let (_, _, asc, desc) = measure(face_of(base.font, base.b, base.i), "e0");
    let one = (asc + desc) * base.fs * 0.9;
    let place = |e: &(i64, u32, u8, Option<(f64, f64)>, usize, usize)| {
        let row = (e.2 as usize - 1) / 3;
        let a = e.3.map_or([sc.size.1 as f64 - 10.0, sc.size.1 as f64 / 2.0, 10.0][row], |p| p.1);
        let h = if e.4 > 1 { step * 2.0 } else { one };
        a - [h, h / 2.0, 0.0][row]
    };
    let mut done: Vec<(i64, u8, f64, f64)> = vec![];
    let mut k = 0;
    let mut crowded = false;
    for e in &order {
        let d = texts[k];
        let y = d.y as f64;
        let nominal = place(e);
        if e.4 > 1 {
            ensure!((texts[k + 1].y as f64 - y - step).abs() < 0.1, "the lines of e{} lie apart: {src}", e.5);
        }
        k += e.4;
        if e.3.is_some() {
            ensure!((y - nominal).abs() < 0.1, "e{} is at {y}, not {nominal} where it is put: {src}", e.5);
            continue;
        }
        let h = step * e.4 as f64;
        let others: Vec<_> = done.iter().filter(|o| o.0 == e.0).collect();
        if others.is_empty() {
            ensure!((y - nominal).abs() < 0.1, "e{} is at {y}, not {nominal}, alone on its layer: {src}", e.5);
        }
        for o in &others {
            if o.1 == e.2 {
                crowded = true;
                ensure!(y + h <= o.2 + 0.6 || o.2 + o.3 <= y + 0.6, "e{} at {y} (to {}) meets the one at {} (to {}): {src}", e.5, y + h, o.2, o.2 + o.3);
            }
        }
        ensure!(y >= -0.1 && y + h <= sc.size.1 as f64 + 0.1, "e{} is off the screen at {y}: {src}", e.5);
        done.push((e.0, e.2, y, h));
    }
    t.nontrivial_if(crowded);
    Ok(())
}
