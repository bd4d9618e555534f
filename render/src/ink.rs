//! R14: a layer is drawn as it describes itself.
use crate::place::{face_bytes, face_of};
use ass_renderer::backends::{create_backend, BackendType, RenderBackend};
use ass_renderer::pipeline::{IntermediateLayer, RasterData, StrokeInfo, TextData, TextEffect, VectorData};
use ass_renderer::RenderContext;
use std::cell::RefCell;
use tiny_skia::{FillRule, Paint, Path, PathBuilder, PathSegment, PathStroker, Pixmap, Rect, Stroke, Transform};
use vkit::*;

const W: u32 = 160;
const H: u32 = 120;
/// The reference is drawn so many times larger, and averaged.
const S: u32 = 4;
/// How much is kept around the screen, for what is blurred into it.
const M: u32 = 20;
const PW: u32 = W + 2 * M;
const PH: u32 = H + 2 * M;

type Cov = Vec<f32>;
/// How much of each pixel a path covers.
fn cover(path: Option<&Path>) -> Cov {
    let mut out = vec![0.0; (PW * PH) as usize];
    let Some(path) = path else { return out };
    // only as much as is touched is drawn
    let b = path.bounds();
    let cut = |v: f32, n: u32| (v + M as f32).clamp(0.0, n as f32) as u32;
    let (x0, y0) = (cut(b.left() - 1.0, PW), cut(b.top() - 1.0, PH));
    let (x1, y1) = (cut(b.right() + 2.0, PW), cut(b.bottom() + 2.0, PH));
    if x1 <= x0 || y1 <= y0 {
        return out;
    }
    let w = x1 - x0;
    let mut big = Pixmap::new(w * S, (y1 - y0) * S).unwrap();
    let mut paint = Paint::default();
    paint.set_color_rgba8(255, 255, 255, 255);
    let k = S as f32;
    big.fill_path(path, &paint, FillRule::Winding, Transform::from_row(k, 0.0, 0.0, k, (M as f32 - x0 as f32) * k, (M as f32 - y0 as f32) * k), None);
    for (i, p) in big.data().chunks_exact(4).enumerate() {
        if p[3] > 0 {
            let (x, y) = (x0 + i as u32 % (w * S) / S, y0 + i as u32 / (w * S) / S);
            out[(y * PW + x) as usize] += p[3] as f32 / (255 * S * S) as f32;
        }
    }
    out
}
fn rect_path(l: f32, t: f32, r: f32, b: f32) -> Option<Path> {
    Rect::from_ltrb(l, t, r, b).map(PathBuilder::from_rect)
}
/// A picture, premultiplied.
#[derive(Clone)]
/// Premultiplied colours, and the column a karaoke sweep has come to.
struct Pic(Vec<[f32; 4]>, Option<f32>);
impl Pic {
    fn new() -> Pic {
        Pic(vec![[0.0; 4]; (PW * PH) as usize], None)
    }
    fn paint(&mut self, cov: &[f32], c: [u8; 4], clip: Option<&[f32]>) {
        for (i, p) in self.0.iter_mut().enumerate() {
            let k = cov[i] * clip.map_or(1.0, |m| m[i]);
            if k > 0.0 {
                let a = k * c[3] as f32 / 255.0;
                for j in 0..4 {
                    let s = if j == 3 { a } else { a * c[j] as f32 / 255.0 };
                    p[j] = s + p[j] * (1.0 - a);
                }
            }
        }
    }
    fn over(&mut self, top: &Pic, clip: Option<&[f32]>) {
        for (i, p) in self.0.iter_mut().enumerate() {
            let k = clip.map_or(1.0, |m| m[i]);
            for j in 0..4 {
                p[j] = top.0[i][j] * k + p[j] * (1.0 - top.0[i][3] * k);
            }
        }
    }
    fn blurred(&self, sigma: f32) -> Pic {
        let r = (sigma * 3.0).ceil() as i32;
        if sigma <= 0.0 || r < 1 {
            return self.clone();
        }
        let k: Vec<f32> = (-r..=r).map(|x| (-(x * x) as f32 / (2.0 * sigma * sigma)).exp()).collect();
        let sum: f32 = k.iter().sum();
        let mut a = self.clone();
        for dir in 0..2 {
            let src = a.clone();
            for y in 0..PH as i32 {
                for x in 0..PW as i32 {
                    let mut acc = [0.0; 4];
                    for (n, w) in k.iter().enumerate() {
                        let d = n as i32 - r;
                        let (u, v) = if dir == 0 { (x + d, y) } else { (x, y + d) };
                        if (0..PW as i32).contains(&u) && (0..PH as i32).contains(&v) {
                            let s = src.0[(v * PW as i32 + u) as usize];
                            for j in 0..4 {
                                acc[j] += w / sum * s[j];
                            }
                        }
                    }
                    a.0[(y * PW as i32 + x) as usize] = acc;
                }
            }
        }
        a
    }
}
fn merged(paths: &[Path], f: impl Fn(tiny_skia::Point) -> tiny_skia::Point) -> Option<Path> {
    let mut b = PathBuilder::new();
    for p in paths {
        for s in p.segments() {
            match s {
                PathSegment::MoveTo(p) => {
                    let p = f(p);
                    b.move_to(p.x, p.y)
                }
                PathSegment::LineTo(p) => {
                    let p = f(p);
                    b.line_to(p.x, p.y)
                }
                PathSegment::QuadTo(c, p) => {
                    let (c, p) = (f(c), f(p));
                    b.quad_to(c.x, c.y, p.x, p.y)
                }
                PathSegment::CubicTo(c, d, p) => {
                    let (c, d, p) = (f(c), f(d), f(p));
                    b.cubic_to(c.x, c.y, d.x, d.y, p.x, p.y)
                }
                PathSegment::Close => b.close(),
            }
        }
    }
    b.finish()
}
fn grown(path: &Path, wx: f32, wy: f32) -> Option<Path> {
    let stroke = |w: f32| Stroke { width: 2.0 * w, line_cap: tiny_skia::LineCap::Square, ..Stroke::default() };
    let mut st = PathStroker::new();
    if (wx - wy).abs() < 0.05 {
        return st.stroke(path, &stroke(wx.max(wy)), 1.0);
    }
    let k = wx / wy;
    let p = path.clone().transform(Transform::from_scale(1.0, k))?;
    st.stroke(&p, &stroke(wx), 1.0)?.transform(Transform::from_scale(1.0, 1.0 / k))
}
struct Glyphs {
    paths: Vec<Path>,
    width: f32,
    ascent: f32,
    descent: f32,
}
/// The outlines of a text, its baseline starting at the origin.
fn glyphs(face: usize, text: &str, size: f32, spacing: f32) -> Glyphs {
    struct B(PathBuilder, f32, f32);
    impl ttf_parser::OutlineBuilder for B {
        fn move_to(&mut self, x: f32, y: f32) {
            self.0.move_to(self.2 + x * self.1, -y * self.1)
        }
        fn line_to(&mut self, x: f32, y: f32) {
            self.0.line_to(self.2 + x * self.1, -y * self.1)
        }
        fn quad_to(&mut self, a: f32, b: f32, x: f32, y: f32) {
            self.0.quad_to(self.2 + a * self.1, -b * self.1, self.2 + x * self.1, -y * self.1)
        }
        fn curve_to(&mut self, a: f32, b: f32, c: f32, d: f32, x: f32, y: f32) {
            self.0.cubic_to(self.2 + a * self.1, -b * self.1, self.2 + c * self.1, -d * self.1, self.2 + x * self.1, -y * self.1)
        }
        fn close(&mut self) {
            self.0.close()
        }
    }
    let data = face_bytes(face);
    let f = rustybuzz::Face::from_slice(data, 0).unwrap();
    let tt = ttf_parser::Face::parse(data, 0).unwrap();
    let mut b = rustybuzz::UnicodeBuffer::new();
    b.push_str(text);
    let out = rustybuzz::shape(&f, &[], b);
    let k = size / tt.units_per_em() as f32;
    let (mut x, mut paths) = (0.0, vec![]);
    for (n, (i, p)) in out.glyph_infos().iter().zip(out.glyph_positions()).enumerate() {
        let mut o = B(PathBuilder::new(), k, x + p.x_offset as f32 * k);
        tt.outline_glyph(ttf_parser::GlyphId(i.glyph_id as u16), &mut o);
        paths.extend(o.0.finish());
        x += p.x_advance as f32 * k;
        if n + 1 < out.len() {
            x += spacing;
        }
    }
    let os2 = tt.tables().os2.unwrap();
    Glyphs { paths, width: x, ascent: os2.windows_ascender() as f32 * k, descent: (os2.windows_descender() as f32 * k).abs() }
}
/// What is open about how a text is drawn: by how much its anchor is rounded, whether
/// shadows are displaced by whole pixels, and the height sheared about.
#[derive(Clone, Copy, Debug)]
struct Open {
    /// 0 nothing, 1 everything, 2 what is blurred
    snap: u8,
    border_in_shadow: bool,
    shear_at: u8,
}
fn text_pic(d: &TextData, o: Open) -> Pic {
    let has = |f: fn(&TextEffect) -> bool| d.effects.iter().any(f);
    let (bold, italic) = (has(|e| matches!(e, TextEffect::Bold)), has(|e| matches!(e, TextEffect::Italic)));
    let g = glyphs(face_of(&d.font_family, bold, italic), &d.text, d.font_size, d.spacing);
    let base = d.y + g.ascent;
    let (mut scale, mut shear, mut turn) = (1.0, (0.0, 0.0), (0.0, 0.0, 0.0, None));
    let (mut outline, mut shadow, mut blur, mut soft, mut karaoke, mut clip, mut boxed) = (None, None, 0.0, 0.0, None, None, None);
    for e in &d.effects {
        match *e {
            TextEffect::Scale { x, y } => scale = x / y,
            TextEffect::Shear { x, y } => shear = (x, y),
            TextEffect::Rotation { x, y, z, origin } => turn = (x, y, z, origin),
            TextEffect::Outline { color, width_x, width_y } => outline = Some((color, width_x, width_y)),
            TextEffect::Shadow { color, x_offset, y_offset } => shadow = Some((color, x_offset, y_offset)),
            TextEffect::Blur { radius } => blur = radius,
            TextEffect::EdgeBlur { radius } => soft = radius,
            TextEffect::Karaoke { progress, style, secondary } => karaoke = Some((progress, style, secondary)),
            TextEffect::Clip { x1, y1, x2, y2, inverse } => clip = Some((x1, y1, x2, y2, inverse)),
            TextEffect::OpaqueBox { color, padding_x, padding_y } => boxed = Some((color, padding_x, padding_y)),
            _ => {}
        }
    }
    let wide = g.width * scale;
    let tall = g.ascent + g.descent;
    // the centre turned about
    let c = match turn.3 {
        Some((x, y)) => (x - d.x, y - base),
        None => (wide / 2.0, tall / 2.0 - g.ascent),
    };
    let shear_c = [tall / 2.0, tall / 2.0 - g.ascent, 0.0][o.shear_at as usize];
    let (sin, cos) = (-turn.2.to_radians()).sin_cos();
    let (rx, ry) = (turn.0.to_radians(), turn.1.to_radians());
    let off = (d.x.round() - d.x, base.round() - base);
    let nudge = if o.snap == 1 { off } else { (0.0, 0.0) };
    let flat = |p: tiny_skia::Point| {
        let x = p.x * scale;
        let y = p.y;
        let (u, v) = (x - wide / 2.0, y - shear_c);
        let (x, y) = (wide / 2.0 + u + shear.0 * v, shear_c + v + shear.1 * u);
        let (u, v) = (x - c.0, y - c.1);
        (u * cos - v * sin, u * sin + v * cos)
    };
    let put = |p: tiny_skia::Point| {
        let (u, v) = flat(p);
        let (mut px, mut py) = (u, v);
        if rx != 0.0 || ry != 0.0 {
            // about the x axis, then the y axis, seen from 312.5 pixels away
            let (y1, z1) = (v * rx.cos(), -v * rx.sin());
            let (x2, z2) = (u * ry.cos() - z1 * ry.sin(), u * ry.sin() + z1 * ry.cos());
            let k = 312.5 / (z2 + 312.5).max(0.1);
            (px, py) = (x2 * k, y1 * k);
        }
        tiny_skia::Point::from_xy(d.x + c.0 + px + nudge.0, base + c.1 + py + nudge.1)
    };
    let ink = merged(&g.paths, put);
    let slide = if o.snap == 2 { off } else { (0.0, 0.0) };
    let cover_soft = |p: Option<&Path>| cover(p.cloned().and_then(|p| p.transform(Transform::from_translate(slide.0, slide.1))).as_ref());
    let cover_text = |p: Option<&Path>| if blur > 0.0 { cover_soft(p) } else { cover(p) };
    let fill = cover_text(ink.as_ref());
    let border = outline.map(|(col, x, y)| (col, cover_text(ink.as_ref().and_then(|p| grown(p, x, y)).as_ref())));
    let mask = clip.map(|(x1, y1, x2, y2, inv)| {
        let mut m = cover(rect_path(x1, y1, x2, y2).as_ref());
        if inv {
            m.iter_mut().for_each(|v| *v = 1.0 - *v);
        }
        m
    });
    let mask = mask.as_deref();
    let mut pic = Pic::new();
    let mut text = Pic::new();
    if let Some((col, sx, sy)) = shadow {
        // displaced along the run's own axes, as they lie on the screen
        let (a, b) = if rx != 0.0 || ry != 0.0 { (sx, sy) } else { let at = |x, y| flat(tiny_skia::Point::from_xy(x, y)); let (z, q) = (at(0.0, 0.0), at(sx, sy)); (q.0 - z.0, q.1 - z.1) };
        let (a, b) = if o.snap == 1 && blur == 0.0 { (a.round(), b.round()) } else { (a, b) };
        let moved = ink.clone().and_then(|p| p.transform(Transform::from_translate(a, b)));
        let mut cov = cover_text(moved.as_ref());
        if let (Some((_, wx, wy)), true) = (outline, o.border_in_shadow) {
            let edge = cover_text(moved.as_ref().and_then(|p| grown(p, wx, wy)).as_ref());
            cov.iter_mut().zip(edge).for_each(|(c, e)| *c = c.max(e));
        }
        text.paint(&cov, col, None);
    }
    if blur == 0.0 {
        pic.over(&text, mask);
        text = Pic::new();
    }
    if let (Some((col, x, y)), Some(b)) = (boxed, ink.as_ref().map(|p| p.bounds())) {
        pic.paint(&cover(rect_path(b.left() - x, b.top() - y, b.right() + x, b.bottom() + y).as_ref()), col, mask);
    }
    if let Some((col, cov)) = &border {
        if soft > 0.0 {
            let mut edge = Pic::new();
            edge.paint(cov, *col, None);
            pic.over(&edge.blurred(soft / 256f32.ln().sqrt()), mask);
        } else {
            text.paint(cov, *col, None);
        }
    }
    let mut swept = None;
    let mut body = |text: &mut Pic| match karaoke {
        None => text.paint(&fill, d.color, None),
        Some((p, 0, s)) => text.paint(&fill, if p > 0.0 { d.color } else { s }, None),
        Some((p, _, s)) if p <= 0.0 => text.paint(&fill, s, None),
        Some((p, _, _)) if p >= 1.0 => text.paint(&fill, d.color, None),
        Some((p, _, s)) if clip.is_some() || blur > 0.0 => {
            let mix = |i: usize| (s[i] as f32 * (1.0 - p) + d.color[i] as f32 * p) as u8;
            text.paint(&fill, [mix(0), mix(1), mix(2), d.color[3]], None);
        }
        Some((p, _, s)) => {
            text.paint(&fill, s, None);
            if let Some(b) = ink.as_ref().map(|p| p.bounds()) {
                let at = b.left() + p * b.width();
                swept = Some(at);
                let x = |i: usize| (i as u32 % PW) as f32 - M as f32;
                let sung: Vec<f32> = fill.iter().enumerate().map(|(i, c)| c * (at.min(x(i) + 1.0) - b.left().max(x(i))).clamp(0.0, 1.0)).collect();
                text.paint(&sung, d.color, None);
            }
        }
    };
    body(&mut text);
    pic.1 = swept;
    let text = if blur > 0.0 { text.blurred(blur * 2.0 / 256f32.ln().sqrt()) } else { text };
    pic.over(&text, mask);
    for (on, y, thick) in [(has(|e| matches!(e, TextEffect::Underline)), g.descent / 2.0, 0.08), (has(|e| matches!(e, TextEffect::Strikethrough)), -g.ascent / 3.0, 0.06)] {
        if on {
            let mut b = PathBuilder::new();
            b.move_to(0.0, y);
            b.line_to(g.width, y);
            let line = b.finish().and_then(|p| p.stroke(&Stroke { width: d.font_size * thick, line_cap: tiny_skia::LineCap::Round, ..Stroke::default() }, 1.0));
            pic.paint(&cover(line.and_then(|l| merged(&[l], put)).as_ref()), d.color, mask);
        }
    }
    pic
}
/// The mean difference where either shows something, the share that is far off, the
/// greatest, colours compared
/// or only how much is covered.
fn differ(want: &Pic, got: &[u8], colours: bool, skip: impl Fn(u32, u32) -> bool) -> (f32, f32, f32, String) {
    let (mut n, mut sum, mut off, mut worst, mut at) = (0, 0.0, 0, 0.0f32, String::new());
    for (i, p) in got.chunks_exact(4).enumerate() {
        let (x, y) = (i as u32 % W, i as u32 / W);
        if skip(x, y) {
            continue;
        }
        let w = want.0[((y + M) * PW + x + M) as usize];
        let d = (if colours { 0 } else { 3 }..4).map(|j| (w[j] - p[j] as f32 / 255.0).abs()).fold(0.0, f32::max);
        if p[3] > 0 || w[3] > 0.004 {
            n += 1;
            sum += d;
        }
        off += (d > 0.3) as usize;
        if d > worst {
            (worst, at) = (d, format!("({x}, {y}) {:?}, not {:?}", p, w.map(|v| (v * 255.0).round())));
        }
    }
    let n = n.max(1) as f32;
    (sum / (n + 60.0), (off as f32 - 4.0).max(0.0) / (n + 60.0), worst, at)
}
thread_local!(static BACK: RefCell<Option<Box<dyn RenderBackend>>> = const { RefCell::new(None) });
fn draw(layers: &[IntermediateLayer]) -> Result<Vec<u8>, String> {
    BACK.with(|b| {
        let mut b = b.borrow_mut();
        let b = b.get_or_insert_with(|| create_backend(BackendType::Software, W, H).unwrap());
        b.composite_layers(layers, &RenderContext::with_font_database(W, H, fontdb::Database::new())).map_err(|e| e.to_string())
    })
}
fn colour(t: &mut T) -> [u8; 4] {
    let v = [0u8, 255, 128, 40, 200];
    let a = t.pick_c(&[255u8, 255, 255, 128, 60, 200]);
    [t.pick_c(&v), t.pick_c(&v), t.pick_c(&v), a]
}
fn half(t: &mut T, lo: i64, hi: i64) -> f32 {
    t.range(lo * 4, hi * 4) as f32 / 4.0
}
fn clip(t: &mut T) -> (f32, f32, f32, f32, bool) {
    let (x, y) = (half(t, -20, W as i64 - 10), half(t, -20, H as i64 - 10));
    (x, y, x + half(t, 3, 120), y + half(t, 3, 90), t.chance(1, 3))
}
fn text_layer(t: &mut T) -> TextData {
    let text = t.pick_c(&["Word", "a", "HI", "Xy z", "moon", "gjp", "W", "i.l", "O"]);
    let mut fx: Vec<TextEffect> = vec![];
    let some = |t: &mut T, fx: &mut Vec<TextEffect>, n: u64, e: TextEffect| {
        if t.chance(n, 12) {
            fx.push(e)
        }
    };
    some(t, &mut fx, 3, TextEffect::Bold);
    some(t, &mut fx, 2, TextEffect::Italic);
    some(t, &mut fx, 2, TextEffect::Underline);
    some(t, &mut fx, 2, TextEffect::Strikethrough);
    let width = |t: &mut T| t.pick_c(&[1.0f32, 2.0, 3.5, 6.0, 1.5]);
    match t.us(6) {
        0 => fx.push(TextEffect::OpaqueBox { color: colour(t), padding_x: half(t, 0, 9), padding_y: half(t, 0, 9) }),
        1 | 2 => {
            let x = width(t);
            let y = if t.chance(1, 3) { width(t) } else { x };
            fx.push(TextEffect::Outline { color: colour(t), width_x: x, width_y: y })
        }
        _ => {}
    }
    if t.chance(1, 3) {
        fx.push(TextEffect::Shadow { color: colour(t), x_offset: half(t, -6, 9) - 0.1, y_offset: half(t, -6, 9) + 0.2 });
    }
    match t.us(8) {
        0 => fx.push(TextEffect::Blur { radius: t.pick_c(&[0.5, 1.0, 2.0, 4.5]) }),
        1 => fx.push(TextEffect::EdgeBlur { radius: t.pick_c(&[1.0, 2.0, 5.0]) }),
        _ => {}
    }
    if t.chance(1, 3) {
        let z = if t.chance(3, 4) { t.pick_c(&[90.0, 180.0, -30.0, 12.5, 45.0, 270.0, 400.0]) } else { 0.0 };
        let (x, y) = if t.chance(1, 4) { (t.pick_c(&[0.0, 30.0, -60.0, 180.0]), t.pick_c(&[0.0, 40.0, -20.0])) } else { (0.0, 0.0) };
        if x != 0.0 || y != 0.0 || z != 0.0 {
            let origin = t.chance(1, 2).then(|| (half(t, 0, W as i64), half(t, 0, H as i64)));
            fx.push(TextEffect::Rotation { x, y, z, origin });
        }
    }
    if t.chance(1, 6) {
        fx.push(TextEffect::Shear { x: t.pick_c(&[0.0, 0.3, -0.5]), y: t.pick_c(&[0.0, 0.0, 0.2]) });
    }
    if t.chance(1, 4) {
        fx.push(TextEffect::Scale { x: t.pick_c(&[50.0, 100.0, 130.0, 200.0]), y: t.pick_c(&[100.0, 50.0, 150.0]) });
    }
    if t.chance(1, 4) {
        let c = clip(t);
        fx.push(TextEffect::Clip { x1: c.0, y1: c.1, x2: c.2, y2: c.3, inverse: c.4 });
    }
    if t.chance(1, 5) {
        fx.push(TextEffect::Karaoke { progress: t.pick_c(&[0.0, 0.25, 0.5, 0.8, 1.0]), style: t.us(3) as u8, secondary: colour(t) });
    }
    TextData {
        text: text.into(),
        font_family: t.pick_c(&["Go", "Go", "Go Mono"]).into(),
        font_size: t.pick_c(&[36.0, 20.0, 50.5, 80.0]),
        color: colour(t),
        x: half(t, -20, 100),
        y: half(t, -30, 90),
        effects: fx.into(),
        spacing: if t.chance(1, 4) { half(t, -2, 8) } else { 0.0 },
    }
}
fn copy(d: &TextData) -> TextData {
    TextData { text: d.text.clone(), font_family: d.font_family.clone(), font_size: d.font_size, color: d.color, x: d.x, y: d.y, effects: d.effects.clone(), spacing: d.spacing }
}
/// Change one thing of a layer, mostly by a little.
fn twin(t: &mut T, d: &TextData) -> (TextData, &'static str) {
    let mut d = copy(d);
    let step = |t: &mut T| t.pick_c(&[0.25f32, -0.25, 0.5, 1.0, 3.0, -2.0]);
    let what = match t.us(12) {
        0 => {
            d.color[t.us(4)] ^= t.pick_c(&[1u8, 64, 255]);
            "colour"
        }
        1 => {
            d.x += step(t);
            "place"
        }
        2 => {
            d.y += step(t);
            "place"
        }
        3 => {
            d.font_size += step(t);
            "size"
        }
        4 => {
            d.spacing += step(t);
            "spacing"
        }
        5 => {
            d.text = t.pick_c(&["Word", "Wordy", "HI", "W", "O"]).into();
            "text"
        }
        6 => {
            let e = t.pick_c(&[TextEffect::Bold, TextEffect::Italic, TextEffect::Underline]);
            let had = d.effects.len();
            let kind = std::mem::discriminant(&e);
            let mut fx = d.effects.to_vec();
            fx.retain(|x| std::mem::discriminant(x) != kind);
            if fx.len() == had {
                fx.push(e);
            }
            d.effects = fx.into();
            "face"
        }
        7 => {
            let mut fx = d.effects.to_vec();
            if !fx.is_empty() {
                fx.remove(t.us(fx.len()));
            }
            d.effects = fx.into();
            "effect dropped"
        }
        _ => {
            let mut fx = d.effects.to_vec();
            if fx.is_empty() {
                fx.push(TextEffect::Outline { color: colour(t), width_x: 2.0, width_y: 2.0 });
            }
            let i = t.us(fx.len());
            let (s, k, j) = (step(t), t.us(5), t.us(4));
            let bit = t.pick_c(&[1u8, 64, 255]);
            match &mut fx[i] {
                TextEffect::Outline { color, width_x, width_y } => match k {
                    0 => color[j] ^= bit,
                    1 => *width_x = (*width_x + s).abs() + 0.25,
                    2 => *width_y = (*width_y + s).abs() + 0.25,
                    _ => std::mem::swap(width_x, width_y),
                },
                TextEffect::Shadow { color, x_offset, y_offset } => match k {
                    0 => color[j] ^= bit,
                    1 => *x_offset += s,
                    2 => *y_offset += s,
                    _ => std::mem::swap(x_offset, y_offset),
                },
                TextEffect::Blur { radius } | TextEffect::EdgeBlur { radius } => *radius = (*radius + s).abs() + 0.25,
                TextEffect::Rotation { x, y, z, origin } => match k {
                    0 => *x += s * 9.0,
                    1 => *y += s * 9.0,
                    2 => *z += s,
                    _ => *origin = Some((half(t, 0, 80), half(t, 0, 80))),
                },
                TextEffect::Shear { x, y } => {
                    if k < 2 {
                        *x += s / 8.0
                    } else {
                        *y += s / 8.0
                    }
                }
                TextEffect::Scale { x, y } => {
                    if k < 2 {
                        *x += s * 8.0
                    } else {
                        *y += s * 8.0
                    }
                }
                TextEffect::Karaoke { progress, style, secondary } => match k {
                    0 => secondary[j] ^= bit,
                    1 => *style = t.us(3) as u8,
                    _ => *progress = (*progress + s.abs() / 8.0).min(1.0),
                },
                TextEffect::Clip { x1, y2, inverse, .. } => match k {
                    0 => *inverse = !*inverse,
                    1 | 2 => *x1 -= s.abs(),
                    _ => *y2 += s.abs(),
                },
                TextEffect::OpaqueBox { color, padding_x, padding_y } => match k {
                    0 => color[j] ^= bit,
                    1 | 2 => *padding_x = (*padding_x + s).abs(),
                    _ => *padding_y = (*padding_y + s).abs(),
                },
                TextEffect::Bold => fx[i] = TextEffect::Italic,
                TextEffect::Italic => fx[i] = TextEffect::Bold,
                _ => {}
            }
            d.effects = fx.into();
            "effect changed"
        }
    };
    (d, what)
}
/// R10: what was drawn before leaves no trace in what is drawn now.
pub fn twins(t: &mut T) -> R {
    let mut list = vec![text_layer(t)];
    // mostly such as are kept: nothing drawn beside the letters
    if t.chance(3, 4) {
        let keep: Vec<TextEffect> = list[0].effects.iter().filter(|e| !matches!(e, TextEffect::Clip { .. } | TextEffect::OpaqueBox { .. } | TextEffect::EdgeBlur { .. } | TextEffect::Underline | TextEffect::Strikethrough)).cloned().collect();
        list[0].effects = keep.into();
    }
    let mut kinds = vec![];
    for _ in 0..1 + t.us(3) {
        let from = t.us(list.len());
        let (d, what) = twin(t, &list[from]);
        kinds.push(what);
        list.push(d);
    }
    // the first once more
    if t.chance(1, 3) {
        list.push(copy(&list[0]));
    }
    t.input_dbg("layers", &list.iter().map(|d| (&d.text, &d.font_family, d.font_size, d.spacing, d.color, d.x, d.y, &d.effects)).collect::<Vec<_>>());
    let apart = |ds: &[TextData]| -> Result<Vec<Vec<u8>>, String> {
        let run = || ds.iter().map(|d| draw(&[IntermediateLayer::Text(copy(d))])).collect::<Result<Vec<_>, _>>();
        std::thread::scope(|s| s.spawn(run).join()).unwrap_or_else(|_| Err("drawing panicked".into()))
    };
    let got = apart(&list)?;
    let mut shown = 0;
    for (i, d) in list.iter().enumerate() {
        if i > 0 {
            let own = apart(std::slice::from_ref(d))?;
            if let Some(x) = crate::hist::differ(&got[i], &own[0], W, 0) {
                return Err(format!("layer {i} drawn after the others is not what it is alone: {x}"));
            }
        }
        shown += got[i].iter().any(|b| *b != 0) as usize;
    }
    kinds.iter().for_each(|k| t.label(k));
    t.nontrivial_if(shown > 1);
    Ok(())
}
pub fn text(t: &mut T) -> R {
    let d = text_layer(t);
    t.input_dbg("layer", &(&d.text, &d.font_family, d.font_size, d.spacing, d.color, d.x, d.y, &d.effects));
    let got = draw(&[IntermediateLayer::Text(copy(&d))])?;
    let blurred = d.effects.iter().any(|e| matches!(e, TextEffect::Blur { .. } | TextEffect::EdgeBlur { .. }));
    let sheared = d.effects.iter().any(|e| matches!(e, TextEffect::Shear { .. }));
    let both = |c| if c { [true, false].as_slice() } else { &[false] };
    let both_shadows = d.effects.iter().any(|e| matches!(e, TextEffect::Shadow { .. })) && d.effects.iter().any(|e| matches!(e, TextEffect::Outline { .. }));
    let mut best: Option<(f32, f32, f32, String, Open)> = None;
    for snap in if blurred { [2, 1, 0] } else { [1, 0, 0] } {
        for &border_in_shadow in both(both_shadows) {
            for shear_at in 0..if sheared { 3 } else { 1 } {
                if best.as_ref().is_some_and(|b| b.2 < 0.2 && b.0 < 0.02) {
                    continue;
                }
                let o = Open { snap, border_in_shadow, shear_at };
                let want = text_pic(&d, o);
                let (mean, off, worst, at) = differ(&want, &got, !blurred, |x, _| x == 0 || x == W - 1 || want.1.is_some_and(|at| (x as f32 + 0.5 - at).abs() < 1.6));
                if best.as_ref().is_none_or(|b| (off, mean) < (b.1, b.0)) {
                    best = Some((mean, off, worst, at, o));
                }
            }
        }
    }
    let shown = got.chunks_exact(4).filter(|p| p[3] > 100).count();
    t.nontrivial_if(shown > 20 && d.effects.len() > 1);
    let (mean, off, worst, at, o) = best.unwrap();
    if std::env::var("INK").is_ok() {
        println!("{mean:.4} {off:.3} {worst:.3} {o:?} {at} {:?}", d.effects);
    }
    // where a border overlaps itself within a pixel, its coverage adds up
    let (far, most) = if d.effects.iter().any(|e| matches!(e, TextEffect::Outline { .. })) { (0.04, 0.1) } else { (0.02, 0.06) };
    if off > far || mean > most {
        return Err(format!("differs by up to {worst:.2}, {:.0}% far off, {mean:.3} on average: {at} (closest {o:?})", off * 100.0));
    }
    Ok(())
}
fn vector_layer(t: &mut T) -> VectorData {
    let mut b = PathBuilder::new();
    for _ in 0..1 + t.weighted(&[5, 2, 1]) {
        let (x, y) = (half(t, -10, 120), half(t, -10, 90));
        let mut p = |t: &mut T| (x + half(t, -30, 60), y + half(t, -30, 60));
        if t.chance(1, 3) {
            if let Some(r) = Rect::from_ltrb(x, y, x + half(t, 1, 80), y + half(t, 1, 60)) {
                b.push_rect(r)
            }
            continue;
        }
        b.move_to(x, y);
        for _ in 0..2 + t.us(3) {
            let (u, v, w) = (p(t), p(t), p(t));
            match t.us(3) {
                0 => b.cubic_to(u.0, u.1, v.0, v.1, w.0, w.1),
                _ => b.line_to(u.0, u.1),
            }
        }
        b.close();
    }
    let (width, blur) = (t.pick_c(&[1.5, 2.5, 5.0, 8.0]), t.pick_c(&[1.0, 2.0, 4.5, 0.5]));
    VectorData {
        path: if t.chance(1, 20) { None } else { b.finish() },
        color: colour(t),
        stroke: t.chance(1, 2).then(|| StrokeInfo { color: colour(t), width }),
        bounds: None,
        clip: t.chance(1, 3).then(|| {
            // no pixel's centre on the edge
            let c = clip(t);
            (c.0 + 0.1, c.1 + 0.1, c.2 + 0.1, c.3 + 0.1, c.4)
        }),
        blur: if t.chance(1, 3) { blur } else { 0.0 },
    }
}
fn vector_pic(d: &VectorData, dx: f32, dy: f32) -> Pic {
    let mut pic = Pic::new();
    let Some(p) = d.path.clone().and_then(|p| p.transform(Transform::from_translate(dx, dy))) else { return pic };
    let mut shape = Pic::new();
    shape.paint(&cover(Some(&p)), d.color, None);
    if let Some(s) = &d.stroke {
        let edge = p.stroke(&Stroke { width: s.width, ..Stroke::default() }, 1.0);
        shape.paint(&cover(edge.as_ref()), s.color, None);
    }
    if d.blur > 0.0 {
        shape = shape.blurred(d.blur * 2.0 / 256f32.ln().sqrt());
    }
    let mask = d.clip.map(|(x1, y1, x2, y2, inv)| {
        let mut m = vec![0.0; (PW * PH) as usize];
        for (i, v) in m.iter_mut().enumerate() {
            let (x, y) = ((i as u32 % PW) as f32 - M as f32 + 0.5, (i as u32 / PW) as f32 - M as f32 + 0.5);
            *v = ((x >= x1 && x < x2 && y >= y1 && y < y2) != inv) as u8 as f32;
        }
        m
    });
    pic.over(&shape, mask.as_deref());
    pic
}
fn show(d: &VectorData) -> String {
    format!("path {:?}, {:?}, stroke {:?}, clip {:?}, blur {}", d.path.as_ref().map(|p| p.segments().collect::<Vec<_>>()), d.color, d.stroke.as_ref().map(|s| (s.color, s.width)), d.clip, d.blur)
}
pub fn vector(t: &mut T) -> R {
    let d = vector_layer(t);
    t.input("layer", &show(&d));
    let b = d.path.as_ref().map(|p| p.bounds());
    let steps = |v: f32| if d.blur > 0.0 { vec![0.0, v.floor() - v, v.ceil() - v] } else { vec![0.0] };
    let (xs, ys) = (steps(b.map_or(0.0, |b| b.left())), steps(b.map_or(0.0, |b| b.top())));
    let mut best: Option<(f32, f32, f32, String)> = None;
    let tries: Vec<Pic> = xs.iter().flat_map(|x| ys.iter().map(|y| vector_pic(&d, *x, *y)).collect::<Vec<_>>()).collect();
    let (blur, some) = (d.blur, d.stroke.is_some() as u8 + d.clip.is_some() as u8 + (d.blur > 0.0) as u8);
    let got = draw(&[IntermediateLayer::Vector(d)])?;
    for want in tries {
        let now = differ(&want, &got, blur == 0.0, |_, _| false);
        if best.as_ref().is_none_or(|b| (now.1, now.0) < (b.1, b.0)) {
            best = Some(now);
        }
    }
    let shown = got.chunks_exact(4).filter(|p| p[3] > 100).count();
    t.nontrivial_if(shown > 20 && some > 0);
    let (mean, off, worst, at) = best.unwrap();
    if std::env::var("INK").is_ok() {
        println!("{mean:.4} {off:.3} {worst:.3} {at}");
    }
    if off > 0.01 || mean > 0.04 {
        return Err(format!("differs by up to {worst:.2}, {:.0}% far off, {mean:.3} on average: {at}", off * 100.0));
    }
    Ok(())
}
fn raster_layer(t: &mut T) -> RasterData {
    let (width, height) = (1 + t.us(40) as u32, 1 + t.us(40) as u32);
    let colours: Vec<[u8; 4]> = (0..1 + t.us(4)).map(|_| colour(t)).collect();
    let pixels = (0..width * height).flat_map(|i| {
        let c = colours[(i / 3 % colours.len() as u32) as usize];
        let m = |v: u8| (v as u32 * c[3] as u32 / 255) as u8;
        [m(c[0]), m(c[1]), m(c[2]), c[3]]
    });
    RasterData { pixels: pixels.collect(), x: t.us(W as usize + 10) as u32, y: t.us(H as usize + 10) as u32, width, height, opacity: t.pick_c(&[255, 255, 128, 0, 31]) }
}
fn raster_pic(d: &RasterData) -> Pic {
    let mut p = Pic::new();
    for y in 0..d.height.min((PH - M).saturating_sub(d.y)) {
        for x in 0..d.width.min((PW - M).saturating_sub(d.x)) {
            let at = ((y * d.width + x) * 4) as usize;
            for j in 0..4 {
                p.0[((d.y + y + M) * PW + d.x + x + M) as usize][j] = d.pixels[at + j] as f32 / 255.0 * d.opacity as f32 / 255.0;
            }
        }
    }
    p
}
/// Layers one over another, drawn whole, in part and as a list of bitmaps.
pub fn stack(t: &mut T) -> R {
    let mut layers = vec![];
    let mut log = vec![];
    for _ in 0..1 + t.len(4) {
        layers.push(match t.us(3) {
            0 => {
                let mut d = text_layer(t);
                // what is blurred is left to the layers on their own
                d.effects.retain(|e| !matches!(e, TextEffect::Blur { .. } | TextEffect::EdgeBlur { .. }));
                log.push(format!("{:?}", (&d.text, &d.font_family, d.font_size, d.spacing, d.color, d.x, d.y, &d.effects)));
                IntermediateLayer::Text(d)
            }
            1 => {
                let mut d = vector_layer(t);
                d.blur = 0.0;
                log.push(show(&d));
                IntermediateLayer::Vector(d)
            }
            _ => {
                let d = raster_layer(t);
                log.push(format!("pixels {}x{} at {}, {}, opacity {}", d.width, d.height, d.x, d.y, d.opacity));
                IntermediateLayer::Raster(d)
            }
        });
    }
    t.input_dbg("layers", &log);
    let mut want = Pic::new();
    let mut shown = 0;
    for l in &layers {
        let own = match l {
            IntermediateLayer::Raster(d) => {
                let p = raster_pic(d);
                let got = draw(std::slice::from_ref(l))?;
                let (_, _, worst, at) = differ(&p, &got, true, |_, _| false);
                ensure!(worst < 0.0122, "pixels come out changed: {at}");
                p
            }
            _ => {
                let got = draw(std::slice::from_ref(l))?;
                let mut p = Pic::new();
                for (i, g) in got.chunks_exact(4).enumerate() {
                    let (x, y) = (i as u32 % W, i as u32 / W);
                    p.0[((y + M) * PW + x + M) as usize] = [0, 1, 2, 3].map(|j| g[j] as f32 / 255.0);
                }
                p
            }
        };
        shown += own.0.iter().any(|p| p[3] > 0.4) as usize;
        want.over(&own, None);
    }
    t.nontrivial_if(shown > 1);
    let got = draw(&layers)?;
    let slack = (3.0 + 4.0 * layers.len() as f32) / 255.0;
    let (_, _, worst, at) = differ(&want, &got, true, |_, _| false);
    ensure!(worst <= slack, "not the layers one over another: {at}");
    // only where it changed
    let before: Vec<u8> = (0..W * H * 4).map(|i| (i % 251) as u8).collect();
    let regions: Vec<(u32, u32, u32, u32)> = (0..t.us(4)).map(|_| (t.us(W as usize + 20) as u32, t.us(H as usize + 20) as u32, t.us(100) as u32, t.us(100) as u32)).collect();
    t.input_dbg("regions", &regions);
    let dirty: Vec<_> = regions.iter().map(|r| ass_renderer::utils::DirtyRegion::new(r.0, r.1, r.2, r.3)).collect();
    let ctx = RenderContext::with_font_database(W, H, fontdb::Database::new());
    let (part, list) = BACK.with(|b| {
        let mut b = b.borrow_mut();
        let b = b.as_mut().unwrap();
        (b.composite_layers_incremental(&layers, &dirty, &before, &ctx), b.render_layers_to_bitmaps(&layers, &ctx))
    });
    let part = part.map_err(|e| e.to_string())?;
    ensure!(part.len() == got.len(), "{} bytes of a part", part.len());
    for i in 0..(W * H) as usize {
        let (x, y) = (i as u32 % W, i as u32 / W);
        let inside = regions.iter().any(|r| x >= r.0 && x < r.0 + r.2 && y >= r.1 && y < r.1 + r.3);
        let want = if inside { &got[i * 4..i * 4 + 4] } else { &before[i * 4..i * 4 + 4] };
        ensure!(part[i * 4..i * 4 + 4] == *want, "({x}, {y}), {} the regions redrawn, is {:?}, not {want:?}", if inside { "within" } else { "outside" }, &part[i * 4..i * 4 + 4]);
    }
    let list = list.map_err(|e| e.to_string())?;
    let mut data = vec![0u8; (W * H * 4) as usize];
    for b in &list {
        ass_renderer::backends::coverage::composite_bitmap(&mut data, W, H, b);
    }
    let slack = 3 + 2 * list.len().min(40) as u8;
    match crate::hist::differ(&data, &got, W, slack) {
        Some(d) => Err(format!("the bitmaps put together are not the layers: {d}")),
        None => Ok(()),
    }
}
