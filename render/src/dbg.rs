//! R15: what the debugging tools say of a frame is what the frame holds.
use crate::hist::differ;
use ass_core::parser::Script;
use ass_renderer::debug::color_diagnostic::ColorDiagnostic;
use ass_renderer::debug::*;
use ass_renderer::pipeline::validation as va;
use ass_renderer::plugin::{EffectParams, EffectPlugin, EffectValue, PluginRegistry};
use ass_renderer::{BackendType, Frame, RenderContext, RenderError, Renderer};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vkit::*;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}
/// The tools print: while any case runs, to nowhere.
struct Quiet;
static MUTED: Mutex<(usize, i32)> = Mutex::new((0, -1));
impl Quiet {
    fn new() -> Quiet {
        use std::io::Write;
        use std::os::fd::AsRawFd;
        let mut m = MUTED.lock().unwrap_or_else(|e| e.into_inner());
        if m.0 == 0 {
            let _ = std::io::stdout().flush();
            if let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
                unsafe {
                    m.1 = dup(1);
                    dup2(null.as_raw_fd(), 1);
                }
            }
        }
        m.0 += 1;
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        use std::io::Write;
        let mut m = MUTED.lock().unwrap_or_else(|e| e.into_inner());
        m.0 -= 1;
        if m.0 == 0 && m.1 >= 0 {
            let _ = std::io::stdout().flush();
            unsafe {
                dup2(m.1, 1);
                close(m.1);
            }
            m.1 = -1;
        }
    }
}
/// A folder of its own, gone afterwards.
pub struct Dir(std::path::PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Dir(std::env::temp_dir().join(format!("vh-render-{}-{n}", std::process::id())))
    }
    /// The path of a file in it.
    pub fn file(&self, name: &str) -> String {
        let _ = std::fs::create_dir_all(&self.0);
        self.0.join(name).to_string_lossy().to_string()
    }
    fn path(&self) -> String {
        self.0.to_string_lossy().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn png(path: &str) -> Result<(u32, u32, Vec<u8>), String> {
    let f = std::fs::File::open(path).map_err(|e| format!("{path}: {e}"))?;
    let mut r = png::Decoder::new(f).read_info().map_err(|e| e.to_string())?;
    let mut b = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut b).map_err(|e| e.to_string())?;
    ensure!(i.color_type == png::ColorType::Rgba && i.bit_depth == png::BitDepth::Eight, "{path}: saved as {:?}", i.color_type);
    b.truncate(i.buffer_size());
    Ok((i.width, i.height, b))
}

type Px = [u8; 4];
fn pixel(f: &[Px], w: u32, x: u32, y: u32) -> Px {
    f[(y * w + x) as usize]
}
fn mean(ps: &[Px]) -> Px {
    std::array::from_fn(|i| (ps.iter().map(|p| p[i] as u64).sum::<u64>() / ps.len() as u64) as u8)
}
/// A picture of blobs over clear ground.
fn picture(t: &mut T) -> (u32, u32, Vec<Px>) {
    let (w, h) = match t.us(12) {
        0 => (0, t.us(4) as u32),
        1 => (t.us(4) as u32, 0),
        2 => (1, 1),
        _ => (t.span(1, 40) as u32, t.span(1, 30) as u32),
    };
    let mut px = vec![[0; 4]; (w * h) as usize];
    let any = |t: &mut T| -> Px {
        match t.us(6) {
            0 => [255; 4],
            1 => [0, 0, 0, 255],
            2 => {
                let g = t.pick_c(&[49u8, 50, 51, 100, 200, 201]);
                [g, g, g, 255]
            }
            3 => [220, 215, 10, 200],
            _ => [t.us(256) as u8, t.us(256) as u8, t.us(256) as u8, t.pick_c(&[1, 50, 128, 254, 255])],
        }
    };
    if w * h > 0 {
        for _ in 0..t.len(6) {
            let (x, y) = (t.us(w as usize) as u32, t.us(h as usize) as u32);
            let (dx, dy) = (t.span(1, 24) as u32, t.span(1, 20) as u32);
            let c = any(t);
            let noise = t.chance(1, 3);
            let hole = t.chance(1, 3);
            for yy in y..(y + dy).min(h) {
                for xx in x..(x + dx).min(w) {
                    if hole && xx > x && yy > y && xx + 1 < x + dx && yy + 1 < y + dy {
                        continue;
                    }
                    let mut p = c;
                    if noise && t.chance(1, 4) {
                        p[t.us(3)] ^= t.pick_c(&[1u8, 30, 31, 60]);
                    }
                    px[(yy * w + xx) as usize] = p;
                }
            }
        }
        for _ in 0..t.len(8) {
            let i = t.us(px.len());
            px[i] = if t.chance(1, 3) { [9, 9, 9, 0] } else { any(t) };
        }
    }
    (w, h, px)
}
/// Left, top, right, bottom and number of what is not clear.
fn extent(w: u32, px: &[Px]) -> Option<(u32, u32, u32, u32, usize)> {
    let on: Vec<(u32, u32)> = px.iter().enumerate().filter(|(_, p)| p[3] > 0).map(|(i, _)| (i as u32 % w, i as u32 / w)).collect();
    Some((on.iter().map(|p| p.0).min()?, on.iter().map(|p| p.1).min()?, on.iter().map(|p| p.0).max()?, on.iter().map(|p| p.1).max()?, on.len()))
}
pub fn inspect(t: &mut T) -> R {
    let _q = Quiet::new();
    let (w, h, px) = picture(t);
    let log = format!("{w} x {h}: {px:?}");
    t.input("picture", &log);
    let log = format!("a picture of {w} x {h}");
    let frame = || Frame::new(px.concat(), w, h, 0);
    let mut i = FrameInspector::new();
    ensure!(i.get_pixel_at(0, 0).is_none() && i.find_non_transparent_bounds().is_none() && i.scan_line(0).is_empty() && i.get_region(0, 0, 3, 3).pixels.is_empty(), "something in no frame");
    i.move_cursor(3, 4);
    i.load_frame(frame());
    // the cursor
    let (mut cx, mut cy) = ((w / 2) as i64, (h / 2) as i64);
    for _ in 0..3 {
        if t.chance(1, 2) {
            let (dx, dy) = (t.pick_c(&[0, 1, -1, 7, -9, i32::MAX, i32::MIN]), t.pick_c(&[0, 1, -1, 7, -9, i32::MAX, i32::MIN]));
            i.move_cursor(dx, dy);
            (cx, cy) = (cx + dx as i64, cy + dy as i64);
        } else {
            let (x, y) = (t.pick_c(&[0, 1, 5, 39, u32::MAX]), t.pick_c(&[0, 1, 5, 29, u32::MAX]));
            i.set_cursor(x, y);
            (cx, cy) = (x as i64, y as i64);
        }
        (cx, cy) = (cx.clamp(0, (w as i64 - 1).max(0)), cy.clamp(0, (h as i64 - 1).max(0)));
        let want = (w * h > 0).then(|| (cx as u32, cy as u32, pixel(&px, w, cx as u32, cy as u32)));
        let got = i.get_pixel_at_cursor().map(|p| (p.x, p.y, [p.r, p.g, p.b, p.a]));
        ensure!(got == want, "{log}: at the cursor {got:?}, not {want:?}");
    }
    for _ in 0..3 {
        let (x, y) = (t.us(w as usize + 2) as u32, t.us(h as usize + 2) as u32);
        let want = (x < w && y < h).then(|| pixel(&px, w, x, y));
        let got = i.get_pixel_at(x, y);
        ensure!(got.map(|p| [p.r, p.g, p.b, p.a]) == want, "{log}: at ({x}, {y}) {got:?}, not {want:?}");
        if let (Some(p), Some(q)) = (got, want) {
            let hex: String = q.iter().map(|b| format!("{b:02X}")).collect();
            ensure_eq!(&p.to_hex(), &format!("#{hex}"), "{q:?} in hex");
            let css = if q[3] == 255 { format!("rgb({}, {}, {})", q[0], q[1], q[2]) } else { format!("rgba({}, {}, {}, {:.2})", q[0], q[1], q[2], q[3] as f32 / 255.0) };
            ensure_eq!(&p.to_css(), &css, "{q:?} in css");
            ensure_eq!(&p.is_grayscale(), &(q[0] == q[1] && q[1] == q[2]), "{q:?} gray");
            let l = 0.2126 * q[0] as f64 + 0.7152 * q[1] as f64 + 0.0722 * q[2] as f64;
            ensure!((p.luminance() as f64 - l).abs() < 1e-3, "{q:?}: luminance {}, not {l}", p.luminance());
            let c = match q[3] {
                0 => ' ',
                1..=50 => '·',
                51..=100 => '░',
                101..=150 => '▒',
                151..=200 => '▓',
                _ => '█',
            };
            ensure_eq!(&p.to_ascii(), &c, "{q:?} as a letter");
        }
        // one pixel against another
        let (u, v) = (t.us(w as usize + 1) as u32, t.us(h as usize + 1) as u32);
        let other = (u < w && v < h).then(|| pixel(&px, w, u, v));
        let want = want.zip(other).map(|(a, b)| {
            let d = (0..4).map(|i| (a[i] as f64 - b[i] as f64).powi(2)).sum::<f64>().sqrt();
            (d, (0..4).all(|i| a[i].abs_diff(b[i]) <= 30))
        });
        let got = i.compare_pixels(x, y, u, v).map(|c| (c.color_distance as f64, c.is_similar));
        ensure!(got.is_some() == want.is_some() && got.zip(want).map_or(true, |(a, b)| (a.0 - b.0).abs() < 1e-2 && a.1 == b.1), "{log}: ({x}, {y}) against ({u}, {v}): {got:?}, not {want:?}");
    }
    // regions
    for _ in 0..2 {
        let side = |t: &mut T, n: u32| match t.us(6) {
            0 => u32::MAX - t.us(3) as u32,
            _ => t.us(n as usize + 4) as u32,
        };
        let (x, y, rw, rh) = (side(t, w), side(t, h), side(t, w), side(t, h));
        let g = i.get_region(x, y, rw, rh);
        let (xe, ye) = ((x as u64 + rw as u64).min(w as u64), (y as u64 + rh as u64).min(h as u64));
        let (ww, hh) = (xe.saturating_sub(x as u64) as u32, ye.saturating_sub(y as u64) as u32);
        let log = format!("{log}: the region of {rw} x {rh} at ({x}, {y})");
        ensure!((g.x, g.y, g.width, g.height) == (x, y, ww, hh), "{log} is {} x {} at ({}, {}), not {ww} x {hh}", g.width, g.height, g.x, g.y);
        let mut want = vec![];
        for yy in y as u64..ye {
            for xx in x as u64..xe {
                want.push((xx as u32, yy as u32, pixel(&px, w, xx as u32, yy as u32)));
            }
        }
        let got: Vec<_> = g.pixels.iter().map(|p| (p.x, p.y, [p.r, p.g, p.b, p.a])).collect();
        ensure!(got == want, "{log}: other pixels");
        let ps: Vec<Px> = want.iter().map(|x| x.2).collect();
        let avg = (!ps.is_empty()).then(|| mean(&ps));
        ensure!(g.histogram.average_color() == avg, "{log}: average {:?}, not {avg:?}", g.histogram.average_color());
        let kinds: BTreeSet<Px> = ps.iter().copied().collect();
        ensure!(g.histogram.unique_colors.len() == kinds.len() && g.histogram.count == ps.len(), "{log}: {} colours, not {}", g.histogram.unique_colors.len(), kinds.len());
    }
    // bounds
    let want = extent(w.max(1), &px);
    let got = i.find_non_transparent_bounds().map(|b| (b.min_x, b.min_y, b.max_x, b.max_y, b.width, b.height));
    ensure!(got == want.map(|e| (e.0, e.1, e.2, e.3, e.2 - e.0 + 1, e.3 - e.1 + 1)), "{log}: bounds {got:?}, not {want:?}");
    // lines
    let mut several = false;
    for y in [t.us(h as usize + 1) as u32, want.map_or(0, |e| e.1)] {
        let mut segs: Vec<(u32, Vec<Px>)> = vec![];
        let mut open = false;
        for x in 0..if y < h { w } else { 0 } {
            let p = pixel(&px, w, x, y);
            if p[3] == 0 {
                open = false;
                continue;
            }
            match segs.last_mut() {
                Some(s) if open && (0..3).all(|i| s.1[0][i].abs_diff(p[i]) <= 30) => s.1.push(p),
                _ => segs.push((x, vec![p])),
            }
            open = true;
        }
        several |= segs.len() > 1;
        let want: Vec<_> = segs.iter().map(|s| (s.0, s.0 + s.1.len() as u32 - 1, s.1.len() as u32, mean(&s.1))).collect();
        let got: Vec<_> = i.scan_line(y).iter().map(|s| (s.start_x, s.end_x, s.width(), s.avg_color)).collect();
        ensure!(got == want, "{log}: line {y} is {got:?}, not {want:?}");
    }
    // the report
    if w * h > 0 {
        let r = FrameAnalyzer::new().analyze(&frame());
        let on = want.map_or(0, |e| e.4);
        ensure!((r.width, r.height, r.total_pixels, r.non_transparent_pixels) == (w, h, px.len(), on), "{log}: reported {} x {}, {} of {} shown", r.width, r.height, r.non_transparent_pixels, r.total_pixels);
        let clear = (px.len() - on) as f64 / px.len() as f64 * 100.0;
        ensure!((r.transparency_percentage as f64 - clear).abs() < 1e-3, "{log}: {}% clear, not {clear}", r.transparency_percentage);
        let hist = &r.pixel_histogram;
        for (c, got) in [&hist.red, &hist.green, &hist.blue, &hist.alpha].iter().enumerate() {
            let mut n = [0usize; 256];
            px.iter().for_each(|p| n[p[c] as usize] += 1);
            ensure!(**got == n, "{log}: another histogram of channel {c}");
            let top = n.iter().max().unwrap();
            ensure!(n[r.dominant_color[c] as usize] == *top, "{log}: dominant {:?}", r.dominant_color);
        }
        let kind = |f: &dyn Fn(&Px) -> bool| px.iter().filter(|p| p[3] > 0 && f(p)).count();
        let gray = |p: &Px| p[0] == p[1] && p[1] == p[2];
        let want = [kind(&|p| gray(p) && p[0] > 200), kind(&|p| gray(p) && p[0] < 50), kind(&|p| gray(p) && (50..=200).contains(&p[0])), kind(&|p| !gray(p)), on];
        let got = [hist.white_pixels, hist.black_pixels, hist.gray_pixels, hist.colored_pixels, hist.non_transparent_count];
        ensure!(got == want, "{log}: white, black, gray, coloured, all: {got:?}, not {want:?}");
        // what hangs together, of more than ten pixels
        let mut left: BTreeSet<(u32, u32)> = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).filter(|&(x, y)| pixel(&px, w, x, y)[3] > 0).collect();
        let mut want = vec![];
        while let Some(&start) = left.iter().next() {
            left.remove(&start);
            let mut group = vec![start];
            let mut k = 0;
            while k < group.len() {
                let (x, y) = group[k];
                for n in [(x.wrapping_sub(1), y), (x + 1, y), (x, y.wrapping_sub(1)), (x, y + 1)] {
                    if left.remove(&n) {
                        group.push(n);
                    }
                }
                k += 1;
            }
            if group.len() > 10 {
                let m = |f: &dyn Fn(&(u32, u32)) -> u32| (group.iter().map(f).min().unwrap(), group.iter().map(f).max().unwrap());
                let (a, b) = (m(&|g| g.0), m(&|g| g.1));
                let ps: Vec<Px> = group.iter().map(|g| pixel(&px, w, g.0, g.1)).collect();
                want.push(((a.0, b.0, a.1, b.1), group.len(), mean(&ps)));
            }
        }
        let mut got: Vec<_> = r.regions.iter().map(|g| ((g.min_x, g.min_y, g.max_x, g.max_y), g.pixel_count, g.avg_color)).collect();
        want.sort();
        got.sort();
        ensure!(got == want, "{log}: regions {got:?}, not {want:?}");
        for a in &r.text_areas {
            ensure!(want.iter().any(|g| g.0 == (a.x, a.y, a.x + a.width - 1, a.y + a.height - 1)) && (0.0..=1.0).contains(&a.confidence), "{log}: text area {a:?} of no region");
        }
        t.label_if(want.len() > 1, "several regions");
        t.label_if(!r.text_areas.is_empty(), "text area");
        let json = r.to_json();
        for part in [format!("\"width\": {w}"), format!("\"height\": {h}"), format!("\"total\": {}", px.len()), format!("\"non_transparent\": {on}"), format!("\"regions\": {}", want.len()), format!("\"text_areas\": {}", r.text_areas.len())] {
            ensure!(json.contains(&part), "{log}: {part} is not in {json}");
        }
        if t.chance(1, 20) {
            r.print_summary();
            i.print_ascii_preview(8, 4);
        }
    }
    t.label_if(several, "several segments");
    t.nontrivial_if(want_nontrivial(&px));
    Ok(())
}
fn want_nontrivial(px: &[Px]) -> bool {
    px.iter().filter(|p| p[3] > 0).count() > 5
}

struct Film {
    text: String,
    end: u32,
    /// Times about which something changes, in ms.
    times: Vec<u32>,
}
fn film(t: &mut T) -> Film {
    let mut s = String::from("[Script Info]\nPlayResX: 60\nPlayResY: 40\n\n[V4+ Styles]\nFormat: Name, Fontname, PrimaryColour, Outline, Shadow, Alignment\nStyle: Default,Go,&H0000FFFF,0,0,7\n");
    let (mut end, mut times) = (0u64, vec![0]);
    for _ in 0..1 + t.weighted(&[8, 1]) {
        s += "\n[Events]\nFormat: Layer, Start, End, Style, Text\n";
        for k in 0..t.len(6) {
            let a = t.us(40) as u32;
            let b = a + t.us(30) as u32;
            let (mut fa, mut fb) = (ass::fmt_time(a), ass::fmt_time(b));
            let mut last = b as u64;
            if t.chance(1, 40) {
                (fa, fb) = ("1192:00:00.00".into(), "1193:30:00.00".into());
                last = 1193 * 360000 + 180000;
            }
            end = end.max(last * 10);
            times.extend([a * 10, b * 10, (a + b) * 5]);
            let kind = if t.chance(1, 8) { "Comment" } else { "Dialogue" };
            let (x, y) = (t.us(40), t.us(20));
            let tag = t.pick_c(&["", "\\c&H0000FF&", "\\fad(50,50)", "\\move(0,0,30,10)", "\\alpha&H80&"]);
            s += &format!("{kind}: {k},{fa},{fb},Default,{{\\pos({x},{y})\\p1{tag}}}m 0 0 l {w} 0 {w} 8 0 8\n", w = 6 + t.us(20));
        }
    }
    Film { text: s, end: if end == 0 { 10000 } else { end.min(u32::MAX as u64) as u32 }, times }
}
fn say<X>(r: Result<X, RenderError>) -> Result<X, String> {
    r.map_err(|e| format!("an error: {e}"))
}
fn renderer(w: u32, h: u32) -> Result<Renderer, String> {
    say(Renderer::new(BackendType::Software, RenderContext::with_font_database(w, h, fontdb::Database::new())))
}
fn still(text: &str, cs: u32, w: u32, h: u32) -> Result<Vec<u8>, String> {
    let s = Script::parse(text).map_err(|e| format!("{e:?}"))?;
    Ok(say(renderer(w, h)?.render_frame(&s, cs))?.data().to_vec())
}
/// Where the player stands: between two times.
struct Clock {
    at: Option<(f64, f64, Instant, Instant)>,
    speed: f64,
}
impl Clock {
    fn elapse(&mut self, before: Instant, after: Instant) -> Option<(f64, f64)> {
        let (lo, hi, first, last) = self.at?;
        let ms = |d: Duration| d.as_secs_f64() * 1000.0 * self.speed;
        Some((lo + ms(before.saturating_duration_since(last)), hi + ms(after.saturating_duration_since(first))))
    }
}
pub fn player(t: &mut T) -> R {
    let _q = Quiet::new();
    let (w, h) = t.pick_c(&[(60u32, 40u32), (30, 20), (61, 47)]);
    let mut p = say(DebugPlayer::new(BackendType::Software, w, h))?;
    let mut log = vec![format!("player of {w} x {h}")];
    ensure!((p.width(), p.height(), p.has_script(), p.duration_ms(), p.current_time(), p.is_playing()) == (w, h, false, 0, 0, false), "a new player with something in it");
    ensure!(p.render_current_frame().is_err(), "a frame of no script");
    let films: Vec<Film> = (0..1 + t.us(2)).map(|_| film(t)).collect();
    let mut cur: Option<usize> = None;
    let (mut now, mut end) = (0u32, 0u32);
    let mut playing = false;
    let mut looped = false;
    let mut clock = Clock { at: None, speed: 1.0 };
    let (mut cache, mut room) = (true, 100usize);
    // times shown since the cache was last empty
    let mut seen: Vec<u32> = vec![];
    let mut saved: Option<Dir> = None;
    let dir = t.chance(1, 6).then(Dir::new);
    let mut pictures = BTreeSet::new();
    let mut stills: BTreeMap<(usize, u32), Vec<u8>> = BTreeMap::new();
    if let Some(d) = &dir {
        p.set_output_dir(&d.path());
    }
    let r = (|| -> R {
        for _ in 0..4 + t.len(16) {
            if cur.is_none() || t.chance(1, 14) {
                let k = t.us(films.len());
                say(p.load_script(&films[k].text))?;
                log.push(format!("load script {k}"));
                cur = Some(k);
                end = films[k].end;
                seen.clear();
                ensure!(p.has_script() && p.duration_ms() == end, "the script lasts {} ms, not {end}", p.duration_ms());
            }
            let k = cur.unwrap();
            let before = Instant::now();
            let mut to: Option<u32> = None;
            let op = if playing { t.weighted(&[3, 2, 1, 1, 1, 12, 0, 1, 7, 1, 1, 1]) } else { t.weighted(&[8, 6, 4, 4, 2, 1, 4, 1, 1, 2, 1, 1]) };
            match op {
                0 | 5 => {
                    let moving = op == 5;
                    if moving && playing && t.chance(1, 2) {
                        std::thread::sleep(Duration::from_millis(t.us(4) as u64));
                    }
                    let before = Instant::now();
                    let got = if moving { say(p.update(Duration::from_millis(16)))? } else { Some(say(p.render_current_frame())?) };
                    let after = Instant::now();
                    if moving {
                        if !playing {
                            ensure!(got.is_none(), "a frame of a player that does not play");
                            log.push("update, not playing".into());
                            continue;
                        }
                        let (lo, hi) = clock.elapse(before, after).unwrap();
                        let here = p.current_time();
                        log.push(format!("update: {here} ms of {lo:.1} to {hi:.1}"));
                        let (lo, hi) = (lo - 1.5 - lo.abs() * 1e-6, hi + 0.5 + hi.abs() * 1e-6);
                        if looped && (here as f64) < lo && here == 0 {
                            ensure!(hi >= end as f64, "looped at {hi:.1} of {end} ms");
                            clock.at = Some((0.0, 0.0, before, after));
                        } else if !p.is_playing() {
                            ensure!(hi >= end as f64 && here == end && got.is_none() && !looped, "finished at {hi:.1} of {end} ms, standing at {here}");
                            playing = false;
                            clock.at = None;
                            now = end;
                            continue;
                        } else {
                            ensure!((lo..=hi).contains(&(here as f64)) && here < end.max(1), "at {here} ms, not at {lo:.1} to {hi:.1} of {end}");
                        }
                        now = here;
                        ensure!(got.is_some(), "no frame at {now} ms while playing");
                    }
                    let f = got.unwrap();
                    log.push(format!("frame at {now} ms"));
                    ensure!(f.timestamp_ms == now && f.frame_number == now / 40, "frame {} at {} ms, not {now}", f.frame_number, f.timestamp_ms);
                    ensure!((f.frame.width(), f.frame.height()) == (w, h), "a frame of {} x {}", f.frame.width(), f.frame.height());
                    let keep = cache && room > 0;
                    let mut from: Vec<u32> = seen.iter().copied().filter(|s| keep && s / 40 == now / 40).collect();
                    let fresh = from.is_empty();
                    from.push(now);
                    let mut why = String::new();
                    let fine = {
                        let mut any = false;
                        for s in from {
                            let want = match stills.get(&(k, s / 10)) {
                                Some(x) => x,
                                None => {
                                    let x = still(&films[k].text, s / 10, w, h)?;
                                    stills.entry((k, s / 10)).or_insert(x)
                                }
                            };
                            match differ(f.frame.data(), want, w, 0) {
                                None => any = true,
                                Some(x) => why = x,
                            }
                        }
                        any
                    };
                    ensure!(fine, "the frame of script {k} at {now} ms is not the renderer's: {why}");
                    pictures.insert(f.frame.data().to_vec());
                    seen.push(now);
                    if let (Some(d), true) = (&saved, fresh) {
                        let path = format!("{}/frame_{:06}_{:06}ms.png", d.path(), now / 40, now);
                        let got = png(&path)?;
                        ensure!((got.0, got.1) == (w, h) && got.2 == f.frame.data(), "{path} holds another picture of {} x {}", got.0, got.1);
                    }
                }
                1 => {
                    let x = match t.us(8) {
                        0 => u32::MAX,
                        1 => end,
                        2 => end.saturating_sub(t.us(60) as u32),
                        _ => films[k].times[t.us(films[k].times.len())] + t.pick_c(&[0, 5, 9, 10, 39, 40]),
                    };
                    p.seek(x);
                    log.push(format!("seek {x}"));
                    to = Some(x.min(end));
                }
                2 => {
                    p.step_forward();
                    log.push("forward".into());
                    to = Some(now.saturating_add(40).min(end));
                }
                3 => {
                    p.step_backward();
                    log.push("backward".into());
                    to = Some(now.saturating_sub(40));
                }
                4 => {
                    p.stop();
                    log.push("stop".into());
                    playing = false;
                    clock.at = None;
                    now = 0;
                }
                6 => {
                    p.play();
                    log.push("play".into());
                    playing = true;
                    clock.at = Some((now as f64, now as f64, before, Instant::now()));
                }
                7 => {
                    p.pause();
                    log.push("pause".into());
                    playing = false;
                    clock.at = None;
                }
                8 => {
                    let s = clock.speed;
                    let s = match t.us(3) {
                        0 => {
                            p.increase_speed();
                            (s * 1.5).min(10.0)
                        }
                        1 => {
                            p.decrease_speed();
                            (s / 1.5).max(0.1)
                        }
                        _ => {
                            let x = t.pick_c(&[0.0f32, 0.5, 1.0, 4.0, 10.0, 50.0]);
                            p.set_speed(x);
                            (x as f64).clamp(0.1, 10.0)
                        }
                    };
                    log.push(format!("speed {s:.2}"));
                    let after = Instant::now();
                    if let Some((lo, hi)) = clock.elapse(before, after) {
                        clock.at = Some((lo, hi, before, after));
                    }
                    clock.speed = s;
                }
                9 => {
                    looped = !looped;
                    if t.chance(1, 2) {
                        p.toggle_loop();
                    } else {
                        p.set_loop(looped);
                    }
                    log.push(format!("loop {looped}"));
                }
                10 => {
                    if t.chance(1, 2) {
                        cache = t.chance(1, 2);
                        p.set_cache_enabled(cache);
                        if !cache {
                            seen.clear();
                        }
                        log.push(format!("cache {cache}"));
                    } else {
                        room = t.us(4);
                        p.set_max_cache_size(room);
                        log.push(format!("cache of {room}"));
                    }
                }
                _ => {
                    if t.chance(1, 2) {
                        p.toggle_stats();
                    } else if let Some(d) = &dir {
                        p.toggle_frame_saving();
                        saved = if saved.is_some() { None } else { Some(Dir(d.0.clone())) };
                        log.push(format!("saving {}", saved.is_some()));
                    }
                }
            }
            if let Some(x) = to {
                now = x;
                if playing {
                    clock.at = Some((now as f64, now as f64, before, Instant::now()));
                }
            }
            ensure!(p.current_time() == now, "the player stands at {}, not at {now}", p.current_time());
            ensure!(p.is_playing() == playing, "the player plays: {}", p.is_playing());
        }
        if let (Some(k), true) = (cur, t.chance(1, 4)) {
            let points: Vec<u32> = (0..t.len(4)).map(|_| films[k].times[t.us(films[k].times.len())] + t.us(30) as u32).collect();
            log.push(format!("test at {points:?}"));
            let r = say(p.run_automatic_test(points.clone()))?;
            let mut shown = 0;
            for (x, y) in points.iter().zip(&r.test_points) {
                let want = still(&films[k].text, x / 10, w, h)?.chunks(4).any(|p| p[3] > 0);
                shown += want as usize;
                ensure!(y.timestamp_ms == *x && y.has_visible_content == want, "{y:?} of a frame that shows something: {want}");
            }
            ensure!(r.test_points.len() == points.len() && r.frames_with_content == shown && r.frames_empty == points.len() - shown, "{r:?}");
        }
        Ok(())
    })();
    for (k, f) in films.iter().enumerate() {
        t.input(&format!("script {k}"), &f.text);
    }
    t.input("history", &log.join("; "));
    t.label_if(playing, "playing at the end");
    t.nontrivial_if(pictures.len() > 1);
    r
}

pub fn traced(t: &mut T) -> R {
    let _q = Quiet::new();
    let (w, h) = t.pick_c(&[(60u32, 40u32), (30, 20), (61, 47)]);
    let f = film(t);
    t.input("script", &f.text);
    let s = Script::parse(&f.text).map_err(|e| format!("{e:?}"))?;
    let mut d = DebugRenderer::new(renderer(w, h)?);
    d.enable_text_output(t.chance(1, 4));
    let dir = t.chance(1, 4).then(Dir::new);
    let overlay = t.chance(1, 2);
    if let Some(x) = &dir {
        d.enable_visual_overlay(overlay);
        d.set_output_dir(&x.path());
    }
    let mut hist: Vec<(Vec<u8>, FrameDebugInfo)> = vec![];
    let mut log = vec![];
    for _ in 0..1 + t.len(6) {
        if t.chance(1, 12) {
            d.clear_history();
            hist.clear();
        }
        let at = f.times[t.us(f.times.len())] + t.pick_c(&[0, 3, 10, 40]);
        log.push(at);
        let log = format!("frames at {log:?} ms");
        let (frame, info) = say(d.render_frame_debug(&s, at))?;
        let want = still(&f.text, at / 10, w, h)?;
        if let Some(x) = differ(frame.data(), &want, w, 0) {
            return Err(format!("{log}: the last is not the renderer's at that time: {x}"));
        }
        let px: Vec<Px> = want.chunks(4).map(|p| p.try_into().unwrap()).collect();
        let e = extent(w, &px);
        let bb = info.bounding_box.as_ref().map(|b| (b.min_x, b.min_y, b.max_x, b.max_y));
        ensure!(info.timestamp_ms == at && info.non_transparent_pixels == e.map_or(0, |e| e.4) && bb == e.map(|e| (e.0, e.1, e.2, e.3)) && info.memory_usage_bytes == want.len(), "{log}: {info:?} of a frame with {e:?}");
        if let Some(x) = &dir {
            let base = format!("{}/frame_{at:06}", x.path());
            if !overlay {
                let got = png(&format!("{base}.png"))?;
                ensure!((got.0, got.1) == (w, h) && got.2 == want, "{log}: another picture saved");
            } else {
                png(&format!("{base}_debug.png"))?;
            }
            let json = std::fs::read_to_string(format!("{base}_info.json")).map_err(|e| e.to_string())?;
            ensure!(json.contains(&format!("\"timestamp_ms\": {at},")) && json.contains(&format!("\"non_transparent_pixels\": {}", info.non_transparent_pixels)) && json.contains(&format!("0x{:016x}", info.frame_checksum)), "{log}: saved {json}");
        }
        hist.push((want, info));
    }
    let log = format!("frames at {log:?} ms");
    t.input("times", &log);
    ensure!(d.get_frame_history().len() == hist.len() && d.get_frame_history().iter().zip(&hist).all(|(a, b)| a.timestamp_ms == b.1.timestamp_ms && a.frame_checksum == b.1.frame_checksum), "{log}: a history of {}", d.get_frame_history().len());
    for i in 0..hist.len() {
        for j in 0..hist.len() {
            let c = d.compare_frames(i, j).ok_or("no comparison")?;
            let (a, b) = (&hist[i], &hist[j]);
            let n = a.1.non_transparent_pixels.abs_diff(b.1.non_transparent_pixels) as u32;
            ensure!(c.checksum_match == (a.0 == b.0) && c.pixel_diff == n && c.bbox_changed == (a.1.bounding_box != b.1.bounding_box), "{log}: {i} against {j}: {c:?}, the same: {}", a.0 == b.0);
        }
    }
    ensure!(d.compare_frames(0, hist.len()).is_none() && d.compare_frames(hist.len(), 0).is_none(), "{log}: a comparison with no frame");
    t.nontrivial_if(hist.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() > 1);
    Ok(())
}

struct Paint(String, u32);
impl EffectPlugin for Paint {
    fn name(&self) -> &str {
        &self.0
    }
    fn version(&self) -> &str {
        "1"
    }
    fn apply_cpu(&self, pixels: &mut [u8], _: u32, _: u32, _: &EffectParams) -> Result<(), RenderError> {
        pixels.iter_mut().for_each(|p| *p = self.1 as u8);
        Ok(())
    }
}
pub fn params(t: &mut T) -> R {
    // plugins
    let names = ["glow", "Glow", "blur", ""];
    let mut reg = PluginRegistry::new();
    let mut model: BTreeMap<String, u32> = BTreeMap::new();
    let mut log = vec![];
    for i in 0..t.len(12) {
        let n = t.pick_c(&names);
        match t.weighted(&[5, 2, 1]) {
            0 => {
                reg.register_effect(Arc::new(Paint(n.into(), i as u32)));
                model.insert(n.into(), i as u32);
                log.push(format!("register {n:?} as {i}"));
            }
            1 => {
                let had = reg.unregister_effect(n).is_some();
                log.push(format!("unregister {n:?}"));
                ensure!(had == model.remove(n).is_some(), "{log:?}: there was one: {had}");
            }
            _ => {
                reg.clear();
                model.clear();
                log.push("clear".into());
            }
        }
        let mut have = reg.list_effects();
        have.sort();
        ensure!(have == model.keys().cloned().collect::<Vec<_>>(), "{log:?}: effects {have:?}");
        for n in names {
            let got = match reg.get_effect(n) {
                Some(e) => {
                    let mut b = [99];
                    say(e.apply_cpu(&mut b, 1, 1, &EffectParams::new(1.0)))?;
                    ensure!(!e.supports_gpu() && e.name() == n, "{log:?}: {n:?} is {:?}", e.name());
                    Some(b[0] as u32)
                }
                None => None,
            };
            ensure!(got == model.get(n).copied(), "{log:?}: {n:?} is {got:?}");
        }
    }
    // their parameters
    let mut p = EffectParams::new(0.5);
    let mut vals: BTreeMap<&str, (usize, i32)> = BTreeMap::new();
    for _ in 0..t.len(8) {
        let n = t.pick_c(&names);
        let (k, v) = (t.us(5), t.us(200) as i32);
        p.set(n, match k {
            0 => EffectValue::Float(v as f32),
            1 => EffectValue::Integer(v),
            2 => EffectValue::Color([v as u8; 4]),
            3 => EffectValue::Boolean(v > 100),
            _ => EffectValue::String(v.to_string()),
        });
        vals.insert(n, (k, v));
    }
    for n in names {
        let v = vals.get(n);
        let of = |k: usize| v.filter(|x| x.0 == k).map(|x| x.1);
        ensure!(p.get(n).is_some() == v.is_some() && p.get_float(n) == of(0).map(|x| x as f32) && p.get_int(n) == of(1) && p.get_color(n) == of(2).map(|x| [x as u8; 4]), "parameter {n:?}: {:?}, not {v:?}", p.get(n));
    }
    // ranges
    let x = match t.us(4) {
        0 => t.pick_c(&[0.0f32, -0.0, 1000.0, 999.99, 100.0, 99.99, -0.001, 2.0, -2.0, 2.001, 360.0, -360.0, 720.5, 1000.1]),
        1 => t.pick_c(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE]),
        2 => t.range(-4000, 4000) as f32 / 4.0,
        _ => t.range(-40, 40) as f32 / 4.0,
    };
    let b = t.us(256) as u8;
    let (ka, kb) = (t.pick_c(&[0u32, 99_999, 100_000, u32::MAX, 1234]), t.us(12) as u8);
    t.input("value", &format!("{x} {b} {ka} {kb}"));
    for b in [b, kb] {
        ensure!(va::validate_alignment(b).ok() == (1..=9).contains(&b).then_some(b), "alignment {b}");
        ensure!(va::validate_wrap_style(b).ok() == (b < 4).then_some(b), "wrap style {b}");
        ensure!(va::validate_drawing_mode(b).ok() == (b < 5).then_some(b), "drawing mode {b}");
        ensure!(va::validate_alpha(b).ok() == Some(b) && va::validate_font_encoding(b).ok() == Some(b) && va::validate_color([b; 4]).ok() == Some([b; 4]), "{b}");
    }
    ensure!(va::validate_karaoke_duration(ka).ok() == (ka < 100_000).then_some(ka) && va::validate_time_ms(ka).ok() == Some(ka), "duration {ka}");
    let keep = |ok: bool| ok.then_some(x);
    for (what, got, want) in [
        ("font size", va::validate_font_size(x).ok(), keep(x > 0.0 && x < 1000.0)),
        ("scale", va::validate_scale(x).ok(), keep(x >= 0.0 && x <= 1000.0)),
        ("border", va::validate_border_width(x).ok(), keep(x >= 0.0 && x < 100.0)),
        ("blur", va::validate_blur(x).ok(), keep(x >= 0.0 && x < 100.0)),
        ("shear", va::validate_shear(x).ok(), keep(x >= -2.0 && x <= 2.0)),
        ("acceleration", va::validate_acceleration(x).ok(), keep(x > 0.0 && x < 100.0)),
    ] {
        ensure!(got == want, "{what} {x}: {got:?}, not {want:?}");
    }
    if x.is_finite() {
        let r = say(va::validate_rotation(x))?;
        let turns = (r as f64 - x as f64) / 360.0;
        ensure!((0.0..=360.0).contains(&r) && ((turns - turns.round()).abs() < 1e-6 || x.abs() > 1e6), "rotation {x}: {r}");
    }
    let q: [f32; 4] = std::array::from_fn(|_| if t.chance(1, 8) { t.pick_c(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]) } else { t.range(-50, 50) as f32 });
    ensure!(va::validate_position(q[0], q[1]).ok() == (q[0].is_finite() && q[1].is_finite()).then_some((q[0], q[1])), "position {q:?}");
    let want = q.iter().all(|v| v.is_finite()).then(|| (q[0].min(q[2]), q[1].min(q[3]), q[0].max(q[2]), q[1].max(q[3])));
    ensure!(va::validate_clip_rect(q[0], q[1], q[2], q[3]).ok() == want, "clip {q:?}");
    // colours of styles
    let (a, bgr) = (t.us(256) as u32, t.pick_c(&[0xffffffu32, 0xff, 0xff00, 0xff0000, 0xffff, 0xffff00, 0xff00ff, 0, 0x123456]));
    let long = t.chance(1, 2);
    let c = if long { format!("&H{a:02X}{bgr:06X}") } else { format!("&H{bgr:06X}") };
    let over = t.chance(1, 2);
    let text = format!("[V4+ Styles]\nFormat: Name, PrimaryColour, OutlineColour\nStyle: One,{c},&H00000001\n\n[Events]\nFormat: Start, End, Text\nDialogue: 0:00:00.00,0:00:01.00,{}x\n", if over { "{\\1c&HFF&}" } else { "{\\b1}" });
    let s = Script::parse(&text).map_err(|e| format!("{e:?}"))?;
    let r = ColorDiagnostic::analyze_script(&s);
    ensure!(r.styles.len() == 1 && r.has_color_overrides == over, "{text}: {r:?}");
    let g = &r.styles[0];
    let name = match bgr {
        0xffffff => "WHITE",
        0xff => "RED",
        0xff00 => "GREEN",
        0xff0000 => "BLUE",
        0xffff => "YELLOW",
        0xffff00 => "CYAN",
        0xff00ff => "MAGENTA",
        0 => "BLACK",
        _ => "CUSTOM",
    };
    let d = &g.primary_parsed;
    ensure!(g.name == "One" && g.primary_raw == c && (d.red as u32, d.green as u32, d.blue as u32) == (bgr & 255, bgr >> 8 & 255, bgr >> 16) && d.alpha as u32 == if long { a } else { 0 } && d.has_alpha == long && d.expected_color == name, "{c} of {name}: {g:?}");
    t.nontrivial_if(model.len() > 1 || vals.len() > 1);
    Ok(())
}
