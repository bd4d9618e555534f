//! R05 (compositing and blur) and R06 (coverage) against scalar definitions.
use ass_renderer::backends::coverage::{composite, composite_bitmap, CoverageTile, RenderBitmap};
use ass_renderer::backends::raster::Rasterizer;
use ass_renderer::pipeline::compositing::alpha_blend;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::Arc;
use vkit::*;

// ---- the build without SIMD, asked over a pipe
thread_local! { static SERVER: RefCell<Option<Child>> = const { RefCell::new(None) }; }
fn scalar(job: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let Ok(bin) = std::env::var("VERIF_SCALAR_BIN") else { return Ok(None) };
    SERVER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            *c = Some(Command::new(bin).arg("serve-pixels").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("scalar build: {e}"))?);
        }
        let ch = c.as_mut().unwrap();
        let mut go = || -> std::io::Result<Vec<u8>> {
            let i = ch.stdin.as_mut().unwrap();
            i.write_all(&(job.len() as u32).to_le_bytes())?;
            i.write_all(job)?;
            i.flush()?;
            let o = ch.stdout.as_mut().unwrap();
            let mut l = [0u8; 4];
            o.read_exact(&mut l)?;
            let mut b = vec![0; u32::from_le_bytes(l) as usize];
            o.read_exact(&mut b)?;
            Ok(b)
        };
        match go() {
            Ok(d) => Ok(Some(d)),
            Err(e) => {
                *c = None;
                Err(format!("the build without SIMD died on this input: {e}"))
            }
        }
    })
}
struct Job(Vec<u8>);
impl Job {
    fn i(&mut self, v: i64) -> &mut Self {
        self.0.extend((v as i32).to_le_bytes());
        self
    }
    fn f(&mut self, v: f32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    fn b(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend(v);
        self
    }
}
struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn four(&mut self) -> [u8; 4] {
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        a.try_into().unwrap()
    }
    fn i(&mut self) -> i32 {
        i32::from_le_bytes(self.four())
    }
    fn f(&mut self) -> f32 {
        f32::from_le_bytes(self.four())
    }
    fn b(&mut self, n: usize) -> Vec<u8> {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
}
pub fn serve() {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut l = [0u8; 4];
        if i.read_exact(&mut l).is_err() {
            return;
        }
        let mut v = vec![0; u32::from_le_bytes(l) as usize];
        i.read_exact(&mut v).unwrap();
        let r = work(&v);
        let _ = o.write_all(&(r.len() as u32).to_le_bytes());
        let _ = o.write_all(&r);
        let _ = o.flush();
    }
}
fn work(job: &[u8]) -> Vec<u8> {
    let mut r = Rd(job);
    match r.i() {
        0 => {
            let (dw, dh, tw, th, x, y) = (r.i() as u32, r.i() as u32, r.i() as u32, r.i() as u32, r.i(), r.i());
            let color = r.four();
            let cov = r.b((tw * th) as usize);
            let mut dst = r.b((dw * dh * 4) as usize);
            composite(&mut dst, dw, dh, &CoverageTile { width: tw, height: th, data: Arc::new(cov) }, x, y, color);
            dst
        }
        _ => {
            let (w, h, n) = (r.i() as usize, r.i() as usize, r.i());
            let mut ra = Rasterizer::new(w, h);
            for _ in 0..n {
                let (a, b, c, d) = (r.f(), r.f(), r.f(), r.f());
                ra.line(a, b, c, d);
            }
            ra.finish()
        }
    }
}

fn byte(t: &mut T) -> u8 {
    match t.us(4) {
        0 => 0,
        1 => 255,
        2 => t.pick_c(&[1u8, 2, 127, 128, 129, 253, 254]),
        _ => t.us(256) as u8,
    }
}
fn mul(a: u32, b: u32) -> u32 {
    (a * b + 127) / 255
}
fn spot(t: &mut T, d: u32, s: u32) -> i32 {
    match t.us(14) {
        0 => t.pick_c(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 1, i32::MAX - 7, -(1 << 30), 1 << 30]),
        1 => -(s as i32) - 1 + t.us(3) as i32,
        2 => d as i32 - 1 + t.us(3) as i32,
        _ => t.range(-(s as i64), d as i64) as i32,
    }
}
fn premultiplied(t: &mut T) -> [u8; 4] {
    let a = byte(t) as u32;
    let mut c = |t: &mut T| if t.chance(1, 3) { a as u8 } else { mul(byte(t) as u32, a) as u8 };
    [c(t), c(t), c(t), a as u8]
}
pub fn compose(t: &mut T) -> R {
    let (dw, dh) = (t.len(20) as u32, t.len(6) as u32);
    let mut dst: Vec<u8> = vec![];
    let plain = t.chance(1, 3);
    for _ in 0..dw * dh {
        dst.extend(if plain { [0, 0, 0, 255] } else { premultiplied(t) });
    }
    let first = dst.clone();
    let mut model = dst.clone();
    let mut log = format!("{dw} x {dh}; ");
    let mut drawn = 0;
    for _ in 0..t.span(1, 3) {
        let (tw, th) = (t.len(24) as u32, t.len(6) as u32);
        let (x, y) = (spot(t, dw, tw), spot(t, dh, th));
        let at = |px: u32, py: u32| -> Option<usize> {
            let (gx, gy) = (px as i64 + x as i64, py as i64 + y as i64);
            (gx >= 0 && gy >= 0 && gx < dw as i64 && gy < dh as i64).then(|| (gy as usize * dw as usize + gx as usize) * 4)
        };
        if t.chance(2, 3) {
            let sparse = t.chance(1, 2);
            let cov: Vec<u8> = (0..tw * th).map(|_| if sparse && t.chance(2, 3) { 0 } else { byte(t) }).collect();
            let color = [byte(t), byte(t), byte(t), byte(t)];
            log += &format!("coverage {tw} x {th} at {x}, {y} in {color:?}: {cov:?}; ");
            let a = color[3] as u32;
            let p = [mul(color[0] as u32, a), mul(color[1] as u32, a), mul(color[2] as u32, a), a];
            for py in 0..th {
                for px in 0..tw {
                    let c = cov[(py * tw + px) as usize] as u32;
                    let Some(i) = at(px, py) else { continue };
                    let inv = 255 - mul(a, c);
                    for k in 0..4 {
                        model[i + k] = (mul(p[k], c) + mul(model[i + k] as u32, inv)) as u8;
                    }
                    drawn += (a > 0 && c > 0) as usize;
                }
            }
            let before = dst.clone();
            let tile = CoverageTile { width: tw, height: th, data: Arc::new(cov.clone()) };
            if t.chance(1, 2) {
                composite(&mut dst, dw, dh, &tile, x, y, color);
            } else {
                composite_bitmap(&mut dst, dw, dh, &RenderBitmap::Coverage { width: tw, height: th, coverage: tile.data.clone(), x, y, color });
            }
            ensure!(dst == model, "on {before:?}; {log}: {dst:?}, not {model:?}");
            if t.chance(1, 4) {
                let mut j = Job(vec![]);
                j.i(0).i(dw as i64).i(dh as i64).i(tw as i64).i(th as i64).i(x as i64).i(y as i64).b(&color).b(&cov).b(&before);
                if let Some(got) = scalar(&j.0)? {
                    ensure!(got == model, "without SIMD, on {before:?}; {log}: {got:?}, not {model:?}");
                }
            }
        } else {
            let px: Vec<u8> = (0..tw * th).flat_map(|_| premultiplied(t)).collect();
            log += &format!("bitmap {tw} x {th} at {x}, {y}: {px:?}; ");
            for py in 0..th {
                for qx in 0..tw {
                    let Some(i) = at(qx, py) else { continue };
                    let s = &px[((py * tw + qx) * 4) as usize..][..4];
                    for k in 0..4 {
                        model[i + k] = (s[k] as u32 + mul(model[i + k] as u32, 255 - s[3] as u32)) as u8;
                    }
                    drawn += (s[3] > 0) as usize;
                }
            }
            composite_bitmap(&mut dst, dw, dh, &RenderBitmap::Rgba { width: tw, height: th, pixels: Arc::new(px), x, y });
            ensure!(dst == model, "on {first:?}; {log}: {dst:?}, not {model:?}");
        }
    }
    t.input("frame", &log);
    t.nontrivial_if(drawn > 1);
    Ok(())
}
pub fn blend(t: &mut T) -> R {
    let mut p = |t: &mut T| [byte(t), byte(t), byte(t), byte(t)];
    let (s, d) = (p(t), p(t));
    let got = alpha_blend(s, d);
    t.input("pixels", &format!("{s:?} over {d:?}"));
    let (a, b) = (s[3] as u32, 255 - s[3] as u32);
    let want = if a == 0 {
        d
    } else if a == 255 && d[3] == 0 {
        s
    } else {
        let f = |x: u8, y: u8| ((x as u32 * a + y as u32 * b + 255) >> 8) as u8;
        [f(s[0], d[0]), f(s[1], d[1]), f(s[2], d[2]), f(255, d[3])]
    };
    ensure_eq!(&got, &want, "{s:?} over {d:?}");
    ensure!(a != 255 || got == s, "opaque {s:?} over {d:?} leaves {got:?}");
    t.nontrivial_if(a > 0 && a < 255);
    Ok(())
}
pub fn blur(t: &mut T) -> R {
    let (w, h) = (t.span(1, 9) as u32, t.span(1, 9) as u32);
    let sigma = match t.us(5) {
        0 => t.pick_c(&[0.0f32, -1.0, 0.01, 0.3, 1.0 / 3.0]),
        1 => t.range(1, 200) as f32 / 10.0,
        _ => t.range(1, 40) as f32 / 10.0,
    };
    let mut px: Vec<[u8; 4]> = vec![];
    let one = t.chance(1, 4).then(|| premultiplied(t));
    let spread = t.span(1, 4);
    for _ in 0..w * h {
        px.push(if let Some(o) = one { o } else if t.chance(1, spread as u64) { premultiplied(t) } else { [0; 4] });
    }
    let data = px.concat();
    let log = format!("{w} x {h}, deviation {sigma}: {px:?}");
    t.input("picture", &log);
    let mut m = tiny_skia::Pixmap::from_vec(data.clone(), tiny_skia::IntSize::from_wh(w, h).unwrap()).unwrap();
    ass_renderer::vhook::gaussian_blur(&mut m, sigma);
    let got = m.data();
    let r = (sigma as f64 * 3.0).ceil() as i64;
    if sigma <= 0.0 {
        ensure!(got == &data[..], "{log}: changed");
        return Ok(());
    }
    let mut kernel: Vec<f64> = (-r..=r).map(|x| (-((x * x) as f64) / (2.0 * (sigma as f64).powi(2))).exp()).collect();
    let sum: f64 = kernel.iter().sum();
    kernel.iter_mut().for_each(|k| *k /= sum);
    let (w, h) = (w as i64, h as i64);
    // premultiplied planes, blurred along both axes with the edge pixels repeated
    for ch in 0..4 {
        let src: Vec<f64> = px.iter().map(|p| if ch == 3 { p[3] as f64 } else { mul(p[ch] as u32, p[3] as u32) as f64 }).collect();
        let pass = |v: &[f64], dx: i64, dy: i64| -> Vec<f64> {
            (0..w * h)
                .map(|i| {
                    let (x, y) = (i % w, i / w);
                    kernel.iter().enumerate().map(|(k, kw)| {
                        let o = k as i64 - r;
                        kw * v[((y + o * dy).clamp(0, h - 1) * w + (x + o * dx).clamp(0, w - 1)) as usize]
                    }).sum()
                })
                .collect()
        };
        let want = pass(&pass(&src, 1, 0), 0, 1);
        for (i, wv) in want.iter().enumerate() {
            let (g, a) = (got[i * 4 + ch] as f64, got[i * 4 + 3] as f64);
            if ch == 3 {
                ensure!((g - wv).abs() <= 1.05, "{log}: alpha {g} at pixel {i}, not {wv}");
            } else if a > 0.0 {
                ensure!((g * a / 255.0 - wv.min(a)).abs() <= 1.1 + a / 255.0, "{log}: colour {ch} of pixel {i} is {g} with alpha {a}, not {}", wv * 255.0 / a);
            } else {
                ensure!(g == 0.0, "{log}: colour {ch} of the clear pixel {i} is {g}");
            }
        }
    }
    t.nontrivial_if(r >= 1 && one.is_none() && w * h > 3);
    Ok(())
}

// ---- coverage
type P = (f64, f64);
/// The part of a contour in a square (its signed area is the winding-weighted one).
fn clip(c: &[P], x: f64, y: f64) -> f64 {
    let mut v: Vec<P> = c.to_vec();
    for side in 0..4 {
        let d = |p: P| match side {
            0 => p.0 - x,
            1 => x + 1.0 - p.0,
            2 => p.1 - y,
            _ => y + 1.0 - p.1,
        };
        let mut o = Vec::with_capacity(v.len() + 4);
        for i in 0..v.len() {
            let (a, b) = (v[i], v[(i + 1) % v.len()]);
            let (da, db) = (d(a), d(b));
            if da >= 0.0 {
                o.push(a);
            }
            if (da > 0.0 && db < 0.0) || (da < 0.0 && db > 0.0) {
                let k = da / (da - db);
                o.push((a.0 + (b.0 - a.0) * k, a.1 + (b.1 - a.1) * k));
            }
        }
        v = o;
        if v.is_empty() {
            return 0.0;
        }
    }
    let mut s = 0.0;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        s += (a.0 - x) * (b.1 - y) - (b.0 - x) * (a.1 - y);
    }
    s / 2.0
}
fn area(cs: &[Vec<P>], w: usize, h: usize) -> Vec<f64> {
    let mut o = vec![0.0; w * h];
    for y in 0..h {
        for x in 0..w {
            o[y * w + x] = cs.iter().map(|c| clip(c, x as f64, y as f64)).sum();
        }
    }
    o
}
fn coord(t: &mut T, hi: usize, fine: usize) -> f32 {
    match t.us(6) {
        0 => t.pick_c(&[0.0, hi as f32]),
        1 => t.us(hi + 1) as f32,
        _ => t.us(hi * fine + 1) as f32 / fine as f32,
    }
}
pub fn polygons(t: &mut T) -> R {
    let (w, h) = (t.span(1, 22) as usize, t.span(1, 12) as usize);
    let fine = t.pick_c(&[1usize, 2, 4, 64, 1000]);
    let mut cs: Vec<Vec<(f32, f32)>> = vec![];
    for _ in 0..t.span(1, 3) {
        if t.chance(1, 3) {
            // an upright box, over the borders too
            let c = |t: &mut T, n: usize| (t.range(-8 * fine as i64, (n + 8) as i64 * fine as i64)) as f32 / fine as f32;
            let (a, b, p, q) = (c(t, w), c(t, h), c(t, w), c(t, h));
            cs.push(vec![(a, b), (p, b), (p, q), (a, q)]);
        } else {
            let n = t.span(1, 7);
            // over the upper and lower borders too
            let tall = t.chance(1, 4);
            cs.push((0..n).map(|_| (coord(t, w, fine), if tall { coord(t, h + 12, fine) - 6.0 } else { coord(t, h, fine) })).collect());
        }
        if t.chance(1, 8) {
            let mut c = cs.last().unwrap().clone();
            if t.chance(1, 2) {
                c.reverse();
            }
            cs.push(c);
        }
    }
    let mut edges = vec![];
    for c in &cs {
        for i in 0..c.len() {
            edges.push((c[i], c[(i + 1) % c.len()]));
        }
    }
    if t.chance(1, 2) {
        // in any order
        for i in (1..edges.len()).rev() {
            edges.swap(i, t.us(i + 1));
        }
    }
    let log = format!("{w} x {h}: {cs:?}");
    t.input("contours", &log);
    let mut r = Rasterizer::new(w, h);
    for (a, b) in &edges {
        r.line(a.0, a.1, b.0, b.1);
    }
    let got = r.finish();
    ensure!(got.len() == w * h, "{log}: {} bytes", got.len());
    let mut outs = vec![("", got)];
    if t.chance(1, 4) {
        let mut j = Job(vec![]);
        j.i(1).i(w as i64).i(h as i64).i(edges.len() as i64);
        for (a, b) in &edges {
            j.f(a.0).f(a.1).f(b.0).f(b.1);
        }
        if let Some(g) = scalar(&j.0)? {
            outs.push(("without SIMD, ", g));
        }
    }
    let wide: Vec<Vec<P>> = cs.iter().map(|c| c.iter().map(|p| (p.0 as f64, p.1 as f64)).collect()).collect();
    let want = area(&wide, w, h);
    let (mut part, mut full) = (0, 0);
    for (i, a) in want.iter().enumerate() {
        let v = a.abs().min(1.0) * 255.0;
        for (how, got) in &outs {
            ensure!((got[i] as f64 - v).abs() <= 0.53, "{how}{log}: pixel {}, {} is covered {}, not {v:.3}", i % w, i / w, got[i]);
        }
        part += (v > 1.0 && v < 254.0) as usize;
        full += (v > 254.9) as usize;
    }
    t.label_if(part > 0 && full > 0, "edges and inside");
    t.nontrivial_if(part > 2);
    Ok(())
}
fn bezier(c: &[P], n: usize) -> Vec<P> {
    (1..=n)
        .map(|i| {
            let k = i as f64 / n as f64;
            let mut v = c.to_vec();
            while v.len() > 1 {
                v = v.windows(2).map(|p| (p[0].0 + (p[1].0 - p[0].0) * k, p[0].1 + (p[1].1 - p[0].1) * k)).collect();
            }
            v[0]
        })
        .collect()
}
/// Paths with curves, as tiles where they lie.
pub fn tiles(t: &mut T) -> R {
    let mut pb = tiny_skia::PathBuilder::new();
    let (bx, by) = (t.range(-50, 50) as f32, t.range(-50, 50) as f32);
    let p = |t: &mut T| (bx + t.us(16 * 16) as f32 / 16.0, by + t.us(10 * 16) as f32 / 16.0);
    let mut cs: Vec<Vec<P>> = vec![];
    let mut log = String::new();
    let (mut curves, mut bend) = (0, 0.0f64);
    for _ in 0..t.span(1, 3) {
        let s = p(t);
        pb.move_to(s.0, s.1);
        log += &format!("M {s:?} ");
        let f = |q: (f32, f32)| (q.0 as f64, q.1 as f64);
        let mut c = vec![f(s)];
        for _ in 0..t.span(1, 5) {
            let from = *c.last().unwrap();
            let mut add = |ctl: Vec<P>, c: &mut Vec<P>| {
                let mut v = vec![from];
                v.extend(ctl);
                let line = bezier(&v, 64);
                bend += line.windows(2).map(|p| (p[0].0 - p[1].0).hypot(p[0].1 - p[1].1)).sum::<f64>();
                c.extend(line);
                curves += 1;
            };
            match t.us(4) {
                0 => {
                    let (a, b) = (p(t), p(t));
                    pb.quad_to(a.0, a.1, b.0, b.1);
                    log += &format!("Q {a:?} {b:?} ");
                    add(vec![f(a), f(b)], &mut c);
                }
                1 => {
                    let (a, b, d) = (p(t), p(t), p(t));
                    pb.cubic_to(a.0, a.1, b.0, b.1, d.0, d.1);
                    log += &format!("C {a:?} {b:?} {d:?} ");
                    add(vec![f(a), f(b), f(d)], &mut c);
                }
                _ => {
                    let a = p(t);
                    pb.line_to(a.0, a.1);
                    log += &format!("L {a:?} ");
                    c.push(f(a));
                }
            }
        }
        if t.chance(1, 2) {
            pb.close();
            log += "Z ";
        }
        cs.push(c);
    }
    t.input("path", &log);
    let Some(path) = pb.finish() else { return Ok(()) };
    let (tile, x, y) = CoverageTile::rasterize(&path).ok_or_else(|| format!("{log}: no tile"))?;
    let (w, h) = (tile.width as usize, tile.height as usize);
    ensure!(tile.data.len() == w * h, "{log}: {} bytes for {w} x {h}", tile.data.len());
    let local: Vec<Vec<P>> = cs.iter().map(|c| c.iter().map(|p| (p.0 - x as f64, p.1 - y as f64)).collect()).collect();
    for q in local.iter().flatten() {
        ensure!(q.0 >= 0.0 && q.1 >= 0.0 && q.0 <= w as f64 && q.1 <= h as f64, "{log}: the tile {w} x {h} at {x}, {y} leaves out {q:?}");
    }
    let want = area(&local, w, h);
    let mut off = 0.0;
    for (i, a) in want.iter().enumerate() {
        let v = a.abs().min(1.0) * 255.0;
        let d = (tile.data[i] as f64 - v).abs();
        ensure!(d <= if curves == 0 { 0.53 } else { 140.0 }, "{log}: pixel {}, {} of the tile at {x}, {y} is covered {}, not {v:.3}", i % w, i / w, tile.data[i]);
        off += d;
    }
    // flattening keeps within a fifth of a pixel of every curve
    let allowed = (0.2 * bend) * 255.0 + 0.5 * (w * h) as f64;
    ensure!(off <= allowed, "{log}: {off:.0} off in all, {allowed:.0} at most");
    // moved by whole pixels
    let (dx, dy) = (t.range(-300, 300) as f32, t.range(-300, 300) as f32);
    let moved = path.clone().transform(tiny_skia::Transform::from_translate(dx, dy)).ok_or("moved path")?;
    let (m, mx, my) = CoverageTile::rasterize(&moved).ok_or_else(|| format!("{log}: no tile once moved"))?;
    ensure!((m.width, m.height, mx, my) == (tile.width, tile.height, x + dx as i32, y + dy as i32) && m.data == tile.data, "{log}: another picture when moved by {dx}, {dy}");
    t.nontrivial_if(want.iter().any(|a| a.abs() > 0.99) && curves > 0);
    Ok(())
}
