//! R09 (collisions), R10 (caches), R11 (layout and geometry), R12 (frames and regions).
use ass_renderer::cache::{DrawingCacheKey, RenderCache, TextCacheKey};
use ass_renderer::collision::{CollisionDetector, BoundingBox, CollisionResolver, PositionedEvent, SmartCollisionResolver};
use ass_renderer::layout::positioning::{BoundingBox as Bounds, PositionConfig};
use ass_renderer::layout::*;
use ass_renderer::pipeline::shaping::ShapedText;
use ass_renderer::pipeline::tag_processor::ProcessedTags;
use ass_renderer::pipeline::drawing::process_drawing_commands;
use ass_renderer::renderer::EventSelector;
use ass_renderer::utils::{cubic_bezier, lerp, DirtyRegion, Matrix3x3, TextureAtlas, Transform2D};
use ass_renderer::Frame;
use std::collections::BTreeMap;
use vkit::*;

type Box4 = (f32, f32, f32, f32);
fn quarter(t: &mut T, lo: i64, hi: i64) -> f32 {
    if t.chance(1, 2) { t.range(lo, hi) as f32 } else { t.range(lo * 4, hi * 4) as f32 / 4.0 }
}
fn boxed(t: &mut T, w: f32, h: f32) -> BoundingBox {
    let (w, h) = (w as i64, h as i64);
    let height = if t.chance(1, 10) { quarter(t, 0, h + 60) } else { quarter(t, 0, 60) };
    BoundingBox::new(quarter(t, -20, w), quarter(t, -40, h + 20), quarter(t, 0, w), height)
}
fn four(b: &BoundingBox) -> Box4 {
    (b.x, b.y, b.width, b.height)
}
/// Whether two boxes with the margin about each meet.
fn meet(a: Box4, b: Box4, m: f32) -> bool {
    a.0 - m < b.0 + b.2 + m && a.0 + a.2 + m > b.0 - m && a.1 - m < b.1 + b.3 + m && a.1 + a.3 + m > b.1 - m
}
/// The nearest clear place in its direction, kept on the screen.
fn place(placed: &[(i32, Box4)], layer: i32, b: Box4, up: bool, m: f32, h: f32) -> Box4 {
    let others: Vec<Box4> = placed.iter().filter(|x| x.0 == layer).map(|x| x.1).collect();
    let mut ys = vec![b.1];
    for o in &others {
        ys.push(if up { o.1 - b.3 - 2.0 * m } else { o.1 + o.3 + 2.0 * m });
    }
    ys.retain(|&y| (if up { y <= b.1 } else { y >= b.1 }) && others.iter().all(|o| !meet(*o, (b.0, y, b.2, b.3), m)));
    let y = ys.into_iter().fold(None, |acc: Option<f32>, y| Some(acc.map_or(y, |a| if up { a.max(y) } else { a.min(y) }))).unwrap();
    (b.0, y.clamp(0.0, (h - b.3).max(0.0)), b.2, b.3)
}
pub fn collide(t: &mut T) -> R {
    let (w, h) = (t.span(1, 640) as f32, t.span(1, 480) as f32);
    let mut r = CollisionResolver::new(w, h);
    let mut m = 2.0;
    if t.chance(1, 2) {
        m = quarter(t, 0, 12);
        r.set_collision_margin(m);
    }
    let mut log = format!("screen {w} x {h}, margin {m}; ");
    let mut placed: Vec<(i32, Box4)> = vec![];
    let mut moved = 0;
    for _ in 0..t.span(1, 14) {
        if t.chance(1, 25) {
            r.clear();
            placed.clear();
            log += "clear; ";
        }
        let mut bbox = boxed(t, w, h);
        if !placed.is_empty() && t.chance(1, 3) {
            // where another is
            let o = placed[t.us(placed.len())].1;
            bbox.x = o.0;
            bbox.y = o.1;
        }
        let layer = if t.chance(1, 4) { t.range(-1, 2) as i32 } else { 0 };
        let alignment = t.span(1, 9) as u8;
        let e = PositionedEvent { bbox, layer, margin_v: t.us(40) as i32, margin_l: t.us(40) as i32, margin_r: t.us(40) as i32, alignment, priority: t.range(-5, 200) as i32 };
        let want = if t.chance(1, 4) {
            log += &format!("fixed {:?} layer {layer}; ", four(&bbox));
            r.add_fixed(e);
            four(&bbox)
        } else {
            log += &format!("{:?} layer {layer} alignment {alignment}; ", four(&bbox));
            let want = place(&placed, layer, four(&bbox), alignment <= 3, m, h);
            let got = four(&r.find_position(e));
            ensure!(got == want, "{log}: placed at {got:?}, the nearest clear place is {want:?}");
            moved += (want.1 != bbox.y) as usize;
            want
        };
        placed.push((layer, want));
        let now: Vec<(i32, Box4)> = r.positioned_events().iter().map(|e| (e.layer, four(&e.bbox))).collect();
        ensure!(now == placed, "{log}: the placed boxes are {now:?}, not {placed:?}");
    }
    t.input("history", &log);
    t.label_if(moved > 1, "several moved");
    t.nontrivial_if(moved > 0);
    Ok(())
}
pub fn smart(t: &mut T) -> R {
    let (w, h) = (t.span(1, 640) as f32, t.span(1, 480) as f32);
    let mut r = SmartCollisionResolver::new(w, h);
    let mut limit = 100;
    if t.chance(1, 2) {
        limit = t.pick_c(&[0, 50, -3, i32::MIN, i32::MAX]);
        r.set_priority_threshold(limit);
    }
    let mut log = format!("screen {w} x {h}, threshold {limit}; ");
    let mut moved = 0;
    for _ in 0..t.span(1, 3) {
        let mut v: Vec<PositionedEvent> = vec![];
        for k in 0..t.len(8) {
            let priority = t.pick_c(&[0, 50, 99, 100, 101, -3, i32::MIN, i32::MAX, 7]);
            v.push(PositionedEvent { bbox: boxed(t, w, h), layer: t.us(2) as i32, margin_v: k as i32, margin_l: 0, margin_r: 0, alignment: t.span(1, 9) as u8, priority });
        }
        let mut want = v.clone();
        want.sort_by(|a, b| b.priority.cmp(&a.priority));
        let mut placed = vec![];
        for e in &mut want {
            if e.priority < limit {
                let p = place(&placed, e.layer, four(&e.bbox), e.alignment <= 3, 2.0, h);
                moved += (p.1 != e.bbox.y) as usize;
                e.bbox = BoundingBox::new(p.0, p.1, p.2, p.3);
            }
            placed.push((e.layer, four(&e.bbox)));
        }
        log += &format!("{:?}; ", v.iter().map(|e| (four(&e.bbox), e.layer, e.alignment, e.priority)).collect::<Vec<_>>());
        r.process_events(&mut v);
        let show = |v: &[PositionedEvent]| format!("{:?}", v.iter().map(|e| (four(&e.bbox), e.margin_v, e.layer, e.alignment, e.priority)).collect::<Vec<_>>());
        ensure!(show(&v) == show(&want), "{log}: placed as {}, not {}", show(&v), show(&want));
    }
    // a free place
    let existing: Vec<BoundingBox> = (0..t.len(6)).map(|_| boxed(t, w, h)).collect();
    let b = boxed(t, w, h);
    log += &format!("a place for {b:?} among {existing:?}");
    t.input("history", &log);
    let hits = |y: f32| existing.iter().any(|o| meet(four(o), (b.x, y, b.width, b.height), 0.0));
    ensure!(r.check_collision(&b, &existing) == hits(b.y), "{log}: collides: {}", !hits(b.y));
    match r.find_free_position(&b, &existing, &BoundingBox::new(0.0, 0.0, w, h)) {
        Some((x, y)) => {
            ensure!(x == b.x && !hits(y), "{log}: {x}, {y} is not free");
            ensure!(y == b.y || y + b.height <= h && y >= b.y || y >= 0.0 && y <= b.y, "{log}: {x}, {y} is outside");
            ensure!(hits(b.y) || b.y + b.height > h || y == b.y, "{log}: moved to {y} for nothing");
        }
        None => ensure!(hits(b.y) || b.y + b.height > h, "{log}: no place, though it is free where it is"),
    }
    let o = boxed(t, w, h);
    let (p, q) = (four(&b), four(&o));
    let (ow, oh) = ((p.0 + p.2).min(q.0 + q.2) - p.0.max(q.0), (p.1 + p.3).min(q.1 + q.3) - p.1.max(q.1));
    let area = if ow > 0.0 && oh > 0.0 { ow * oh } else { 0.0 };
    ensure!((b.overlap_area(&o) - area).abs() <= 1e-3 * area && (o.overlap_area(&b) - area).abs() <= 1e-3 * area, "{b:?} and {o:?} share {}, not {area}", b.overlap_area(&o));
    ensure!(p.2 == 0.0 || p.3 == 0.0 || q.2 == 0.0 || q.3 == 0.0 || b.intersects(&o) == (area > 0.0) && o.intersects(&b) == (area > 0.0), "{b:?} and {o:?} meet: {}", area > 0.0);
    let k = quarter(t, 0, 9);
    ensure_eq!(&four(&b.expand(k)), &(p.0 - k, p.1 - k, p.2 + 2.0 * k, p.3 + 2.0 * k), "{b:?} with {k} about it");
    ensure_eq!(&b.center(), &(p.0 + p.2 / 2.0, p.1 + p.3 / 2.0), "centre of {b:?}");
    t.nontrivial_if(moved > 0);
    Ok(())
}

fn shaped(n: f32) -> ShapedText {
    ShapedText { glyphs: vec![], width: n, height: n, baseline: n, font_size: n, ascent: n, descent: n, ink_min: n, ink_max: n }
}
pub fn render_cache(t: &mut T) -> R {
    let (a, b) = (t.pick_c(&[0usize, 1, 2, 3, 5, 20]), t.pick_c(&[0usize, 1, 2, 3, 5]));
    let mut c = RenderCache::with_limits(a, b);
    // what was stored last under each key; some of it may be gone
    let mut texts: BTreeMap<TextCacheKey, f32> = BTreeMap::new();
    let mut draws: BTreeMap<String, String> = BTreeMap::new();
    let mut log = format!("limits {a}, {b}; ");
    let (mut th, mut tm, mut dh, mut dm, mut hits, mut evicted, mut n) = (0, 0, 0, 0, 0, 0, 0.0f32);
    let show = |p: &Option<tiny_skia::Path>| p.as_ref().map_or("none".into(), |p| format!("{p:?}"));
    for _ in 0..t.span(1, 30) {
        let key = TextCacheKey { text: t.pick(&[&"", &"a", &"b", &"ab"]).to_string(), font_family: t.pick(&[&"", &"F"]).to_string(), font_size: t.us(3) as u32, bold: t.chance(1, 4), italic: t.chance(1, 4) };
        let cmds = t.pick(&[&"m 0 0 l 10 0 10 10", &"m 0 0", &"", &"m 1 1 l 5 5 0 3", &"m 0 0 b 1 2 3 4 5 6"]).to_string();
        match t.us(9) {
            0..=2 => {
                n += 1.0;
                log += &format!("store {key:?} {n}; ");
                let got = c.store_shaped_text(key.clone(), shaped(n));
                ensure!(got.width == n, "{log}: gives back {}", got.width);
                texts.insert(key.clone(), n);
                if a > 0 {
                    let got = c.get_shaped_text(&key).map(|x| x.width);
                    ensure!(got == Some(n), "{log}: holds {got:?} at once");
                    th += 1;
                }
            }
            3 | 4 => {
                log += &format!("get {key:?}; ");
                let got = c.get_shaped_text(&key).map(|x| x.width);
                ensure!(got.is_none() || got == texts.get(&key).copied(), "{log}: holds {got:?}, stored was {:?}", texts.get(&key));
                if got.is_some() { th += 1 } else { tm += 1 }
                hits += got.is_some() as usize;
            }
            5 => {
                let path = process_drawing_commands(&cmds).ok().flatten();
                log += &format!("store drawing {cmds}; ");
                draws.insert(cmds.clone(), show(&path));
                c.store_drawing_path(DrawingCacheKey { commands: cmds }, path);
            }
            6 => {
                log += &format!("get drawing {cmds}; ");
                let got = c.get_drawing_path(&DrawingCacheKey { commands: cmds.clone() }).map(|p| show(&p));
                ensure!(got.is_none() || got.as_ref() == draws.get(&cmds), "{log}: holds {got:?}, stored was {:?}", draws.get(&cmds));
                if got.is_some() { dh += 1 } else { dm += 1 }
                hits += got.is_some() as usize;
            }
            7 if t.chance(1, 4) => {
                log += "clear; ";
                c.clear();
                for k in texts.keys() {
                    ensure!(c.get_shaped_text(k).is_none(), "{log}: {k:?} is still there");
                }
                for k in draws.keys() {
                    ensure!(c.get_drawing_path(&DrawingCacheKey { commands: k.clone() }).is_none(), "{log}: {k:?} is still there");
                }
                (th, tm, dh, dm, evicted) = (0, texts.len(), 0, draws.len(), 0);
                texts.clear();
                draws.clear();
            }
            _ => {
                // all there is
                let live = |v: bool| v as usize;
                let there: Vec<bool> = texts.keys().map(|k| c.get_shaped_text(k).is_some()).collect();
                let n: usize = there.iter().map(|x| live(*x)).sum();
                (th, tm) = (th + n, tm + there.len() - n);
                ensure!(n <= a, "{log}: holds {n} of {a} texts");
                let gone_now = texts.len() - n;
                let mut i = 0;
                texts.retain(|_, _| { i += 1; there[i - 1] });
                let there: Vec<bool> = draws.keys().map(|k| c.get_drawing_path(&DrawingCacheKey { commands: k.clone() }).is_some()).collect();
                let m: usize = there.iter().map(|x| live(*x)).sum();
                (dh, dm) = (dh + m, dm + there.len() - m);
                ensure!(m <= b, "{log}: holds {m} of {b} drawings");
                evicted += gone_now + draws.len() - m;
                let mut i = 0;
                draws.retain(|_, _| { i += 1; there[i - 1] });
                // nothing is dropped while there is room: what is gone was evicted
                ensure!(a == 0 || b == 0 || evicted <= c.stats().evictions, "{log}: {evicted} entries are gone, {} evicted", c.stats().evictions);
                // an eviction leaves the cache full
                ensure!(evicted == 0 || a == 0 || b == 0 || n == a || m == b, "{log}: {evicted} entries are gone, {n} of {a} and {m} of {b} are left");
            }
        }
        let s = c.stats();
        let (got, want) = ((s.text_hits, s.text_misses, s.drawing_hits, s.drawing_misses), (th, tm, dh, dm));
        ensure!(got == want, "{log}: counts {got:?}, not {want:?}");
    }
    t.input("history", &log);
    t.label_if(evicted > 0, "evicted");
    t.nontrivial_if(hits > 0 && texts.len() > 1);
    Ok(())
}
pub fn atlas(t: &mut T) -> R {
    let (w, h) = (t.len(40) as u32, t.len(40) as u32);
    let mut a = TextureAtlas::new(w, h);
    let mut model = vec![0u8; (w * h * 4) as usize];
    let mut log = format!("atlas {w} x {h}; ");
    let mut regions = vec![];
    let mut rows = 0u64;
    let mut written = 0;
    for _ in 0..t.span(1, 25) {
        match t.us(8) {
            0 if t.chance(1, 4) => {
                a.clear();
                model.fill(0);
                regions.clear();
                rows = 0;
                log += "clear; ";
            }
            0..=3 => {
                let size = |t: &mut T, m: u32| match t.us(12) {
                    0 => u32::MAX - t.us(3) as u32,
                    1 => m,
                    2 => m + 1,
                    3 => m.saturating_sub(1),
                    _ => t.us(m as usize / 2 + 2) as u32,
                };
                let (rw, rh) = (size(t, w), size(t, h));
                log += &format!("allocate {rw} x {rh}; ");
                match a.allocate(rw, rh) {
                    Some(r) => {
                        ensure!(r.width == rw && r.height == rh, "{log}: a region of {} x {}", r.width, r.height);
                        ensure!(r.x as u64 + rw as u64 <= w as u64 && r.y as u64 + rh as u64 <= h as u64, "{log}: {r:?} leaves the atlas");
                        for o in &regions {
                            let o: &(u32, u32, u32, u32, u32) = o;
                            ensure!(r.x >= o.0 + o.2 || o.0 >= r.x + rw || r.y >= o.1 + o.3 || o.1 >= r.y + rh || rw * rh * o.2 * o.3 == 0, "{log}: {r:?} over {o:?}");
                            ensure!(r.id != o.4, "{log}: {r:?} has the id of {o:?}");
                        }
                        regions.push((r.x, r.y, rw, rh, r.id));
                        if rw * rh > 0 && t.chance(3, 4) {
                            let n = (rw * rh * 4) as usize;
                            let extra = if t.chance(1, 5) { 7 } else { 0 };
                            let tone = 1 + t.us(200);
                            let data: Vec<u8> = (0..n + extra).map(|k| (k % 50 + tone) as u8).collect();
                            a.write_region(&r, &data);
                            for y in 0..rh {
                                for k in 0..rw * 4 {
                                    model[(((r.y + y) * w + r.x) * 4 + k) as usize] = data[(y * rw * 4 + k) as usize];
                                }
                            }
                            log += "write; ";
                            written += 1;
                        }
                    }
                    // rows no higher than all that was asked for leave room
                    None => ensure!(rw > w || rows + rh as u64 > h as u64, "{log}: refused with room for it"),
                }
                rows += rh as u64;
            }
            _ => {}
        }
        ensure!(a.data() == &model[..], "{log}: the texture is not what was written");
    }
    t.input("history", &log);
    t.nontrivial_if(regions.len() > 1 && written > 1);
    Ok(())
}

pub fn layout(t: &mut T) -> R {
    let (w, h) = (t.span(1, 4000) as f32, t.span(1, 3000) as f32);
    let (ml, mr, mv) = (quarter(t, 0, 200), quarter(t, 0, 200), quarter(t, 0, 200));
    let al = t.span(1, 9) as u8;
    let (bw, bh) = (quarter(t, 0, 900), quarter(t, 0, 300));
    let log = format!("screen {w} x {h}, margins {ml} {mr} {mv}, alignment {al}, box {bw} x {bh}");
    t.input("layout", &log);
    let (dx, dy) = ([bw, 0.0, bw / 2.0][al as usize % 3], [bh, bh / 2.0, 0.0][(al as usize - 1) / 3]);
    let x = [w - mr - bw, ml, (w - bw) / 2.0][al as usize % 3];
    let y = [h - mv - bh, (h - bh) / 2.0, mv][(al as usize - 1) / 3];
    let close = |a: (f32, f32), b: (f32, f32)| (a.0 - b.0).abs() < 0.01 && (a.1 - b.1).abs() < 0.01;
    let mut c = LayoutContext::new(w, h);
    (c.margin_left, c.margin_right, c.margin_vertical) = (ml, mr, mv);
    let (px, py) = (t.span(1, 2000) as f32, t.span(1, 2000) as f32);
    let p = (quarter(t, -100, 2000), quarter(t, -100, 2000));
    ensure_eq!(&c.apply_play_res_scaling(p.0, p.1), &p, "{log}: {p:?} with no play resolution");
    (c.play_res_x, c.play_res_y) = (px, py);
    let want = (p.0 * w / px, p.1 * h / py);
    for got in [c.apply_play_res_scaling(p.0, p.1), scale_coordinates(p.0, p.1, px, py, w, h)] {
        ensure!((got.0 - want.0).abs() <= 1e-4 * want.0.abs() && (got.1 - want.1).abs() <= 1e-4 * want.1.abs(), "{log}: {p:?} of {px} x {py} is {got:?}, not {want:?}");
    }
    let a = Alignment::from_value(al);
    ensure!(a as u8 == al, "alignment {al} is {a:?}");
    let got = c.calculate_position(a, &TextMetrics::estimated(bw, bh));
    ensure!(close(got, (x, y)), "{log}: at {got:?}, not {:?}", (x, y));
    let from_style = t.chance(1, 2);
    let config = PositionConfig { screen_width: w, screen_height: h, margin_left: ml, margin_right: mr, margin_vertical: mv, default_alignment: if from_style { al } else { t.span(1, 9) as u8 } };
    let mut tags = ProcessedTags::default();
    if !from_style {
        tags.formatting.alignment = Some(al);
    }
    let b = Bounds { x: 0.0, y: 0.0, width: bw, height: bh };
    let i = PositionInfo::calculate(&tags, &b, &config);
    ensure!(close((i.render_x, i.render_y), (x, y)) && close((i.anchor_x, i.anchor_y), (x, y)) && !i.explicit_position, "{log}: {i:?}, not at {:?}", (x, y));
    ensure!(close((i.origin_x, i.origin_y), (x + bw / 2.0, y + bh / 2.0)), "{log}: {i:?} turns about another point than its centre");
    if t.chance(1, 3) {
        tags.origin = Some((p.1, p.0));
    }
    let at = t.us(6000) as u32;
    let start = t.us(2000) as u32;
    match t.us(3) {
        0 => {
            tags.position = Some(p);
            let i = PositionInfo::calculate(&tags, &b, &config);
            ensure!(close((i.render_x, i.render_y), (p.0 - dx, p.1 - dy)) && i.explicit_position, "{log}, put at {p:?}: {i:?}, not at {:?}", (p.0 - dx, p.1 - dy));
            ensure!(tags.origin.is_none() || (i.origin_x, i.origin_y) == (p.1, p.0), "{log}: {i:?} turns about another point than {:?}", tags.origin);
        }
        _ => {
            let q = (quarter(t, -100, 2000), quarter(t, -100, 2000));
            let t1 = t.us(3000) as u32;
            let t2 = t1 + 1 + t.us(3000) as u32;
            tags.movement = Some((p.0, p.1, q.0, q.1, t1, t2));
            let f = ((at as f32 - start as f32 - t1 as f32) / (t2 - t1) as f32).clamp(0.0, 1.0);
            let i = PositionInfo::calculate_with_movement(&tags, &b, &config, at, start);
            let want = (p.0 + (q.0 - p.0) * f - dx, p.1 + (q.1 - p.1) * f - dy);
            ensure!((i.render_x - want.0).abs() < 0.05 && (i.render_y - want.1).abs() < 0.05 && i.explicit_position, "{log}, moved from {p:?} to {q:?} in {t1}..{t2}, at {at} after {start}: {i:?}, not at {want:?}");
        }
    }
    // the old numbering
    let old = t.pick_c(&[1u8, 2, 3, 5, 6, 7, 9, 10, 11]);
    let new = convert_ssa_alignment(old);
    ensure!(new % 3 == old % 4 % 3 && Alignment::from_value(new) == Alignment::from_ssa_legacy(old), "the old alignment {old} is {new} and {:?}", Alignment::from_ssa_legacy(old));
    // lines below one another
    let text = t.string_of(30, &["a", "bc", "\n", " ", "word"]);
    let gap = quarter(t, 0, 30);
    let m = MultiLineLayout::new(&text, &c, a, gap);
    let lines: Vec<&str> = m.lines.iter().map(|l| l.text.as_str()).collect();
    ensure!(lines == text.split('\n').collect::<Vec<_>>(), "{text:?}: lines {lines:?}");
    let widest = m.lines.iter().map(|l| l.width).fold(0.0, f32::max);
    ensure_eq!(&m.total_width, &widest, "{text:?}: width");
    for (k, l) in m.lines.iter().enumerate() {
        let want = [widest - l.width, 0.0, (widest - l.width) / 2.0][al as usize % 3];
        ensure!((l.x - want).abs() < 0.01, "{text:?}: line {k} at {}, not {want} ({a:?})", l.x);
        let y = if k == 0 { 0.0 } else { m.lines[k - 1].y + m.lines[k - 1].height + gap };
        ensure!((l.y - y).abs() < 0.01, "{text:?}: line {k} at height {}, not {y}", l.y);
        ensure!((m.total_height - (l.y + l.height)).abs() < 0.01 || k + 1 < m.lines.len(), "{text:?}: height {}", m.total_height);
    }
    t.nontrivial_if(bw > 0.0 && bh > 0.0 && lines.len() > 1);
    Ok(())
}
fn matrix(t: &mut T) -> Matrix3x3 {
    let f = |t: &mut T| quarter(t, -20, 20);
    match t.us(4) {
        0 => Matrix3x3::translate(f(t), f(t)),
        1 => Matrix3x3::scale(f(t), f(t)),
        2 => Matrix3x3::rotate(f(t) / 3.0),
        _ => Transform2D { tx: f(t), ty: f(t), sx: f(t), sy: f(t), rotation: f(t) / 3.0, shear_x: 0.0, shear_y: 0.0 }.to_matrix(),
    }
}
fn same(a: (f32, f32), b: (f64, f64), scale: f64) -> bool {
    (a.0 as f64 - b.0).abs() <= 1e-4 * scale && (a.1 as f64 - b.1).abs() <= 1e-4 * scale
}
pub fn geometry(t: &mut T) -> R {
    let f = |t: &mut T| quarter(t, -50, 50);
    let (x, y) = (f(t), f(t));
    let (a, b, r) = (f(t), f(t), f(t) / 7.0);
    let big = 60.0 * 60.0;
    ensure!(Matrix3x3::identity().transform_point(x, y) == (x, y), "({x}, {y}) moved");
    ensure!(same(Matrix3x3::translate(a, b).transform_point(x, y), ((x + a) as f64, (y + b) as f64), 100.0), "({x}, {y}) not moved by ({a}, {b})");
    ensure!(same(Matrix3x3::scale(a, b).transform_point(x, y), ((x * a) as f64, (y * b) as f64), big), "({x}, {y}) not scaled by ({a}, {b})");
    let turned = ((x as f64) * (r as f64).cos() - (y as f64) * (r as f64).sin(), (x as f64) * (r as f64).sin() + (y as f64) * (r as f64).cos());
    ensure!(same(Matrix3x3::rotate(r).transform_point(x, y), turned, 100.0), "({x}, {y}) not turned by {r}");
    let (m, n) = (matrix(t), matrix(t));
    let (p, q) = n.transform_point(x, y);
    let want = m.transform_point(p, q);
    let got = m.multiply(&n).transform_point(x, y);
    let scale = 1.0 + m.m.iter().flatten().map(|v| v.abs() as f64).fold(0.0, f64::max) * (1.0 + n.m.iter().flatten().map(|v| v.abs() as f64).fold(0.0, f64::max)) * (1.0 + x.abs().max(y.abs()) as f64);
    ensure!(same(got, (want.0 as f64, want.1 as f64), scale), "({x}, {y}) under {m:?} after {n:?}: {got:?}, not {want:?}");
    let tr = |t: &mut T| Transform2D { tx: f(t), ty: f(t), sx: f(t), sy: f(t), rotation: f(t) / 7.0, shear_x: f(t), shear_y: f(t) };
    let (u, v) = (tr(t), tr(t));
    let (sx, sy) = ((x * u.sx) as f64, (y * u.sy) as f64);
    let (c, s) = ((u.rotation as f64).cos(), (u.rotation as f64).sin());
    let want = (sx * c - sy * s + u.tx as f64, sx * s + sy * c + u.ty as f64);
    ensure!(same(u.to_matrix().transform_point(x, y), want, big), "({x}, {y}) under {u:?} is not scaled, turned and moved");
    let k = t.us(17) as f32 / 16.0;
    let l = u.lerp(&v, k);
    let list = |d: &Transform2D| [d.tx, d.ty, d.sx, d.sy, d.rotation, d.shear_x, d.shear_y];
    for (i, ((g, p), q)) in list(&l).iter().zip(list(&u)).zip(list(&v)).enumerate() {
        let want = p + (q - p) * k;
        ensure!((g - want).abs() < 1e-3 && (lerp(p, q, k) - want).abs() < 1e-3, "between {u:?} and {v:?} at {k}: number {i} is {g}, not {want}");
    }
    let (p1, p2) = (t.us(17) as f32 / 16.0, t.us(17) as f32 / 16.0);
    let g = cubic_bezier(k, p1, p2);
    let (kk, mk) = (k as f64, 1.0 - k as f64);
    let want = 3.0 * mk * mk * kk * p1 as f64 + 3.0 * mk * kk * kk * p2 as f64 + kk * kk * kk;
    ensure!((g as f64 - want).abs() < 1e-5, "the curve {p1}, {p2} at {k} is {g}, not {want}");
    t.input("matrices", &format!("{m:?} {n:?} {u:?} ({x}, {y})"));
    t.nontrivial_if(x != 0.0 && y != 0.0 && k != 0.0);
    Ok(())
}

pub fn frames(t: &mut T) -> R {
    use ass_renderer::backends::BackendType;
    let _ = BackendType::Software;
    let (w, h) = (t.len(7) as u32, t.len(7) as u32);
    let at = t.pick_c(&[0u32, 17, u32::MAX]);
    let byte = |t: &mut T| if t.chance(1, 2) { t.pick_c(&[0u8, 255]) } else { t.us(256) as u8 };
    let clear = t.chance(1, 3);
    let px: Vec<[u8; 4]> = (0..w * h).map(|_| [byte(t), byte(t), byte(t), if clear { 0 } else { byte(t) }]).collect();
    let data: Vec<u8> = px.concat();
    let f = if t.chance(1, 2) { Frame::new(data.clone(), w, h, at) } else { Frame::from_rgba(data.clone(), w, h).with_timestamp(at) };
    let log = format!("{w} x {h} at {at}: {data:?}");
    t.input("frame", &log);
    ensure!((f.width(), f.height(), f.timestamp()) == (w, h, at) && f.data() == &data[..] && f.pixels() == &data[..], "{log}: another frame");
    ensure!(f.stride() == w as usize * 4 && f.bytes_per_pixel() == 4, "{log}: rows of {}", f.stride());
    ensure!(f.is_empty() == px.iter().all(|p| p[3] == 0), "{log}: empty: {}", f.is_empty());
    // copies share nothing that can be seen
    let mut g = f.with_timestamp(at / 2);
    let k = f.clone();
    ensure!(g.timestamp() == at / 2 && g.data() == f.data(), "{log}: the copy differs");
    if !data.is_empty() {
        let i = t.us(data.len());
        g.data_mut()[i] ^= 0x5a;
        ensure!(f.data() == &data[..] && k.data() == &data[..], "{log}: a change of a copy shows in the frame");
        ensure!(g.data()[i] == data[i] ^ 0x5a, "{log}: the copy does not change");
    }
    ensure!(g.clone().into_buffer() == g.data() && k.into_buffer() == data, "{log}: another buffer");
    ensure!(f.clone().to_rgba().data() == &data[..], "{log}: changed by to_rgba");
    let e = Frame::empty(w, h, at);
    ensure!(e.is_empty() && e.data().len() == data.len() && e.timestamp() == at, "{log}: the empty frame has {} bytes", e.data().len());
    t.nontrivial_if(w * h > 1);
    Ok(())
}
type Rect = (u64, u64, u64, u64);
fn rect(t: &mut T) -> (u32, u32, u32, u32) {
    let a = |t: &mut T| match t.us(8) {
        0 => u32::MAX - t.us(3) as u32,
        _ => t.us(24) as u32,
    };
    (a(t), a(t), a(t), a(t))
}
/// Ends of a rectangle, no further than there are coordinates.
fn ends(r: (u32, u32, u32, u32)) -> Rect {
    (r.0 as u64, r.1 as u64, r.0.saturating_add(r.2) as u64, r.1.saturating_add(r.3) as u64)
}
pub fn regions(t: &mut T) -> R {
    let (a, b) = (rect(t), rect(t));
    let (p, q) = (DirtyRegion::new(a.0, a.1, a.2, a.3), DirtyRegion::new(b.0, b.1, b.2, b.3));
    let (e, f) = (ends(a), ends(b));
    let log = format!("{a:?} and {b:?}");
    let m = p.merge(&q);
    let g = ends((m.x, m.y, m.width, m.height));
    let hull = (e.0.min(f.0), e.1.min(f.1), e.2.max(f.2), e.3.max(f.3));
    ensure!(g == hull, "{log}: merged to {m:?}, ends {g:?}, not {hull:?}");
    ensure_eq!(&p.area(), &(a.2 as u64 * a.3 as u64), "area of {a:?}");
    for _ in 0..4 {
        let c = rect(t);
        let (x, y) = (c.0 as u64, c.1 as u64);
        let inside = x >= e.0 && x < e.2 && y >= e.1 && y < e.3;
        ensure!(p.contains_point(c.0, c.1) == inside, "{a:?} holds ({x}, {y}): {}", !inside);
        ensure!(!inside || m.contains_point(c.0, c.1), "{log}: merged to {m:?}, without ({x}, {y})");
        ensure!(DirtyRegion::full_screen().contains_point(c.0, c.1) || c.0 == u32::MAX || c.1 == u32::MAX, "the full screen is without ({x}, {y})");
    }
    let over = e.0 < f.2 && f.0 < e.2 && e.1 < f.3 && f.1 < e.3;
    let apart = e.2 < f.0 || f.2 < e.0 || e.3 < f.1 || f.3 < e.1;
    let got = p.intersects((f.0 as u32, f.1 as u32, f.2 as u32, f.3 as u32));
    ensure!(got || !over, "{log}: overlap unseen");
    ensure!(!got || !apart, "{log}: overlap seen, they are apart");
    ensure!(DirtyRegion::full_screen().intersects((f.0 as u32, f.1 as u32, f.2 as u32, f.3 as u32)), "{b:?} is not on the full screen");
    // the regions a selector gathers
    let mut s = EventSelector::new();
    let mut v = vec![];
    for _ in 0..t.len(8) {
        let r = rect(t);
        s.add_dirty_region(r.0, r.1, r.2, r.3);
        v.push(r);
    }
    let log = format!("{log}; added {v:?}");
    t.input("regions", &log);
    let all: Vec<Rect> = s.dirty_regions().iter().map(|r| ends((r.x, r.y, r.width, r.height))).collect();
    for r in &v {
        let e = ends(*r);
        ensure!(all.iter().any(|o| o.0 <= e.0 && o.1 <= e.1 && o.2 >= e.2 && o.3 >= e.3) || e.0 == e.2 || e.1 == e.3, "{log}: {r:?} is not to be drawn: {all:?}");
    }
    let bound = v.iter().map(|r| ends(*r)).fold((u64::MAX, u64::MAX, 0, 0), |h, e| (h.0.min(e.0), h.1.min(e.1), h.2.max(e.2), h.3.max(e.3)));
    ensure!(all.len() <= v.len() && all.iter().all(|o| o.0 >= bound.0 && o.1 >= bound.1 && o.2 <= bound.2 && o.3 <= bound.3), "{log}: {all:?} is more");
    let big = v.len() > 1;
    s.clear_dirty_regions();
    ensure!(s.dirty_regions().is_empty(), "{log}: not cleared");
    t.nontrivial_if(over || big);
    Ok(())
}
