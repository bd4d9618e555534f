//! R02: a picture depends on nothing but its script, time and size.
use crate::place::{event, scene};
use ass_core::parser::Script;
use ass_renderer::backends::coverage::{composite_bitmap, RenderBitmap};
use ass_renderer::{BackendType, Frame, RenderContext, Renderer};
use vkit::*;

fn context(w: u32, h: u32) -> RenderContext {
    RenderContext::with_font_database(w, h, fontdb::Database::new())
}
fn fresh(w: u32, h: u32) -> Result<Renderer, String> {
    Renderer::new(BackendType::Software, context(w, h)).map_err(|e| e.to_string())
}
/// Nothing is left from other renderings on a thread of its own.
fn alone<X: Send>(f: impl FnOnce() -> Result<X, String> + Send) -> Result<X, String> {
    std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|_| Err("rendering panicked".into()))
}
type Flat = (bool, i32, i32, u32, u32, [u8; 4], Vec<u8>);
fn flat(b: &RenderBitmap) -> Flat {
    match b {
        RenderBitmap::Coverage { width, height, coverage, x, y, color } => (true, *x, *y, *width, *height, *color, coverage.to_vec()),
        RenderBitmap::Rgba { width, height, pixels, x, y } => (false, *x, *y, *width, *height, [0; 4], pixels.to_vec()),
    }
}
pub fn differ(a: &[u8], b: &[u8], w: u32, slack: u8) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} bytes, not {}", a.len(), b.len()));
    }
    let n = a.iter().zip(b).filter(|(x, y)| x.abs_diff(**y) > slack).count();
    let i = a.iter().zip(b).position(|(x, y)| x.abs_diff(*y) > slack)?;
    let i = i / 4;
    Some(format!("{n} bytes differ, first at ({}, {}): {:?}, not {:?}", i as u32 % w, i as u32 / w, &a[i * 4..i * 4 + 4], &b[i * 4..i * 4 + 4]))
}
struct Source {
    text: String,
    times: Vec<u32>,
}
/// A script for a small screen, and the times about which something changes.
fn source(t: &mut T) -> Source {
    let wrap = t.us(4) as u8;
    let mut sc = scene(t, wrap);
    sc.res = t.pick_c(&[(384, 288), (200, 150), (384, 288)]);
    // a header of its own, with settings now and then left out
    let mut head = String::from("[Script Info]\n");
    let given = t.chance(3, 4);
    if given {
        head += &format!("PlayResX: {}\nPlayResY: {}\n", sc.res.0, sc.res.1);
    } else {
        sc.res = (1920, 1080);
    }
    if t.chance(2, 3) {
        head += &format!("WrapStyle: {wrap}\n");
    }
    if t.chance(1, 2) {
        head += &format!("ScaledBorderAndShadow: {}\n", if sc.scaled { "yes" } else { "no" });
    }
    if t.chance(1, 8) {
        head += "LayoutResX: 300\nLayoutResY: 200\n";
    }
    head += &sc.head[sc.head.find("\n[V4+").unwrap()..];
    let mut times = vec![0];
    let mut text = head;
    let k = if given { 1.0 } else { 5.0 };
    for _ in 0..1 + t.weighted(&[2, 3, 2, 1]) {
        let start = t.us(6) as u32 * 20;
        let dur = t.pick_c(&[20u32, 40, 60, 200]);
        let plain = t.chance(1, 3);
        let words = if plain { t.pick_c(&["Word", "a moon", "go\\NQuay", "ilia 12 WAVE x y"]).to_string() } else { event(t, &sc.styles, dur, (sc.res.0 as f64, sc.res.1 as f64), true).text };
        let style = &sc.styles[t.us(sc.styles.len())].name;
        let layer = t.us(3);
        let size = if k > 1.0 && t.chance(1, 2) { "{\\fs90}" } else { "" };
        text += &format!("Dialogue: {layer},{},{},{style},,0,0,0,,{size}{words}\n", vkit::ass::fmt_time(start), vkit::ass::fmt_time(start + dur));
        times.extend([start, start + dur, start + dur / 2, start + dur - 1]);
    }
    Source { text, times }
}
/// Change a letter or digit for another, where it stands.
fn edit(t: &mut T, s: &mut Source) -> bool {
    let from = if t.chance(2, 3) { s.text.find("[Events]").unwrap_or(0) } else { 0 };
    let from = from + s.text[from..].find("Dialogue").or(s.text[from..].find("Style: ")).unwrap_or(0);
    let at: Vec<usize> = s.text.bytes().enumerate().skip(from).filter(|(i, b)| (b.is_ascii_digit() || (b.is_ascii_lowercase() && s.text[..*i].ends_with(|c: char| c != '\\' && !c.is_alphanumeric()))) && !s.text[..*i].ends_with(':')).map(|x| x.0).collect();
    if at.is_empty() {
        return false;
    }
    let i = at[t.us(at.len())];
    let old = s.text.as_bytes()[i];
    let new = if old.is_ascii_digit() { b'0' + t.us(10) as u8 } else { t.pick_c(b"aeglmnoz") };
    // the same buffer, changed in place
    let mut b = std::mem::take(&mut s.text).into_bytes();
    b[i] = new;
    s.text = String::from_utf8(b).unwrap();
    new != old
}
pub fn history(t: &mut T) -> R {
    let sizes = [(192u32, 144u32), (128, 96), (100, 75), (240, 100)];
    let mut size = sizes[t.us(sizes.len())];
    let mut r = fresh(size.0, size.1)?;
    let mut src: Vec<Source> = (0..1 + t.us(2)).map(|_| source(t)).collect();
    let mut log: Vec<String> = vec![format!("renderer of {}x{}", size.0, size.1)];
    // the picture drawn last, of which script, whether it still is as it was, and the size
    let mut last: Option<(Frame, usize, (u32, u32))> = None;
    let (mut shown, mut renders, mut changes, mut k) = (0, 0, 0, 0);
    let mut at = 0;
    let r = (|| -> R {
        for _ in 0..3 + t.len(9) {
            if t.chance(1, 3) {
                k = t.us(src.len());
            }
            match t.weighted(&[5, 3, 3, 2, 1]) {
                op @ (0 | 1 | 2) => {
                    // often the same time again
                    if t.chance(2, 3) {
                        at = src[k].times[t.us(src[k].times.len())] + t.us(3) as u32;
                    }
                    let text = &src[k].text;
                    let script = Script::parse(text).map_err(|e| e.to_string())?;
                    let (w, h) = size;
                    let want = alone(|| {
                        let script = Script::parse(text).map_err(|e| e.to_string())?;
                        fresh(w, h)?.render_frame(&script, at).map_err(|e| e.to_string())
                    });
                    renders += 1;
                    if op == 1 {
                        log.push(format!("bitmaps of script {k} at {at}"));
                        let got = r.render_frame_bitmaps(&script, at).map_err(|e| e.to_string());
                        let own = alone(|| {
                            let script = Script::parse(text).map_err(|e| e.to_string())?;
                            let b = fresh(w, h)?.render_frame_bitmaps(&script, at).map_err(|e| e.to_string())?;
                            Ok(b.iter().map(flat).collect::<Vec<_>>())
                        });
                        let (got, own, want) = match (got, own, want) {
                            (Ok(g), Ok(o), Ok(w)) => (g, o, w),
                            (Err(_), Err(_), Err(_)) => continue,
                            (g, o, w) => return Err(format!("bitmaps {:?}, alone {:?}, the frame {:?}", g.err(), o.err(), w.err())),
                        };
                        let flats: Vec<Flat> = got.iter().map(flat).collect();
                        ensure!(flats == own, "the bitmaps differ from those of a renderer of its own");
                        let mut data = vec![0u8; (w * h * 4) as usize];
                        for b in &got {
                            composite_bitmap(&mut data, w, h, b);
                        }
                        // A blurred bitmap can hold more colour than alpha, which saturates in
                        // one order of blending and not in the other
                        let bright = flats.iter().any(|f| !f.0 && f.6.chunks_exact(4).any(|p| p[..3].iter().any(|c| *c > p[3])));
                        let slack = 2 + got.len().min(60) as u8 + if bright { 30 } else { 0 };
                        if let Some(d) = differ(&data, want.data(), w, slack) {
                            return Err(format!("the bitmaps put together are not the frame: {d}"));
                        }
                        shown += (!got.is_empty()) as usize;
                        continue;
                    }
                    let got = match (op, &last) {
                        (2, Some((f, j, s))) if *j == k && *s == size => {
                            log.push(format!("script {k} at {at}, from the frame at {}", f.timestamp()));
                            r.render_frame_incremental(&script, at, f)
                        }
                        _ => {
                            log.push(format!("script {k} at {at}"));
                            r.render_frame(&script, at)
                        }
                    }
                    .map_err(|e| e.to_string());
                    let (got, want) = match (got, want) {
                        (Ok(g), Ok(w)) => (g, w),
                        (Err(_), Err(_)) => continue,
                        (g, w) => return Err(format!("drawn: {:?}, alone: {:?}", g.err(), w.err())),
                    };
                    ensure!(got.timestamp() == at && got.width() == w && got.height() == h, "the frame is of {} and {}x{}", got.timestamp(), got.width(), got.height());
                    if let Some(d) = differ(got.data(), want.data(), w, 0) {
                        return Err(format!("differs from what a renderer of its own draws: {d}"));
                    }
                    shown += got.data().iter().any(|b| *b != 0) as usize;
                    last = Some((got, k, size));
                }
                3 => {
                    let text = src[k].text.clone();
                    if edit(t, &mut src[k]) {
                        if Script::parse(&src[k].text).is_err() {
                            src[k].text = text;
                            continue;
                        }
                        log.push(format!("script {k} becomes: {}", src[k].text));
                        changes += 1;
                        if last.as_ref().is_some_and(|l| l.1 == k) {
                            last = None;
                        }
                    }
                }
                _ => {
                    size = sizes[t.us(sizes.len())];
                    log.push(format!("size {}x{}", size.0, size.1));
                    r.set_context(context(size.0, size.1));
                    changes += 1;
                }
            }
        }
        Ok(())
    })();
    for (i, s) in src.iter().enumerate() {
        t.input(&format!("script {i}"), &s.text);
    }
    t.input("history", &log.join("; "));
    r?;
    t.nontrivial_if(shown > 1 && renders > 2);
    t.label_if(changes > 0, "changed");
    Ok(())
}

/// A font under a family name of its own.
fn renamed(face: usize, name: &str) -> Vec<u8> {
    let mut d = crate::place::face_bytes(face).to_vec();
    let u16at = |d: &[u8], i: usize| u16::from_be_bytes([d[i], d[i + 1]]) as usize;
    let tables = u16at(&d, 4);
    let rec = (0..tables).map(|i| 12 + i * 16).find(|&i| &d[i..i + 4] == b"name").unwrap();
    let at = u32::from_be_bytes(d[rec + 8..rec + 12].try_into().unwrap()) as usize;
    let (n, store) = (u16at(&d, at + 2), at + u16at(&d, at + 4));
    // a table of its own at the end of the file, with the family and what the old one held
    let mut recs = vec![];
    let mut text = vec![];
    for i in 0..n {
        let r = at + 6 + i * 12;
        let id = u16at(&d, r + 6);
        let (len, off) = (u16at(&d, r + 8), u16at(&d, r + 10));
        let wide = matches!(u16at(&d, r), 0 | 3);
        let mut s = d[store + off..store + off + len].to_vec();
        if matches!(id, 1 | 16) {
            s = if wide { name.encode_utf16().flat_map(|u| u.to_be_bytes()).collect() } else { name.bytes().collect() };
        }
        let mut x = d[r..r + 8].to_vec();
        x.extend((s.len() as u16).to_be_bytes());
        x.extend((text.len() as u16).to_be_bytes());
        text.extend(s);
        recs.push(x);
    }
    let mut table = vec![0, 0];
    table.extend((n as u16).to_be_bytes());
    table.extend((6 + 12 * n as u16).to_be_bytes());
    table.extend(recs.concat());
    table.extend(text);
    while d.len() % 4 != 0 {
        d.push(0);
    }
    let (off, len) = (d.len() as u32, table.len() as u32);
    d[rec + 8..rec + 12].copy_from_slice(&off.to_be_bytes());
    d[rec + 12..rec + 16].copy_from_slice(&len.to_be_bytes());
    d.extend(table);
    d
}
/// The uuencoded lines of bytes.
fn spelled(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 3 / 2);
    let c = |v: u32| if v & 63 == 0 { '`' } else { (32 + (v & 63)) as u8 as char };
    for line in d.chunks(45) {
        s.push(c(line.len() as u32));
        for g in line.chunks(3) {
            let v = (g[0] as u32) << 16 | (*g.get(1).unwrap_or(&0) as u32) << 8 | *g.get(2).unwrap_or(&0) as u32;
            (0..4).for_each(|k| s.push(c(v >> (18 - 6 * k))));
        }
        s.push('\n');
    }
    s
}
/// The section entry of a family of a face.
fn entry(face: usize, name: &'static str) -> &'static str {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static C: OnceLock<Mutex<HashMap<(usize, &'static str), &'static str>>> = OnceLock::new();
    let mut c = C.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    c.entry((face, name)).or_insert_with(|| Box::leak(format!("fontname: {}_{face}.ttf\n{}", name.to_lowercase(), spelled(&renamed(face, name))).into_boxed_str()))
}
pub fn embedded(t: &mut T) -> R {
    let (w, h) = (160, 60);
    let names = ["Emb", "Emb Two"];
    let mut log = vec![];
    let mut r = fresh(w, h)?;
    let mut shown = 0;
    let mut used = false;
    let r = (|| -> R {
        for step in 0..1 + t.len(4) {
            // which faces carry which of the names in this script
            let faces: Vec<Vec<usize>> = names.iter().map(|_| match t.us(6) {
                0 | 1 => vec![],
                2 | 3 => vec![3],
                4 => vec![0, 1, 2],
                _ => vec![0],
            }).collect();
            let split = t.chance(1, 6);
            let by_path = t.chance(1, 5);
            let dir = crate::dbg::Dir::new();
            let first = t.chance(1, 3);
            let mut fonts = String::from("[Fonts]\n");
            let mut paths = String::new();
            let mut order: Vec<(usize, &'static str)> = vec![];
            for (n, f) in names.iter().zip(&faces) {
                order.extend(f.iter().map(|&f| (f, *n)));
            }
            for (i, (f, n)) in order.iter().enumerate() {
                if split && i > 0 {
                    fonts += "\n[Fonts]\n";
                }
                if by_path {
                    let path = dir.file(&format!("{i}.ttf"));
                    std::fs::write(&path, renamed(*f, n)).map_err(|e| e.to_string())?;
                    paths += &format!("{}: {path}\n", ["Font", "Fontname", "X-Font File"][i % 3]);
                } else {
                    fonts += entry(*f, n);
                }
            }
            let k = t.us(2);
            let name = names[k];
            // the family installed that the name stands for
            let own = match faces[k].first() {
                Some(3) => "Go Mono",
                Some(_) => "Go",
                None => "Nowhere",
            };
            let whole = faces[k].len() != 1 || faces[k] == [3];
            let (b, i) = if whole { (t.chance(1, 3), t.chance(1, 3)) } else { (false, false) };
            let by_tag = t.chance(1, 3);
            let words = t.pick_c(&["Word", "im moon", "go\\NQuay", "WiM ilia 12"]);
            let (bord, karaoke) = (t.us(3), t.chance(1, 4));
            let body = |name: &str| {
                let style = if by_tag { "Go" } else { name };
                let tag = if by_tag { format!("{{\\fn{name}}}") } else { String::new() };
                let kf = if karaoke { "{\\kf20}" } else { "" };
                format!("[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, Italic, Outline, Shadow, Alignment\nStyle: Default,{style},22,&H0000FFFF,{},{},{bord},0,7\n\n[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:00.00,0:00:01.00,Default,{tag}{kf}{words}\n", -(b as i32), -(i as i32))
            };
            let head = format!("[Script Info]\nPlayResX: {w}\nPlayResY: {h}\n\n");
            let text = if by_path {
                format!("[Script Info]\nPlayResX: {w}\n{paths}PlayResY: {h}\n\n{}", body(name))
            } else if order.is_empty() {
                format!("{head}{}", body(name))
            } else if first {
                format!("{head}{fonts}\n{}", body(name))
            } else {
                format!("{head}{}\n{fonts}", body(name))
            };
            let plain = format!("{head}{}", body(own));
            log.push(format!("script {step}: {name:?} embedded as {faces:?} in {}: {}", if by_path { "files" } else if split { "sections of their own" } else { "one section" }, body(name)));
            let at = t.us(60) as u32;
            let draw = |x: &str| alone(|| {
                let s = Script::parse(x).map_err(|e| e.to_string())?;
                Ok(fresh(w, h)?.render_frame(&s, at).map_err(|e| e.to_string())?.data().to_vec())
            });
            let want = draw(&plain)?;
            let one = draw(&text)?;
            if let Some(d) = differ(&one, &want, w, 0) {
                return Err(format!("{name:?} embedded is not drawn as {own:?}: {d}"));
            }
            let s = Script::parse(&text).map_err(|e| e.to_string())?;
            for k in 0..1 + t.us(2) {
                let got = r.render_frame(&s, at).map_err(|e| e.to_string())?;
                if let Some(d) = differ(got.data(), &want, w, 0) {
                    return Err(format!("drawn {k} by a renderer that drew other scripts, {name:?} is not {own:?}: {d}"));
                }
            }
            shown += want.iter().any(|b| *b != 0) as usize;
            used |= !faces[k].is_empty();
        }
        Ok(())
    })();
    t.input("history", &log.join("; "));
    t.nontrivial_if(shown > 0 && used);
    r
}
