//! R04: any script can be rendered, whatever its numbers.
use ass_core::parser::Script;
use ass_renderer::{BackendType, RenderContext, Renderer};
use vkit::*;

/// A number as someone might write it, from ordinary to absurd.
fn number(t: &mut T) -> String {
    match t.weighted(&[6, 3, 3, 2]) {
        0 => t.pick_c(&["0", "1", "2", "10", "20.5", "100", "-1", "-20", "300", "0.01"]).into(),
        1 => t.pick_c(&["1000", "5000", "-5000", "100000", "-99999", "1e6", "0.0001", "-0", "1.5e3", "32768", "65536"]).into(),
        2 => t.pick_c(&["2147483647", "-2147483648", "4294967296", "99999999999999999999", "1e30", "-1e30", "1e39", "nan", "inf", "-inf", "1e-30", "4294967295", "16777217"]).into(),
        _ => t.pick_c(&["", "x", "+5", "--1", ".", "5.", ".5", "1,5", "&H", "&HFFFFFFFFF&", "é", "１", " 7 ", "0x10", "1e"]).into(),
    }
}
fn drawing(t: &mut T) -> String {
    let mut s = String::from("m 0 0");
    for _ in 0..t.us(8) {
        s += t.pick_c(&[" m ", " l ", " b ", " s ", " p ", " c ", " n ", " "]);
        for _ in 0..t.us(8) {
            s += &number(t);
            s += " ";
        }
    }
    s
}
fn tag(t: &mut T, deep: usize) -> String {
    let n = number;
    match t.weighted(&[12, 6, 3, 2, 3, 2]) {
        0 => {
            let name = t.pick_c(&["fs", "fscx", "fscy", "fsp", "frx", "fry", "frz", "fr", "fax", "fay", "bord", "xbord", "ybord", "shad", "xshad", "yshad", "blur", "be", "b", "i", "u", "s", "an", "a", "q", "k", "kf", "ko", "K", "kt", "pbo", "fe", "fsc"]);
            format!("\\{name}{}", n(t))
        }
        1 => {
            let (name, most) = t.pick_c(&[("pos", 3), ("move", 7), ("org", 3), ("fad", 3), ("fade", 8), ("clip", 5), ("iclip", 5)]);
            let k = if t.chance(1, 2) { most - 1 } else { t.us(most + 1) };
            let a: Vec<String> = (0..k).map(|_| n(t)).collect();
            format!("\\{name}({})", a.join(","))
        }
        2 => format!("\\{}{}", t.pick_c(&["c", "1c", "2c", "3c", "4c", "alpha", "1a", "3a", "4a"]), t.pick_c(&["&HFF0000&", "&HFFFFFFFFFF&", "&H80&", "", "zz", "&H&", "255"])),
        3 => format!("\\{}{}", t.pick_c(&["fn", "r"]), t.pick_c(&["", "Go", "Default", "No Such", "Alt", "@Go"])),
        4 if deep > 0 => {
            let head = match t.us(4) {
                0 => String::new(),
                1 => format!("{},{},", n(t), n(t)),
                2 => format!("{},", n(t)),
                _ => format!("{},{},{},", n(t), n(t), n(t)),
            };
            let inner: String = (0..t.us(4)).map(|_| tag(t, deep - 1)).collect();
            format!("\\t({head}{inner}{}", if t.chance(1, 10) { "" } else { ")" })
        }
        4 => format!("\\clip({})", drawing(t)),
        _ => t.pick_c(&["\\", "\\\\", "(", ")", "\\foo", "junk", "{", "\\p", "\\t", "\\move", "\\clip(", "\\1"]).into(),
    }
}
fn text(t: &mut T) -> String {
    let mut s = String::new();
    for _ in 0..1 + t.len(6) {
        if t.chance(3, 4) {
            s += "{";
            for _ in 0..1 + t.us(4) {
                s += &tag(t, 2);
            }
            s += if t.chance(1, 20) { "" } else { "}" };
        }
        match t.us(8) {
            0 => s += &format!("{{\\p{}}}{}{{\\p0}}", t.pick_c(&["1", "2", "4", "31", "64", "100"]), drawing(t)),
            1 => s += t.pick_c(&["\\N", "\\n", "\\h", "\\N\\N\\N", "  ", "\t"]),
            2 => s += t.pick_c(&["שלום עולם", "مرحبا", "e\u{301}\u{301}\u{301}", "\u{200b}\u{200d}", "👩‍👩‍👧", "\u{202e}abc", "\u{feff}", "漢字仮名", "\u{7f}\u{1}", "ﷺ"]),
            3 => s += &"Word ".repeat(1 + t.us(16)),
            4 => s += &"W".repeat(1 + t.us(200)),
            _ => s += t.pick_c(&["Word", "a moon", "i.l", "HI,there"]),
        }
    }
    s
}
fn field(t: &mut T, usual: &str) -> String {
    if t.chance(1, 6) { number(t).replace(',', "") } else { usual.into() }
}
/// The script, and times that show something.
fn script(t: &mut T) -> (String, Vec<u32>) {
    let mut s = String::from("[Script Info]\n");
    for (k, usual) in [("PlayResX", "384"), ("PlayResY", "288"), ("LayoutResX", "384"), ("LayoutResY", "288"), ("WrapStyle", "0"), ("Timer", "100"), ("ScaledBorderAndShadow", "yes")] {
        if t.chance(1, 2) {
            s += &format!("{k}: {}\n", if t.chance(1, 4) { number(t) } else { usual.into() });
        }
    }
    s += "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n";
    for name in ["Default", "Alt"] {
        s += &format!("Style: {name},{}", t.pick_c(&["Go", "Go Mono", "No Such", ""]));
        for usual in ["20", "&H00FFFFFF", "&H000000FF", "&H00000000", "&H80000000", "0", "0", "0", "0", "100", "100", "0", "0", "1", "2", "2", "2", "10", "10", "10", "1"] {
            s += ",";
            s += &field(t, usual);
        }
        s += "\n";
    }
    s += "\n[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
    let mut times = vec![0];
    for _ in 0..1 + t.us(4) {
        let (a, d) = (t.us(5) as u32 * 50, t.pick_c(&[100u32, 1, 500, 0]));
        let effect = match t.us(12) {
            0 => format!("Banner;{};{};{}", number(t), number(t), number(t)),
            1 => format!("Scroll up;{};{};{};{}", number(t), number(t), number(t), number(t)),
            2 => "Karaoke".into(),
            _ => String::new(),
        };
        let mut f = |t: &mut T, u: &str| field(t, u);
        s += &format!("Dialogue: {},{},{},{},,{},{},{},{effect},{}\n", f(t, "0"), vkit::ass::fmt_time(a), vkit::ass::fmt_time(a + d), t.pick_c(&["Default", "Default", "Alt", "None", ""]), f(t, "0"), f(t, "0"), f(t, "0"), text(t));
        times.extend([a, a + d / 2, (a + d).saturating_sub(1)]);
    }
    (s, times)
}
pub fn render(t: &mut T) -> R {
    let (text, mut times) = script(t);
    times.extend([u32::MAX, 360000]);
    t.input("script", &text);
    let (w, h) = t.pick_c(&[(64u32, 48u32), (1, 1), (320, 180), (3, 200), (200, 3)]);
    t.input_dbg("screen", &(w, h));
    let Ok(script) = Script::parse(&text) else { return Ok(()) };
    let mut r = Renderer::new(BackendType::Software, RenderContext::with_font_database(w, h, fontdb::Database::new())).map_err(|e| e.to_string())?;
    let mut last: Option<ass_renderer::Frame> = None;
    let mut shown = 0;
    for _ in 0..1 + t.us(3) {
        let at = times[t.us(times.len())];
        let start = std::time::Instant::now();
        let op = t.us(4);
        let res = match (op, &last) {
            (0, _) => r.render_frame_bitmaps(&script, at).map(|b| {
                let area: usize = b.iter().map(|b| match b {
                    ass_renderer::backends::coverage::RenderBitmap::Coverage { width, height, .. } | ass_renderer::backends::coverage::RenderBitmap::Rgba { width, height, .. } => *width as usize * *height as usize,
                }).sum();
                shown += (area > 0) as usize;
                None
            }),
            (1, Some(f)) => r.render_frame_incremental(&script, at, f).map(Some),
            _ => r.render_frame(&script, at).map(Some),
        };
        let took = start.elapsed();
        ensure!(took.as_secs() < 40, "rendering at {at} took {:.1} s", took.as_secs_f32());
        match res {
            Ok(Some(f)) => {
                ensure!(f.width() == w && f.height() == h && f.data().len() == (w * h * 4) as usize, "a frame of {}x{} and {} bytes", f.width(), f.height(), f.data().len());
                shown += f.data().iter().any(|b| *b != 0) as usize;
                last = Some(f);
            }
            Ok(None) => {}
            Err(e) => {
                t.label("refused");
                let _ = e.to_string();
            }
        }
    }
    t.nontrivial_if(shown > 0);
    Ok(())
}
