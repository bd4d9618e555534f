//! E11: built lines parse back to the values they were built from.
use ass_core::parser::ast::{Event, EventType, Section, Style};
use ass_core::{Script, ScriptVersion};
use ass_editor::*;
use std::collections::BTreeMap;
use vkit::*;

const EV: [&str; 12] = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "MarginT", "MarginB", "Effect", "Text"];
const ST: [&str; 27] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR",
    "MarginV", "MarginT", "MarginB", "Encoding", "AlphaLevel", "RelativeTo",
];
fn ev_get<'a>(e: &Event<'a>, c: &str) -> &'a str {
    match c {
        "Layer" => e.layer,
        "Start" => e.start,
        "End" => e.end,
        "Style" => e.style,
        "Name" => e.name,
        "MarginL" => e.margin_l,
        "MarginR" => e.margin_r,
        "MarginV" => e.margin_v,
        "MarginT" => e.margin_t.unwrap_or(""),
        "MarginB" => e.margin_b.unwrap_or(""),
        "Effect" => e.effect,
        _ => e.text,
    }
}
fn st_get<'a>(s: &Style<'a>, c: &str) -> &'a str {
    match c {
        "Name" => s.name,
        "Fontname" => s.fontname,
        "Fontsize" => s.fontsize,
        "PrimaryColour" => s.primary_colour,
        "SecondaryColour" => s.secondary_colour,
        "OutlineColour" => s.outline_colour,
        "BackColour" => s.back_colour,
        "Bold" => s.bold,
        "Italic" => s.italic,
        "Underline" => s.underline,
        "StrikeOut" => s.strikeout,
        "ScaleX" => s.scale_x,
        "ScaleY" => s.scale_y,
        "Spacing" => s.spacing,
        "Angle" => s.angle,
        "BorderStyle" => s.border_style,
        "Outline" => s.outline,
        "Shadow" => s.shadow,
        "Alignment" => s.alignment,
        "MarginL" => s.margin_l,
        "MarginR" => s.margin_r,
        "MarginV" => s.margin_v,
        "MarginT" => s.margin_t.unwrap_or(""),
        "MarginB" => s.margin_b.unwrap_or(""),
        "Encoding" => s.encoding,
        _ => s.relative_to.unwrap_or(""),
    }
}
/// A value any column can hold.
fn plain(t: &mut T) -> String {
    let n = t.us(4);
    let mut s = t.string_of(1 + n, &["a", "B", "7", "é", "日本", "-", ".", ":", "&H", "{\\b1}", "\\N", ";", "🎬", "=", "Dialogue:", "[x]", "\u{301}", "/", "Default"]);
    if t.chance(1, 5) {
        s = format!("x{} {s}", t.pick(&["", " ", "\t"]));
    }
    s.trim().to_string()
}
fn word(t: &mut T) -> String {
    if t.chance(1, 8) { String::new() } else { plain(t) }
}
fn num(t: &mut T) -> u32 {
    match t.us(4) {
        0 => t.pick_c(&[0, 1, u32::MAX, 100, 1 << 31]),
        1 => t.u(1 << 32) as u32,
        _ => t.us(300) as u32,
    }
}
fn float(t: &mut T) -> f32 {
    match t.us(4) {
        0 => t.pick_c(&[0.0, -0.5, 100.0, 0.1, 1e-7, 3.4e38, -1e20, 16777217.0]),
        1 => {
            let f = f32::from_bits(t.u(1 << 32) as u32);
            if f.is_finite() { f } else { 1.5 }
        }
        _ => t.range(-4000, 4000) as f32 / 16.0,
    }
}
fn time(t: &mut T) -> String {
    match t.us(6) {
        0 => word(t),
        1 => t.pick(&["0:00:00.00", "9:59:59.99"]).to_string(),
        _ => vkit::ass::fmt_time(t.us(400000) as u32),
    }
}
/// Columns in some order, the text mostly last.
fn columns(t: &mut T, all: &[&'static str], last: Option<&'static str>) -> Vec<&'static str> {
    let mut c: Vec<&str> = all.iter().copied().filter(|_| t.chance(3, 4)).collect();
    for i in (1..c.len()).rev() {
        if t.chance(1, 3) {
            let j = t.us(i + 1);
            c.swap(i, j);
        }
    }
    if let Some(l) = last {
        if t.chance(7, 8) {
            c.retain(|x| *x != l);
            c.push(l);
        }
    }
    c
}
fn version(t: &mut T) -> ScriptVersion {
    t.pick_c(&[ScriptVersion::SsaV4, ScriptVersion::AssV4, ScriptVersion::AssV4Plus])
}
pub fn events(t: &mut T) -> R {
    let mut want: BTreeMap<&str, String> = EV.iter().map(|c| (*c, "0".to_string())).collect();
    for (c, v) in [("Start", "0:00:00.00"), ("End", "0:00:05.00"), ("Style", "Default"), ("Name", ""), ("Effect", ""), ("Text", "")] {
        want.insert(c, v.into());
    }
    let way = t.us(3);
    let v = version(t);
    let std = ["Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
    let cols: Vec<&str> = match (way, v) {
        (2, _) => columns(t, &EV, Some("Text")),
        (1, ScriptVersion::SsaV4) => std::iter::once("Marked").chain(std).collect(),
        _ => std::iter::once("Layer").chain(std).collect(),
    };
    let (b, kind) = match t.us(3) {
        0 => (EventBuilder::new(), EventType::Dialogue),
        1 => (EventBuilder::dialogue(), EventType::Dialogue),
        _ => (EventBuilder::comment(), EventType::Comment),
    };
    let mut b = b;
    let steps = t.span(0, 16);
    let mut set = 0;
    for _ in 0..steps {
        let c = EV[t.us(12)];
        set += 1;
        let n = num(t);
        let s = match c {
            "Start" | "End" => time(t),
            "Text" if cols.last() == Some(&"Text") => {
                let s = format!("{},{}", plain(t), word(t));
                if t.chance(1, 2) { s.trim_end_matches(',').trim().to_string() } else { s }
            }
            "Layer" | "MarginL" | "MarginR" | "MarginV" | "MarginT" | "MarginB" => n.to_string(),
            _ => word(t),
        };
        b = match c {
            "Layer" => b.layer(n),
            "Start" => b.start_time(s.clone()),
            "End" => b.end_time(s.clone()),
            "Style" => b.style(s.clone()),
            "Name" => b.speaker(s.clone()),
            "MarginL" => b.margin_left(n),
            "MarginR" => b.margin_right(n),
            "MarginV" => b.margin_vertical(n),
            "MarginT" => b.margin_top(n),
            "MarginB" => b.margin_bottom(n),
            "Effect" => b.effect(s.clone()),
            _ => b.text(s.clone()),
        };
        want.insert(c, s);
    }
    t.input_dbg("builder", &b);
    let line = match way {
        0 => b.build(),
        1 => b.build_with_version(v),
        _ => {
            let mut f: Vec<&str> = cols.iter().map(|c| if *c == "Name" && t.chance(1, 3) { "Actor" } else { c }).collect();
            if t.chance(1, 12) {
                let at = t.us(f.len() + 1);
                f.insert(at, t.pick(&["Nope", "Fontsize", "Marked2", "Wörd"]));
                ensure!(b.build_with_format(&f).is_err(), "an unknown column was built: {f:?}");
                f.remove(at);
            }
            if f.is_empty() {
                ensure!(b.build_with_format(&f).is_err(), "a line without columns was built");
                return Ok(());
            }
            let once = b.build_with_format(&f);
            ensure_eq!(once.as_ref().ok().cloned(), b.build_with_format(&f).ok(), "the line built again");
            once
        }
    };
    let line = line.map_err(|e| format!("building failed: {e}"))?;
    ensure!(!line.contains(['\n', '\r']), "a line break in {line:?}");
    let head = match (way, v) {
        (1, ScriptVersion::SsaV4) => "v4.00",
        (1, ScriptVersion::AssV4Plus) => "v4.00++",
        _ => "v4.00+",
    };
    let doc = format!("[Script Info]\nScriptType: {head}\n\n[Events]\nFormat: {}\n{line}\n", cols.join(", "));
    t.input("document", &doc);
    t.nontrivial_if(set > 1 && cols.len() > 2);
    let sc = Script::parse(&doc).map_err(|e| e.to_string())?;
    ensure!(sc.issues().is_empty(), "issues: {:?}", sc.issues());
    let e = match sc.sections().last() {
        Some(Section::Events(v)) if v.len() == 1 => &v[0],
        o => return Err(format!("parsed as {o:?}")),
    };
    ensure_eq!(e.event_type, kind, "kind of event");
    for c in EV {
        let w = if cols.contains(&c) { want[c].as_str() } else { "" };
        ensure_eq!(ev_get(e, c), w, "column {c} of {line:?}");
    }
    Ok(())
}
pub fn styles(t: &mut T) -> R {
    let mut want: BTreeMap<&str, String> = [
        ("Name", "NewStyle"), ("Fontname", "Arial"), ("Fontsize", "20"), ("PrimaryColour", "&Hffffff"), ("SecondaryColour", "&Hff0000"), ("OutlineColour", "&H0"), ("BackColour", "&H0"), ("Bold", "0"), ("Italic", "0"), ("Underline", "0"), ("StrikeOut", "0"),
        ("ScaleX", "100"), ("ScaleY", "100"), ("Spacing", "0"), ("Angle", "0"), ("BorderStyle", "1"), ("Outline", "2"), ("Shadow", "0"), ("Alignment", "2"), ("MarginL", "10"), ("MarginR", "10"), ("MarginV", "10"), ("MarginT", "0"), ("MarginB", "0"),
        ("Encoding", "1"), ("AlphaLevel", "0"), ("RelativeTo", "0"),
    ]
    .into_iter()
    .map(|(a, b)| (a, b.to_string()))
    .collect();
    let mut b = if t.chance(1, 2) { StyleBuilder::new() } else { StyleBuilder::default_style() };
    let n = t.span(0, 30);
    for _ in 0..n {
        let c = ST[t.us(27)];
        let (s, n, f, y) = (word(t), num(t), float(t), t.chance(1, 2));
        let s = if s.starts_with('*') { "x".into() } else { s };
        b = match c {
            "Name" => b.name(&s),
            "Fontname" => b.font(&s),
            "Fontsize" => b.size(n),
            "PrimaryColour" => b.color(&s),
            "SecondaryColour" => b.secondary_color(&s),
            "OutlineColour" => b.outline_color(&s),
            "BackColour" => b.back_color(&s),
            "Bold" => b.bold(y),
            "Italic" => b.italic(y),
            "Underline" => b.underline(y),
            "StrikeOut" => b.strikeout(y),
            "ScaleX" => b.scale_x(f),
            "ScaleY" => b.scale_y(f),
            "Spacing" => b.spacing(f),
            "Angle" => b.angle(f),
            "BorderStyle" => b.border_style(n),
            "Outline" => b.outline(f),
            "Shadow" => b.shadow(f),
            "Alignment" => b.align(n),
            "MarginL" => b.margin_left(n),
            "MarginR" => b.margin_right(n),
            "MarginV" => b.margin_vertical(n),
            "MarginT" => b.margin_top(n),
            "MarginB" => b.margin_bottom(n),
            "Encoding" => b.encoding(n),
            "AlphaLevel" => b.alpha_level(n),
            _ => b.relative_to(&s),
        };
        let v = match c {
            "Name" | "Fontname" | "PrimaryColour" | "SecondaryColour" | "OutlineColour" | "BackColour" | "RelativeTo" => s,
            "Bold" | "Italic" | "Underline" | "StrikeOut" => if y { "-1" } else { "0" }.into(),
            "ScaleX" | "ScaleY" | "Spacing" | "Angle" | "Outline" | "Shadow" => format!("{f:?}"),
            _ => n.to_string(),
        };
        want.insert(c, v);
    }
    t.input_dbg("builder", &b);
    let v = version(t);
    let plus: Vec<&str> = ST.iter().copied().filter(|c| !["MarginT", "MarginB", "AlphaLevel", "RelativeTo"].contains(c)).collect();
    let way = t.us(3);
    // the columns, as the document names them
    let (cols, line): (Vec<&str>, _) = match (way, v) {
        (0, _) => (plus, b.clone().build()),
        (1, ScriptVersion::SsaV4) => (
            vec!["Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "TertiaryColour", "BackColour", "Bold", "Italic", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "AlphaLevel", "Encoding"],
            b.clone().build_with_version(v),
        ),
        (1, ScriptVersion::AssV4) => (plus, b.clone().build_with_version(v)),
        (1, ScriptVersion::AssV4Plus) => {
            let mut c = plus;
            let e = c.pop().unwrap();
            c.extend(["MarginT", "MarginB", e, "RelativeTo"]);
            (c, b.clone().build_with_version(v))
        }
        _ => {
            let mut c: Vec<&str> = columns(t, &ST, None);
            for x in c.iter_mut() {
                match *x {
                    "OutlineColour" if t.chance(1, 3) => *x = "TertiaryColour",
                    "StrikeOut" if t.chance(1, 3) => *x = "Strikeout",
                    _ => {}
                }
            }
            if t.chance(1, 12) {
                let at = t.us(c.len() + 1);
                c.insert(at, t.pick(&["Nope", "Text", "Layer", "Wörd"]));
                ensure!(b.build_with_format(&c).is_err(), "an unknown column was built: {c:?}");
                c.remove(at);
            }
            if c.is_empty() {
                ensure!(b.build_with_format(&c).is_err(), "a line without columns was built");
                return Ok(());
            }
            let l = b.build_with_format(&c);
            (c, l)
        }
    };
    let line = line.map_err(|e| format!("building failed: {e}"))?;
    let (head, sec) = match (way, v) {
        (1, ScriptVersion::SsaV4) => ("v4.00", "V4 Styles"),
        (1, ScriptVersion::AssV4Plus) => ("v4.00++", "V4++ Styles"),
        _ => ("v4.00+", "V4+ Styles"),
    };
    let doc = format!("[Script Info]\nScriptType: {head}\n\n[{sec}]\nFormat: {}\n{line}\n", cols.join(", "));
    t.input("document", &doc);
    t.nontrivial_if(n > 1 && cols.len() > 2);
    let sc = Script::parse(&doc).map_err(|e| e.to_string())?;
    ensure!(sc.issues().is_empty(), "issues: {:?}", sc.issues());
    let s = match sc.sections().last() {
        Some(Section::Styles(v)) if v.len() == 1 => &v[0],
        o => return Err(format!("parsed as {o:?}")),
    };
    ensure_eq!(s.parent, None, "parent");
    for c in ST {
        if c == "AlphaLevel" {
            continue;
        }
        let there = cols.iter().any(|x| x.eq_ignore_ascii_case(c) || (*x == "TertiaryColour" && c == "OutlineColour"));
        let (g, w) = (st_get(s, c), if there { want[c].as_str() } else { "" });
        if there && ["ScaleX", "ScaleY", "Spacing", "Angle", "Outline", "Shadow"].contains(&c) {
            ensure_eq!(g.parse::<f32>().ok(), w.parse::<f32>().ok(), "column {c} of {line:?}");
        } else {
            ensure_eq!(g, w, "column {c} of {line:?}");
        }
    }
    if let Some(i) = cols.iter().position(|c| *c == "AlphaLevel") {
        let body = line.strip_prefix("Style: ").ok_or("not a style line")?;
        ensure_eq!(body.split(',').nth(i), Some(want["AlphaLevel"].as_str()), "column AlphaLevel of {line:?}");
    }
    Ok(())
}
