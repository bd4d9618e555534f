//! Generators of ASS documents: a model first, then its text. No dependency on the code under test.
use crate::T;

pub const STYLE_FIELDS: [&str; 23] = [
    "Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic",
    "Underline", "StrikeOut", "ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment",
    "MarginL", "MarginR", "MarginV", "Encoding",
];
pub const STYLE_EXTRA: [&str; 3] = ["MarginT", "MarginB", "RelativeTo"];
pub const EVENT_FIELDS: [&str; 10] = ["Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"];
pub const EVENT_EXTRA: [&str; 2] = ["MarginT", "MarginB"];
pub const EVENT_KINDS: [&str; 6] = ["Dialogue", "Comment", "Picture", "Sound", "Movie", "Command"];

/// Rows keep (field name as written in Format, value).
#[derive(Clone, Debug, PartialEq)]
pub struct MStyle {
    pub parent: Option<String>,
    pub vals: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MEvent {
    pub kind: &'static str,
    pub vals: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum MSection {
    Info(Vec<(String, String)>),
    Styles { format: Option<Vec<String>>, rows: Vec<MStyle> },
    Events { format: Option<Vec<String>>, rows: Vec<MEvent> },
    Fonts(Vec<(String, Vec<String>)>),
    Graphics(Vec<(String, Vec<String>)>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MScript {
    pub sections: Vec<MSection>,
}

impl MSection {
    pub fn style_cols(&self) -> Vec<String> {
        match self {
            MSection::Styles { format: Some(f), .. } => f.clone(),
            _ => STYLE_FIELDS.iter().map(|s| s.to_string()).collect(),
        }
    }
    pub fn event_cols(&self) -> Vec<String> {
        match self {
            MSection::Events { format: Some(f), .. } => f.clone(),
            _ => EVENT_FIELDS.iter().map(|s| s.to_string()).collect(),
        }
    }
}
/// Value of `name` in a row under `cols` (first column with that name, ignoring case), trimmed.
pub fn col<'a>(cols: &[String], vals: &'a [String], name: &str) -> Option<&'a str> {
    let other = match name {
        "OutlineColour" => "TertiaryColour",
        "Name" => "Actor",
        _ => name,
    };
    let at = |n: &str| cols.iter().position(|c| c.eq_ignore_ascii_case(n));
    at(name).or_else(|| at(other)).and_then(|i| vals.get(i)).map(|s| s.trim())
}

pub fn word(t: &mut T) -> String {
    t.pick(&["Default", "Alt", "Sign", "Top", "a", "Main style", "日本", "é", "x1", "Ünï", "0", "St-yle", "Default2"]).to_string()
}
/// A value with no comma, newline or leading/trailing blank.
pub fn atom(t: &mut T) -> String {
    match t.weighted(&[4, 3, 3, 2, 1]) {
        0 => t.pick(&["0", "1", "10", "-1", "100", "2.5", "20", "&H00FFFFFF", "&HFF0000&", "Arial", ""]).to_string(),
        1 => word(t),
        2 => t.range(-50, 500).to_string(),
        3 => t.string_of(6, &["a", "b", ":", ";", "[", "]", "{", "}", "\\", "é", "漢", "*", "#", "!", "=", "🎬", "\"", "\t", "\u{a0}"]).trim().to_string(),
        _ => t.string_of(12, &["a", "Z", "9", " ", ".", "-", "ß", "\u{301}", "\r"]).trim().to_string(),
    }
}
pub fn time_cs(t: &mut T) -> u32 {
    match t.weighted(&[4, 3, 1]) {
        0 => t.range(0, 30) as u32 * 100,
        1 => t.range(0, 400_000) as u32,
        _ => t.range(0, 36_000_000) as u32,
    }
}
pub fn fmt_time(cs: u32) -> String {
    format!("{}:{:02}:{:02}.{:02}", cs / 360_000, cs / 6000 % 60, cs / 100 % 60, cs % 100)
}
/// Override-tag text of moderate variety; balanced braces.
pub fn tag(t: &mut T) -> String {
    match t.us(16) {
        0 => t.pick(&["\\b1", "\\b0", "\\i1", "\\i0", "\\u1", "\\s1", "\\r", "\\rAlt"]).into(),
        1 => format!("\\fs{}", t.range(1, 80)),
        2 => format!("\\fn{}", t.pick(&["Arial", "DejaVu Sans", "Times New Roman"])),
        3 => format!("\\pos({},{})", t.range(-20, 700), t.range(-20, 500)),
        4 => format!("\\c&H{:06X}&", t.range(0, 0xFFFFFF)),
        5 => format!("\\{}c&H{:06X}&", t.range(1, 4), t.range(0, 0xFFFFFF)),
        6 => format!("\\alpha&H{:02X}&", t.range(0, 255)),
        7 => format!("\\an{}", t.range(1, 9)),
        8 => format!("\\fad({},{})", t.range(0, 900), t.range(0, 900)),
        9 => format!("\\t({},{},\\fs{})", t.range(0, 500), t.range(500, 1500), t.range(1, 90)),
        10 => format!("\\k{}", t.range(0, 200)),
        11 => format!("\\move({},{},{},{})", t.range(0, 640), t.range(0, 480), t.range(0, 640), t.range(0, 480)),
        12 => format!("\\bord{}", t.range(0, 5)),
        13 => format!("\\shad{}", t.range(0, 5)),
        14 => format!("\\blur{}", t.range(0, 4)),
        _ => format!("\\frz{}", t.range(-180, 180)),
    }
}
/// Dialogue text: no newline, no blank ends; may contain commas when `commas`.
pub fn text(t: &mut T, commas: bool) -> String {
    let n = t.len(6);
    let mut s = String::new();
    for _ in 0..n {
        match t.weighted(&[5, 3, 2, 1, 1]) {
            0 => s.push_str(t.pick(&["Hello", "world", "line", "a", "日本語", "Ça va", "?", "9", "🎬", "—"])),
            1 => {
                s.push('{');
                for _ in 0..t.span(1, 3) {
                    s.push_str(&tag(t));
                }
                s.push('}');
            }
            2 => s.push_str(t.pick(&["\\N", "\\n", "\\h", " "])),
            3 => s.push_str(t.pick(&[",", ", ", "a,b"])),
            _ => s.push_str(t.pick(&["{", "}", "\\", "[x]", ";", ":", "{comment}", "{}", "(", ")", "\t", "*"])),
        }
    }
    let s = if commas { s } else { s.replace(',', "") };
    s.trim().to_string()
}

fn recase(t: &mut T, s: &str) -> String {
    match t.weighted(&[8, 1, 1]) {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        _ => s.to_ascii_uppercase(),
    }
}
/// A Format line: a subset and permutation of the known fields plus unknown ones.
pub fn format_line(t: &mut T, base: &[&str], extra: &[&str], must: &[&str], text_last: bool) -> Vec<String> {
    let mut f: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    if t.chance(1, 2) {
        return f;
    }
    // drop some
    let drops = t.len(base.len() / 2);
    for _ in 0..drops {
        let i = t.us(f.len());
        if !must.contains(&f[i].as_str()) && f.len() > 1 {
            f.remove(i);
        }
    }
    for e in extra {
        if t.chance(1, 3) {
            let i = t.us(f.len() + 1);
            f.insert(i, e.to_string());
        }
    }
    if t.chance(1, 4) {
        let i = t.us(f.len() + 1);
        f.insert(i, t.pick(&["Bogus", "X-Custom", "Column9"]).to_string());
    }
    // permute
    let swaps = t.len(8);
    for _ in 0..swaps {
        let (a, b) = (t.us(f.len()), t.us(f.len()));
        f.swap(a, b);
    }
    if text_last {
        if let Some(i) = f.iter().position(|x| x == "Text") {
            let x = f.remove(i);
            f.push(x);
        }
    }
    f.iter().map(|s| recase(t, s)).collect()
}

/// Some columns have older names.
fn alias(t: &mut T, o: &Opts, mut f: Vec<String>, name: &str, older: &str) -> Vec<String> {
    if o.aliases && o.custom_formats && t.chance(1, 6) {
        for c in f.iter_mut().filter(|c| c.eq_ignore_ascii_case(name)) {
            *c = recase(t, older);
        }
    }
    f
}

pub struct Opts {
    pub max_rows: usize,
    pub parents: bool,
    /// At most one section of each kind.
    pub unique: bool,
    pub binary: bool,
    pub all_kinds: bool,
    pub custom_formats: bool,
    /// Put Text last, so that it may hold commas.
    pub text_last: bool,
    /// Name some columns by their older names.
    pub aliases: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { max_rows: 6, parents: true, unique: true, binary: true, all_kinds: true, custom_formats: true, text_last: true, aliases: false }
    }
}

pub fn style_vals(t: &mut T, cols: &[String]) -> Vec<String> {
    cols.iter()
        .enumerate()
        .map(|(i, c)| {
            let l = c.to_ascii_lowercase();
            let v = match l.as_str() {
                "name" => word(t),
                "fontname" => t.pick(&["Arial", "DejaVu Sans", "MS ゴシック", "Verdana"]).to_string(),
                "fontsize" => t.range(1, 100).to_string(),
                _ if l.ends_with("colour") => format!("&H{:08X}", t.range(0, 0xFFFF_FFFF)),
                "bold" | "italic" | "underline" | "strikeout" => t.pick(&["0", "-1", "1"]).to_string(),
                "scalex" | "scaley" => t.pick(&["100", "80", "120.5"]).to_string(),
                "alignment" => t.range(1, 9).to_string(),
                _ if l.starts_with("margin") => t.range(0, 200).to_string(),
                "encoding" => t.pick(&["1", "0", "128"]).to_string(),
                _ => atom(t),
            };
            // a first column starting with '*' is the inheritance marker
            if i == 0 { v.trim_start_matches(|c: char| c == '*' || c.is_whitespace()).to_string() } else { v }
        })
        .collect()
}
pub fn event_vals(t: &mut T, cols: &[String], styles: &[String]) -> Vec<String> {
    let n = cols.len();
    let start = time_cs(t);
    let dur = t.range(0, 1000) as u32;
    cols.iter()
        .enumerate()
        .map(|(i, c)| match c.to_ascii_lowercase().as_str() {
            "layer" => t.range(0, 5).to_string(),
            "start" => fmt_time(start),
            "end" => fmt_time(start + dur),
            "style" => {
                if !styles.is_empty() && t.chance(2, 3) {
                    t.pick_c(styles)
                } else {
                    word(t)
                }
            }
            "name" | "actor" => t.pick(&["", "Bob", "Алиса", "A;B"]).to_string(),
            "marginl" | "marginr" | "marginv" | "margint" | "marginb" => t.pick(&["0", "0000", "15", "200"]).to_string(),
            "effect" => t.pick(&["", "fx", "Banner;30;0", "Scroll up;0;100;10"]).to_string(),
            "text" => text(t, i + 1 == n),
            _ => atom(t),
        })
        .collect()
}
pub fn data_line(t: &mut T) -> String {
    // UU-looking data without lowercase; first character a plausible length
    let n = t.span(1, 45);
    let groups = n.div_ceil(3);
    let mut s = String::new();
    s.push((b' ' + n as u8) as char);
    for _ in 0..groups * 4 {
        s.push((b'!' + t.us(63) as u8) as char);
    }
    s
}

pub fn script(t: &mut T, o: &Opts) -> MScript {
    let mut secs = vec![];
    let mut kinds: Vec<u8> = vec![];
    if t.chance(9, 10) {
        kinds.push(0)
    }
    if t.chance(9, 10) {
        kinds.push(1)
    }
    if t.chance(19, 20) {
        kinds.push(2)
    }
    if o.binary {
        if t.chance(1, 4) {
            kinds.push(3)
        }
        if t.chance(1, 6) {
            kinds.push(4)
        }
    }
    if !o.unique && t.chance(1, 4) {
        let k = t.us(5) as u8;
        kinds.push(k);
    }
    if t.chance(1, 5) && kinds.len() > 1 {
        let (a, b) = (t.us(kinds.len()), t.us(kinds.len()));
        kinds.swap(a, b);
    }
    let mut names: Vec<String> = vec![];
    for k in kinds {
        secs.push(match k {
            0 => {
                let mut f: Vec<(String, String)> = vec![];
                for _ in 0..t.len(6) {
                    let k = t.pick(&["Title", "ScriptType", "WrapStyle", "PlayResX", "PlayResY", "ScaledBorderAndShadow", "Original Script", "LayoutResX", "LayoutResY", "YCbCr Matrix", "Custom Key"]);
                    let v = match k {
                        "ScriptType" => t.pick(&["v4.00+", "v4.00", "v4.00++"]).to_string(),
                        "PlayResX" | "PlayResY" | "LayoutResX" | "LayoutResY" => t.range(1, 4000).to_string(),
                        "WrapStyle" => t.range(0, 3).to_string(),
                        _ => {
                            let mut a = atom(t);
                            if t.chance(1, 3) {
                                a.push_str(": x,y");
                            }
                            a
                        }
                    };
                    f.push((k.to_string(), v));
                }
                MSection::Info(f)
            }
            1 => {
                let format: Option<Vec<String>> = if !t.chance(1, 12) {
                    Some(if o.custom_formats { format_line(t, &STYLE_FIELDS, &STYLE_EXTRA, &["Name"], false) } else { STYLE_FIELDS.iter().map(|s| s.to_string()).collect() })
                } else {
                    None
                };
                let format = format.map(|f| alias(t, o, f, "OutlineColour", "TertiaryColour"));
                let mut s = MSection::Styles { format, rows: vec![] };
                let cols = s.style_cols();
                let n = t.len(o.max_rows);
                if let MSection::Styles { rows, .. } = &mut s {
                    for _ in 0..n {
                        let vals = style_vals(t, &cols);
                        let parent = if o.parents && t.chance(1, 6) { Some(word(t)) } else { None };
                        if let Some(n) = col(&cols, &vals, "Name") {
                            names.push(n.to_string());
                        }
                        rows.push(MStyle { parent, vals });
                    }
                }
                s
            }
            2 => {
                let format: Option<Vec<String>> = if !t.chance(1, 12) {
                    Some(if o.custom_formats { format_line(t, &EVENT_FIELDS, &EVENT_EXTRA, &["Text", "Start", "End"], o.text_last) } else { EVENT_FIELDS.iter().map(|s| s.to_string()).collect() })
                } else {
                    None
                };
                let format = format.map(|f| alias(t, o, f, "Name", "Actor"));
                let mut s = MSection::Events { format, rows: vec![] };
                let cols = s.event_cols();
                let n = t.len(o.max_rows * 2);
                if let MSection::Events { rows, .. } = &mut s {
                    for _ in 0..n {
                        let kind = if o.all_kinds && t.chance(1, 4) { EVENT_KINDS[t.us(6)] } else { "Dialogue" };
                        rows.push(MEvent { kind, vals: event_vals(t, &cols, &names) });
                    }
                }
                s
            }
            k => {
                let mut v = vec![];
                for _ in 0..t.len(3) {
                    let name = t.pick(&["font.ttf", "Ärial.otf", "logo 1.png", "x"]).to_string();
                    let lines = t.vec(4, data_line);
                    v.push((name, lines));
                }
                if k == 3 { MSection::Fonts(v) } else { MSection::Graphics(v) }
            }
        });
    }
    MScript { sections: secs }
}

/// How the text of a document is laid out; all of it is insignificant to the model.
#[derive(Clone, Debug)]
pub struct Layout {
    pub nl: &'static str,
    pub bom: bool,
    pub noise: bool,
    pub final_nl: bool,
}
pub fn layout(t: &mut T) -> Layout {
    Layout { nl: if t.chance(1, 4) { "\r\n" } else { "\n" }, bom: t.chance(1, 8), noise: t.chance(1, 2), final_nl: !t.chance(1, 4) }
}
pub fn plain_layout() -> Layout {
    Layout { nl: "\n", bom: false, noise: false, final_nl: true }
}

/// One line of the rendered document, with what it stands for.
#[derive(Clone, Debug, PartialEq)]
pub enum Tag {
    Header(usize),
    Field(usize, usize),
    Format(usize),
    Style(usize, usize),
    Event(usize, usize),
    Entry(usize, usize),
    Data(usize, usize, usize),
    Noise,
}

fn noise(t: &mut T, l: &Layout, out: &mut Vec<(Tag, String)>, in_binary: bool) {
    if !l.noise || !t.chance(1, 5) {
        return;
    }
    let s = if in_binary { t.pick(&["", "  "]) } else { t.pick(&["", "; a comment", "  ", ";", "\t", "; [Events]", "; by: someone", ";Title: 0,1"]) };
    out.push((Tag::Noise, s.to_string()));
}

pub fn lines(t: &mut T, m: &MScript, l: &Layout) -> Vec<(Tag, String)> {
    let mut out: Vec<(Tag, String)> = vec![];
    for (si, s) in m.sections.iter().enumerate() {
        if si > 0 && t.chance(3, 4) {
            out.push((Tag::Noise, String::new()));
        }
        noise(t, l, &mut out, false);
        let pad = |t: &mut T, on: bool| if on && t.chance(1, 6) { t.pick(&[" ", "  ", "\t"]).to_string() } else { String::new() };
        let h = match s {
            MSection::Info(_) => "Script Info",
            MSection::Styles { .. } => *t.pick_c(&[&"V4+ Styles", &"V4 Styles", &"V4++ Styles"]),
            MSection::Events { .. } => "Events",
            MSection::Fonts(_) => "Fonts",
            MSection::Graphics(_) => "Graphics",
        };
        let lead = pad(t, l.noise);
        let trail = pad(t, l.noise);
        out.push((Tag::Header(si), format!("{lead}[{h}]{trail}")));
        let join = |t: &mut T, v: &[String], last_raw: bool| -> String {
            let mut s = String::new();
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                    if l.noise && !(last_raw && i + 1 == v.len()) && t.chance(1, 10) {
                        s.push(' ');
                    }
                }
                s.push_str(x);
                if l.noise && i + 1 < v.len() && t.chance(1, 14) {
                    s.push(' ');
                }
            }
            s
        };
        match s {
            MSection::Info(f) => {
                for (i, (k, v)) in f.iter().enumerate() {
                    noise(t, l, &mut out, false);
                    let sep = if l.noise { t.pick(&[": ", ":", " : ", ":\t"]) } else { ": " };
                    let lead = pad(t, l.noise);
                    out.push((Tag::Field(si, i), format!("{lead}{k}{sep}{v}")));
                }
            }
            MSection::Styles { format, rows } => {
                if let Some(f) = format {
                    noise(t, l, &mut out, false);
                    out.push((Tag::Format(si), format!("Format: {}", f.join(if l.noise && t.chance(1, 3) { "," } else { ", " }))));
                }
                for (i, r) in rows.iter().enumerate() {
                    noise(t, l, &mut out, false);
                    let p = r.parent.as_ref().map(|p| format!("*{p},")).unwrap_or_default();
                    let lead = pad(t, l.noise);
                    let body = join(t, &r.vals, false);
                    out.push((Tag::Style(si, i), format!("{lead}Style: {p}{body}")));
                }
            }
            MSection::Events { format, rows } => {
                if let Some(f) = format {
                    noise(t, l, &mut out, false);
                    out.push((Tag::Format(si), format!("Format: {}", f.join(if l.noise && t.chance(1, 3) { "," } else { ", " }))));
                }
                for (i, r) in rows.iter().enumerate() {
                    noise(t, l, &mut out, false);
                    let lead = pad(t, l.noise);
                    let body = join(t, &r.vals, true);
                    let sep = if l.noise && t.chance(1, 6) { ":" } else { ": " };
                    out.push((Tag::Event(si, i), format!("{lead}{}{sep}{body}", r.kind)));
                }
            }
            MSection::Fonts(v) | MSection::Graphics(v) => {
                let key = if matches!(s, MSection::Fonts(_)) { "fontname" } else { "filename" };
                for (i, (n, d)) in v.iter().enumerate() {
                    if i > 0 {
                        noise(t, l, &mut out, true);
                    }
                    out.push((Tag::Entry(si, i), format!("{key}: {n}")));
                    for (j, x) in d.iter().enumerate() {
                        out.push((Tag::Data(si, i, j), x.clone()));
                    }
                }
            }
        }
    }
    out
}
pub fn assemble(ls: &[(Tag, String)], l: &Layout) -> String {
    let mut s = String::new();
    if l.bom {
        s.push('\u{feff}');
    }
    for (i, (_, x)) in ls.iter().enumerate() {
        s.push_str(x);
        if i + 1 < ls.len() || l.final_nl {
            s.push_str(l.nl);
        }
    }
    s
}
/// Model, text of a random document.
pub fn document(t: &mut T, o: &Opts) -> (MScript, String) {
    let m = script(t, o);
    let l = layout(t);
    let ls = lines(t, &m, &l);
    let s = assemble(&ls, &l);
    (m, s)
}

/// Arbitrary, hostile text: fragments of the format, damaged lines, odd characters.
pub fn hostile(t: &mut T, max: usize) -> String {
    let mut s = String::new();
    let n = t.len(max);
    for _ in 0..n {
        match t.weighted(&[6, 4, 4, 3]) {
            0 => s.push_str(t.pick(&[
                "[Script Info]", "[V4+ Styles]", "[V4 Styles]", "[Events]", "[Fonts]", "[Graphics]", "[Aegisub Project Garbage]", "[", "]",
                "Format: ", "Style: ", "Dialogue: ", "Comment: ", "Format:", "Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text",
                "Name, Fontname, Fontsize", "Title: x", "ScriptType: v4.00+", "PlayResX: 640", "PlayResY: 480", "fontname: a.ttf", "filename: b.png", "Style: *Default,",
                "Dialogue: 0,0:00:00.00,0:00:05.00,Default,,0,0,0,,", "Dialogue: 0,0:00:05.00,0:00:01.00,Default,,0,0,0,,", "Style: Default,Arial,20,&H00FFFFFF,&H000000FF,&H00000000,&H80000000,0,0,0,0,100,100,0,0,1,2,2,2,10,10,10,1",
            ])),
            1 => s.push_str(t.pick(&["\n", "\r\n", "\n\n", "\r", " ", "\t", ",", ":", ";", "{", "}", "\\", "(", ")", "&", "&H", "*", "#", "!:", "!", "%", "-"])),
            2 => s.push_str(&tag_hostile(t)),
            _ => s.push_str(t.pick(&["é", "日", "🎬", "\u{feff}", "\u{0}", "\u{301}", "\u{a0}", "\u{2028}", "a", "0", "99999999999", "-1", "1e30", "NaN", "inf", "0:00:00.00", "9:99:99.99", "\u{85}", "\u{7f}", "\u{200d}", "ﷺ"])),
        }
    }
    s
}
pub fn tag_hostile(t: &mut T) -> String {
    let name = t.pick(&[
        "b", "i", "u", "s", "fn", "fs", "fscx", "fscy", "fsp", "frz", "frx", "fry", "fr", "fax", "fay", "c", "1c", "2c", "3c", "4c", "alpha", "1a", "2a", "3a", "4a", "an", "a", "k", "K", "kf", "ko", "kt", "q", "r", "pos", "move", "org", "fad", "fade", "t", "clip", "iclip", "p", "pbo", "bord", "xbord", "ybord", "shad", "xshad", "yshad", "be", "blur", "fe", "é", "", "xyz",
    ]);
    let arg = t.pick(&[
        "", "0", "1", "-1", "2.5", "1e9", "999999999999999999999", "-99999", "&HFF00FF&", "&HFF&", "&H&", "&", "&Hé0000&", "(1,2)", "(1,2,3,4)", "(1,2,3,4,5,6)", "(1,2,3,4,5,6,7)", "(", ")", "()", "(,)", "(1,2", "(m 0 0 l 10 0 10 10)", "(\\fs20)", "(0,100,\\fs20)", "(0,100,2,\\c&H0&\\fs20)", "(\\t(\\t(\\fs9)))", "Arial", "日本", "NaN", "inf", "1,2", " 3 ", "(1,m 0 0 l 1 1)", "+5", "0x10",
    ]);
    match t.us(4) {
        0 => format!("{{\\{name}{arg}}}"),
        1 => format!("\\{name}{arg}"),
        2 => format!("{{\\{name}{arg}"),
        _ => format!("{{\\{name}{arg}\\{name}}}text"),
    }
}
/// Damage a text: delete, duplicate, insert or overwrite characters.
pub fn mutate(t: &mut T, s: &str, max: usize) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..t.len(max) {
        let i = t.us(c.len() + 1);
        match t.us(4) {
            0 if i < c.len() => {
                let e = (i + 1 + t.len(20)).min(c.len());
                c.drain(i..e);
            }
            1 if i < c.len() => {
                let e = (i + 1 + t.len(20)).min(c.len());
                let d: Vec<char> = c[i..e].to_vec();
                c.splice(i..i, d);
            }
            2 => {
                let f: Vec<char> = hostile(t, 2).chars().collect();
                c.splice(i..i, f);
            }
            _ if i < c.len() => c[i] = t.pick_c(&['\n', ',', '{', '}', '\\', '[', ']', ':', 'é', '0', ' ', '日', '\r', '(', ')', '&', '*', ';', '!', '#']),
            _ => {}
        }
    }
    c.into_iter().collect()
}
