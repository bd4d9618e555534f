//! E10: subtitle formats keep times and text.
use crate::rows::*;
use ass_editor::utils::formats::{self as uf, ConversionOptions, FormatConverter, SubtitleFormat};
use ass_editor::*;
use vkit::ass::*;
use vkit::*;

type Res<X> = std::result::Result<X, String>;

#[derive(Clone, Debug, PartialEq)]
enum P {
    Word(&'static str),
    /// b, i or u switched on or off.
    Tag(char, bool),
    /// A block that no format knows.
    Block(&'static str),
}
type Text = Vec<Vec<P>>;
#[derive(Clone, Debug)]
struct Cue {
    /// Milliseconds.
    start: u32,
    end: u32,
    text: Text,
}
const WORDS: [&str; 16] = ["Hello", "é", "日本", "a, b", "12", "- x", "(x)", "1:2", "NOTE this", "WEBVTT", "STYLE", "42", "Dialogue: x", "[Events]", "; x", "x.y"];
const BLOCKS: [&str; 7] = ["{\\pos(1,2)}", "{\\fnArial\\fs20}", "{\\k20}", "{\\an8}", "{\\c&HFF0000&}", "{\\b1\\i1}", "{\\fad(100,200)}"];

fn text(t: &mut T, blocks: bool) -> Text {
    (0..t.span(1, 3))
        .map(|_| {
            let mut v = vec![];
            for _ in 0..t.span(1, 4) {
                match t.us(5) {
                    0 => v.push(P::Tag(t.pick_c(&['b', 'i', 'u']), t.chance(1, 2))),
                    1 if blocks => v.push(P::Block(t.pick(&BLOCKS))),
                    _ => v.push(P::Word(t.pick(&WORDS))),
                }
            }
            if !v.iter().any(|p| matches!(p, P::Word(_))) {
                v.push(P::Word("x"));
            }
            v
        })
        .collect()
}
fn seen_line(l: &[P]) -> String {
    let s: String = l.iter().map(|p| if let P::Word(w) = p { w } else { "" }).collect();
    s.trim().to_string()
}
fn seen(x: &Text) -> Vec<String> {
    x.iter().map(|l| seen_line(l)).collect()
}
fn as_ass(x: &Text) -> String {
    let l: Vec<String> = x
        .iter()
        .map(|l| {
            l.iter()
                .map(|p| match p {
                    P::Word(w) => w.to_string(),
                    P::Tag(c, on) => format!("{{\\{c}{}}}", *on as u8),
                    P::Block(b) => b.to_string(),
                })
                .collect()
        })
        .collect();
    l.join("\\N")
}
/// The text with simple tags as markup, all other blocks left out.
fn as_html(x: &Text, tags: bool) -> Vec<String> {
    x.iter()
        .map(|l| {
            l.iter()
                .map(|p| match p {
                    P::Word(w) => w.to_string(),
                    P::Tag(c, on) if tags => format!("<{}{c}>", if *on { "" } else { "/" }),
                    _ => String::new(),
                })
                .collect::<String>()
        })
        .collect()
}
fn strip(s: &str, a: char, b: char) -> String {
    let mut o = String::new();
    let mut inside = false;
    for c in s.chars() {
        match c {
            _ if c == a => inside = true,
            _ if c == b && inside => inside = false,
            _ if !inside => o.push(c),
            _ => {}
        }
    }
    o
}
fn ms(s: &str, sep: char) -> Res<u32> {
    let bad = || format!("time {s:?} is not of the form HH:MM:SS{sep}mmm");
    let p: Vec<&str> = s.split(':').collect();
    ensure!(p.len() == 3 && p[0].len() >= 2 && p[1].len() == 2, "{}", bad());
    let (x, f) = p[2].split_once(sep).ok_or_else(bad)?;
    ensure!(x.len() == 2 && f.len() == 3 && [p[0], p[1], x, f].iter().all(|x| x.bytes().all(|b| b.is_ascii_digit())), "{}", bad());
    let n = |x: &str| x.parse::<u32>().map_err(|_| bad());
    Ok(n(p[0])? * 3_600_000 + n(p[1])? * 60_000 + n(x)? * 1000 + n(f)?)
}
fn clock(ms: u32, sep: char, hours: bool) -> String {
    let (h, m, s, f) = (ms / 3_600_000, ms / 60_000 % 60, ms / 1000 % 60, ms % 1000);
    if hours || h > 0 {
        format!("{h:02}:{m:02}:{s:02}{sep}{f:03}")
    } else {
        format!("{m:02}:{s:02}{sep}{f:03}")
    }
}
/// Start, end and lines of each cue; what a strict reader sees.
fn read(s: &str, vtt: bool, numbers: bool) -> Res<Vec<(u32, u32, Vec<String>)>> {
    let mut s = s;
    if vtt {
        s = s.strip_prefix("WEBVTT\n\n").ok_or("no WEBVTT header")?;
    }
    let mut v = vec![];
    for (k, b) in s.split("\n\n").filter(|b| !b.trim().is_empty()).enumerate() {
        let mut l = b.trim_matches('\n').lines();
        if numbers {
            let n = l.next().unwrap_or("");
            ensure_eq!(n, (k + 1).to_string(), "number of cue {k} in {s:?}");
        }
        let t = l.next().unwrap_or("");
        let (a, e) = t.split_once(" --> ").ok_or_else(|| format!("no times in {b:?}"))?;
        let e = e.split(' ').next().unwrap();
        let sep = if vtt { '.' } else { ',' };
        v.push((ms(a, sep)?, ms(e, sep)?, l.map(String::from).collect()));
    }
    Ok(v)
}
fn err<X>(x: std::result::Result<X, EditorError>, what: &str) -> Res<X> {
    x.map_err(|e| format!("{what} failed: {e}"))
}
/// Dialogue events of a document: times in centiseconds and visible lines.
fn events_of(s: &str) -> Res<Vec<(u32, u32, Vec<String>, String)>> {
    let d = EditorDocument::from_content(s).map_err(|e| format!("imported text is no document: {e}"))?;
    let r = d
        .parse_script_with(|s| {
            let mut v = vec![];
            for x in s.sections() {
                if let Section::Events(e) = x {
                    for e in e.iter() {
                        if e.event_type == EventType::Dialogue {
                            v.push((e.start_time_cs().ok(), e.end_time_cs().ok(), e.text.to_string()));
                        }
                    }
                }
            }
            v
        })
        .map_err(|e| format!("{e}"))?;
    r.into_iter()
        .map(|(a, b, x)| {
            let lines = strip(&x, '{', '}').split("\\N").map(|l| l.trim().to_string()).collect();
            Ok((a.ok_or("start is no time")?, b.ok_or("end is no time")?, lines, x))
        })
        .collect()
}
fn cues_match(got: &[(u32, u32, Vec<String>, String)], cues: &[Cue], what: &str) -> R {
    let g: Vec<_> = got.iter().map(|g| (g.0, g.1, g.2.clone())).collect();
    let w: Vec<_> = cues.iter().map(|c| (c.start / 10, c.end / 10, seen(&c.text))).collect();
    ensure_eq!(g.len(), w.len(), "{what}: cues; {g:?} for {w:?}");
    for (g, w) in g.iter().zip(&w) {
        ensure_eq!(g, w, "{what}: start, end (in centiseconds) and lines of a cue");
    }
    Ok(())
}
fn import(s: &str, f: SubtitleFormat, lib: bool) -> std::result::Result<(String, usize), EditorError> {
    if !lib {
        return FormatConverter::import(s, Some(f)).map(|x| (x, usize::MAX));
    }
    let o = FormatOptions::default();
    let (d, r) = match f {
        SubtitleFormat::SRT => formats::srt::SrtFormat::new().import_from_string(s, &o),
        SubtitleFormat::WebVTT => formats::webvtt::WebVttFormat::new().import_from_string(s, &o),
        _ => formats::ass::AssFormat::new().import_from_string(s, &o),
    }?;
    Ok((d.text(), r.lines_processed))
}
fn export(d: &EditorDocument, f: SubtitleFormat) -> std::result::Result<(String, usize), EditorError> {
    let o = FormatOptions::default();
    let (s, r) = match f {
        SubtitleFormat::SRT => formats::srt::SrtFormat::new().export_to_string(d, &o),
        SubtitleFormat::WebVTT => formats::webvtt::WebVttFormat::new().export_to_string(d, &o),
        _ => formats::ass::AssFormat::new().export_to_string(d, &o),
    }?;
    Ok((s, r.lines_processed))
}
/// A document whose dialogue lines hold known cues.
pub fn exports(t: &mut T) -> R {
    let o = Opts { parents: false, unique: false, ..Opts::default() };
    let Some((mut r, _)) = Rows::open(t, &o) else { return Ok(()) };
    let mut cues: Vec<Cue> = vec![];
    for l in r.events() {
        if ["Start", "End", "Text"].iter().any(|c| r.field(l, c).is_none()) {
            return Ok(());
        }
        let at = |t: &mut T| if t.chance(1, 10) { t.range(35_999_990, 36_000_100) as u32 } else { time_cs(t) };
        let c = Cue { start: at(t) * 10, end: at(t) * 10, text: text(t, true) };
        r.ls[l].s = r.with(l, &[("Start", &fmt_time(c.start / 10)), ("End", &fmt_time(c.end / 10)), ("Text", &as_ass(&c.text))]);
        if r.kind(l) == "Dialogue" {
            cues.push(c);
        }
    }
    let s = r.text();
    t.input("document", &s);
    let Ok(d) = EditorDocument::from_content(&s) else { return Ok(()) };
    t.nontrivial_if(cues.len() > 1);

    let lib = t.chance(1, 2);
    let vtt = t.chance(1, 2);
    let f = if vtt { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT };
    let strip_tags = !lib && t.chance(1, 3);
    let settings = !lib && vtt && t.chance(1, 3);
    let what = format!("export to {f:?} ({}, strip {strip_tags}, settings {settings})", if lib { "formats" } else { "utils" });
    t.input_dbg("op", &what);
    let out = if lib {
        let (s, n) = err(export(&d, f), &what)?;
        ensure_eq!(n, cues.len(), "{what}: entries reported");
        s
    } else {
        let o = ConversionOptions {
            strip_formatting: strip_tags,
            format_options: if settings { uf::FormatOptions::WebVTT { include_style_block: false, include_notes: false, use_cue_settings: true } } else { uf::FormatOptions::None },
            ..Default::default()
        };
        err(FormatConverter::export(&d, f, &o), &what)?
    };
    let got = read(&out, vtt, !vtt || lib)?;
    ensure_eq!(got.len(), cues.len(), "{what}: cues of {out:?}");
    for (g, c) in got.iter().zip(&cues) {
        ensure_eq!((g.0, g.1), (c.start, c.end), "{what}: times of a cue of {out:?}");
        let plain = !c.text.iter().flatten().any(|p| matches!(p, P::Block(_)));
        if !lib || plain {
            let w: Vec<String> = as_html(&c.text, !strip_tags).iter().map(|x| x.trim().to_string()).collect();
            let g: Vec<String> = g.2.iter().map(|x| x.trim().to_string()).collect();
            ensure_eq!(g, w, "{what}: text of a cue of {out:?}");
        }
        let g: Vec<String> = g.2.iter().map(|x| strip(x, '<', '>').trim().to_string()).collect();
        ensure_eq!(g, seen(&c.text), "{what}: visible text of a cue of {out:?}");
    }
    ensure_eq!(SubtitleFormat::from_content(&out), if vtt || !cues.is_empty() { if out.contains("[Events]") { SubtitleFormat::ASS } else { f } } else { SubtitleFormat::PlainText }, "{what}: format of {out:?}");
    // and back, through either importer
    let back_lib = t.chance(1, 2);
    let (back, n) = err(import(&out, f, back_lib), "importing it again")?;
    let got = events_of(&back)?;
    cues_match(&got, &cues, &format!("{what}, imported again ({})", if back_lib { "formats" } else { "utils" }))?;
    ensure!(n == usize::MAX || n == cues.len(), "{what}: {n} entries reported on import of {} cues", cues.len());
    if !strip_tags {
        for (g, c) in got.iter().zip(&cues) {
            if !c.text.iter().flatten().any(|p| matches!(p, P::Block(_))) {
                let w = as_ass(&c.text);
                let (a, b): (Vec<&str>, Vec<&str>) = (g.3.split("\\N").map(str::trim).collect(), w.split("\\N").map(str::trim).collect());
                ensure_eq!(a, b, "{what}: text of a cue after both conversions");
            }
        }
    }
    // the script itself
    let out = err(FormatConverter::export(&d, SubtitleFormat::ASS, &Default::default()), "export to ASS")?;
    ensure_eq!(out, s, "exported script");
    let (out, n) = err(export(&d, SubtitleFormat::ASS), "export to ASS")?;
    ensure_eq!(out, s, "exported script");
    ensure_eq!(n, s.lines().count(), "lines reported");
    let (back, n) = err(import(&out, SubtitleFormat::ASS, t.chance(1, 2)), "import of ASS")?;
    ensure_eq!(back, s, "imported script");
    ensure!(n == usize::MAX || n == s.lines().count(), "lines reported on import");
    let f = FormatOptions { preserve_formatting: false, ..Default::default() };
    let (norm, _) = err(formats::ass::AssFormat::new().export_to_string(&d, &f), "normalised export")?;
    let w = d.parse_script_with(|s| s.to_ass_string()).map_err(|e| format!("{e}"))?;
    ensure_eq!(norm, w, "normalised export");
    // dialogue as plain text
    let o = ConversionOptions { strip_formatting: true, ..Default::default() };
    let out = err(FormatConverter::export(&d, SubtitleFormat::PlainText, &o), "export to plain text")?;
    let w: Vec<String> = cues.iter().flat_map(|c| seen(&c.text)).collect();
    let g: Vec<String> = out.lines().map(|l| l.trim().to_string()).collect();
    ensure_eq!(g, w, "plain text");
    ensure_eq!(d.text(), s, "the exported document");
    Ok(())
}
/// A subtitle file as other programs write it.
fn file(t: &mut T, vtt: bool, lib: bool) -> (String, Vec<Cue>) {
    let nl = t.pick(&["\n", "\r\n"]);
    let mut s = String::new();
    if t.chance(1, 4) {
        s.push('\u{feff}');
    }
    let mut l: Vec<String> = vec![];
    if vtt {
        l.push(t.pick(&["WEBVTT", "WEBVTT - title", "WEBVTT"]).into());
        l.push(String::new());
        if t.chance(1, 4) {
            l.extend(["STYLE", "::cue {", "  color: red;", "}", ""].map(String::from));
        }
    }
    let n = t.us(5);
    let mut cues = vec![];
    for k in 0..n {
        if vtt && t.chance(1, 6) {
            l.extend(["NOTE a comment", "on two lines", ""].map(String::from));
        }
        if vtt && t.chance(1, 8) {
            l.extend(["NOTE", "a comment", ""].map(String::from));
        }
        let at = |t: &mut T| t.pick_c(&[0, 9, 10, 99, 1000, 59_999, 60_000, 3_599_999, 3_600_000, 36_000_010]) + t.us(3000) as u32;
        let c = Cue { start: at(t), end: at(t), text: text(t, false) };
        if !vtt {
            l.push((if t.chance(1, 4) { t.us(2000) } else { k + 1 }).to_string());
        } else if t.chance(1, 2) {
            l.push(t.pick(&["1", "intro", "7 - x", "cue"]).into());
        }
        let sep = if vtt { '.' } else { ',' };
        let short = vtt && t.chance(1, 3);
        let mut times = format!("{} --> {}", clock(c.start, sep, !short), clock(c.end, sep, !short));
        if vtt && t.chance(1, 3) {
            for _ in 0..t.span(1, 3) {
                times.push(' ');
                times.push_str(t.pick(&["line:50%", "position:20%", "align:center", "align:start", "line:-1", "size:80%", "line:0.5", "position:0.5", "vertical:rl"]));
            }
        }
        l.push(times);
        let wrap = t.us(6);
        for (i, x) in as_html(&c.text, true).into_iter().enumerate() {
            // markup without meaning for the text
            l.push(match wrap {
                0 if i == 0 && vtt => format!("<c.red>w</c>{x}"),
                1 if i == 0 && vtt => format!("<v Bob>w</v>{x}"),
                2 if i == 0 && vtt => format!("w<00:00:01.500>{x}"),
                0 if i == 0 => format!("<font color=\"#12EF34\">w</font>{x}"),
                1 if i == 0 => format!("<font face=\"Noto Sans\">w</font>{x}"),
                2 if i == 0 && !lib => format!("<font size=\"3\">w</font>{x}"),
                _ => x,
            });
        }
        let mut c = c;
        if wrap < 2 || (wrap == 2 && (vtt || !lib)) {
            c.text[0].insert(0, P::Word("w"));
        }
        cues.push(c);
        l.push(String::new());
        if t.chance(1, 6) {
            l.push(String::new());
        }
    }
    if t.chance(1, 2) {
        while l.last().is_some_and(|x| x.is_empty()) {
            l.pop();
        }
        s.push_str(&l.join(nl));
    } else {
        for x in l {
            s.push_str(&x);
            s.push_str(nl);
        }
    }
    (s, cues)
}
pub fn imports(t: &mut T) -> R {
    let vtt = t.chance(1, 2);
    let lib = t.chance(1, 2);
    let (s, cues) = file(t, vtt, lib);
    t.input("file", &s);
    t.nontrivial_if(cues.len() > 1);
    let f = if vtt { SubtitleFormat::WebVTT } else { SubtitleFormat::SRT };
    let what = format!("import of {f:?} ({})", if lib { "formats" } else { "utils" });
    t.input_dbg("op", &what);
    let (out, n) = err(import(&s, f, lib), &what)?;
    let got = events_of(&out)?;
    cues_match(&got, &cues, &what)?;
    ensure!(n == usize::MAX || n == cues.len(), "{what}: {n} entries reported for {} cues", cues.len());
    if !s.contains("[Events]") && (vtt || !cues.is_empty()) {
        ensure_eq!(SubtitleFormat::from_content(&s), f, "format of the file");
        let out = err(FormatConverter::import(&s, None), "import by content")?;
        cues_match(&events_of(&out)?, &cues, "import by content")?;
    }
    Ok(())
}
/// Plain text, damaged files, files on disk.
pub fn hostile(t: &mut T) -> R {
    let vtt = t.chance(1, 2);
    let (mut s, _) = file(t, vtt, false);
    for _ in 0..t.span(1, 4) {
        if s.is_empty() {
            break;
        }
        let bounds: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let (i, j) = (t.us(bounds.len()), t.us(bounds.len()));
        let (a, b) = (bounds[i.min(j)], bounds[i.max(j)]);
        match t.us(4) {
            0 => s.replace_range(a..bounds[(i.min(j) + t.us(12)).min(bounds.len() - 1)], ""),
            1 => s.replace_range(a..a, t.pick(&["-->", "\n", "\r", "{", "}", "<", ">", "<c.", "::", ",", ".", "é", "\0", "WEBVTT", "99999999999", " --> \n", "\\N", "<font color=\"#éééééé\">", "<v >", "-"])),
            2 => {
                s.truncate(a);
            }
            _ => {
                let p: String = s[a..b].chars().take(40).collect();
                let k = t.us(bounds.len());
                if s.is_char_boundary(bounds[k]) {
                    s.insert_str(bounds[k], &p);
                }
            }
        }
    }
    t.input("file", &s);
    t.nontrivial_if(s.contains("-->") && s.lines().count() > 2);
    for f in [SubtitleFormat::SRT, SubtitleFormat::WebVTT] {
        for lib in [false, true] {
            if let Ok((x, n)) = import(&s, f, lib) {
                let d = EditorDocument::from_content(&x).map_err(|e| format!("imported text is no document: {e}"))?;
                let c = d.events_count().map_err(|e| format!("{e}"))?;
                ensure!(n == usize::MAX || n == c, "{n} entries reported, {c} imported");
            }
        }
    }
    let _ = FormatConverter::import(&s, None);
    let _ = SubtitleFormat::from_content(&s);
    Ok(())
}
#[derive(Debug)]
struct Toy {
    info: FormatInfo,
    /// What it imports; what it writes.
    mark: String,
}
impl FormatImporter for Toy {
    fn format_info(&self) -> &FormatInfo {
        &self.info
    }
    fn import_from_reader(&self, r: &mut dyn std::io::Read, _: &FormatOptions) -> std::result::Result<(EditorDocument, FormatResult), EditorError> {
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| EditorError::IoError(e.to_string()))?;
        let d = EditorDocument::from_content(&format!("[Script Info]\nTitle: {}\n; {s}", self.mark))?;
        Ok((d, FormatResult::success(1)))
    }
}
impl FormatExporter for Toy {
    fn format_info(&self) -> &FormatInfo {
        &self.info
    }
    fn export_to_writer(&self, d: &EditorDocument, w: &mut dyn std::io::Write, _: &FormatOptions) -> std::result::Result<FormatResult, EditorError> {
        write!(w, "{}:{}", self.mark, d.text().len()).map_err(|e| EditorError::IoError(e.to_string()))?;
        Ok(FormatResult::success(1))
    }
}
impl Format for Toy {
    fn as_importer(&self) -> &dyn FormatImporter {
        self
    }
    fn as_exporter(&self) -> &dyn FormatExporter {
        self
    }
}
struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Formats registered under names, found by the ending of a file.
pub fn registry(t: &mut T) -> R {
    use std::collections::BTreeMap;
    let exts = ["srt", "vtt", "ass", "ssa", "sub", "TXT", "x"];
    let mut reg = FormatRegistry::new();
    // name → endings, mark
    let mut model: [BTreeMap<String, (Vec<String>, String)>; 3] = Default::default();
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut dir: Option<Scratch> = None;
    let mut log = vec![];
    for step in 0..t.span(2, 12) {
        if t.chance(1, 2) {
            let mark = format!("m{step}");
            let toy = Toy {
                info: FormatInfo {
                    name: t.pick(&["A", "B", "a", ""]).to_string(),
                    extensions: (0..t.span(0, 3)).map(|_| t.pick(&exts).to_string()).collect(),
                    mime_type: String::new(),
                    description: String::new(),
                    supports_styling: t.chance(1, 2),
                    supports_positioning: false,
                },
                mark: mark.clone(),
            };
            let k = t.us(3);
            log.push(format!("register {} {:?} {:?} {mark}", ["importer", "exporter", "format"][k], toy.info.name, toy.info.extensions));
            model[k].insert(toy.info.name.clone(), (toy.info.extensions.clone(), mark));
            match k {
                0 => reg.register_importer(Box::new(toy)),
                1 => reg.register_exporter(Box::new(toy)),
                _ => reg.register_format(Box::new(toy)),
            }
            t.input_dbg("steps", &log);
        }
        let ext: String = {
            let e: &str = t.pick(&exts);
            match t.us(4) {
                0 => e.to_uppercase(),
                1 => e.to_lowercase(),
                2 => format!("{e}{}", t.pick(&["x", " ", "."])),
                _ => e.to_string(),
            }
        };
        // whoever may answer: those with the ending
        let able = |k: usize| -> Vec<&(Vec<String>, String)> { [k, 2].iter().flat_map(|k| model[*k].values()).filter(|(e, _)| e.iter().any(|e| e.eq_ignore_ascii_case(&ext))).collect() };
        let (imp, exp) = (able(0), able(1));
        t.nontrivial_if(imp.len() + exp.len() > 1);
        match reg.find_importer(&ext) {
            None => ensure!(imp.is_empty(), "no importer for {ext:?} found: {log:?}"),
            Some(f) => {
                let o = FormatOptions::default();
                let (d, _) = err(f.import_from_string("q", &o), "toy import")?;
                ensure!(imp.iter().any(|(_, m)| d.text().contains(&format!("Title: {m}\n"))), "importer for {ext:?} is {:?}: {log:?}", f.format_info());
            }
        }
        let doc = EditorDocument::from_content("[Script Info]\nTitle: é\n").map_err(|e| e.to_string())?;
        match reg.find_exporter(&ext) {
            None => ensure!(exp.is_empty(), "no exporter for {ext:?} found: {log:?}"),
            Some(f) => {
                let (s, _) = err(f.export_to_string(&doc, &FormatOptions::default()), "toy export")?;
                ensure!(exp.iter().any(|(_, m)| s == format!("{m}:{}", doc.text().len())), "exporter for {ext:?} wrote {s:?}: {log:?}");
            }
        }
        let all = |k: usize| {
            let mut v: Vec<String> = [k, 2].iter().flat_map(|k| model[*k].values()).flat_map(|(e, _)| e.clone()).collect();
            v.sort();
            v.dedup();
            v
        };
        ensure_eq!(reg.supported_import_extensions(), all(0), "endings that can be imported after {log:?}");
        ensure_eq!(reg.supported_export_extensions(), all(1), "endings that can be exported after {log:?}");
        if t.chance(1, 32) {
            let dir = &dir.get_or_insert_with(|| {
                let p = std::env::temp_dir().join(format!("vh-fmt-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
                let _ = std::fs::create_dir_all(&p);
                Scratch(p)
            }).0;
            let none = t.chance(1, 8);
            let path = dir.join(if none { "plain".to_string() } else { format!("f.{}.{ext}", step) });
            // ending of the file as paths see it
            let end = path.extension().and_then(|e| e.to_str()).unwrap_or("").to_string();
            let able = |k: usize| -> Vec<&(Vec<String>, String)> { [k, 2].iter().flat_map(|k| model[*k].values()).filter(|(e, _)| !end.is_empty() && e.iter().any(|e| e.eq_ignore_ascii_case(&end))).collect() };
            match reg.export_file(&doc, &path, None) {
                Ok(_) => {
                    let s = std::fs::read_to_string(&path).map_err(|e| format!("exported file: {e}"))?;
                    ensure!(able(1).iter().any(|(_, m)| s == format!("{m}:{}", doc.text().len())), "file {path:?} holds {s:?}: {log:?}");
                }
                Err(e) => {
                    ensure!(able(1).is_empty(), "export to {path:?} failed: {e}; {log:?}");
                    ensure!(!path.exists(), "a file {path:?} that nobody can write was made");
                }
            }
            std::fs::write(&path, "body é").map_err(|e| e.to_string())?;
            match reg.import_file(&path, Some(&FormatOptions::default())) {
                Ok((d, _)) => {
                    let s = d.text();
                    ensure!(s.ends_with("body é") && able(0).iter().any(|(_, m)| s.contains(&format!("Title: {m}\n"))), "{path:?} was imported as {s:?}: {log:?}");
                }
                Err(e) => ensure!(able(0).is_empty(), "import of {path:?} failed: {e}; {log:?}"),
            }
            let _ = std::fs::remove_file(&path);
            ensure!(reg.import_file(&path, None).is_err(), "a file that is not there was imported");
        }
    }
    Ok(())
}
