//! E18: highlighting and completion speak of the present text of the document.
use crate::doc::*;
use ass_core::parser::Section;
use ass_core::Script;
use ass_editor::extensions::builtin::auto_complete::*;
use ass_editor::extensions::builtin::syntax_highlight::*;
use ass_editor::extensions::*;
use ass_editor::*;
use std::collections::{BTreeSet, HashMap};
use vkit::*;

type Piece = (TokenType, String);
#[derive(Clone, Debug)]
struct Line {
    text: String,
    pieces: Vec<Piece>,
    nl: &'static str,
    /// The section from here on.
    section: Option<String>,
}
fn say(v: &mut Vec<Piece>, k: TokenType, s: &str) {
    let s = s.trim();
    if !s.is_empty() {
        v.push((k, s.to_string()));
    }
}
fn pad(t: &mut T) -> &'static str {
    t.pick_c(&["", "", "", " ", " ", "  ", "\t"])
}
fn phrase(t: &mut T) -> String {
    let n = t.us(4);
    t.string_of(n, &["a", "é", "日本", "🎬", " ", "x", "1", "\\N", "'", ":", "]"]).trim_matches(']').to_string()
}
/// The text field of an event.
fn talk(t: &mut T, tags: bool, v: &mut Vec<Piece>) -> String {
    use TokenType::*;
    let mut s = String::new();
    let mut text = String::new();
    let mut own = vec![];
    for _ in 0..t.len(4) {
        if t.chance(1, 2) {
            let p = format!("{}{}", phrase(t), t.pick(&["", ",", "}", ", "]));
            text += &p;
            s += &p;
        } else {
            say(&mut own, Text, &text);
            text.clear();
            s += "{";
            say(&mut own, OverrideTag, "{");
            if t.chance(1, 12) {
                // never closed
                let rest = format!("\\b1{}", phrase(t).replace('}', ""));
                s += &rest;
                own.pop();
                say(&mut own, Error, &format!("{{{rest}"));
                if tags {
                    v.extend(own);
                } else {
                    say(v, Text, &s);
                }
                return s;
            }
            for _ in 0..t.len(3) {
                let name = t.pick(&["b1", "pos", "c", "fnArial", "t", "an8", "fs", "é"]);
                let arg = t.pick(&["", "(1,2)", "&HFF&", "-2", " 3", "(", "("]);
                s += &format!("\\{name}{arg}");
                say(&mut own, OverrideTag, name);
                say(&mut own, TagParameter, arg);
            }
            s += "}";
            say(&mut own, OverrideTag, "}");
        }
    }
    say(&mut own, Text, &text);
    if tags {
        v.extend(own);
    } else {
        say(v, Text, &s);
    }
    s
}
const SECTIONS: [&str; 7] = ["Script Info", "V4+ Styles", "V4 Styles", "Events", "Aegisub Project Garbage", "Fonts", "My Own"];
fn line(t: &mut T, section: &Option<String>, tags: bool) -> Line {
    use TokenType::*;
    let mut v = vec![];
    let mut now = section.clone();
    let text = match t.weighted(&[2, 1, 1, 9]) {
        0 => {
            let n = t.pick(&SECTIONS);
            now = Some(n.to_string());
            say(&mut v, SectionHeader, &format!("[{n}]"));
            format!("[{n}]")
        }
        1 => {
            let s = format!(";{}", phrase(t));
            say(&mut v, Comment, &s);
            s
        }
        2 => String::new(),
        _ => match section.as_deref() {
            None => "stray".into(),
            Some("Script Info" | "Aegisub Project Garbage") => {
                let k = t.pick(&["Title", "PlayResX", "Ключ"]);
                let val = phrase(t);
                say(&mut v, FieldName, &format!("{k}:"));
                say(&mut v, FieldValue, &val);
                format!("{k}:{}{val}", pad(t))
            }
            Some("V4+ Styles" | "V4 Styles") => {
                if t.chance(1, 3) {
                    say(&mut v, FieldName, "Format:");
                    say(&mut v, FieldValue, "Name, Fontname, Fontsize");
                    format!("Format:{}Name, Fontname, Fontsize", pad(t))
                } else {
                    let n = t.pick(&["Default", "Ünï", "日本", "A b"]);
                    say(&mut v, FieldName, "Style:");
                    say(&mut v, StyleName, n);
                    let mut s = format!("Style:{}{n}{}", pad(t), pad(t));
                    for f in ["Arial", "20"] {
                        say(&mut v, FieldValue, f);
                        s += &format!(",{}{f}", pad(t));
                    }
                    s
                }
            }
            Some("Events") => {
                if t.chance(1, 5) {
                    say(&mut v, FieldName, "Format:");
                    say(&mut v, FieldValue, "Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text");
                    format!("Format:{}Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text", pad(t))
                } else {
                    let k = t.pick(&["Dialogue:", "Comment:"]);
                    say(&mut v, EventType, k);
                    let mut s = k.to_string();
                    let name = if t.chance(1, 2) { "" } else { "Bob é" };
                    for (i, f) in ["0", "0:00:01.00", "0:00:02.00", t.pick(&["Default", "日本"]), name, "0", "0", "", t.pick(&["", "Banner;1"])].into_iter().enumerate() {
                        let kind = match i {
                            1 | 2 => TimeCode,
                            3 => StyleName,
                            _ => FieldValue,
                        };
                        say(&mut v, kind, f);
                        s += &format!("{}{f}{},", pad(t), if t.chance(1, 8) { " " } else { "" });
                    }
                    s += &talk(t, tags, &mut v);
                    s
                }
            }
            Some(_) => {
                let s = format!("x{}", phrase(t));
                say(&mut v, Text, &s);
                s
            }
        },
    };
    Line { text, pieces: v, nl: t.pick_c(&["\n", "\n", "\n", "\r\n"]), section: now }
}
fn lines(t: &mut T, tags: bool) -> Vec<Line> {
    let mut v: Vec<Line> = vec![];
    for _ in 0..t.len(14) {
        let s = v.last().and_then(|l| l.section.clone());
        v.push(line(t, &s, tags));
    }
    v
}
fn join(ls: &[Line]) -> String {
    ls.iter().map(|l| format!("{}{}", l.text, l.nl)).collect()
}
/// Tokens lie in the text, one after another.
fn shape(text: &str, v: &[HighlightToken]) -> R {
    let mut at = 0;
    for k in v {
        let (a, b) = (k.range.start.offset, k.range.end.offset);
        ensure!(a <= b && b <= text.len(), "token {k:?} leaves the text of {} bytes", text.len());
        ensure!(text.is_char_boundary(a) && text.is_char_boundary(b), "token {k:?} cuts a character");
        ensure!(a == b || a >= at, "token {k:?} overlaps the one before, which ends at {at}");
        ensure!(!text[a..b].contains('\n'), "token {k:?} spans lines");
        at = at.max(b);
    }
    Ok(())
}
fn pieces(text: &str, v: &[HighlightToken]) -> Vec<Piece> {
    let mut o = vec![];
    for k in v {
        say(&mut o, k.token_type, &text[k.range.start.offset..k.range.end.offset]);
    }
    o
}
fn info(text: &str, v: &[HighlightToken]) -> R {
    for k in v {
        let s = text[k.range.start.offset..k.range.end.offset].trim();
        let want = match k.token_type {
            TokenType::SectionHeader => s[1..s.len() - 1].to_string(),
            TokenType::StyleName => s.to_string(),
            TokenType::FieldName | TokenType::EventType => s.trim_end_matches(':').to_string(),
            _ => continue,
        };
        ensure_eq!(k.semantic_info, Some(want), "what token {k:?} tells of {s:?}");
    }
    Ok(())
}
/// A highlighter with the settings of a manager.
fn highlighter(tags: bool, max: usize) -> std::result::Result<SyntaxHighlightExtension, String> {
    let mut e = SyntaxHighlightExtension::new();
    configure(&mut e, tags, max)?;
    Ok(e)
}
struct Silent<'a>(&'a HashMap<String, String>, Option<&'a EditorDocument>);
impl ExtensionContext for Silent<'_> {
    fn current_document(&self) -> Option<&EditorDocument> {
        self.1
    }
    fn current_document_mut(&mut self) -> Option<&mut EditorDocument> {
        None
    }
    fn send_event(&mut self, _: ass_editor::events::DocumentEvent) -> ass_editor::core::Result<()> {
        Ok(())
    }
    fn get_config(&self, k: &str) -> Option<String> {
        self.0.get(k).cloned()
    }
    fn set_config(&mut self, _: String, _: String) -> ass_editor::core::Result<()> {
        Ok(())
    }
    fn register_command(&mut self, _: ExtensionCommand) -> ass_editor::core::Result<()> {
        Ok(())
    }
    fn show_message(&mut self, _: &str, _: MessageLevel) -> ass_editor::core::Result<()> {
        Ok(())
    }
    fn get_extension_data(&self, _: &str, _: &str) -> Option<String> {
        None
    }
    fn set_extension_data(&mut self, _: String, _: String) -> ass_editor::core::Result<()> {
        Ok(())
    }
}
fn configure(e: &mut SyntaxHighlightExtension, tags: bool, max: usize) -> R {
    let m = HashMap::from([("syntax.highlight_tags".to_string(), tags.to_string()), ("syntax.max_tokens".to_string(), max.to_string())]);
    e.initialize(&mut Silent(&m, None)).map_err(|e| e.to_string())
}
/// Documents of known lines, edited by lines, under one highlighter.
pub fn highlight(t: &mut T) -> R {
    let mut tags = t.chance(4, 5);
    let mut e = highlighter(tags, 0)?;
    let mut docs = vec![];
    for _ in 0..t.span(1, 2) {
        let ls = lines(t, tags);
        docs.push((EditorDocument::from_content(&join(&ls)).map_err(|e| e.to_string())?, ls));
    }
    let mut log = vec![];
    let mut edits = 0;
    let mut most = 0;
    for step in 0..t.span(1, 6) {
        let k = t.us(docs.len());
        let (d, ls) = &mut docs[k];
        let text = join(ls);
        let r: R = (|| {
            ensure_eq!(d.text(), text, "text of document {k}");
            let got = e.tokenize_document(d).map_err(|e| e.to_string())?;
            shape(&text, &got)?;
            let want: Vec<Piece> = ls.iter().flat_map(|l| l.pieces.clone()).collect();
            ensure_eq!(pieces(&text, &got), want, "pieces of document {k}");
            info(&text, &got)?;
            most = most.max(want.len());
            if t.chance(1, 3) {
                let r = e.execute_command("syntax.get_tokens", &HashMap::new(), &mut Silent(&HashMap::new(), Some(d))).map_err(|e| e.to_string())?;
                ensure_eq!((r.success, r.data.get("token_count")), (true, Some(&got.len().to_string())), "count of tokens told by the command");
            }
            Ok(())
        })();
        if let Err(m) = r {
            t.input("text", &text);
            t.input_dbg("steps", &log);
            return Err(format!("step {step}: {m}"));
        }
        match t.weighted(&[4, 2, 1, 1]) {
            0 => {
                // put lines in or exchange one: sections of those that follow must stay
                let i = t.us(ls.len() + 1);
                let before = if i == 0 { None } else { ls[i - 1].section.clone() };
                let mut l = line(t, &before, tags);
                while l.section != before {
                    l = line(t, &before, tags);
                }
                let at = join(&ls[..i]).len();
                let new = format!("{}{}", l.text, l.nl);
                log.push(format!("insert {new:?} at {at} of {k}"));
                d.insert(Position::new(at), &new).map_err(|e| e.to_string())?;
                ls.insert(i, l);
                edits += 1;
            }
            1 if !ls.is_empty() => {
                let i = t.us(ls.len());
                let before = if i == 0 { None } else { ls[i - 1].section.clone() };
                if ls[i].section == before {
                    let at = join(&ls[..i]).len();
                    let end = at + ls[i].text.len() + ls[i].nl.len();
                    log.push(format!("delete {at}..{end} of {k}"));
                    d.delete(rng(at, end)).map_err(|e| e.to_string())?;
                    ls.remove(i);
                    edits += 1;
                }
            }
            2 => {
                e.invalidate_document(d.id());
                log.push(format!("invalidate {k}"));
            }
            3 => {
                // the same lines under other settings: text is one piece, or all tags are pieces
                if docs.iter().all(|(_, ls)| ls.iter().all(|l| !l.text.contains('{'))) {
                    tags = !tags;
                    configure(&mut e, tags, 0)?;
                    log.push(format!("highlight tags: {tags}"));
                }
            }
            _ => {}
        }
    }
    t.input_dbg("lines", &docs.iter().map(|d| d.1.iter().map(|l| l.text.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
    t.input_dbg("steps", &log);
    t.nontrivial_if(edits > 0 && most > 4);
    Ok(())
}
/// Any text at all: tokens lie in the present text, and are those a new highlighter gives.
pub fn anything(t: &mut T) -> R {
    let start = start_text(t);
    t.input("text", &start);
    let mut d = EditorDocument::from_content(&start).map_err(|e| e.to_string())?;
    let (mut tags, mut max) = (t.chance(2, 3), t.pick_c(&[0usize, 0, 1, 3, 10]));
    let mut e = highlighter(tags, max)?;
    let mut log = vec![];
    let mut edits = 0;
    let mut most = 0;
    for step in 0..t.span(1, 5) {
        let text = d.text();
        let r: R = (|| {
            let got = e.tokenize_document(&d).map_err(|e| e.to_string())?;
            shape(&text, &got)?;
            let fresh = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
            let all = highlighter(tags, 0)?.tokenize_document(&fresh).map_err(|e| e.to_string())?;
            most = most.max(all.len());
            ensure!(got.len() <= all.len() && got[..] == all[..got.len()], "tokens differ from those of a new highlighter: {got:?}, not {all:?}");
            ensure!(got.len() == all.len() || max > 0 && got.len() >= max, "only {} tokens of {} with a limit of {max}", got.len(), all.len());
            Ok(())
        })();
        if let Err(m) = r {
            t.input_dbg("steps", &log);
            return Err(format!("step {step}: {m}"));
        }
        let was = d.text();
        match t.weighted(&[3, 1, 1, 1, 1]) {
            0 => {
                let at = good_off(t, &was);
                let x = some_text(t);
                let ok = d.insert(Position::new(at), &x).is_ok();
                log.push(format!("insert {x:?} at {at}: {ok}"));
            }
            1 => {
                let (a, b) = good_range(t, &was);
                let ok = d.delete(rng(a, b)).is_ok();
                log.push(format!("delete {a}..{b}: {ok}"));
            }
            2 => log.push(format!("undo: {}", d.undo().is_ok())),
            3 => {
                // a change that keeps the length
                if let Some(i) = was.find('a') {
                    let ok = d.replace(rng(i, i + 1), t.pick(&["b", "{", ";", ","])).is_ok();
                    log.push(format!("replace a letter at {i}: {ok}"));
                }
            }
            _ => {
                tags = t.chance(2, 3);
                max = t.pick_c(&[0usize, 0, 1, 3, 10]);
                configure(&mut e, tags, max)?;
                log.push(format!("highlight tags: {tags}, limit: {max}"));
            }
        }
        edits += usize::from(d.text() != was);
    }
    t.input_dbg("steps", &log);
    t.nontrivial_if(edits > 0 && most > 2);
    Ok(())
}

const INFO: [&str; 8] = ["Title:", "ScriptType:", "Collisions:", "PlayResX:", "PlayResY:", "Timer:", "WrapStyle:", "ScaledBorderAndShadow:"];
const STYLE: [&str; 2] = ["Format:", "Style:"];
const EVENT: [&str; 3] = ["Format:", "Dialogue:", "Comment:"];
const TAGS: [&str; 32] = [
    "b", "i", "u", "s", "bord", "shad", "be", "fn", "fs", "fscx", "fscy", "fsp", "frx", "fry", "frz", "c", "1c", "2c", "3c", "4c", "alpha", "an", "k", "kf", "q", "r", "pos", "move", "org", "fad", "t", "clip",
];
const HEADS: [&str; 6] = ["[Script Info]", "[V4+ Styles]", "[V4 Styles]", "[Events]", "[Fonts]", "[Graphics]"];
/// What is offered at a point fits what is typed there, and nothing that fits is missing.
pub fn complete(t: &mut T) -> R {
    let (fields, styles, tags) = (t.chance(4, 5), t.chance(4, 5), t.chance(4, 5));
    let max = t.pick_c(&[0usize, 1, 3, 20, 100, 100, 100]);
    let m: HashMap<String, String> = HashMap::from([
        ("autocomplete.complete_fields".to_string(), fields.to_string()),
        ("autocomplete.complete_styles".to_string(), styles.to_string()),
        ("autocomplete.complete_tags".to_string(), tags.to_string()),
        ("autocomplete.max_suggestions".to_string(), max.to_string()),
    ]);
    let mut e = AutoCompleteExtension::new();
    e.initialize(&mut Silent(&m, None)).map_err(|e| e.to_string())?;
    let mut some = 0;
    for _ in 0..t.span(1, 3) {
        let text = match t.us(6) {
            0 => start_text(t),
            _ => {
                let mut ls = lines(t, true);
                for _ in 0..t.len(3) {
                    // something being typed
                    let i = t.us(ls.len() + 1);
                    let full = t.pick(&["Title: x", "PlayResY", "Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,{\\pos(1,2)\\fs}é\\N{\\an8}日{\\", "Style: x", "[Events]", "[v4+ styles]", "Comment: 1,0:00:01.00,0:00:02.00,", "ScriptType", "{\\fscx\\k"]);
                    let mut n = t.us(full.len() + 1);
                    while !full.is_char_boundary(n) {
                        n -= 1;
                    }
                    ls.insert(i, Line { text: full[..n].into(), pieces: vec![], nl: t.pick_c(&["\n", "\r\n"]), section: None });
                }
                let mut s = join(&ls);
                if t.chance(1, 2) {
                    while s.ends_with(['\n', '\r']) {
                        s.pop();
                    }
                }
                s
            }
        };
        t.input("text", &text);
        let d = EditorDocument::from_content(&text).map_err(|e| e.to_string())?;
        for _ in 0..t.span(1, 4) {
            let at = match t.us(4) {
                0 => {
                    let v: Vec<usize> = text.match_indices(['\n', '\r', '{', '\\', ',']).flat_map(|x| [x.0, x.0 + 1]).chain([0, text.len()]).collect();
                    t.pick_c(&v)
                }
                1 => t.us(text.len() + 3),
                _ => good_off(t, &text),
            };
            t.input_dbg("point", &at);
            let got = e.get_completions(&d, Position::new(at));
            if !text.is_char_boundary(at) {
                // refused or moved to a character near by
                if let Ok(v) = got {
                    ensure!(v.len() <= max, "{} completions at {at}, at most {max} wanted", v.len());
                }
                continue;
            }
            let got = got.map_err(|e| format!("completing at {at}: {e}"))?;
            ensure!(got.len() <= max, "{} completions at {at}, at most {max} wanted", got.len());
            let line_at = text[..at].rfind('\n').map_or(0, |i| i + 1);
            let line = text[line_at..].split('\n').next().unwrap();
            let line = line.strip_suffix('\r').unwrap_or(line);
            let before = &line[..(at - line_at).min(line.len())];
            let section = text[..line_at].lines().rev().find(|l| l.len() > 1 && l.starts_with('[') && l.ends_with(']')).map(|l| &l[1..l.len() - 1]);
            let open = before.rfind('{').filter(|i| !before[*i..].contains('}'));
            // sections
            let heads = line.is_empty() || line.starts_with('[');
            let typed = before.strip_prefix('[').unwrap_or("").to_lowercase();
            let mut must: Vec<(CompletionType, String)> = vec![];
            if heads {
                must.extend(HEADS.iter().filter(|h| h[1..].to_lowercase().starts_with(&typed)).map(|h| (CompletionType::Section, h.to_string())));
            }
            // fields
            let names: &[&str] = match section {
                Some("Script Info") => &INFO,
                Some("V4+ Styles" | "V4 Styles") => &STYLE,
                Some("Events") => &EVENT,
                _ => &[],
            };
            let whole = line.trim_start().to_lowercase();
            let part = before.trim_start().to_lowercase();
            if fields && open.is_none() {
                must.extend(names.iter().filter(|n| n.to_lowercase().starts_with(&whole)).map(|h| (CompletionType::Field, h.to_string())));
            }
            // tags
            let tag = open.map(|i| {
                let b = &before[i + 1..];
                let b = b.rfind('\\').map_or("", |j| &b[j + 1..]);
                b.split(|c: char| !c.is_alphanumeric()).next().unwrap()
            });
            if let (Some(p), true) = (tag, tags) {
                must.extend(TAGS.iter().filter(|n| n.starts_with(p)).map(|n| (CompletionType::Tag, format!("\\{n}"))));
            }
            // style names
            let starts = line.trim_start();
            let named = section == Some("Events") && (starts.starts_with("Dialogue:") || starts.starts_with("Comment:")) && before.matches(',').count() == 3;
            let mut known = vec![];
            if let Ok(s) = Script::parse(&text) {
                for x in s.sections() {
                    if let Section::Styles(v) = x {
                        known.extend(v.iter().map(|x| x.name.to_string()));
                    }
                }
            }
            if named && styles {
                must.extend(known.iter().map(|n| (CompletionType::StyleRef, n.clone())));
            }
            // nothing unfit
            for c in &got {
                let ok = match c.completion_type {
                    CompletionType::Section => heads && c.label.starts_with('[') && c.label[1..].to_lowercase().starts_with(&typed),
                    CompletionType::Field => fields && open.is_none() && !names.is_empty() && (c.label.to_lowercase().starts_with(&whole) || c.label.to_lowercase().starts_with(&part)),
                    CompletionType::Tag => tags && tag.is_some_and(|p| c.label.strip_prefix('\\').is_some_and(|l| l.starts_with(p))) && c.insert_text.starts_with(&c.label),
                    CompletionType::StyleRef => styles && named && known.contains(&c.label) && c.insert_text == c.label,
                    _ => true,
                };
                ensure!(ok, "at {at} of line {line:?} in {section:?}: {c:?} is offered");
            }
            ensure!(got.windows(2).all(|w| w[0].sort_order <= w[1].sort_order), "completions at {at} are out of order: {got:?}");
            if got.len() < max {
                let have: BTreeSet<(String, String)> = got.iter().map(|c| (format!("{:?}", c.completion_type), c.label.clone())).collect();
                for (k, l) in &must {
                    ensure!(have.contains(&(format!("{k:?}"), l.clone())), "at {at} of line {line:?} in {section:?}: {l:?} is not offered, only {have:?}");
                }
            } else {
                ensure!(got.len() == max, "more completions than wanted");
            }
            some += usize::from(!must.is_empty());
            if t.chance(1, 4) {
                let args = HashMap::from([("position".to_string(), at.to_string())]);
                let r = e.execute_command("autocomplete.trigger", &args, &mut Silent(&m, Some(&d))).map_err(|e| e.to_string())?;
                ensure!(r.success, "the command fails: {r:?}");
                for (i, c) in got.iter().take(10).enumerate() {
                    ensure_eq!(r.data.get(&format!("completion_{i}")), Some(&c.insert_text), "completion {i} of the command");
                }
                ensure_eq!(r.data.len(), got.len().min(10), "completions of the command");
            }
        }
    }
    t.nontrivial_if(some > 1);
    Ok(())
}
