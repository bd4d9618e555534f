//! C19: the plugin registry, the built-in handlers, and what analysis and parsing make of them.
use crate::ana::{line, tag_cost};
use ass_core::analysis::events::*;
use ass_core::plugin::sections::create_aegisub_processors;
use ass_core::plugin::tags::*;
use ass_core::plugin::*;
use ass_core::Script;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vkit::*;

type Calls = Arc<Mutex<Vec<(usize, String)>>>;
struct Tag {
    name: &'static str,
    id: usize,
    kind: usize,
    calls: Calls,
}
fn tag_result(kind: usize, id: usize) -> TagResult {
    match kind {
        0 => TagResult::Processed,
        1 => TagResult::Failed(format!("handler {id}")),
        _ => TagResult::Ignored,
    }
}
impl TagHandler for Tag {
    fn name(&self) -> &'static str {
        self.name
    }
    fn process(&self, args: &str) -> TagResult {
        self.calls.lock().unwrap().push((self.id, args.to_string()));
        tag_result(self.kind, self.id)
    }
}
struct Sec {
    name: &'static str,
    id: usize,
    kind: usize,
    calls: Calls,
}
fn sec_result(kind: usize, id: usize) -> SectionResult {
    match kind {
        0 => SectionResult::Processed,
        1 => SectionResult::Failed(format!("processor {id}")),
        _ => SectionResult::Ignored,
    }
}
impl SectionProcessor for Sec {
    fn name(&self) -> &'static str {
        self.name
    }
    fn process(&self, header: &str, lines: &[&str]) -> SectionResult {
        self.calls.lock().unwrap().push((self.id, format!("{header}\n{}", lines.join("\n"))));
        sec_result(self.kind, self.id)
    }
}

/// Histories of registration, removal, clearing and dispatch against two maps.
pub fn registry(t: &mut T) -> R {
    const POOL: [&str; 10] = ["b", "B", "", "é", "1c", "b ", "Aegisub Project", "aegisub project", "zz", "fn"];
    let calls: Calls = Arc::default();
    let mut reg = if t.chance(1, 2) { ExtensionRegistry::new() } else { ExtensionRegistry::default() };
    let mut tags: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    let mut secs: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    let mut log = vec![];
    let n = t.len(16);
    t.nontrivial_if(n >= 3);
    for id in 0..n {
        let name = t.pick(&POOL);
        let kind = t.us(3);
        match t.weighted(&[4, 4, 2, 2, 1, 4, 4]) {
            0 => {
                log.push(format!("register tag {name:?} #{id}"));
                let r = reg.register_tag_handler(Box::new(Tag { name, id, kind, calls: calls.clone() }));
                if tags.contains_key(name) {
                    ensure!(matches!(&r, Err(PluginError::DuplicateHandler(x)) if x == name), "a second handler {name:?}: {r:?}");
                } else {
                    ensure!(r.is_ok(), "registering {name:?}: {r:?}");
                    tags.insert(name, (id, kind));
                }
            }
            1 => {
                log.push(format!("register section {name:?} #{id}"));
                let r = reg.register_section_processor(Box::new(Sec { name, id, kind, calls: calls.clone() }));
                if secs.contains_key(name) {
                    ensure!(matches!(&r, Err(PluginError::DuplicateHandler(x)) if x == name), "a second processor {name:?}: {r:?}");
                } else {
                    ensure!(r.is_ok(), "registering {name:?}: {r:?}");
                    secs.insert(name, (id, kind));
                }
            }
            2 => {
                log.push(format!("remove tag {name:?}"));
                let got = reg.remove_tag_handler(name).map(|h| h.process("removed"));
                ensure_eq!(got, tags.remove(name).map(|x| tag_result(x.1, x.0)), "the handler removed under {name:?}");
                calls.lock().unwrap().clear();
            }
            3 => {
                log.push(format!("remove section {name:?}"));
                let got = reg.remove_section_processor(name).map(|h| h.process("removed", &[]));
                ensure_eq!(got, secs.remove(name).map(|x| sec_result(x.1, x.0)), "the processor removed under {name:?}");
                calls.lock().unwrap().clear();
            }
            4 => {
                log.push("clear".into());
                reg.clear();
                tags.clear();
                secs.clear();
            }
            5 => {
                let args = t.pick(&["", "1", "(é)", " "]);
                log.push(format!("process tag {name:?}"));
                ensure_eq!(reg.process_tag(name, args), tags.get(name).map(|x| tag_result(x.1, x.0)), "result of tag {name:?}");
                let want: Vec<(usize, String)> = tags.get(name).map(|x| (x.0, args.to_string())).into_iter().collect();
                ensure_eq!(std::mem::take(&mut *calls.lock().unwrap()), want, "calls made for tag {name:?}");
            }
            _ => {
                let (header, lines) = (t.pick(&["", "h", "b"]), t.vec(3, |t| t.pick(&["", "a", "k: v"])));
                log.push(format!("process section {name:?}"));
                ensure_eq!(reg.process_section(name, header, &lines), secs.get(name).map(|x| sec_result(x.1, x.0)), "result of section {name:?}");
                let want: Vec<(usize, String)> = secs.get(name).map(|x| (x.0, format!("{header}\n{}", lines.join("\n")))).into_iter().collect();
                ensure_eq!(std::mem::take(&mut *calls.lock().unwrap()), want, "calls made for section {name:?}");
            }
        }
        t.input_dbg("history", &log);
        let mut a = reg.tag_handler_names();
        a.sort();
        ensure_eq!(a, tags.keys().copied().collect::<Vec<_>>(), "tag names");
        let mut b = reg.section_processor_names();
        b.sort();
        ensure_eq!(b, secs.keys().copied().collect::<Vec<_>>(), "section names");
        ensure_eq!(reg.extension_count(), tags.len() + secs.len(), "count");
        for p in POOL {
            ensure_eq!(reg.has_tag_handler(p), tags.contains_key(p), "has tag {p:?}");
            ensure_eq!(reg.has_section_processor(p), secs.contains_key(p), "has section {p:?}");
        }
    }
    Ok(())
}

pub fn built_in() -> Vec<Box<dyn TagHandler>> {
    let mut v = vec![];
    v.extend(create_formatting_handlers());
    v.extend(create_special_handlers());
    v.extend(create_font_handlers());
    v.extend(create_advanced_handlers());
    v.extend(create_alignment_handlers());
    v.extend(create_karaoke_handlers());
    v.extend(create_position_handlers());
    v.extend(create_color_handlers());
    v.extend(create_transform_handlers());
    v.extend(create_animation_handlers());
    v.extend(create_clipping_handlers());
    v.extend(create_misc_handlers());
    v
}
const BUILT_IN: [&str; 46] = [
    "b", "i", "u", "s", "n", "N", "h", "fn", "fs", "fe", "bord", "shad", "be", "a", "an", "q", "k", "kf", "ko", "kt", "pos", "move", "c", "1c", "2c", "3c", "4c", "alpha",
    "1a", "2a", "3a", "4a", "frx", "fry", "frz", "fscx", "fscy", "fsp", "fax", "fay", "fade", "fad", "t", "clip", "r", "fr",
];
/// A number as the handlers document it: sign, digits, a point between digits.
fn is_num(s: &str) -> bool {
    let s = s.strip_prefix(['+', '-']).unwrap_or(s);
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_digit());
    match s.split_once('.') {
        Some((a, b)) => digits(a) && digits(b),
        None => digits(s),
    }
}
/// Whether `s` is an integer up to `max`; `None` where the documentation leaves the spelling open.
fn uint(s: &str, max: u64) -> Option<bool> {
    if s.starts_with('+') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) || s == "-0" {
        return None;
    }
    Some(!s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) && s.parse::<u64>().is_ok_and(|v| v <= max))
}
fn positive(s: &str, zero: bool) -> Option<bool> {
    if is_num(s) {
        let v: f64 = s.parse().unwrap();
        return if v == 0.0 && s.starts_with('-') { None } else { Some(v > 0.0 || (zero && v == 0.0)) };
    }
    // spellings other than the documented ones (1e3, .5, inf)
    if s.parse::<f32>().is_ok() { None } else { Some(false) }
}
fn hex(s: &str, n: usize) -> bool {
    s.len() == n + 3 && s.is_ascii() && s.starts_with("&H") && s.ends_with('&') && s[2..2 + n].bytes().all(|c| c.is_ascii_hexdigit())
}
fn inner(s: &str) -> Option<&str> {
    s.strip_prefix('(')?.strip_suffix(')')
}
fn all(v: &[Option<bool>]) -> Option<bool> {
    if v.contains(&Some(false)) {
        Some(false)
    } else if v.contains(&None) {
        None
    } else {
        Some(true)
    }
}
/// What the documentation of a tag says about its arguments.
fn accepts(name: &str, args: &str) -> Option<bool> {
    let s = args.trim();
    let split = |x: &str| x.split(',').map(|p| p.trim().to_string()).collect::<Vec<String>>();
    match name {
        "b" => {
            if matches!(s, "" | "0" | "1") {
                return Some(true);
            }
            if s.starts_with('+') || s.starts_with('0') {
                return None;
            }
            Some(uint(s, 900) == Some(true) && s.len() == 3 && s.ends_with("00"))
        }
        "i" | "u" | "s" => Some(matches!(s, "" | "0" | "1")),
        "be" => Some(matches!(s, "0" | "1")),
        "n" | "N" | "h" => Some(s.is_empty()),
        "a" => Some(["1", "2", "3", "5", "6", "7", "9", "10", "11"].contains(&s)),
        "an" => Some(s.len() == 1 && "123456789".contains(s)),
        "q" => Some(s.len() == 1 && "0123".contains(s)),
        "fn" => Some(!s.is_empty()),
        "fs" => positive(s, false),
        "bord" | "shad" => positive(s, true),
        "fe" | "k" | "kf" | "ko" | "kt" => uint(s, u32::MAX as u64),
        "c" | "1c" | "2c" | "3c" | "4c" => Some(hex(s, 6)),
        "alpha" | "1a" | "2a" | "3a" | "4a" => Some(hex(s, 2)),
        "frx" | "fry" | "frz" | "fr" | "fscx" | "fscy" | "fsp" | "fax" | "fay" => Some(is_num(s)),
        "pos" | "move" | "org" => {
            let (c, open) = match inner(s) {
                Some(c) => (c, true),
                None => (s, false),
            };
            let p = split(c);
            let n = match name {
                "move" => p.len() == 4 || p.len() == 6,
                _ => p.len() == 2,
            };
            Some(n && p.iter().all(|x| is_num(x)) && (open || name != "org"))
        }
        "fad" => {
            let Some(c) = inner(s) else { return Some(false) };
            let p = split(c);
            if p.len() != 2 {
                return Some(false);
            }
            all(&p.iter().map(|x| uint(x, u32::MAX as u64)).collect::<Vec<_>>())
        }
        "fade" => {
            let Some(c) = inner(s) else { return Some(false) };
            let p = split(c);
            if p.len() != 7 {
                return Some(false);
            }
            all(&p.iter().enumerate().map(|(i, x)| uint(x, if i < 3 { 255 } else { i32::MAX as u64 })).collect::<Vec<_>>())
        }
        "t" => Some(inner(s).is_some_and(|c| !c.trim().is_empty())),
        "clip" => {
            let Some(c) = inner(s) else { return Some(false) };
            let p = split(c);
            if p.len() == 4 && p.iter().all(|x| is_num(x)) {
                return Some(true);
            }
            let draws = c.contains(['m', 'n', 'l', 'b', 's', 'p', 'c']);
            if p.len() == 4 && draws {
                return None;
            }
            Some(draws && p.len() != 4)
        }
        "r" => Some(true),
        _ => None,
    }
}
fn number(t: &mut T) -> String {
    match t.weighted(&[6, 2, 2, 1]) {
        0 => t.pick(&["0", "1", "2", "3", "4", "5", "9", "10", "11", "12", "100", "255", "256", "400", "900", "1000"]).to_string(),
        1 => t.pick(&["-1", "+1", "1.5", "-0.25", "+3.75", "0.0", "00", "0100", "150", "-0"]).to_string(),
        2 => t.pick(&["2147483647", "2147483648", "4294967295", "4294967296", "99999999999"]).to_string(),
        _ => t.string_of(5, &["0", "1", "9", ".", "-", "+", "é", "٣", "e", " "]),
    }
}
fn args(t: &mut T) -> String {
    let mut s = match t.us(10) {
        0 | 1 => number(t),
        2 | 3 => {
            let n = t.pick_c(&[2usize, 4, 6, 7, 1, 3, 5]);
            let sep = t.pick(&[",", ", ", " ,"]);
            let v: Vec<String> = (0..n).map(|_| number(t)).collect();
            let c = v.join(sep);
            if t.chance(2, 3) { format!("({c})") } else { c }
        }
        4 | 5 => {
            let n = t.pick_c(&[6usize, 2, 5, 7, 1, 3, 8]);
            let mut h = String::from("&H");
            for _ in 0..n {
                h.push_str(t.pick(&["0", "F", "a", "9", "7", "c"]));
            }
            h.push('&');
            h
        }
        6 => format!("({})", t.pick(&["m 0 0 l 1 1", "1,m 0 0 l 10 0 10 10", "\\fs20", "0,100,\\c&HFF&", " ", "", "x", "m", "0 0 1 1", "é"])),
        7 => t.pick(&["", " ", "Arial", "Default", "\t", "é 漢", "inf", "NaN", "1e3", ".5", "5."]).to_string(),
        8 => t.string_of(8, &["(", ")", ",", "0", "1", "&", "H", "A", "é", " ", "-", "."]),
        _ => number(t),
    };
    if t.chance(1, 6) && !s.is_empty() {
        // one character changed, dropped or added
        let at: Vec<usize> = s.char_indices().map(|x| x.0).collect();
        let i = t.pick_c(&at);
        match t.us(3) {
            0 => {
                s.remove(i);
            }
            1 => s.insert_str(i, t.pick(&["0", "é", "(", ")", "-", " ", "G", "&", "."])),
            _ => {
                let l = s[i..].chars().next().unwrap().len_utf8();
                s.replace_range(i..i + l, t.pick(&["0", "é", "(", ")", "-", " ", "G", "&", ",", "h"]));
            }
        }
    }
    if t.chance(1, 5) {
        s = format!("{}{s}{}", t.pick(&["", " ", "\t"]), t.pick(&["", " ", "  "]));
    }
    s
}
/// Every built-in handler: exactly the documented arguments, and processing agrees with validation.
pub fn handlers(t: &mut T) -> R {
    let a = args(t);
    t.input("arguments", &a);
    t.nontrivial_if(a.len() > 1);
    let hs = built_in();
    let mut reg = ExtensionRegistry::new();
    let mut names: Vec<&str> = hs.iter().map(|h| h.name()).collect();
    for h in hs {
        let n = h.name();
        let v = h.validate(&a);
        let want = accepts(n, &a);
        ensure!(want.is_none() || want == Some(v), "\\{n} {} {a:?}", if v { "accepts" } else { "refuses" });
        let p = h.process(&a);
        ensure!(p == TagResult::Processed && v || matches!(p, TagResult::Failed(_)) && !v, "\\{n}: validating {a:?} gives {v}, processing {p:?}");
        ensure!(reg.register_tag_handler(h).is_ok(), "\\{n} registered twice");
        ensure_eq!(reg.process_tag(n, &a), Some(p), "\\{n} through the registry");
    }
    names.sort();
    let mut all: Vec<&str> = BUILT_IN.iter().copied().chain(["org"]).collect();
    all.sort();
    ensure_eq!(names, all, "names of the built-in handlers");
    Ok(())
}

/// Analysing a text with a registry: same tags and text; handlers see their tags' arguments, in order.
pub fn analysis(t: &mut T) -> R {
    let l = line(t, 8, false);
    let calls: Calls = Arc::default();
    let mut reg = ExtensionRegistry::new();
    let mut kinds: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    const POOL: [&str; 14] = ["b", "i", "t", "fn", "r", "pos", "p", "c", "1c", "zzz", "an", "move", "B", "alpha"];
    for id in 0..t.len(8) {
        let (name, kind) = (t.pick(&POOL), t.us(3));
        if reg.register_tag_handler(Box::new(Tag { name, id, kind, calls: calls.clone() })).is_ok() {
            kinds.insert(name, (id, kind));
        }
    }
    let built = t.chance(1, 4);
    if built {
        for h in built_in() {
            let _ = reg.register_tag_handler(h);
        }
    }
    t.input("text", &l.text);
    t.input_dbg("handlers", &kinds);
    t.nontrivial_if(l.tags.iter().any(|x| kinds.contains_key(x.0.as_str())));
    let a = TextAnalysis::analyze_with_registry(&l.text, Some(&reg)).map_err(|e| format!("refused: {e}"))?;
    ensure_eq!(a.plain_text(), l.plain.as_str(), "visible text");
    let got: Vec<(String, String, usize)> = a.override_tags().iter().map(|x| (x.name().into(), x.args().into(), x.position())).collect();
    ensure_eq!(got, l.tags, "tags");
    let mut diags: Vec<(usize, bool)> = l.diags.iter().map(|d| (*d, false)).collect();
    let mut want_calls = vec![];
    for (k, x) in a.override_tags().iter().enumerate() {
        let r = match kinds.get(x.name()) {
            Some((id, kind)) => {
                want_calls.push((*id, x.args().to_string()));
                Some(tag_result(*kind, *id))
            }
            None if built => built_in().iter().find(|h| h.name() == x.name()).map(|h| h.process(x.args())),
            None => None,
        };
        let done = r == Some(TagResult::Processed);
        ensure_eq!(x.complexity(), if done { 2 } else { tag_cost(x.name()).0 }, "complexity of \\{} (handled: {done})", x.name());
        if matches!(r, Some(TagResult::Failed(_))) {
            diags.push((l.tags[k].2, true));
        }
    }
    diags.sort();
    let mut got: Vec<(usize, bool)> = a.diagnostics().iter().map(|d| (d.offset, d.kind == DiagnosticKind::MalformedTag)).collect();
    got.sort();
    ensure_eq!(got, diags, "diagnostics (position, refused by a handler)");
    for d in a.diagnostics() {
        ensure!(l.text[d.offset..].starts_with(d.span), "the diagnostic's span {:?} is not at {}", d.span, d.offset);
    }
    ensure_eq!(*calls.lock().unwrap(), want_calls, "calls to the handlers");
    Ok(())
}

/// Parsing with section processors: they see exactly their sections; nothing else changes.
pub fn sections(t: &mut T) -> R {
    const POOL: [&str; 6] = ["Aegisub Project", "Aegisub Extradata", "X", "é y", "aegisub project", "Fonts2"];
    let calls: Calls = Arc::default();
    let mut reg = ExtensionRegistry::new();
    let mut kinds: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    for id in 0..t.len(4) {
        let (name, kind) = (t.pick(&POOL), t.us(3));
        if reg.register_section_processor(Box::new(Sec { name, id, kind, calls: calls.clone() })).is_ok() {
            kinds.insert(name, (id, kind));
        }
    }
    let built = t.chance(1, 3);
    if built {
        for p in create_aegisub_processors() {
            let _ = reg.register_section_processor(p);
        }
    }
    let mut doc = String::new();
    let mut unknown: Vec<(&str, Vec<String>)> = vec![];
    for _ in 0..1 + t.len(5) {
        match t.us(5) {
            0 => doc.push_str("[Script Info]\nTitle: x\n\n"),
            1 => doc.push_str("[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: A,Arial,20\n"),
            2 => doc.push_str("[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:00.00,0:00:01.00,A,hi\n"),
            _ => {
                let name = t.pick(&POOL);
                let lines: Vec<String> = t.vec(5, |t| {
                    t.pick(&["k: v", "k=v", "", " ", "!x", "plain", "Style: A,B", "Dialogue: 0,0:00:00.00,0:00:01.00,A,hi", "Title: é", "Format: a, b", "  Style: q", "日本: 語"]).to_string()
                });
                doc.push_str(&format!("[{name}]\n"));
                for l in &lines {
                    doc.push_str(l);
                    doc.push('\n');
                }
                unknown.push((name, lines));
            }
        }
    }
    if t.chance(1, 5) {
        doc.pop();
    }
    t.input("document", &doc);
    t.input_dbg("processors", &kinds);
    t.nontrivial_if(unknown.iter().any(|u| kinds.contains_key(u.0)));
    let plain = Script::parse(&doc).map_err(|e| format!("refused: {e}"))?;
    let with = Script::builder().with_registry(&reg).parse(&doc).map_err(|e| format!("refused with a registry: {e}"))?;
    ensure_eq!(with.sections(), plain.sections(), "sections with a registry");
    let mut want_calls = vec![];
    let mut reports = vec![];
    for (name, lines) in &unknown {
        let lines: Vec<&str> = lines.iter().map(String::as_str).filter(|l| !l.is_empty()).collect();
        let r = match kinds.get(name) {
            Some((id, kind)) => {
                want_calls.push((*id, format!("{name}\n{}", lines.join("\n"))));
                Some(sec_result(*kind, *id))
            }
            None if built => match *name {
                "Aegisub Project" => {
                    let bad = lines.iter().map(|l| l.trim()).any(|l| !l.is_empty() && !l.starts_with('!') && !l.contains(['=', ':']));
                    Some(if bad { SectionResult::Failed("Invalid Aegisub project line format (expected key=value or key: value)".into()) } else { SectionResult::Processed })
                }
                "Aegisub Extradata" => Some(SectionResult::Processed),
                _ => None,
            },
            None => None,
        };
        match r {
            Some(SectionResult::Processed) => reports.push(format!("Section '{name}' processed by plugin")),
            Some(SectionResult::Failed(m)) => reports.push(format!("Plugin failed to process section '{name}': {m}")),
            _ => {}
        }
    }
    // blanks around lines are layout
    let lay = |v: &[(usize, String)]| -> Vec<(usize, Vec<String>)> { v.iter().map(|x| (x.0, x.1.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect())).collect() };
    ensure_eq!(lay(&calls.lock().unwrap()), lay(&want_calls), "calls to the processors");
    let ours = |m: &str| m.contains("processed by plugin") || m.starts_with("Plugin failed to process");
    let got: Vec<String> = with.issues().iter().map(|i| i.message.clone()).filter(|m| ours(m)).collect();
    ensure_eq!(got, reports, "reports about processed sections");
    if reports.is_empty() {
        let key = |s: &Script| s.issues().iter().map(|i| format!("{:?} {:?} {} {}", i.severity, i.category, i.line, i.message)).collect::<Vec<_>>();
        ensure_eq!(key(&with), key(&plain), "issues although no processor took part");
    }
    // the processors on their own
    for p in create_aegisub_processors() {
        let lines: Vec<&str> = unknown.first().map(|u| u.1.iter().map(String::as_str).collect()).unwrap_or_default();
        for h in ["aegisub project", "AEGISUB EXTRADATA", "x", ""] {
            let r = p.process(h, &lines);
            let mine = h.eq_ignore_ascii_case(p.name());
            ensure_eq!(r == SectionResult::Ignored, !mine, "{:?} asked about section {h:?}: {r:?}", p.name());
            if !mine {
                ensure!(!p.validate(h, &lines), "{:?} calls section {h:?} valid", p.name());
            }
        }
    }
    Ok(())
}
