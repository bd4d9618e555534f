//! E01, E02, E08, E17: the document as a string with a history.
use ass_editor::commands::CommandResult;
use ass_editor::core::history::{HistoryEntry, Operation, UndoManager, UndoStackConfig};
use ass_editor::events::DocumentEvent;
use ass_editor::*;
use std::sync::mpsc;
use vkit::ass::*;
use vkit::*;

pub fn start_text(t: &mut T) -> String {
    match t.weighted(&[4, 2, 1, 1]) {
        0 => document(t, &Opts::default()).1,
        1 => hostile(t, 60),
        2 => String::new(),
        _ => {
            let n = t.us(40);
            t.string_of(n, &["a", "é", "日", "😀", "\n", "\r\n", "\r", "\u{2028}", " ", "{", "}", "[Events]\n"])
        }
    }
}
pub fn some_text(t: &mut T) -> String {
    match t.weighted(&[2, 4, 2, 1, 1]) {
        0 => String::new(),
        1 => {
            let n = 1 + t.us(6);
            t.string_of(n, &["x", "é", "日", "😀", "\n", "\r\n", "\t", ",", "{\\b1}", " "])
        }
        2 => hostile(t, 20),
        3 => format!("Dialogue: 0,0:00:0{}.00,0:00:05.00,Default,,0,0,0,,{}\n", t.us(5), word(t)),
        _ => "y".repeat(t.pick_c(&[49usize, 50, 51, 99, 100, 101, 150])),
    }
}
/// An offset within the text on a character boundary, near an interesting place at times.
pub fn good_off(t: &mut T, s: &str) -> usize {
    let mut o = match t.us(5) {
        0 => 0,
        1 => s.len(),
        2 => {
            let v: Vec<usize> = s.match_indices('\n').map(|x| x.0 + t_one(t)).collect();
            if v.is_empty() {
                0
            } else {
                t.pick_c(&v)
            }
        }
        _ => t.us(s.len() + 1),
    };
    while !s.is_char_boundary(o) {
        o -= 1;
    }
    o
}
fn t_one(_: &mut T) -> usize {
    1
}
pub fn good_range(t: &mut T, s: &str) -> (usize, usize) {
    let a = good_off(t, s);
    let b = if t.chance(1, 2) {
        good_off(t, s)
    } else {
        let mut b = (a + t.us(12)).min(s.len());
        while !s.is_char_boundary(b) {
            b += 1;
        }
        b
    };
    (a.min(b), a.max(b))
}
/// A range that is out of bounds or cuts a character, if the text allows one.
pub fn bad_range(t: &mut T, s: &str) -> (usize, usize) {
    let cuts: Vec<usize> = (0..s.len()).filter(|i| !s.is_char_boundary(*i)).collect();
    if !cuts.is_empty() && t.chance(1, 2) {
        let c = t.pick_c(&cuts);
        if t.chance(1, 2) {
            let e = good_off(t, s).max(c);
            (c, e)
        } else {
            let e = good_off(t, s).min(c);
            (e, c)
        }
    } else {
        let e = s.len() + 1 + t.us(4);
        let a = if t.chance(1, 3) { e } else { good_off(t, s) };
        (a, e)
    }
}
pub fn rng(a: usize, b: usize) -> Range {
    Range::new(Position::new(a), Position::new(b))
}
/// A result tells of the change from one text to the other.
pub fn told(r: &CommandResult, old: &str, new: &str, what: &str) -> R {
    ensure!(r.success, "{what} reports no success");
    ensure!(r.content_changed || old == new, "{what} reports no change of the text");
    if let Some(m) = r.modified_range {
        let (a, b) = (m.start.offset, m.end.offset);
        ensure!(a <= b && new.is_char_boundary(a) && new.is_char_boundary(b), "{what} reports a modified range of {a}..{b} of {} bytes", new.len());
        ensure!(old.len() >= a + new.len() - b && old.as_bytes()[..a] == new.as_bytes()[..a] && old.ends_with(&new[b..]), "{what} changed text outside the modified range {a}..{b} it reports");
    }
    if let Some(c) = r.new_cursor {
        ensure!(new.is_char_boundary(c.offset), "{what} puts the cursor at {} of {} bytes", c.offset, new.len());
    }
    Ok(())
}
/// The model: the text, and what undo and redo lead to.
#[derive(Default, Clone)]
pub struct Hist {
    pub text: String,
    pub undo: Vec<String>,
    pub redo: Vec<String>,
}
impl Hist {
    /// Checks a document after an edit that should have produced `want`, and records it.
    pub fn edited(&mut self, d: &EditorDocument, want: String, what: &str) -> R {
        let got = d.text();
        ensure_eq!(got, want, "text after {what}");
        let n = d.undo_manager().stats().undo_count;
        if n == self.undo.len() + 1 {
            self.undo.push(std::mem::replace(&mut self.text, want));
            self.redo.clear();
        } else {
            ensure!(self.text == want && n == self.undo.len(), "{what}: the history went from {} to {n} entries over a change", self.undo.len());
            ensure!(d.undo_manager().stats().redo_count == self.redo.len(), "{what}: changed nothing but the redo entries");
        }
        self.agree(d, what)
    }
    pub fn agree(&self, d: &EditorDocument, what: &str) -> R {
        ensure_eq!(d.text(), self.text, "text after {what}");
        let s = d.undo_manager().stats();
        ensure_eq!(s.undo_count, self.undo.len(), "undo entries after {what}");
        ensure_eq!(s.redo_count, self.redo.len(), "redo entries after {what}");
        ensure_eq!(d.can_undo(), !self.undo.is_empty(), "can_undo after {what}");
        ensure_eq!(d.can_redo(), !self.redo.is_empty(), "can_redo after {what}");
        ensure_eq!(d.next_undo_description().is_some(), !self.undo.is_empty(), "next_undo_description after {what}");
        ensure_eq!(d.len_bytes(), self.text.len(), "len_bytes after {what}");
        ensure_eq!(d.len(), self.text.len(), "len after {what}");
        ensure_eq!(d.is_empty(), self.text.is_empty(), "is_empty after {what}");
        if let Some(c) = d.cursor_position() {
            ensure!(self.text.is_char_boundary(c.offset), "the cursor {} lies outside the text after {what}", c.offset);
        }
        Ok(())
    }
    pub fn undo(&mut self, d: &mut EditorDocument) -> R {
        let r = d.undo();
        match self.undo.pop() {
            None => ensure!(r.is_err(), "undo succeeded on an empty history"),
            Some(p) => {
                let r = r.map_err(|e| format!("undo failed: {e}"))?;
                told(&r, &self.text, &p, "undo")?;
                self.redo.push(std::mem::replace(&mut self.text, p));
            }
        }
        self.agree(d, "undo")
    }
    pub fn redo(&mut self, d: &mut EditorDocument) -> R {
        let r = d.redo();
        match self.redo.pop() {
            None => ensure!(r.is_err(), "redo succeeded with nothing to redo"),
            Some(p) => {
                let r = r.map_err(|e| format!("redo failed: {e}"))?;
                told(&r, &self.text, &p, "redo")?;
                self.undo.push(std::mem::replace(&mut self.text, p));
            }
        }
        self.agree(d, "redo")
    }
    /// Undoes everything and redoes it again.
    pub fn sweep(&mut self, d: &mut EditorDocument) -> R {
        while !self.undo.is_empty() {
            self.undo(d)?;
        }
        while !self.redo.is_empty() {
            self.redo(d)?;
        }
        Ok(())
    }
}
pub fn spliced(s: &str, a: usize, b: usize, x: &str) -> String {
    format!("{}{}{}", &s[..a], x, &s[b..])
}
fn replay_event(s: &str, e: &DocumentEvent) -> std::result::Result<String, String> {
    Ok(match e {
        DocumentEvent::TextInserted { position, text, length } => {
            ensure_v(*length == text.len(), "length of an insertion")?;
            spliced(s, position.offset, position.offset, text)
        }
        DocumentEvent::TextDeleted { range, deleted_text } => {
            ensure_v(s.get(range.start.offset..range.end.offset) == Some(deleted_text), "deleted text of the event")?;
            spliced(s, range.start.offset, range.end.offset, "")
        }
        DocumentEvent::TextReplaced { range, old_text, new_text } => {
            ensure_v(s.get(range.start.offset..range.end.offset) == Some(old_text), "replaced text of the event")?;
            spliced(s, range.start.offset, range.end.offset, new_text)
        }
        _ => s.to_string(),
    })
}
fn ensure_v(c: bool, m: &str) -> R {
    if c {
        Ok(())
    } else {
        Err(format!("{m} is not what the document held"))
    }
}
fn open(t: &mut T) -> Option<(EditorDocument, String)> {
    let s = start_text(t);
    let d = EditorDocument::from_content(&s).ok()?;
    t.input("text", &s);
    Some((d, s))
}

/// E01: a document edited directly.
pub fn edits(t: &mut T) -> R {
    let Some((mut d, s)) = open(t) else { return Ok(()) };
    ensure_eq!(d.text(), s, "text of a new document");
    ensure!(!d.is_modified(), "a new document is modified");
    let mut h = Hist { text: s, ..Hist::default() };
    h.agree(&d, "opening")?;
    let (tx, rx) = mpsc::channel();
    let listen = t.chance(1, 2);
    if listen {
        d.set_event_channel(tx);
    }
    let n = 1 + t.len(14);
    let mut real = 0;
    for _ in 0..n {
        let before = h.text.clone();
        match t.weighted(&[3, 3, 3, 2, 4, 3, 2, 1, 1]) {
            0 => {
                let p = good_off(t, &h.text);
                let x = some_text(t);
                t.input_dbg("insert", &(p, &x));
                let r = match t.us(4) {
                    0 if x == "\n" => d.at_pos(Position::new(p)).insert_line().map(|_| ()),
                    0 => d.insert(Position::new(p), &x),
                    3 => at_pos!(d, p, insert &x),
                    1 => d.at(Position::new(p)).insert_text(&x),
                    _ => d.at_pos(Position::new(p)).insert_text(&x).map(|_| ()),
                };
                r.map_err(|e| format!("insert at {p} failed: {e}"))?;
                let w = spliced(&h.text, p, p, &x);
                h.edited(&d, w, "insert")?;
            }
            1 => {
                let (a, b) = good_range(t, &h.text);
                t.input_dbg("delete", &(a, b));
                let r = match t.us(6) {
                    0 => d.delete(rng(a, b)),
                    5 => at_pos!(d, a, delete b - a),
                    1 => d.at(Position::new(a)).delete_range(b - a),
                    2 => d.at_pos(Position::new(a)).delete(b - a).map(|_| ()),
                    3 => d.at_pos(Position::new(b)).backspace(b - a).map(|_| ()),
                    _ => d.select(rng(a, b)).delete().map(|_| ()),
                };
                r.map_err(|e| format!("delete {a}..{b} failed: {e}"))?;
                let w = spliced(&h.text, a, b, "");
                h.edited(&d, w, "delete")?;
            }
            2 => {
                let (a, b) = good_range(t, &h.text);
                let x = some_text(t);
                t.input_dbg("replace", &(a, b, &x));
                let r = match t.us(5) {
                    0 => d.replace(rng(a, b), &x),
                    4 => at_pos!(d, a, replace b - a, &x),
                    1 => d.at(Position::new(a)).replace_text(b - a, &x),
                    2 => d.replace(rng(b, a), &x),
                    _ => d.select(rng(a, b)).replace_with(&x).map(|_| ()),
                };
                r.map_err(|e| format!("replace {a}..{b} failed: {e}"))?;
                let w = spliced(&h.text, a, b, &x);
                h.edited(&d, w, "replace")?;
            }
            3 => {
                let (a, b) = bad_range(t, &h.text);
                let x = some_text(t);
                t.input_dbg("bad", &(a, b, &x));
                let r = match t.us(4) {
                    0 => d.delete(rng(a, b)),
                    1 => d.replace(rng(a, b), &x),
                    2 => {
                        let p = if h.text.is_char_boundary(a) { b } else { a };
                        d.insert(Position::new(p), &x)
                    }
                    _ => {
                        ensure!(d.text_range(rng(a, b)).is_err(), "text_range accepts {a}..{b}");
                        d.select(rng(a, b)).delete().map(|_| ())
                    }
                };
                ensure!(r.is_err(), "an edit of {a}..{b} was accepted in a text of {} bytes", h.text.len());
                t.label("bad range");
                h.agree(&d, "a rejected edit")?;
            }
            4 => {
                t.input("undo", "");
                h.undo(&mut d)?
            }
            5 => {
                t.input("redo", "");
                h.redo(&mut d)?
            }
            6 => {
                let (a, b) = good_range(t, &h.text);
                ensure_eq!(d.text_range(rng(a, b)).map_err(|e| e.to_string()), Ok(h.text[a..b].to_string()), "text_range {a}..{b}");
                ensure_eq!(d.select(rng(a, b)).text(), h.text[a..b].to_string(), "selected text");
            }
            7 => {
                let c = good_off(t, &h.text);
                d.set_cursor_position(Some(Position::new(c)));
                ensure_eq!(d.cursor_position(), Some(Position::new(c)), "cursor");
                // an edit, its undo and the cursor
                let p = good_off(t, &h.text);
                d.insert(Position::new(p), "zz").map_err(|e| e.to_string())?;
                let w = spliced(&h.text, p, p, "zz");
                h.edited(&d, w, "insert")?;
                ensure_eq!(d.cursor_position(), Some(Position::new(p + 2)), "cursor after an insertion");
                h.undo(&mut d)?;
                ensure_eq!(d.cursor_position(), Some(Position::new(c)), "cursor after undoing");
                h.redo(&mut d)?;
                ensure_eq!(d.cursor_position(), Some(Position::new(p + 2)), "cursor after redoing");
                while rx.try_recv().is_ok() {}
                continue;
            }
            _ => {
                d.set_modified(false);
                ensure!(!d.is_modified(), "set_modified");
                let p = good_off(t, &h.text);
                d.insert(Position::new(p), "m").map_err(|e| e.to_string())?;
                let w = spliced(&h.text, p, p, "m");
                h.edited(&d, w, "insert")?;
                ensure!(d.is_modified(), "an edited document is not modified");
                d.set_modified(false);
                h.undo(&mut d)?;
                ensure!(d.is_modified(), "an undo after saving leaves the document unmodified");
                while rx.try_recv().is_ok() {}
                continue;
            }
        }
        if h.text != before {
            real += 1;
        }
        if listen {
            let mut s = before.clone();
            let mut k = 0;
            while let Ok(e) = rx.try_recv() {
                s = replay_event(&s, &e)?;
                k += 1;
            }
            ensure!(k <= 1, "{k} events for one edit");
            if k == 1 {
                ensure_eq!(s, h.text, "text the event leads to");
            }
        }
    }
    t.nontrivial_if(real >= 2);
    h.sweep(&mut d)
}

/// E08: the incremental path against the plain one.
pub fn incremental(t: &mut T) -> R {
    let Some((mut d, s)) = open(t) else { return Ok(()) };
    let mut h = Hist { text: s, ..Hist::default() };
    let n = 1 + t.len(10);
    let (mut slow, mut real) = (0, 0);
    for _ in 0..n {
        let before = h.text.clone();
        match t.weighted(&[3, 2, 2, 2, 1, 2, 2, 1, 3]) {
            0 => {
                let (a, b) = good_range(t, &h.text);
                let x = some_text(t);
                t.input_dbg("edit_incremental", &(a, b, &x));
                let delta = d.edit_incremental(rng(a, b), &x).map_err(|e| format!("edit_incremental {a}..{b} failed: {e}"))?;
                let w = spliced(&h.text, a, b, &x);
                let fast = x.len() <= 100 && !x.contains('[') && x.matches('\n').count() <= 1 && b - a <= 50;
                t.label_if(!fast, "slow path");
                if !fast {
                    slow += 1;
                }
                let _ = delta;
                h.edited(&d, w, "edit_incremental")?;
            }
            1 => {
                let p = good_off(t, &h.text);
                let x = some_text(t);
                t.input_dbg("insert_incremental", &(p, &x));
                d.insert_incremental(Position::new(p), &x).map_err(|e| format!("insert_incremental {p} failed: {e}"))?;
                let w = spliced(&h.text, p, p, &x);
                h.edited(&d, w, "insert_incremental")?;
            }
            2 => {
                let (a, b) = good_range(t, &h.text);
                t.input_dbg("delete_incremental", &(a, b));
                d.delete_incremental(rng(a, b)).map_err(|e| format!("delete_incremental {a}..{b} failed: {e}"))?;
                let w = spliced(&h.text, a, b, "");
                h.edited(&d, w, "delete_incremental")?;
            }
            3 => {
                let (a, b) = good_range(t, &h.text);
                let x = some_text(t);
                t.input_dbg("edit_safe", &(a, b, &x));
                d.edit_safe(rng(a, b), &x).map_err(|e| format!("edit_safe {a}..{b} failed: {e}"))?;
                let w = spliced(&h.text, a, b, &x);
                let got = d.text();
                ensure_eq!(got, w, "text after edit_safe");
                h.edited(&d, w, "edit_safe")?;
            }
            4 => {
                let (a, b) = bad_range(t, &h.text);
                let x = some_text(t);
                let r = d.edit_incremental(rng(a, b), &x);
                ensure!(r.is_err(), "edit_incremental accepts {a}..{b} in a text of {} bytes", h.text.len());
                h.agree(&d, "a rejected incremental edit")?;
            }
            5 => {
                t.input("undo", "");
                h.undo(&mut d)?
            }
            6 => {
                t.input("redo", "");
                h.redo(&mut d)?
            }
            7 => {
                let (a, b) = good_range(t, &h.text);
                let x = some_text(t);
                d.replace(rng(a, b), &x).map_err(|e| e.to_string())?;
                let w = spliced(&h.text, a, b, &x);
                h.edited(&d, w, "replace")?;
            }
            _ => {
                // what the slow path reports is what a fresh document reports
                let (a, b) = good_range(t, &h.text);
                let mut x = some_text(t);
                x.push_str("\n\n");
                let Ok(mut f) = EditorDocument::from_content(&h.text) else { continue };
                // what a question about an edit is told, without the edit being made
                if t.chance(1, 4) {
                    type Seen = (String, Option<(Vec<String>, Vec<(usize, String)>, Vec<usize>)>);
                    let see = |s: &ass_core::Script, v: Option<&ass_core::parser::script::ScriptDeltaOwned>| -> Seen { (format!("{:?}", s.sections()), v.map(|v| (v.added.clone(), v.modified.clone(), v.removed.clone()))) };
                    let old = ass_core::Script::parse(&h.text).map_err(|e| e.to_string())?;
                    let part = old.parse_partial(a..b, &x).ok();
                    let (r, n) = (Some(a..b).filter(|_| t.chance(3, 4)), Some(x.as_str()).filter(|_| t.chance(3, 4)));
                    let want = see(&old, part.as_ref().filter(|_| r.is_some() && n.is_some()));
                    let seen = d.parse_with_delta_tracking(r, n, see).map_err(|e| e.to_string())?;
                    ensure_eq!(seen, want, "what parse_with_delta_tracking tells");
                    h.agree(&d, "parse_with_delta_tracking")?;
                }
                let got = d.edit_incremental(rng(a, b), &x).map_err(|e| e.to_string())?;
                let fresh = f.edit_incremental(rng(a, b), &x).map_err(|e| e.to_string())?;
                let w = spliced(&h.text, a, b, &x);
                ensure_eq!(f.text(), w, "text of a fresh document");
                let show = |v: &ass_core::parser::script::ScriptDeltaOwned| (v.added.clone(), v.modified.clone(), v.removed.clone());
                ensure_eq!(show(&got), show(&fresh), "delta against that of a fresh document");
                // and what the core tells of this edit, or of the two texts
                let old = ass_core::Script::parse(&h.text).map_err(|e| e.to_string())?;
                let new = ass_core::Script::parse(&w).map_err(|e| e.to_string())?;
                let c = ass_core::parser::calculate_delta(&old, &new);
                let full = (c.added.iter().map(|s| format!("{s:?}")).collect(), c.modified.iter().map(|(i, s)| (*i, format!("{s:?}"))).collect(), c.removed.clone());
                if show(&got) != full {
                    let part = old.parse_partial(a..b, &x).map_err(|e| format!("the core refuses the edit: {e}"))?;
                    ensure_eq!(show(&got), show(&part), "delta against that of the core");
                }
                h.edited(&d, w, "edit_incremental")?;
                slow += 1;
            }
        }
        if h.text != before {
            real += 1;
        }
    }
    t.label_if(slow > 0, "slow");
    t.nontrivial_if(real >= 2);
    h.sweep(&mut d)
}

/// E17: the stack under limits.
pub fn limits(t: &mut T) -> R {
    let cfg = UndoStackConfig {
        max_entries: t.pick_c(&[0usize, 1, 2, 3, 5, 50]),
        max_memory: t.pick_c(&[0usize, 1, 300, 600, 1500, 100_000]),
        enable_compression: t.chance(1, 2),
        arena_reset_interval: t.us(4),
    };
    t.input_dbg("config", &cfg);
    let mut m = UndoManager::with_config(cfg.clone());
    // ids and sizes, newest last
    let (mut un, mut re): (Vec<(u64, usize)>, Vec<(u64, usize)>) = (vec![], vec![]);
    let mut next = 0u64;
    let ops = 1 + t.len(30);
    let mut dropped = 0;
    let mut log = vec![];
    for _ in 0..ops {
        let k = t.weighted(&[5, 3, 2, 1]);
        log.push((k, next));
        match k {
            0 => {
                let len = t.pick_c(&[0usize, 3, 100, 700]);
                let (op, size) = mk_op(t, next, len);
                let desc = format!("{next}");
                let size = size + desc.len();
                let r = CommandResult::success_with_change(rng(0, 0), Position::new(next as usize));
                m.record_operation(op, desc, &r);
                re.clear();
                un.push((next, size));
                next += 1;
                while un.len() > cfg.max_entries {
                    un.remove(0);
                    dropped += 1;
                }
                while cfg.max_memory > 0 && !un.is_empty() && un.iter().map(|x| x.1).sum::<usize>() > cfg.max_memory {
                    un.remove(0);
                    dropped += 1;
                }
                ensure_eq!(m.cursor_position(), Some(Position::new(next as usize - 1)), "cursor of the history");
            }
            1 => {
                let e = m.pop_undo_entry();
                ensure_eq!(e.as_ref().map(|e| e.description.clone()), un.last().map(|x| x.0.to_string()), "entry undone");
                if let Some(e) = e {
                    let x = un.pop().unwrap();
                    ensure_eq!(e.memory_usage, x.1, "memory of an entry");
                    check_op(&e, x.0)?;
                    re.push(x);
                    m.push_redo_entry(e);
                }
            }
            2 => {
                let e = m.pop_redo_entry();
                ensure_eq!(e.as_ref().map(|e| e.description.clone()), re.last().map(|x| x.0.to_string()), "entry redone");
                if let Some(e) = e {
                    let x = re.pop().unwrap();
                    check_op(&e, x.0)?;
                }
            }
            _ => {
                if t.chance(1, 6) {
                    m.clear();
                    un.clear();
                    re.clear();
                } else {
                    // what did not change the content is not recorded
                    m.record_operation(Operation::Insert { position: Position::new(0), text: "q".into() }, "no".into(), &CommandResult::success());
                    m.record_operation(Operation::Insert { position: Position::new(0), text: "q".into() }, "no".into(), &CommandResult::failure("f".into()));
                }
            }
        }
        let s = m.stats();
        ensure_eq!((s.undo_count, s.redo_count), (un.len(), re.len()), "entries kept");
        ensure_eq!(s.memory_usage, un.iter().chain(&re).map(|x| x.1).sum::<usize>(), "memory accounted");
        ensure_eq!(m.next_undo_description().map(String::from), un.last().map(|x| x.0.to_string()), "next undo");
        ensure_eq!(m.next_redo_description().map(String::from), re.last().map(|x| x.0.to_string()), "next redo");
        ensure!(s.undo_count <= cfg.max_entries.max(1) && (cfg.max_entries > 0 || s.undo_count == 0), "more than {} entries", cfg.max_entries);
        ensure_eq!((m.can_undo(), m.can_redo()), (!un.is_empty(), !re.is_empty()), "can_undo, can_redo");
    }
    t.input_dbg("operations", &log);
    t.label_if(dropped > 0, "dropped");
    t.nontrivial_if(dropped > 0 && !un.is_empty());
    Ok(())
}
fn mk_op(t: &mut T, id: u64, len: usize) -> (Operation, usize) {
    let x = format!("{id}:").repeat(1) + &"z".repeat(len);
    let base = std::mem::size_of::<Operation>();
    let n = x.len();
    match t.us(3) {
        0 => (Operation::Insert { position: Position::new(1), text: x }, base + n),
        1 => (Operation::Delete { range: rng(1, 2), deleted_text: x }, base + n),
        _ => (Operation::Replace { range: rng(1, 2), old_text: x, new_text: "ww".into() }, base + n + 2),
    }
}
fn check_op(e: &HistoryEntry, id: u64) -> R {
    let x = match &e.operation {
        Operation::Insert { text, .. } => text,
        Operation::Delete { deleted_text, .. } => deleted_text,
        Operation::Replace { old_text, .. } => old_text,
        _ => return Err("an operation nobody recorded".into()),
    };
    ensure!(x.starts_with(&format!("{id}:")), "entry {id} holds {x:?}");
    Ok(())
}

/// E17: a document whose history is limited.
pub fn limited_document(t: &mut T) -> R {
    let Some((mut d, s)) = open(t) else { return Ok(()) };
    let cfg = UndoStackConfig {
        max_entries: t.pick_c(&[0usize, 1, 2, 3, 5]),
        max_memory: t.pick_c(&[0usize, 0, 0, 400, 900]),
        enable_compression: t.chance(1, 2),
        arena_reset_interval: t.us(4),
    };
    t.input_dbg("config", &cfg);
    d.undo_manager_mut().set_config(cfg.clone());
    // every text the document has had, and where it stands
    let mut past = vec![s];
    let mut at = 0;
    let n = 2 + t.len(16);
    let mut lost = false;
    // entries kept, when only their number is limited
    let mut kept = 0;
    for _ in 0..n {
        if t.chance(3, 5) {
            let (a, b) = good_range(t, &past[at]);
            let x = some_text(t);
            match t.us(3) {
                0 => d.replace(rng(a, b), &x),
                1 => d.edit_incremental(rng(a, b), &x).map(|_| ()),
                _ => d.execute_command(&ReplaceTextCommand::new(rng(a, b), x.clone())).map(|_| ()),
            }
            .map_err(|e| e.to_string())?;
            let w = spliced(&past[at], a, b, &x);
            ensure_eq!(d.text(), w, "text after a replacement");
            if w != past[at] || d.undo_manager().stats().redo_count == 0 {
                past.truncate(at + 1);
            }
            if w != past[at] {
                past.push(w);
                at += 1;
                kept = (kept + 1).min(cfg.max_entries);
            } else {
                // nothing changed: whether that is an entry is open, so start over
                d.undo_manager_mut().clear();
                past = vec![w];
                at = 0;
                kept = 0;
            }
        } else if t.chance(2, 3) {
            match d.undo() {
                Ok(_) => {
                    ensure!(at > 0, "undo went before the first text");
                    at -= 1;
                    kept = usize::saturating_sub(kept, 1);
                }
                Err(_) => lost |= at > 0,
            }
        } else {
            match d.redo() {
                Ok(_) => {
                    ensure!(at + 1 < past.len(), "redo went beyond the last text");
                    at += 1;
                    kept = (kept + 1).min(cfg.max_entries);
                }
                Err(_) => ensure!(at + 1 == past.len() || cfg.max_memory > 0, "nothing to redo although {} were undone", past.len() - 1 - at),
            }
        }
        ensure_eq!(d.text(), past[at], "text in a limited history");
        let s = d.undo_manager().stats();
        ensure!(s.undo_count <= cfg.max_entries, "{} entries where {} are allowed", s.undo_count, cfg.max_entries);
        ensure!(cfg.max_memory == 0 || s.undo_count == 0 || s.memory_usage <= cfg.max_memory, "memory {} over {}", s.memory_usage, cfg.max_memory);
        if cfg.max_memory == 0 {
            ensure_eq!((s.undo_count, s.redo_count), (kept, past.len() - 1 - at), "entries kept");
        }
    }
    t.label_if(lost, "oldest dropped");
    t.nontrivial_if(past.len() > 2);
    Ok(())
}

fn breaks(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}')
}
/// Byte offsets where each line starts and where its content ends.
fn naive_lines(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut st = 0;
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if breaks(c) {
            let mut e = i + c.len_utf8();
            if c == '\r' && s[e..].starts_with('\n') {
                it.next();
                e += 1;
            }
            v.push((st, i));
            st = e;
        }
    }
    v.push((st, s.len()));
    v
}
/// E02: positions and lines.
pub fn positions(t: &mut T) -> R {
    let Some((mut d, s)) = open(t) else { return Ok(()) };
    if t.chance(1, 2) && !s.is_empty() {
        // positions in a text that was edited
        let (a, b) = good_range(t, &s);
        let x = some_text(t);
        d.replace(rng(a, b), &x).map_err(|e| e.to_string())?;
    }
    let s = d.text();
    let ls = naive_lines(&s);
    ensure_eq!(d.len_lines(), ls.len(), "len_lines");
    t.nontrivial_if(ls.len() > 1 && s.len() > 4);
    t.label_if(!s.is_ascii(), "non-ascii");
    let step = 1 + s.chars().count() / 40;
    let mut checked = vec![];
    for (i, _) in s.char_indices().step_by(step).chain(std::iter::once((s.len(), ' '))) {
        // a position inside CRLF belongs to the line it ends
        let l = ls.iter().rposition(|x| x.0 <= i).unwrap();
        let col = s[ls[l].0..i].chars().count() + 1;
        let p = Position::new(i);
        let lc = d.position_to_line_column(p).map_err(|e| format!("position_to_line_column {i}: {e}"))?;
        ensure_eq!((lc.line, lc.column), (l + 1, col), "line and column of {i}");
        ensure_eq!(d.position_to_line_col(p).map_err(|e| e.to_string()), Ok((l + 1, col)), "position_to_line_col {i}");
        ensure_eq!(d.at_pos(p).to_line_column().map_err(|e| e.to_string()), Ok((l + 1, col)), "to_line_column {i}");
        ensure_eq!(d.line_column_to_position(l + 1, col).map_err(|e| e.to_string()), Ok(p), "position of {}:{col}", l + 1);
        ensure_eq!(PositionBuilder::new().line(l + 1).column(col).build(d.rope()).map_err(|e| e.to_string()), Ok(p), "built position");
        ensure_eq!(PositionBuilder::new().offset(i).build(d.rope()).map_err(|e| e.to_string()), Ok(p), "built offset");
        checked.push(i);
    }
    for (k, (st, en)) in ls.iter().enumerate() {
        if k > 30 {
            break;
        }
        let line = k + 1;
        ensure_eq!(PositionBuilder::new().at_line_start(line).build(d.rope()).map_err(|e| e.to_string()), Ok(Position::new(*st)), "start of line {line}");
        ensure_eq!(PositionBuilder::new().at_line_end(line).build(d.rope()).map_err(|e| e.to_string()), Ok(Position::new(*en)), "end of line {line}");
        ensure_eq!(d.at_line(line).map(|p| p.position()).map_err(|e| e.to_string()), Ok(Position::new(*st)), "at_line {line}");
        let full = ls.get(k + 1).map_or(s.len(), |x| x.0);
        let n = s[*st..full].chars().count();
        ensure!(d.line_column_to_position(line, n + 2 + t.us(3)).is_err(), "a column beyond line {line} has a position");
        ensure!(d.line_column_to_position(line, 0).is_err(), "column 0 has a position");
    }
    for l in [ls.len() + 1, ls.len() + 2] {
        ensure!(d.at_line(l).is_err(), "at_line accepts line {l} of {}", ls.len());
        ensure!(d.line_column_to_position(l, 1).is_err(), "line {l} of {} has a position", ls.len());
        ensure!(PositionBuilder::new().at_line_end(l).build(d.rope()).is_err(), "line {l} of {} has an end", ls.len());
    }
    for o in [s.len() + 1, s.len() + 5] {
        ensure!(d.position_to_line_column(Position::new(o)).is_err() && d.position_to_line_col(Position::new(o)).is_err(), "offset {o} has a line in a text of {}", s.len());
        ensure!(PositionBuilder::new().offset(o).build(d.rope()).is_err(), "offset {o} builds in a text of {}", s.len());
        ensure!(d.at_pos(Position::new(o)).to_line_column().is_err(), "offset {o} has a line in a text of {}", s.len());
    }
    ensure_eq!(d.at_start().position(), Position::new(0), "at_start");
    ensure_eq!(d.at_end().position(), Position::new(s.len()), "at_end");
    // edits by lines
    match t.us(4) {
        0 => {
            let p = good_off(t, &s);
            let l = ls.iter().rposition(|x| x.0 <= p).unwrap();
            let e = ls[l].1.max(p);
            let x = some_text(t);
            d.at_pos(Position::new(p)).replace_to_line_end(&x).map_err(|e| format!("replace_to_line_end at {p}: {e}"))?;
            ensure_eq!(d.text(), spliced(&s, p, e, &x), "text after replace_to_line_end at {p}");
        }
        1 | 2 => {
            let (a, b) = good_range(t, &s);
            let n = t.us(5);
            let la = ls.iter().rposition(|x| x.0 <= a).unwrap();
            let lb = ls.iter().rposition(|x| x.0 <= b).unwrap();
            let un = t.chance(1, 2);
            let mut w = s.clone();
            for k in (la..=lb).rev() {
                let st = ls[k].0;
                if un {
                    let m = s[st..].chars().take(n).take_while(|c| *c == ' ').count();
                    w.replace_range(st..st + m, "");
                } else {
                    w.insert_str(st, &" ".repeat(n));
                }
            }
            let r = if un { d.select(rng(a, b)).unindent(n).map(|_| ()) } else { d.select(rng(a, b)).indent(n).map(|_| ()) };
            r.map_err(|e| format!("indenting {a}..{b} failed: {e}"))?;
            ensure_eq!(d.text(), w, "text after {} {a}..{b} by {n}", if un { "unindent" } else { "indent" });
        }
        _ => {
            let (a, b) = good_range(t, &s);
            d.select(rng(a, b)).wrap_with_tag("{\\i1}", "{\\i0}").map_err(|e| e.to_string())?;
            ensure_eq!(d.text(), spliced(&s, a, b, &format!("{{\\i1}}{}{{\\i0}}", &s[a..b])), "text after wrap_with_tag");
        }
    }
    Ok(())
}
/// E02: ranges as sets of offsets.
pub fn ranges(t: &mut T) -> R {
    let m = t.pick_c(&[8usize, 40, usize::MAX - 2]);
    let pt = |t: &mut T| if m > 100 { t.pick_c(&[0usize, 1, 5, usize::MAX - 1, usize::MAX]) } else { t.us(m) };
    let (a, b, c, e, p) = (pt(t), pt(t), pt(t), pt(t), pt(t));
    t.input_dbg("points", &(a, b, c, e, p));
    let (x, y) = (rng(a, b), rng(c, e));
    let (xa, xb, ya, yb) = (a.min(b), a.max(b), c.min(e), c.max(e));
    t.nontrivial_if(xa < xb && ya < yb);
    ensure_eq!((x.start.offset, x.end.offset), (xa, xb), "normalised range");
    ensure_eq!(x.len(), xb - xa, "length");
    ensure_eq!(x.is_empty(), xa == xb, "is_empty");
    ensure_eq!(x.contains(Position::new(p)), xa <= p && p < xb, "contains {p}");
    let (lo, hi) = (xa.max(ya), xb.min(yb));
    if xa < xb && ya < yb {
        ensure_eq!(x.overlaps(&y), lo < hi, "overlaps");
    }
    ensure_eq!(x.overlaps(&y), y.overlaps(&x), "overlaps both ways");
    ensure_eq!(x.intersection(&y), if lo < hi { Some(rng(lo, hi)) } else { None }, "intersection");
    ensure_eq!(x.union(&y), rng(xa.min(ya), xb.max(yb)), "union");
    ensure_eq!(x.extend_to(Position::new(p)), rng(xa.min(p), xb.max(p)), "extend_to {p}");
    ensure_eq!(Position::new(a).advance(b).offset, a.saturating_add(b), "advance");
    ensure_eq!(Position::new(a).retreat(b).offset, a.saturating_sub(b), "retreat");
    let s = Selection::new(Position::new(a), Position::new(b));
    ensure_eq!(s.range(), x, "range of a selection");
    ensure_eq!((s.is_reversed(), s.is_empty()), (b < a, a == b), "direction of a selection");
    let s2 = s.extend_to(Position::new(p));
    ensure_eq!((s2.anchor.offset, s2.cursor.offset), (a, p), "extended selection");
    Ok(())
}

/// E08: a delta puts sections in place of sections.
pub fn delta(t: &mut T) -> R {
    use ass_core::parser::script::ScriptDeltaOwned;
    // pieces: the text of a section with what follows it, and whether the parser knows the section
    fn piece(t: &mut T) -> (String, bool) {
        let (head, known) = t.pick_c(&[
            ("[Script Info]", true),
            ("[V4+ Styles]", true),
            ("[V4 Styles]", true),
            ("[Events]", true),
            ("[ Events ]", true),
            ("[Events] ; more", true),
            ("[Fonts]", true),
            ("[Graphics]", true),
            ("[Extradata]", false),
            ("[events]", false),
        ]);
        let mut s = format!("{head}\n");
        let body: &[&str] = match head {
            "[Script Info]" => &["Title: é\n", "; [Events]\n", "PlayResX: 640\r\n", "\n"],
            "[V4+ Styles]" | "[V4 Styles]" => &["Format: Name, Fontname\n", "Style: A,日\n", "Style: [Fonts],B\n", "\n"],
            "[Fonts]" | "[Graphics]" => &["fontname: a.ttf\n", "ABCD\n", "filename: b.png\n", "\n"],
            _ => &["Format: Start, End, Text\n", "Dialogue: 0:00:01.00,0:00:02.00,see [Fonts]\n", "Comment: 0:00:01.00,0:00:02.00,\n", "\n"],
        };
        for _ in 0..t.us(4) {
            s += t.pick(body);
        }
        (s, known)
    }
    let mut pieces: Vec<(String, bool)> = vec![];
    if t.chance(1, 6) {
        pieces.push((t.pick_c(&["\n", "; a note\n"]).to_string(), false));
    }
    for _ in 0..t.us(6) {
        pieces.push(piece(t));
    }
    if t.chance(1, 3) {
        if let Some(last) = pieces.last_mut() {
            last.0 = last.0.trim_end_matches(['\r', '\n']).to_string();
        }
    }
    let text = |p: &[(String, bool)]| p.iter().map(|x| x.0.as_str()).collect::<String>();
    let start = text(&pieces);
    t.input("text", &start);
    let Ok(mut d) = EditorDocument::from_content(&start) else { return Ok(()) };
    let mut h = Hist { text: start, ..Hist::default() };
    let mut real = 0;
    for _ in 0..1 + t.len(5) {
        match t.us(6) {
            0 => {
                t.input("undo", "");
                h.undo(&mut d)?
            }
            1 => {
                t.input("redo", "");
                h.redo(&mut d)?
            }
            2 => {
                let (a, b) = good_range(t, &h.text);
                let x = some_text(t);
                // what the pieces are after this nobody says
                t.input_dbg("replace", &(a, b, &x));
                d.replace(rng(a, b), &x).map_err(|e| e.to_string())?;
                let w = spliced(&h.text, a, b, &x);
                h.edited(&d, w, "replace")?;
                h.undo(&mut d)?;
            }
            _ => {
                if text(&pieces) != h.text {
                    // back to a text whose pieces are known
                    continue;
                }
                let known: Vec<usize> = (0..pieces.len()).filter(|&i| pieces[i].1).collect();
                let mut want = pieces.clone();
                let (mut removed, mut modified, mut added) = (vec![], vec![], vec![]);
                let mut gone = vec![];
                for (n, &i) in known.iter().enumerate() {
                    match t.us(5) {
                        0 => {
                            removed.push(n);
                            gone.push(i);
                        }
                        1 | 2 => {
                            let mut p = piece(t);
                            p.1 = true;
                            if !p.0.starts_with('[') || p.0.starts_with("[Ex") || p.0.starts_with("[ev") {
                                p.0 = "[Events]\n".into();
                            }
                            if t.chance(1, 3) {
                                p.0 = p.0.trim_end_matches(['\r', '\n']).to_string();
                            }
                            modified.push((n, p.0.clone()));
                            if i + 1 < want.len() && !p.0.ends_with('\n') {
                                p.0.push('\n');
                            }
                            want[i] = p;
                        }
                        _ => {}
                    }
                }
                for &i in gone.iter().rev() {
                    want.remove(i);
                }
                for _ in 0..t.us(3) {
                    let mut p = piece(t);
                    if t.chance(1, 3) {
                        p.0 = p.0.trim_end_matches(['\r', '\n']).to_string();
                    }
                    added.push(p.0.clone());
                    if !p.0.ends_with('\n') {
                        p.0.push('\n');
                    }
                    if let Some(last) = want.last_mut() {
                        // what stands before an empty piece ends with its line
                        if !last.0.is_empty() && !last.0.ends_with('\n') {
                            last.0.push('\n');
                        }
                    }
                    want.push(p);
                }
                if t.chance(1, 2) {
                    removed.reverse();
                    modified.reverse();
                }
                let delta = ScriptDeltaOwned { added, modified, removed, new_issues: vec![] };
                t.input_dbg("delta", &delta);
                d.apply_script_delta(delta).map_err(|e| format!("the delta is refused: {e}"))?;
                let w = text(&want);
                real += (w != h.text) as usize;
                h.edited(&d, w, "apply_script_delta")?;
                pieces = want;
            }
        }
    }
    t.nontrivial_if(real > 0);
    h.sweep(&mut d)
}
