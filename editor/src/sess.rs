//! E13, E14: sessions, and the delivery of events.
use crate::doc::{good_range, rng, some_text, start_text};
use ass_editor::events::{DocumentEvent, EventChannel, EventChannelConfig, EventFilter, EventHandler};
use ass_editor::sessions::{EditorSessionManager, SessionConfig};
use ass_editor::*;
use std::collections::BTreeMap;
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use vkit::*;

struct Sess {
    text: String,
    undo: Vec<String>,
    ops: usize,
    /// When it was last used: not before the first, not after the second.
    used: (Instant, Instant),
}
/// One change of a document; returns whether it is to be reported as done.
fn change(t: &mut T, text: &mut String, undo: &mut Vec<String>) -> (String, Box<dyn Fn(&mut EditorDocument) -> std::result::Result<bool, EditorError> + Send + Sync>) {
    let old = text.clone();
    match t.us(5) {
        3 => {
            if let Some(x) = undo.pop() {
                *text = x;
            }
            ("undo".into(), Box::new(move |d| if d.can_undo() { d.undo().map(|_| true) } else { Ok(true) }))
        }
        k => {
            let ((mut a, mut b), mut s) = (good_range(t, text), some_text(t));
            if k == 4 {
                s.clear();
            }
            if text[a..b] == s {
                // a change of nothing
                (a, b, s) = (0, 0, "z".into());
            }
            text.replace_range(a..b, &s);
            undo.push(old);
            match (k, s.is_empty(), a == b) {
                (4, ..) => (format!("replace {a}..{b} by {s:?}, and fail"), Box::new(move |d| d.replace(rng(a, b), &s).and(Ok(false)))),
                (_, _, true) => (format!("insert {s:?} at {a}"), Box::new(move |d| d.insert(Position::new(a), &s).map(|_| true))),
                (_, true, _) => (format!("delete {a}..{b}"), Box::new(move |d| d.delete(rng(a, b)).map(|_| true))),
                _ => (format!("replace {a}..{b} by {s:?}"), Box::new(move |d| d.replace(rng(a, b), &s).map(|_| true))),
            }
        }
    }
}
pub fn sessions(t: &mut T) -> R {
    let limit = if t.chance(1, 3) { 50 } else { t.span(0, 4) };
    let auto = t.chance(3, 4);
    let m0 = EditorSessionManager::with_config(SessionConfig { max_sessions: limit, auto_cleanup: auto, ..SessionConfig::default() });
    // a second handle on the same sessions
    let mut ms = [m0.clone(), m0];
    let mut v: BTreeMap<String, Sess> = BTreeMap::new();
    let mut active: Option<String> = None;
    let mut resets = 0;
    let mut edits = 0;
    t.input("config", &format!("limit {limit}, cleanup {auto}"));
    for _ in 0..t.span(1, 24) {
        let h = t.us(2);
        let m = &mut ms[h];
        let id = t.pick(&["a", "b", "c", "", "é"]).to_string();
        let there = v.contains_key(&id);
        let what;
        match t.weighted(&[4, 6, 2, 2, 2, 1, 1]) {
            0 => {
                let with = t.chance(1, 2);
                let text = if with { start_text(t) } else { String::new() };
                what = format!("create {id:?} {}", if with { "with a text" } else { "empty" });
                t.input_dbg("op", &what);
                let at = Instant::now();
                let doc = if with { EditorDocument::from_content(&text) } else { Ok(EditorDocument::new()) };
                let Ok(doc) = doc else { continue };
                let fresh = if with { text } else { doc.text() };
                let got = if with { m.create_session_with_document(id.clone(), doc) } else { m.create_session(id.clone()) };
                if !there {
                    ensure_eq!(got.is_ok(), v.len() < limit, "{what}, {} of {limit} there: result {got:?}", v.len());
                }
                if got.is_ok() {
                    v.insert(id.clone(), Sess { text: fresh, undo: vec![], ops: 0, used: (at, Instant::now()) });
                    if active.is_none() {
                        active = Some(id);
                    }
                }
            }
            1 => {
                what = format!("edit {id:?}");
                t.input_dbg("op", &what);
                let at = Instant::now();
                match v.get_mut(&id) {
                    None => {
                        let got = m.with_document_mut(&id, |_| Ok(()));
                        ensure!(matches!(got, Err(EditorError::DocumentNotFound { .. })), "{what}, which is not there: {got:?}");
                    }
                    Some(s) => {
                        let (w, f) = change(t, &mut s.text, &mut s.undo);
                        t.input_dbg("op", &w);
                        let got = m.with_document_mut(&id, |d| match f(d) {
                            Ok(true) => Ok(7),
                            Ok(false) => Err(EditorError::CommandFailed { message: "x".into() }),
                            Err(e) => Err(e),
                        });
                        if w.ends_with("fail") {
                            ensure!(matches!(&got, Err(EditorError::CommandFailed { message }) if message == "x"), "{what}: {w}: {got:?}");
                            s.used.1 = Instant::now();
                        } else {
                            ensure!(matches!(got, Ok(7)), "{what}: {w}: {got:?}");
                            s.ops += 1;
                            edits += 1;
                            s.used = (at, Instant::now());
                        }
                    }
                }
            }
            2 => {
                what = format!("switch to {id:?}");
                t.input_dbg("op", &what);
                let at = Instant::now();
                let got = m.switch_session(&id);
                ensure_eq!(got.is_ok(), there, "{what}: {got:?}");
                if let Some(s) = v.get_mut(&id) {
                    s.used = (at, Instant::now());
                    active = Some(id);
                }
            }
            3 => {
                what = format!("remove {id:?}");
                t.input_dbg("op", &what);
                let got = m.remove_session(&id);
                ensure_eq!(got.is_ok(), there, "{what}: result");
                if let Ok(s) = got {
                    let w = v.remove(&id).unwrap();
                    let have = (s.id.clone(), s.document.text(), s.operation_count);
                    let want = (id.clone(), w.text, w.ops);
                    ensure_eq!(have, want, "{what}: id, text and operations of the session");
                    if active.as_ref() == Some(&id) {
                        active = None;
                    }
                }
            }
            4 => {
                what = format!("read {id:?}");
                let got = m.with_document(&id, |d| Ok(d.text()));
                match v.get_mut(&id) {
                    None => ensure!(matches!(got, Err(EditorError::DocumentNotFound { .. })), "{what}, which is not there: {got:?}"),
                    Some(s) => {
                        let got = got.ok();
                        ensure_eq!(got.as_deref(), Some(s.text.as_str()), "{what}: text");
                        s.used.1 = Instant::now();
                    }
                }
            }
            5 => {
                m.reset_shared_arena();
                resets += 1;
                what = "reset of the arena".into();
            }
            _ => {
                std::thread::sleep(Duration::from_micros(1));
                let now = Instant::now();
                let ages: Vec<Duration> = v.values().map(|s| now - s.used.1).collect();
                let age = match t.us(3) {
                    0 => Duration::ZERO,
                    1 if !ages.is_empty() => ages[t.us(ages.len())].saturating_sub(Duration::from_nanos(1)),
                    _ => Duration::from_secs(3600),
                };
                what = format!("cleanup of sessions older than {age:?}");
                t.input_dbg("op", "cleanup");
                let got = m.cleanup_stale_sessions(age);
                let Ok(n) = got else { return Err(format!("{what}: {got:?}")) };
                let end = Instant::now();
                let left = m.list_sessions().unwrap_or_default();
                let before = v.len();
                for (id, s) in &v {
                    let kept = left.contains(id);
                    if !auto || end - s.used.0 <= age {
                        ensure!(kept, "{what} (cleanup {auto}) removed {id:?}, which was in use");
                    } else if now - s.used.1 > age {
                        ensure!(!kept, "{what} left {id:?}, which nobody used for longer");
                    }
                }
                v.retain(|id, _| left.contains(id));
                ensure_eq!(n, before - v.len(), "{what}: number of sessions removed");
                if active.as_ref().is_some_and(|a| !v.contains_key(a)) {
                    active = None;
                }
            }
        }
        let m = &ms[1 - h];
        let mut ids = m.list_sessions().unwrap_or_default();
        ids.sort();
        let want: Vec<String> = v.keys().cloned().collect();
        ensure_eq!(ids, want, "sessions after {what}");
        let got = m.active_session().unwrap_or_default();
        ensure_eq!(got, active, "active session after {what}");
        let st = m.stats();
        ensure_eq!((st.active_sessions, st.arena_resets), (v.len(), resets), "sessions and arena resets counted after {what}");
        for (id, s) in &v {
            let got = m.with_document(id, |d| Ok((d.text(), d.undo_manager().stats().undo_count)));
            let Ok((text, undo)) = got else { return Err(format!("session {id:?} after {what}: {got:?}")) };
            ensure_eq!(text, s.text, "text of session {id:?} after {what}");
            ensure_eq!(undo > 0, !s.undo.is_empty(), "session {id:?} can undo after {what}");
        }
    }
    t.nontrivial_if(edits > 1 && v.len() > 1);
    Ok(())
}
/// Threads that edit a session each, through handles of their own: the sessions stay apart.
pub fn threads(t: &mut T) -> R {
    let n = t.span(2, 4);
    let mut m = EditorSessionManager::with_config(SessionConfig::default());
    let mut jobs = vec![];
    for i in 0..n {
        let mut text = start_text(t);
        let Ok(doc) = EditorDocument::from_content(&text) else { return Ok(()) };
        if m.create_session_with_document(i.to_string(), doc).is_err() {
            return Err("session not created".into());
        }
        let mut undo = vec![];
        let k = t.span(1, 8);
        let ops: Vec<_> = (0..k).map(|_| change(t, &mut text, &mut undo)).collect();
        let leave = t.chance(1, 3);
        jobs.push((text, ops, leave));
    }
    t.input_dbg("ops", &jobs.iter().map(|j| j.1.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
    t.nontrivial_if(jobs.iter().filter(|j| j.1.len() > 1).count() > 1);
    let go = std::sync::Barrier::new(n);
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .enumerate()
            .map(|(i, (text, ops, leave))| {
                let mut m = m.clone();
                let go = &go;
                s.spawn(move || -> R {
                    let id = i.to_string();
                    go.wait();
                    for (w, f) in ops {
                        let got = m.with_document_mut(&id, |d| f(d));
                        ensure!(got.is_ok(), "session {id}: {w}: {got:?}");
                        if i % 2 == 1 {
                            let _ = m.switch_session(&id);
                        }
                    }
                    if *leave {
                        let s = m.remove_session(&id);
                        let Ok(s) = s else { return Err(format!("session {id} not removed")) };
                        let have = (s.document.text(), s.operation_count);
                        ensure_eq!(have, (text.clone(), ops.len()), "text and operations of session {id}");
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())).err()).collect()
    });
    ensure!(bad.is_empty(), "{}", bad.join("; "));
    let left: Vec<usize> = (0..n).filter(|i| !jobs[*i].2).collect();
    ensure_eq!(m.stats().active_sessions, left.len(), "sessions counted");
    for i in left {
        let got = m.with_document(&i.to_string(), |d| Ok(d.text())).unwrap_or_default();
        ensure_eq!(got, jobs[i].0, "text of session {i} after its edits");
    }
    if let Some(a) = m.active_session().unwrap_or_default() {
        ensure!(m.with_document(&a, |_| Ok(())).is_ok(), "the active session {a} does not exist");
    }
    Ok(())
}

// ---- events ----

const TYPES: [&str; 16] = ["TextInserted", "TextDeleted", "TextReplaced", "SelectionChanged", "CursorMoved", "DocumentSaved", "DocumentLoaded", "UndoPerformed", "RedoPerformed", "ValidationCompleted", "SearchCompleted", "ParsingCompleted", "ExtensionChanged", "ConfigChanged", "mine", "TextSaved"];
/// An event, and the number of its type in `TYPES`.
fn event(t: &mut T) -> (usize, DocumentEvent) {
    let k = t.us(TYPES.len());
    let w = t.pick(&["", "x", "é"]).to_string();
    let n = t.us(3);
    let p = Position::new(n);
    let r = Range::new(p, Position::new(n + 1));
    (
        k,
        match k {
            0 => DocumentEvent::TextInserted { position: p, length: w.len(), text: w },
            1 => DocumentEvent::TextDeleted { range: r, deleted_text: w },
            2 => DocumentEvent::TextReplaced { range: r, old_text: "o".into(), new_text: w },
            3 => DocumentEvent::SelectionChanged { old_selection: None, new_selection: Some(r) },
            4 => DocumentEvent::CursorMoved { old_position: p, new_position: Position::new(9) },
            5 => DocumentEvent::DocumentSaved { file_path: w, save_as: n == 1 },
            6 => DocumentEvent::DocumentLoaded { file_path: w, size: n },
            7 => DocumentEvent::UndoPerformed { action_description: w, changes_count: n },
            8 => DocumentEvent::RedoPerformed { action_description: w, changes_count: n },
            9 => DocumentEvent::ValidationCompleted { issues_count: n, error_count: n, warning_count: 0, validation_time_ms: 1 },
            10 => DocumentEvent::SearchCompleted { pattern: w, matches_count: n, hit_limit: false, search_time_us: 1 },
            11 => DocumentEvent::ParsingCompleted { success: n == 1, sections_count: n, parse_time_ms: 1, error_message: None },
            12 => DocumentEvent::ExtensionChanged { extension_name: w, loaded: n == 1 },
            13 => DocumentEvent::ConfigChanged { key: w, old_value: None, new_value: n.to_string() },
            // a custom event goes by its own name, which may be that of another type
            _ => DocumentEvent::CustomEvent { event_type: TYPES[k].into(), data: [("k".to_string(), w)].into_iter().collect() },
        },
    )
}
#[derive(Clone, Debug, Default)]
struct Filter {
    incl: Vec<usize>,
    excl: Vec<usize>,
    modif: Option<bool>,
    cursor: Option<bool>,
}
impl Filter {
    fn make(t: &mut T) -> Filter {
        let some = |t: &mut T| if t.chance(1, 3) { (0..1 + t.us(4)).map(|_| t.us(TYPES.len())).collect() } else { vec![] };
        let yes = |t: &mut T| if t.chance(1, 5) { Some(t.chance(1, 2)) } else { None };
        Filter { incl: some(t), excl: some(t), modif: yes(t), cursor: yes(t) }
    }
    fn real(&self) -> EventFilter {
        let names = |v: &[usize]| v.iter().map(|k| TYPES[*k].to_string()).collect::<Vec<_>>();
        let mut f = EventFilter::new();
        if !self.incl.is_empty() {
            f = f.include_types(names(&self.incl));
        }
        if !self.excl.is_empty() {
            f = f.exclude_types(names(&self.excl));
        }
        if let Some(x) = self.modif {
            f = f.include_modifications(x);
        }
        if let Some(x) = self.cursor {
            f = f.include_cursor_events(x);
        }
        f
    }
    fn takes(&self, k: usize) -> bool {
        !self.excl.contains(&k)
            && (self.incl.is_empty() || self.incl.contains(&k))
            && self.modif.is_none_or(|m| m == matches!(k, 0 | 1 | 2 | 7 | 8))
            && self.cursor.is_none_or(|c| c == matches!(k, 3 | 4))
    }
}
type Log = Arc<Mutex<Vec<(usize, DocumentEvent)>>>;
struct Hand {
    n: usize,
    filter: EventFilter,
    priority: i32,
    log: Log,
    /// Counts down to the call that fails.
    fails: Option<usize>,
}
impl EventHandler for Hand {
    fn handle_event(&mut self, e: &DocumentEvent) -> std::result::Result<(), EditorError> {
        self.log.lock().unwrap().push((self.n, e.clone()));
        match &mut self.fails {
            Some(0) => {
                self.fails = None;
                Err(EditorError::CommandFailed { message: "handler".into() })
            }
            Some(n) => {
                *n -= 1;
                Ok(())
            }
            None => Ok(()),
        }
    }
    fn event_filter(&self) -> EventFilter {
        self.filter.clone()
    }
    fn priority(&self) -> i32 {
        self.priority
    }
}
struct Reg {
    id: usize,
    n: usize,
    filter: Filter,
    priority: i32,
    fails: Option<usize>,
}
pub fn channel(t: &mut T) -> R {
    let limit = if t.chance(1, 2) { 100 } else { t.us(4) };
    let conf = EventChannelConfig { max_handlers: limit, enable_batching: t.chance(1, 2), max_batch_size: t.us(4), ..EventChannelConfig::default() };
    t.input_dbg("config", &conf);
    let mut c = EventChannel::with_config(conf);
    let log: Log = Log::default();
    let mut regs: Vec<Reg> = vec![];
    let (mut made, mut sent, mut queued) = (0, 0, 0);
    let mut ids: Vec<usize> = vec![];
    // events filtered: between these, as a failing handler ends the delivery where it likes
    let mut filtered = (0usize, 0usize);
    let mut queues: Vec<(_, Vec<DocumentEvent>)> = vec![];
    let mut heard = 0;
    for _ in 0..t.span(1, 16) {
        let what;
        match t.weighted(&[5, 6, 3, 2, 1, 1, 2]) {
            0 => {
                let f = Filter::make(t);
                let p = t.pick_c(&[0, 0, 1, -1, 5, i32::MIN, i32::MAX]);
                let fails = if t.chance(1, 8) { Some(t.us(3)) } else { None };
                what = format!("registering {made} with {f:?}, priority {p}, failing {fails:?}");
                t.input_dbg("op", &what);
                let got = c.register_handler(Box::new(Hand { n: made, filter: f.real(), priority: p, log: log.clone(), fails }));
                ensure_eq!(got.is_ok(), regs.len() < limit, "{what} ({} of {limit} there)", regs.len());
                if let Ok(id) = got {
                    ensure!(!ids.contains(&id), "{what} gave the id {id} again");
                    ids.push(id);
                    regs.push(Reg { id, n: made, filter: f, priority: p, fails });
                    regs.sort_by_key(|r| std::cmp::Reverse(r.priority));
                }
                made += 1;
            }
            1 | 2 => {
                let k = if t.chance(1, 2) { 1 } else { t.us(6) };
                let evs: Vec<(usize, DocumentEvent)> = (0..k).map(|_| event(t)).collect();
                what = format!("dispatching {:?}", evs.iter().map(|e| &e.1).collect::<Vec<_>>());
                t.input_dbg("op", &what);
                log.lock().unwrap().clear();
                let got = if k == 1 && t.chance(1, 2) { c.dispatch(evs[0].1.clone()) } else { c.dispatch_batch(evs.iter().map(|e| e.1.clone()).collect()) };
                // what must be heard; and what may be, after a failure
                let mut must = vec![];
                let mut failed = false;
                for (ty, e) in &evs {
                    if failed {
                        break;
                    }
                    sent += 1;
                    for r in &mut regs {
                        if !r.filter.takes(*ty) {
                            filtered.1 += 1;
                            if !failed {
                                filtered.0 += 1;
                            }
                            continue;
                        }
                        if failed {
                            continue;
                        }
                        must.push((r.n, e.clone()));
                        match &mut r.fails {
                            Some(0) => {
                                r.fails = None;
                                failed = true;
                            }
                            Some(n) => *n -= 1,
                            None => {}
                        }
                    }
                    if failed {
                        filtered.0 = filtered.0.saturating_sub(regs.len());
                    }
                }
                ensure_eq!(got.is_err(), failed, "{what}: a handler failed");
                let have = log.lock().unwrap().clone();
                heard += must.len();
                if failed {
                    ensure!(have.len() >= must.len() && have[..must.len()] == must[..], "{what}: heard {have:?}, expected to begin {must:?}");
                    // whatever else was heard, the model lost count of it
                    if have.len() > must.len() || c.stats().events_dispatched != sent {
                        return Ok(());
                    }
                } else {
                    ensure_eq!(have, must, "{what}: heard by");
                }
            }
            3 => {
                let id = if !ids.is_empty() && t.chance(4, 5) { let k = t.us(ids.len()); ids[k] } else { 77 };
                what = format!("unregistering {id}");
                t.input_dbg("op", &what);
                let got = c.unregister_handler(id);
                let at = regs.iter().position(|r| r.id == id);
                ensure!(matches!(got, Ok(x) if x == at.is_some()), "{what}: {got:?}, it is there: {}", at.is_some());
                if let Some(i) = at {
                    regs.remove(i);
                }
            }
            4 => {
                what = "clearing the handlers".into();
                t.input_dbg("op", &what);
                ensure!(c.clear_handlers().is_ok(), "{what} failed");
                regs.clear();
            }
            5 => {
                what = "opening an asynchronous queue".into();
                t.input_dbg("op", &what);
                queues.push((c.setup_async(), vec![]));
            }
            _ => {
                let (_, e) = event(t);
                what = format!("queueing {e:?}");
                t.input_dbg("op", &what);
                log.lock().unwrap().clear();
                let got = c.dispatch_async(e.clone());
                ensure_eq!(got.is_ok(), !queues.is_empty(), "{what} with a queue open");
                if let Some(q) = queues.last_mut() {
                    q.1.push(e);
                    queued += 1;
                }
                ensure!(log.lock().unwrap().is_empty(), "{what} called a handler");
            }
        }
        let s = c.stats();
        let have = (s.handlers_count, s.events_dispatched, s.async_events_queued);
        ensure_eq!(have, (regs.len(), sent, queued), "handlers, dispatched and queued events counted after {what}");
        ensure!(s.events_filtered >= filtered.0 && s.events_filtered <= filtered.1, "{} events filtered after {what}, expected {filtered:?}", s.events_filtered);
    }
    drop(c);
    for (i, (q, want)) in queues.iter_mut().enumerate() {
        let mut got = vec![];
        while let Ok(Some(e)) = q.try_next() {
            got.push(e);
        }
        ensure_eq!(got, *want, "events in queue {i}");
    }
    t.nontrivial_if(heard > 1 && made > 1 && sent > 1);
    Ok(())
}
/// The events a document sends describe its edits: replayed on a copy they give its text.
pub fn document(t: &mut T) -> R {
    let start = start_text(t);
    let Ok(mut d) = EditorDocument::from_content(&start) else { return Ok(()) };
    t.input("text", &start);
    let (tx, rx) = mpsc::channel();
    d.set_event_channel(tx);
    let mut copy = start.clone();
    let mut text = start;
    let mut n = 0;
    for _ in 0..t.span(1, 8) {
        let ((a, b), s) = (good_range(t, &text), some_text(t));
        let k = t.us(6);
        let what = format!("edit {k} of {a}..{b} with {s:?}");
        t.input_dbg("op", &what);
        let mut want = text.clone();
        let res = match k {
            0 => {
                want.insert_str(a, &s);
                d.insert(Position::new(a), &s)
            }
            1 => {
                want.replace_range(a..b, "");
                d.delete(rng(a, b))
            }
            2 => {
                want.replace_range(a..b, &s);
                d.replace(rng(a, b), &s)
            }
            3 => {
                want.replace_range(a..b, &s);
                d.edit_incremental(rng(a, b), &s).map(|_| ())
            }
            4 => {
                want.insert_str(a, &s);
                d.insert_incremental(Position::new(a), &s).map(|_| ())
            }
            _ => {
                let end = text.len() + 3;
                let res = d.replace(rng(text.len() + 1, end), &s);
                ensure!(res.is_err(), "{what}: replaced what is not there");
                ensure!(rx.try_recv().is_err(), "{what}: refused, but reported as an event");
                continue;
            }
        };
        if let Err(e) = res {
            return Err(format!("{what}: {e}"));
        }
        text = want;
        ensure_eq!(d.text(), text, "text after {what}");
        n += 1;
        let evs: Vec<DocumentEvent> = rx.try_iter().collect();
        ensure!(evs.len() == 1, "{what}: {} events: {evs:?}", evs.len());
        let before = copy.clone();
        let bad = |x: &str| format!("{what}: the event names {x}: {evs:?} over {before:?}");
        match &evs[0] {
            DocumentEvent::TextInserted { position, text: s, length } => {
                ensure!(*length == s.len(), "{}", bad("another length"));
                ensure!(copy.is_char_boundary(position.offset), "{}", bad("a wrong place"));
                copy.insert_str(position.offset, s);
            }
            DocumentEvent::TextDeleted { range, deleted_text } => {
                ensure!(copy.get(range.start.offset..range.end.offset) == Some(deleted_text), "{}", bad("another text"));
                copy.replace_range(range.start.offset..range.end.offset, "");
            }
            DocumentEvent::TextReplaced { range, old_text, new_text } => {
                ensure!(copy.get(range.start.offset..range.end.offset) == Some(old_text), "{}", bad("another text"));
                copy.replace_range(range.start.offset..range.end.offset, new_text);
            }
            _ => return Err(bad("no edit")),
        }
        ensure_eq!(copy, text, "copy kept by events, from {before:?} after {what}");
        ensure!(evs[0].is_modification() && evs[0].affects_text(), "{}", bad("no modification"));
        let r = evs[0].affected_range();
        ensure!(r.is_some_and(|r| r.start.offset == a), "{}", bad("another range"));
    }
    t.nontrivial_if(n > 1);
    Ok(())
}
