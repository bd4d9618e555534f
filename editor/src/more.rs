//! E19, E20: a document shared through handles, and kept in files.
use crate::doc::*;
use ass_editor::core::thread_safety::AsyncDocument;
use ass_editor::core::{DocumentPool, ScopedDocumentLock, SyncDocument};
use ass_editor::utils::formats::{self as uf, ConversionOptions, FormatConverter, SubtitleFormat};
use ass_editor::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::task::{Context, Poll, Waker};
use vkit::*;

fn e<X>(x: std::result::Result<X, EditorError>, what: &str) -> std::result::Result<X, String> {
    x.map_err(|e| format!("{what} failed: {e}"))
}
fn now<F: Future>(f: F) -> std::result::Result<F::Output, String> {
    let mut f = Box::pin(f);
    for _ in 0..1000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return Ok(x);
        }
    }
    Err("an asynchronous call does not finish".into())
}

/// One document and the handles to it.
struct One {
    handles: Vec<SyncDocument>,
    id: String,
    h: Hist,
}
impl One {
    fn agree(&self, what: &str) -> R {
        for (i, s) in self.handles.iter().enumerate() {
            ensure_eq!(e(s.text(), what)?, self.h.text, "text of handle {i} after {what}");
            ensure_eq!(e(s.len(), what)?, self.h.text.len(), "length of handle {i} after {what}");
            ensure_eq!(e(s.is_empty(), what)?, self.h.text.is_empty(), "emptiness of handle {i} after {what}");
            ensure_eq!(e(s.id(), what)?, self.id, "id of handle {i} after {what}");
            let g = e(s.read(), what)?;
            self.h.agree(&g, what)?;
        }
        Ok(())
    }
}
/// One edit of a document, within the model.
fn edit(t: &mut T, d: &mut EditorDocument, h: &mut Hist) -> R {
    match t.weighted(&[4, 2, 2]) {
        0 => {
            let (a, b) = good_range(t, &h.text);
            let x = some_text(t);
            t.input_dbg("replace", &(a, b, &x));
            e(d.replace(rng(a, b), &x), "replace")?;
            let w = spliced(&h.text, a, b, &x);
            h.edited(d, w, "replace")
        }
        1 => {
            t.input_dbg("undo", &());
            h.undo(d)
        }
        _ => {
            t.input_dbg("redo", &());
            h.redo(d)
        }
    }
}
/// E19
pub fn handles(t: &mut T) -> R {
    let pool = DocumentPool::new();
    let pools = [pool.clone(), pool];
    // what the pool holds, and every document there is
    let mut held: BTreeMap<String, usize> = BTreeMap::new();
    let mut all: Vec<One> = vec![];
    let (mut edits, mut shared) = (0, false);
    for _ in 0..5 + t.us(16) {
        let p = &pools[t.us(2)];
        match t.weighted(&[if all.len() < 3 { 3 } else { 0 }, if all.is_empty() { 0 } else { 12 }, 4, 3, 2, 1, if all.is_empty() { 0 } else { 1 }]) {
            0 => {
                let s = start_text(t);
                let Ok(d) = EditorDocument::from_content(&s) else { continue };
                t.input("document", &s);
                let id = d.id().to_string();
                ensure!(all.iter().all(|o| o.id != id), "two documents have the id {id}");
                let h = Hist { text: s, ..Hist::default() };
                let first = match t.us(3) {
                    0 => SyncDocument::new(d),
                    1 => SyncDocument::from_document(d),
                    _ => {
                        let got = e(p.add_document(d), "add_document")?;
                        ensure_eq!(got, id, "the id add_document gives");
                        held.insert(id.clone(), all.len());
                        e(pools[t.us(2)].get_document(&id), "get_document")?
                    }
                };
                all.push(One { handles: vec![first], id, h });
            }
            1 if !all.is_empty() => {
                let k = t.us(all.len());
                let o = &mut all[k];
                let i = t.us(o.handles.len());
                let s = o.handles[i].clone();
                edits += 1;
                shared |= o.handles.len() > 1;
                let what = match t.us(7) {
                    0 => {
                        e(s.with_write(|d| Ok(edit(t, d, &mut o.h))), "with_write")??;
                        "with_write"
                    }
                    1 => {
                        let mut g = e(s.write(), "write")?;
                        ensure!(s.try_read().is_none() && s.try_write().is_none(), "a document being written can be read or written");
                        ensure!(o.handles.iter().all(|x| x.try_read().is_none() && x.try_write().is_none()), "a document being written can be read or written through another handle");
                        edit(t, &mut g, &mut o.h)?;
                        "write"
                    }
                    2 => {
                        let mut g = s.try_write().ok_or("an idle document cannot be written")?;
                        edit(t, &mut g, &mut o.h)?;
                        "try_write"
                    }
                    3 => {
                        let mut g = e(ScopedDocumentLock::new(&s), "ScopedDocumentLock::new")?;
                        ensure!(o.handles.iter().all(|x| x.try_read().is_none() && x.try_write().is_none()), "a locked document can be read or written");
                        for _ in 0..1 + t.us(3) {
                            edit(t, g.document(), &mut o.h)?;
                        }
                        drop(g);
                        ensure!(o.handles.iter().all(|x| x.try_read().is_some() && x.try_write().is_some()), "a document stays locked");
                        "a scoped lock"
                    }
                    4 => {
                        let c = Some(e(s.write(), "write")?);
                        // a failing edit leaves everything as it was
                        let bad = bad_range(t, &o.h.text);
                        drop(c);
                        t.input_dbg("bad", &bad);
                        let r = s.with_write(|d| d.replace(rng(bad.0, bad.1), "x"));
                        ensure!(r.is_err(), "an edit out of bounds succeeded");
                        "a failed edit"
                    }
                    5 => {
                        let off = good_off(t, &o.h.text);
                        let x = some_text(t);
                        t.input_dbg("command", &(off, &x));
                        let c = InsertTextCommand::new(Position::new(off), x.clone());
                        let want = spliced(&o.h.text, off, off, &x);
                        let r = e(s.execute_command(c), "execute_command")?;
                        told(&r, &o.h.text, &want, "execute_command")?;
                        o.h.edited(&*e(s.read(), "read")?, want, "execute_command")?;
                        "execute_command"
                    }
                    _ => {
                        let off = o.h.text.len() + 1 + t.us(3);
                        let c = InsertTextCommand::new(Position::new(off), "x".into());
                        ensure!(s.execute_command(c).is_err(), "a command out of bounds succeeded");
                        "a failed command"
                    }
                };
                o.agree(what)?;
            }
            2 if !all.is_empty() => {
                let k = t.us(all.len());
                let o = &mut all[k];
                let i = t.us(o.handles.len());
                let s = match held.get(&o.id) {
                    Some(k2) if *k2 == k && t.chance(1, 2) => e(p.get_document(&o.id), "get_document")?,
                    _ => o.handles[i].clone(),
                };
                o.handles.push(s);
                o.agree("another handle")?;
            }
            3 if !all.is_empty() => {
                let k = t.us(all.len());
                let o = &all[k];
                let i = t.us(o.handles.len());
                let s = &o.handles[i];
                let a = e(s.read(), "read")?;
                ensure_eq!(a.text(), o.h.text, "text under a read lock");
                for x in &o.handles {
                    ensure!(x.try_write().is_none(), "a document being read can be written");
                    let Some(b) = x.try_read() else { return Err("a document being read cannot be read".into()) };
                    ensure_eq!(b.text(), o.h.text, "text under a second read lock");
                }
                drop(a);
                ensure!(s.try_write().is_some(), "a document that was read stays locked");
                let n = e(s.with_read(|d| d.text()), "with_read")?;
                ensure_eq!(n, o.h.text, "text with_read sees");
                ensure_eq!(s.validate().is_ok(), s.read().unwrap().validate().is_ok(), "validity");
                let v = e(s.validate_comprehensive(), "validate_comprehensive")?;
                let w = e(EditorDocument::from_content(&o.h.text).and_then(|mut d| d.validate_comprehensive()), "validate_comprehensive")?;
                ensure_eq!(format!("{v:?}"), format!("{:?}", w.issues), "issues of the document");
                o.agree("reading")?;
            }
            4 if !all.is_empty() => {
                // a clone is a document of its own
                let k = t.us(all.len());
                let o = &all[k];
                let mut c = e(o.handles[0].clone_document(), "clone_document")?;
                ensure_eq!(c.text(), o.h.text, "text of a clone");
                let mut h = Hist { text: o.h.text.clone(), ..Hist::default() };
                h.agree(&c, "clone_document")?;
                edit(t, &mut c, &mut h)?;
                o.agree("editing a clone")?;
                let y = AsyncDocument::new(c);
                ensure_eq!(e(now(y.text_async())?, "text_async")?, h.text, "text of an asynchronous document");
                let off = good_off(t, &h.text);
                let r = e(now(y.execute_command_async(InsertTextCommand::new(Position::new(off), "é".into())))?, "execute_command_async")?;
                let want = spliced(&h.text, off, off, "é");
                told(&r, &h.text, &want, "execute_command_async")?;
                ensure_eq!(e(now(y.text_async())?, "text_async")?, want, "text after an asynchronous command");
            }
            5 if !all.is_empty() => {
                let k = t.us(all.len());
                let id = all[k].id.clone();
                t.input_dbg("remove", &k);
                let r = p.remove_document(&id);
                if held.remove(&id).is_some() {
                    e(r, "remove_document")?;
                }
                // those who hold it keep it
                all[k].agree("remove_document")?;
            }
            _ => {
                // a document under an id that is given
                let id = t.pick(&["a", "b"]).to_string();
                if held.contains_key(&id) || all.iter().any(|o| o.id == id) {
                    continue;
                }
                t.input_dbg("with_id", &id);
                let mut d = EditorDocument::with_id(id.clone());
                ensure_eq!((d.id(), d.is_empty(), d.is_modified()), (id.as_str(), true, false), "a document with an id");
                let mut h = Hist::default();
                e(d.insert(Position::new(0), "x"), "insert")?;
                h.edited(&d, "x".into(), "insert")?;
                ensure_eq!(e(p.add_document(d), "add_document")?, id, "the id add_document gives");
                held.insert(id.clone(), all.len());
                let s = e(p.get_document(&id), "get_document")?;
                all.push(One { handles: vec![s], id, h });
            }
        }
        for p in &pools {
            let mut l = e(p.list_documents(), "list_documents")?;
            l.sort();
            ensure_eq!(l, held.keys().cloned().collect::<Vec<_>>(), "documents of the pool");
            ensure_eq!(e(p.document_count(), "document_count")?, held.len(), "number of documents of the pool");
        }
        for o in &all {
            let g = pools[0].get_document(&o.id);
            ensure_eq!(g.is_ok(), held.contains_key(&o.id), "whether document {} is in the pool", o.id);
            if let Ok(g) = g {
                ensure_eq!(e(g.text(), "text")?, o.h.text, "text of document {} of the pool", o.id);
            }
            o.agree("a step")?;
        }
    }
    t.nontrivial_if(edits > 1 && shared);
    Ok(())
}

struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Dir {
        static N: AtomicUsize = AtomicUsize::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let base = std::env::temp_dir();
        let p = base.join(format!("vh-editor-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("a scratch directory");
        Dir(p)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn known(ext: &str) -> Option<SubtitleFormat> {
    Some(match ext.to_ascii_lowercase().as_str() {
        "ass" => SubtitleFormat::ASS,
        "ssa" => SubtitleFormat::SSA,
        "srt" => SubtitleFormat::SRT,
        "vtt" | "webvtt" => SubtitleFormat::WebVTT,
        "txt" => SubtitleFormat::PlainText,
        _ => return None,
    })
}
/// E20
pub fn files(t: &mut T) -> R {
    let dir = Dir::new();
    let s = start_text(t);
    let Ok(mut d) = EditorDocument::from_content(&s) else { return Ok(()) };
    t.input("text", &s);
    let mut h = Hist { text: s, ..Hist::default() };
    // the files, as they should be
    let mut disk: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let (mut path, mut modified): (Option<String>, Option<bool>) = (None, Some(false));
    let names = ["a.ass", "b.ass", "c.srt", "Ü ü.ASS", "no extension", "d.ass.tmp"];
    let at = |n: &str| dir.0.join(n).to_str().unwrap().to_string();
    let (mut saves, mut edits) = (0, 0);
    for _ in 0..3 + t.len(10) {
        match t.weighted(&[6, 4, 3, 3, 2, 2, 3]) {
            0 => {
                let was = h.text.clone();
                edit(t, &mut d, &mut h)?;
                edits += (was != h.text) as usize;
                modified = if was != h.text { Some(true) } else { None };
            }
            1 => {
                let n = at(t.pick(&names));
                t.input("save to", &n[dir.0.as_os_str().len()..]);
                e(d.save_to_file(&n), "save_to_file")?;
                disk.insert(n.clone(), h.text.clone().into_bytes());
                (path, modified) = (Some(n), Some(false));
                saves += 1;
            }
            2 => {
                t.input_dbg("save", &());
                let r = d.save();
                match &path {
                    Some(p) if p.starts_with(dir.0.to_str().unwrap()) && !p.contains("missing") => {
                        e(r, "save")?;
                        disk.insert(p.clone(), h.text.clone().into_bytes());
                        modified = Some(false);
                        saves += 1;
                    }
                    _ => ensure!(r.is_err(), "saving to {path:?} succeeded"),
                }
            }
            3 => {
                // what was saved opens as what it was
                let Some(p) = (if disk.is_empty() { None } else { let v: Vec<String> = disk.keys().cloned().collect(); Some(t.pick_c(&v.iter().map(|x| x.as_str()).collect::<Vec<_>>()).to_string()) }) else { continue };
                t.input("open", &p[dir.0.as_os_str().len()..]);
                let got = EditorDocument::from_file(&p);
                let want = String::from_utf8(disk[&p].clone());
                let want = match want {
                    Ok(w) => w,
                    Err(_) => {
                        ensure!(got.is_err(), "a file that is no text opened");
                        continue;
                    }
                };
                let o = e(got, "from_file")?;
                ensure_eq!(o.text(), want, "text of a file");
                ensure_eq!((o.file_path(), o.is_modified(), o.can_undo()), (Some(p.as_str()), false, false), "path, modification and history of an opened document");
                ensure!(o.id() != d.id(), "two documents have the id {}", o.id());
                if t.chance(1, 2) {
                    d = o;
                    h = Hist { text: want, ..Hist::default() };
                    (path, modified) = (Some(p), Some(false));
                }
            }
            4 => {
                // places that cannot be written or read
                let p = at("missing/x.ass");
                ensure!(d.save_to_file(&p).is_err(), "saving into a directory that does not exist succeeded");
                ensure!(EditorDocument::from_file(&p).is_err(), "a file that does not exist opened");
                ensure!(uf::import_from_file(&p).is_err(), "a file that does not exist was imported");
                ensure!(uf::export_to_file(&d, &p, None, &ConversionOptions::default()).is_err(), "exporting into a directory that does not exist succeeded");
                if t.chance(1, 2) {
                    let p = at("bytes.srt");
                    std::fs::write(&p, b"1\n\xff\xfe").unwrap();
                    disk.insert(p.clone(), b"1\n\xff\xfe".to_vec());
                    ensure!(uf::import_from_file(&p).is_err(), "a file that is no text was imported");
                }
            }
            5 => {
                let p = match t.us(4) {
                    0 => None,
                    1 => Some(at("missing/y.ass")),
                    _ => Some(at(t.pick(&names))),
                };
                t.input_dbg("path", &p.as_ref().map(|p| p[dir.0.as_os_str().len()..].to_string()));
                d.set_file_path(p.clone());
                path = p;
            }
            _ => {
                // another format, by the name of the file or as told
                let ext = t.pick(&["ass", "ssa", "srt", "vtt", "webvtt", "txt", "SRT", "Vtt", "sub", "s.rt"]);
                let n = at(&format!("x.{ext}"));
                let f = if t.chance(1, 3) { Some(t.pick_c(&[SubtitleFormat::ASS, SubtitleFormat::SSA, SubtitleFormat::SRT, SubtitleFormat::WebVTT, SubtitleFormat::PlainText])) } else { None };
                let o = ConversionOptions { strip_formatting: t.chance(1, 2), preserve_styling: t.chance(1, 2), ..ConversionOptions::default() };
                t.input_dbg("export", &(ext, f, &o));
                ensure_eq!(SubtitleFormat::from_extension(ext), known(ext), "format of the extension {ext:?}");
                let k = known(ext.rsplit('.').next().unwrap());
                let want = FormatConverter::export(&d, f.or(k).unwrap_or(SubtitleFormat::ASS), &o);
                let r = uf::export_to_file(&d, &n, f, &o);
                ensure_eq!(r.is_ok(), want.is_ok(), "export_to_file and the export of the text");
                let Ok(want) = want else { continue };
                disk.insert(n.clone(), want.clone().into_bytes());
                if let Some(f) = f.or(k) {
                    ensure_eq!(e(d.export_format(f, &o), "export_format")?, want, "export_format and export_to_file");
                    ensure_eq!(SubtitleFormat::from_extension(f.extension()), Some(f), "the format of the extension of {f:?}");
                }
                // and back
                let text = FormatConverter::import(&want, k);
                let back = uf::import_from_file(&n);
                ensure_eq!(back.is_ok(), text.is_ok(), "import_from_file and the import of the text");
                if let (Ok(x), Ok(y)) = (text, back) {
                    ensure_eq!(y.text(), x, "text of an imported file");
                    let z = e(EditorDocument::import_format(&want, k), "import_format")?;
                    ensure_eq!(z.text(), x, "text of an imported format");
                    ensure_eq!((y.file_path(), z.file_path()), (None, None), "path of an imported document");
                    ensure!(!y.is_modified() && !z.is_modified(), "an imported document is modified");
                }
            }
        }
        h.agree(&d, "a step")?;
        ensure_eq!(d.file_path(), path.as_deref(), "path of the document");
        if let Some(m) = modified {
            ensure_eq!(d.is_modified(), m, "whether the document is modified");
        } else {
            modified = Some(d.is_modified());
        }
        let mut seen = BTreeMap::new();
        for f in std::fs::read_dir(&dir.0).map_err(|e| format!("HARNESS: {e}"))? {
            let p = f.map_err(|e| format!("HARNESS: {e}"))?.path();
            seen.insert(p.to_str().unwrap().to_string(), std::fs::read(&p).map_err(|e| format!("HARNESS: {e}"))?);
        }
        ensure!(seen == disk, "the files are not what was saved: {:?} for {:?}", seen.iter().map(|x| (x.0, String::from_utf8_lossy(x.1))).collect::<Vec<_>>(), disk.iter().map(|x| (x.0, String::from_utf8_lossy(x.1))).collect::<Vec<_>>());
    }
    t.nontrivial_if(saves > 0 && edits > 0);
    Ok(())
}
/// E19: documents made at once are told apart.
pub fn ids(t: &mut T) -> R {
    let n = t.span(2, 6);
    let each: Vec<usize> = (0..n).map(|_| 1 + t.us(400)).collect();
    t.input_dbg("documents per thread", &each);
    t.nontrivial_if(each.iter().filter(|k| **k > 20).count() > 1);
    let go = std::sync::Barrier::new(n);
    let mut all: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = each
            .iter()
            .map(|k| {
                let go = &go;
                s.spawn(move || {
                    go.wait();
                    (0..*k).map(|_| EditorDocument::new().id().to_string()).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.sort();
    for w in all.windows(2) {
        ensure!(w[0] != w[1], "two documents have the id {}", w[0]);
    }
    Ok(())
}

/// The commands of a batch, applied to a text one by one.
#[derive(Clone, Debug)]
enum Txt {
    Insert(usize, String),
    Delete(usize, usize),
    Replace(usize, usize, String),
    Nested(Vec<Txt>),
    /// one that does nothing
    Ask,
    /// one that says it failed
    Refused,
}
impl Txt {
    fn gen(t: &mut T, now: &mut Option<String>, deep: usize) -> Txt {
        let s = now.clone().unwrap_or_default();
        if t.chance(1, 14) {
            // out of bounds
            let (a, b) = bad_range(t, &s);
            *now = None;
            if t.chance(1, 3) {
                return Txt::Refused;
            }
            return if t.chance(1, 2) { Txt::Delete(a, b) } else { Txt::Replace(a, b, "x".into()) };
        }
        match t.weighted(&[3, 3, 3, if deep < 2 { 1 } else { 0 }, 1]) {
            0 => {
                let p = good_off(t, &s);
                let x = some_text(t);
                *now = now.take().map(|s| spliced(&s, p, p, &x));
                Txt::Insert(p, x)
            }
            1 => {
                let (a, b) = good_range(t, &s);
                *now = now.take().map(|s| spliced(&s, a, b, ""));
                Txt::Delete(a, b)
            }
            2 => {
                let (a, b) = good_range(t, &s);
                let x = some_text(t);
                *now = now.take().map(|s| spliced(&s, a, b, &x));
                Txt::Replace(a, b, x)
            }
            3 => {
                let n = t.us(4);
                Txt::Nested((0..n).map(|_| Txt::gen(t, now, deep + 1)).collect())
            }
            _ => Txt::Ask,
        }
    }
    fn make(&self) -> Box<dyn EditorCommand> {
        let p = Position::new;
        match self {
            Txt::Insert(a, x) => Box::new(InsertTextCommand::new(p(*a), x.clone())),
            Txt::Delete(a, b) => Box::new(DeleteTextCommand::new(rng(*a, *b))),
            Txt::Replace(a, b, x) => Box::new(ReplaceTextCommand::new(rng(*a, *b), x.clone())),
            Txt::Nested(v) => Box::new(batch(v, true)),
            Txt::Ask => Box::new(Mine(true)),
            Txt::Refused => Box::new(Mine(false)),
        }
    }
}
fn batch(v: &[Txt], many: bool) -> BatchCommand {
    let b = BatchCommand::new("a batch".into());
    if many {
        b.add_commands(v.iter().map(|c| c.make()).collect())
    } else {
        v.iter().fold(b, |b, c| b.add_command(c.make()))
    }
}
/// E07: a batch is one command.
pub fn batches(t: &mut T) -> R {
    use ass_editor::commands::delta_commands::*;
    let s = start_text(t);
    let Ok(mut d) = EditorDocument::from_content(&s) else { return Ok(()) };
    t.input("text", &s);
    let mut h = Hist { text: s, ..Hist::default() };
    let (mut steps, mut undone) = (0, 0);
    for _ in 0..1 + t.us(5) {
        match t.weighted(&[6, 2, 1, 3]) {
            0 => {
                let mut now = Some(h.text.clone());
                let n = 1 + t.us(4);
                let v: Vec<Txt> = (0..n).map(|_| Txt::gen(t, &mut now, 0)).collect();
                t.input_dbg("batch", &v);
                let b = batch(&v, t.chance(1, 2));
                ensure_eq!(b.description(), "a batch", "description of the batch");
                let had = d.is_modified();
                let r = d.execute_command(&b);
                match now {
                    Some(w) => {
                        let r = e(r, "a batch")?;
                        told(&r, &h.text, &w, "a batch")?;
                        steps += 1;
                        h.edited(&d, w, "a batch")?;
                        if let (Some(c), Some(x)) = (r.new_cursor, d.cursor_position()) {
                            ensure_eq!(x.offset, c.offset, "cursor after a batch");
                        }
                    }
                    _ => {
                        ensure!(!r.is_ok_and(|r| r.success), "a batch with a command that fails succeeded");
                        h.agree(&d, "a batch that fails")?;
                        ensure_eq!(d.is_modified(), had, "modification after a batch that fails");
                    }
                }
            }
            1 => {
                undone += !h.undo.is_empty() as usize;
                t.input_dbg("undo", &());
                h.undo(&mut d)?
            }
            2 => {
                t.input_dbg("redo", &());
                h.redo(&mut d)?
            }
            _ => {
                // commands that report deltas, each a step of its own
                let mut now = h.text.clone();
                let mut after = vec![];
                let mut b = DeltaBatchCommand::new();
                let n = 1 + t.us(3);
                let bad = if t.chance(1, 6) { t.us(n) } else { n };
                for i in 0..n {
                    if i == bad {
                        let (x, y) = bad_range(t, &now);
                        t.input_dbg("bad", &(x, y));
                        b = b.add_command(IncrementalReplaceCommand::new(rng(x, y), "x".into()));
                        break;
                    }
                    match t.us(2) {
                        0 => {
                            let p = good_off(t, &now);
                            let x = some_text(t);
                            t.input_dbg("insert", &(p, &x));
                            now = spliced(&now, p, p, &x);
                            b = b.add_command(IncrementalInsertCommand::new(Position::new(p), x));
                        }
                        _ => {
                            let (p, q) = good_range(t, &now);
                            let x = some_text(t);
                            t.input_dbg("replace", &(p, q, &x));
                            now = spliced(&now, p, q, &x);
                            b = b.add_command(IncrementalReplaceCommand::new(rng(p, q), x));
                        }
                    }
                    after.push(now.clone());
                }
                let r = b.execute_batch(&mut d);
                ensure_eq!(r.is_ok(), bad == n, "whether the batch of deltas succeeds");
                if let Ok(r) = r {
                    ensure_eq!(r.len(), n, "results of the batch of deltas");
                    let mut old = h.text.clone();
                    for (r, w) in r.iter().zip(&after) {
                        told(r, &old, w, "a command of the batch of deltas")?;
                        old = w.clone();
                    }
                }
                // what was done is what undo undoes
                let want = after.last().cloned().unwrap_or(h.text.clone());
                ensure_eq!(d.text(), want, "text after a batch of deltas");
                let n = d.undo_manager().stats().undo_count;
                let made: Vec<String> = after.into_iter().collect();
                ensure!(n >= h.undo.len() && n <= h.undo.len() + made.len(), "a batch of {} deltas took the history from {} entries to {n}", made.len(), h.undo.len());
                for w in made {
                    let (prev, keep) = (h.text.clone(), d.undo_manager().stats().undo_count - h.undo.len());
                    if w != prev || keep > 0 {
                        h.undo.push(prev);
                        h.redo.clear();
                    }
                    h.text = w;
                }
                ensure_eq!(n, h.undo.len(), "history of a batch of deltas");
                h.agree(&d, "a batch of deltas")?;
                steps += 1;
            }
        }
    }
    t.nontrivial_if(steps > 0 && undone > 0);
    h.sweep(&mut d)
}
/// A command of someone else's: it does nothing, or edits and then reports a failure.
#[derive(Debug)]
struct Mine(bool);
impl EditorCommand for Mine {
    fn execute(&self, d: &mut EditorDocument) -> std::result::Result<CommandResult, EditorError> {
        if self.0 {
            return Ok(CommandResult::success());
        }
        InsertTextCommand::new(Position::new(0), "half".into()).execute(d)?;
        Ok(CommandResult::failure("refused".into()))
    }
    fn description(&self) -> &str {
        "mine"
    }
}
