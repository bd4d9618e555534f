mod bld;
mod cmd;
mod doc;
mod ext;
mod find;
mod fmt;
mod hl;
mod more;
mod qry;
mod rows;
mod sess;
mod val;
use vkit::{main_with, sub, Prop};

fn main() {
    let mut v = vec![];
    v.push(Prop { id: "E01", rule: "histories of edits, rejected edits, undo and redo over documents and hostile text; non-trivial: two changes of the text or more", subs: vec![sub("edits", 500000, 20000000, doc::edits)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E02", rule: "texts with every kind of line break and character width, points over the whole offset range; non-trivial: two lines, two ranges with room", subs: vec![sub("positions", 80000, 3000000, doc::positions), sub("ranges", 200000, 4000000, doc::ranges)], known: vec![], assumptions: &[] });
    let commands = "histories of one to four commands, through the command or the fluent interface, on documents with any columns, layout and sections; ";
    let cmd = |what: &str| -> &'static str { Box::leak(format!("{commands}{what}").into_boxed_str()) };
    v.push(Prop { id: "E03", rule: cmd("non-trivial: a command changed the text of a document with more than two lines"), subs: vec![sub("events", 60000, 3000000, cmd::events)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E04", rule: cmd("non-trivial: a command changed the text of a document with more than two lines"), subs: vec![sub("styles", 60000, 3000000, cmd::styles)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E05", rule: cmd("non-trivial: a command changed the text of a document with more than two lines"), subs: vec![sub("tags", 60000, 3000000, cmd::tags)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E06", rule: cmd("non-trivial: a command changed the text of a document with more than two lines"), subs: vec![sub("setters", 40000, 2000000, cmd::setters), sub("binaries", 30000, 1500000, cmd::binaries)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E07", rule: "histories of up to eight commands of every kind, undo and redo; non-trivial: two changes of the text and an undo", subs: vec![sub("history", 40000, 2000000, cmd::history), sub("batches", 120000, 4000000, more::batches)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E08", rule: "histories of incremental and plain edits, deltas of sections, undo and redo; non-trivial: two changes of the text or more, or a delta that changes it", subs: vec![sub("edits", 300000, 10000000, doc::incremental), sub("delta", 60000, 2000000, doc::delta)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E09", rule: "texts with letters of every case folding, searched in scopes by patterns and regular expressions, edited and replaced between; non-trivial: two matches and a change", subs: vec![sub("search", 18000, 2000000, find::search)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E10", rule: "documents and subtitle files rendered in varied layouts, written and read back through every converter; non-trivial: two cues or more", subs: vec![sub("exports", 18000, 1500000, fmt::exports), sub("imports", 18000, 1500000, fmt::imports), sub("hostile", 18000, 1500000, fmt::hostile), sub("registry", 6000, 400000, fmt::registry)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E11", rule: "builders with any values set in any order, built for every version and under formats of any columns; non-trivial: two values set and three columns", subs: vec![sub("events", 500000, 20000000, bld::events), sub("styles", 400000, 16000000, bld::styles)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E12", rule: "documents with any columns and layout, queries with filters, sorts and limits before and after edits; non-trivial: two events or more and a filter", subs: vec![sub("queries", 30000, 2000000, qry::queries)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E13", rule: "histories of creating, editing, switching, removing and cleaning sessions through two handles, and threads editing sessions of their own; non-trivial: two sessions and two edits", subs: vec![sub("sessions", 150000, 2000000, sess::sessions), sub("threads", 2000, 50000, sess::threads)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E14", rule: "histories of registrations, dispatches, failures, removals and queues with filters and priorities, and edits of a document that reports them; non-trivial: two events and two handlers, or two edits", subs: vec![sub("channel", 600000, 6000000, sess::channel), sub("document", 40000, 2000000, sess::document)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E15", rule: "histories of edits, undo, settings and questions to a document's validator, and one validator asked about several texts; non-trivial: two questions and a change, or two texts with two issues", subs: vec![sub("document", 100000, 4000000, val::document), sub("shared", 60000, 3000000, val::shared)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E16", rule: "histories of loading, initialising, calling, unloading and settings with extensions that fail and reach the manager while called, and threads sharing a manager; non-trivial: two initialisations and a refused step, or three threads and an unloading", subs: vec![sub("lifecycle", 300000, 4000000, ext::lifecycle), sub("threads", 5000, 100000, ext::threads)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E17", rule: "histories of records, undos and redos under small limits; non-trivial: an entry was dropped and some remain, two texts or more", subs: vec![sub("stack", 300000, 10000000, doc::limits), sub("document", 240000, 10000000, doc::limited_document)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E18", rule: "documents of known lines and of any text, highlighted between edits and settings, and points to complete at; non-trivial: an edit and some pieces, or two points with something to offer", subs: vec![sub("highlight", 120000, 1500000, hl::highlight), sub("anything", 60000, 1000000, hl::anything), sub("complete", 180000, 2000000, hl::complete)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E19", rule: "histories of documents and a pool reached through several handles, with edits, locks, refused edits, clones and removals; non-trivial: two edits and a document with two handles, or two threads that make more than twenty documents", subs: vec![sub("handles", 150000, 5000000, more::handles), sub("ids", 600, 20000, more::ids)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "E20", rule: "histories of edits, saving, opening, exporting and importing files under a scratch directory, with places that cannot be written; non-trivial: an edit that changes the text and a save", subs: vec![sub("files", 30000, 400000, more::files)], known: vec![], assumptions: &[] });
    main_with(v)
}
