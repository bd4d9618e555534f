mod ana;
mod edit;
mod parse;
mod plug;
mod tok;
mod upd;
mod util;
use vkit::{main_with, sub, Known, Prop};

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve-tokens") {
        return tok::serve();
    }
    let mut v = vec![];
    v.push(Prop {
        id: "C01",
        rule: "hostile fragments, damaged documents and raw bytes; non-trivial: more than a few bytes that reach a section, an event or a tag",
        subs: vec![
            sub("parse", 240000, 8000000, parse::total_parse),
            sub("analysis", 120000, 4000000, parse::total_analysis),
            sub("tokens", 160000, 6000000, parse::total_tokens),
            sub("bytes", 120000, 4000000, parse::total_bytes),
        ],
        known: vec![],
        assumptions: &[],
    });
    v.push(Prop { id: "C02", rule: "documents, damaged documents and hostile text; non-trivial: at least two sections with a span; positions walked over texts of several lines", subs: vec![sub("spans", 240000, 8000000, parse::spans), sub("tracker", 120000, 4000000, parse::tracker)], known: vec![], assumptions: &[] });
    v.push(Prop {
        id: "C03",
        rule: "documents from a model; non-trivial: at least two rows",
        subs: vec![sub("document", 240000, 8000000, parse::roundtrip), sub("damaged", 160000, 4000000, parse::roundtrip_damaged), sub("lines", 120000, 4000000, parse::roundtrip_lines)],
        known: vec![Known { id: "K01", f: parse::known_two_formats }],
        assumptions: &[],
    });
    v.push(Prop { id: "C04", rule: "documents from a model; non-trivial: at least two rows", subs: vec![sub("model", 320000, 8000000, parse::extract), sub("context", 60000, 2000000, parse::context), sub("alone", 60000, 2000000, parse::alone)], known: vec![], assumptions: &[] });
    v.push(Prop {
        id: "C05",
        rule: "documents from a model with damage inserted between lines; non-trivial: some damage and some rows",
        subs: vec![sub("lines", 240000, 8000000, parse::isolate), sub("sections", 240000, 8000000, parse::isolate_sections)],
        known: vec![],
        assumptions: &[],
    });
    v.push(Prop { id: "C06", rule: "documents under chains of edits at lines, inside them and at section borders; non-trivial: an edit that changes a text of more than 40 bytes", subs: vec![sub("edits", 80000, 3000000, edit::incremental), sub("ranges", 120000, 4000000, edit::ranges)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C07", rule: "pairs of documents: unrelated, edited, or with model parts changed, dropped, doubled or swapped; non-trivial: the two differ", subs: vec![sub("delta", 120000, 4000000, edit::delta), sub("diff", 100000, 3000000, edit::diff)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C08", rule: "documents as bytes, valid or damaged, under random cuts; non-trivial: more than 20 bytes", subs: vec![sub("chunks", 120000, 4000000, edit::streaming), sub("lines", 60000, 2000000, edit::line_state)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C09", rule: "documents, damaged documents, hostile text and runs around the vector width; non-trivial: more than three tokens (16 bytes for the kernels)", subs: vec![sub("tokens", 160000, 5000000, tok::tokens), sub("simd", 60000, 2000000, tok::simd_equal), sub("kernels", 240000, 8000000, tok::kernels)], known: vec![], assumptions: &["tokenize_all refuses more than 50 tokens: pinned by the repository's own tests"] });
    v.push(Prop { id: "C10", rule: "time values over the whole range and candidate strings; non-trivial: a value above zero, a string with two colons", subs: vec![sub("values", 200000, 6000000, util::time_values), sub("strings", 400000, 12000000, util::time_strings)], known: vec![], assumptions: &["the fraction counts centiseconds, as the repository's tests pin"] });
    v.push(Prop { id: "C11", rule: "colours in every notation, candidate colour and number strings, names and curves; non-trivial: a value other than zero, six characters or more", subs: vec![sub("colours", 200000, 6000000, util::color_values), sub("strings", 400000, 12000000, util::color_strings), sub("numbers", 200000, 6000000, util::numbers)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C12", rule: "byte strings under every line split; non-trivial: more than three bytes", subs: vec![sub("lines", 120000, 4000000, util::uu), sub("documents", 80000, 2500000, util::uu_document)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C13", rule: "byte strings with marks, valid runs and damage; non-trivial: more than four bytes", subs: vec![sub("bytes", 240000, 8000000, util::decoding), sub("text", 160000, 6000000, util::text)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C14", rule: "lists of event times from a small pool, with reversed, empty, identical and malformed ones, and whole scripts; non-trivial: three events or more", subs: vec![sub("timing", 160000, 5000000, ana::timing), sub("summary", 24000, 800000, ana::summary)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C15", rule: "dialogue texts built from pieces of known meaning; non-trivial: tags and visible text, or a break", subs: vec![sub("text", 240000, 8000000, ana::text_analysis), sub("breaks", 160000, 5000000, ana::line_breaks)], known: vec![], assumptions: &["an escape before a brace is not generated"] });
    v.push(Prop { id: "C16", rule: "style sets with parents in any order, cycles, duplicates, unknown parents and unusable values; non-trivial: a parent that exists", subs: vec![sub("styles", 160000, 5000000, ana::styles)], known: vec![], assumptions: &["bold -1 does not resolve: pinned by the repository's own tests"] });
    v.push(Prop { id: "C17", rule: "scripts near every rule's threshold under random configurations; non-trivial: two events or more", subs: vec![sub("rules", 80000, 2500000, ana::lint)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C18", rule: "histories of updates, batches, additions, removals and tracking switches on documents from a model; non-trivial: two operations that took effect", subs: vec![sub("history", 100000, 3000000, upd::updates)], known: vec![], assumptions: &[] });
    v.push(Prop { id: "C19", rule: "histories on the registry, argument strings near every tag's grammar, texts and documents under random handlers; non-trivial: three operations, two characters, a tag or section that has a handler", subs: vec![sub("registry", 120000, 3000000, plug::registry), sub("handlers", 120000, 4000000, plug::handlers), sub("analysis", 120000, 3000000, plug::analysis), sub("sections", 100000, 3000000, plug::sections)], known: vec![], assumptions: &["spellings of numbers the documentation leaves open (+1, 1e3, inf, 0100) may go either way"] });
    main_with(v)
}
