//! E09: searching and replacing.
use crate::doc::{good_off, good_range, rng, some_text, start_text};
use ass_editor::utils::search::*;
use ass_editor::*;
use vkit::*;

/// Start and end of the matches of a pattern in a region of the text, found by trying every place.
fn naive(text: &str, (from, to): (usize, usize), pat: &str, cased: bool, whole: bool) -> Vec<(usize, usize)> {
    let low = |s: &str| s.chars().flat_map(|c| c.to_lowercase()).collect::<String>();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let want = low(pat);
    let stops: Vec<usize> = (from..=to).filter(|i| text.is_char_boundary(*i)).collect();
    let mut v = vec![];
    let mut free = from;
    for (k, &a) in stops.iter().enumerate() {
        if a < free {
            continue;
        }
        for &b in &stops[k..] {
            if b - a > 3 * pat.len() + 3 {
                break;
            }
            let s = &text[a..b];
            let hit = if cased { s == pat } else { low(s) == want };
            if hit && !(whole && (text[..a].chars().next_back().is_some_and(word) || text[b..].chars().next().is_some_and(word))) {
                v.push((a, b));
                free = b;
                break;
            }
        }
    }
    v
}
fn swap_case(t: &mut T, s: &str) -> String {
    s.chars().flat_map(|c| if t.chance(1, 2) { c.to_uppercase().collect::<Vec<_>>() } else { c.to_lowercase().collect() }).collect()
}
const ODD: [&str; 14] = ["é", "É", "ß", "İ", "i", "K", "k", "ſ", "Σ", "σ", "ς", "aa", "aaa", "_"];
const RE: [&str; 14] = ["[a-z]+", "\\d+", "a|b", "x*", "l.", "(?s)a.b", "[^,]*,", "e?", "\\w\\w", "é|日", "0:0\\d", "(a)(b)?", ".+", "\\{[^}]*\\}"];

pub fn search(t: &mut T) -> R {
    let mut text = start_text(t);
    if t.chance(1, 2) {
        for _ in 0..t.us(8) {
            let o = good_off(t, &text);
            let w = t.pick(&ODD);
            text.insert_str(o, w);
        }
    }
    let Ok(mut d) = EditorDocument::from_content(&text) else { return Ok(()) };
    t.input("text", &text);
    let mut s: Box<dyn DocumentSearch> = if t.chance(1, 2) { create_search() } else { Box::new(DocumentSearchImpl::new()) };
    let ok = |r: std::result::Result<(), EditorError>, what: &str| r.map_err(|e| format!("{what}: {e}"));
    ok(s.build_index(&d), "build_index")?;
    let (mut found, mut steps) = (0, 0);
    for _ in 0..t.span(1, 6) {
        // edits, told to the index
        if t.chance(1, 3) {
            let mut ch = vec![];
            let many = if t.chance(1, 8) { 14 } else { 2 };
            for _ in 0..t.span(1, many) {
                let (a, b) = good_range(t, &text);
                let w = if t.chance(1, 2) { t.pick(&ODD).to_string() } else { some_text(t) };
                t.input_dbg("edit", &(a, b, &w));
                ok(d.replace(rng(a, b), &w), "replace")?;
                text.replace_range(a..b, &w);
                ch.push(rng(a, b));
            }
            match t.us(4) {
                0 => ok(s.build_index(&d), "build_index")?,
                1 => {
                    s.clear_index();
                    ok(s.build_index(&d), "build_index")?
                }
                _ => ok(s.update_index(&d, &ch), "update_index")?,
            }
            steps += 1;
        }
        let mut o = SearchOptions { case_sensitive: t.chance(1, 2), whole_words: t.chance(1, 3), max_results: if t.chance(1, 3) { t.us(4) } else { 0 }, use_regex: t.chance(1, 4), scope: SearchScope::All };
        let lines: Vec<(usize, usize)> = {
            let mut at = 0;
            text.split('\n')
                .map(|l| {
                    let a = at;
                    at += l.len() + 1;
                    (a, a + l.len())
                })
                .collect()
        };
        let mut region = (0, text.len());
        match t.us(4) {
            0 => {
                let (a, b) = good_range(t, &text);
                let end = if t.chance(1, 6) { text.len() + t.us(9) } else { b };
                region = (a, end.min(text.len()));
                o.scope = SearchScope::Range(rng(a, end));
            }
            1 => {
                let (a, b) = (t.us(lines.len() + 1), t.us(lines.len() + 2));
                let (a, b) = if t.chance(7, 8) { (a.min(b), a.max(b)) } else { (a, b) };
                region = match (lines.get(a), lines.get(b)) {
                    (Some(x), Some(y)) if a <= b => (x.0, y.1),
                    (Some(x), None) => (x.0, text.len()),
                    _ => {
                        // nothing to search: where an empty match would be is left open
                        o.use_regex = false;
                        (0, 0)
                    }
                };
                o.scope = SearchScope::Lines { start: a, end: b };
            }
            _ => {}
        }
        let pat = if o.use_regex {
            match t.us(3) {
                0 => t.pick(&["(", "[", "a{2", "*"]).to_string(),
                _ => t.pick(&RE).to_string(),
            }
        } else {
            let p = match t.us(4) {
                0 => t.pick(&ODD).to_string(),
                1 => t.pick(&["a", "default", "dialogue", ":00", "\n", "0", "zz"]).to_string(),
                _ => {
                    let a = good_off(t, &text);
                    let mut b = (a + 1 + t.us(8)).min(text.len());
                    while !text.is_char_boundary(b) {
                        b += 1;
                    }
                    text[a..b].to_string()
                }
            };
            let p = if o.whole_words { p.chars().filter(|c| c.is_alphanumeric() || *c == '_').collect() } else { p };
            let p = if t.chance(1, 2) { swap_case(t, &p) } else { p };
            if p.is_empty() {
                "a".into()
            } else {
                p
            }
        };
        if o.use_regex && matches!(o.scope, SearchScope::Range(_)) {
            o.whole_words = false;
        }
        let what = format!("search for {pat:?} with {o:?}");
        t.input_dbg("op", &what);
        let cut = |mut v: Vec<(usize, usize)>| {
            if o.max_results > 0 {
                v.truncate(o.max_results);
            }
            v
        };
        let want = if o.use_regex {
            let p = if o.whole_words { format!("\\b(?:{pat})\\b") } else { pat.clone() };
            match regex::RegexBuilder::new(&p).case_insensitive(!o.case_sensitive).build() {
                Err(_) => None,
                Ok(r) => Some(cut(r.find_iter(&text[region.0..region.1]).map(|m| (region.0 + m.start(), region.0 + m.end())).collect())),
            }
        } else {
            Some(cut(naive(&text, region, &pat, o.case_sensitive, o.whole_words)))
        };
        let replace = t.chance(1, 5);
        let by = some_text(t);
        let got = if replace {
            t.input_dbg("replace by", &by);
            s.find_replace(&mut d, &pat, &by, &o)
        } else {
            s.search(&pat, &o)
        };
        let Some(want) = want else {
            ensure!(got.is_err(), "{what}: an invalid pattern was accepted");
            ensure_eq!(d.text(), text, "text after {what}");
            continue;
        };
        let got = got.map_err(|e| format!("{what}: {e}"))?;
        let places: Vec<(usize, usize)> = got.iter().map(|r| (r.start.offset, r.end.offset)).collect();
        ensure_eq!(places, want, "{what}: places found");
        found += want.len();
        for r in &got {
            let line = lines.iter().rposition(|l| l.0 <= r.start.offset).unwrap();
            let have = (&*r.text, &*r.context, r.line, r.column);
            let w = (&text[r.start.offset..r.end.offset], &text[lines[line].0..lines[line].1], line, r.start.offset - lines[line].0);
            ensure_eq!(have, w, "{what}: text, line of text, line and column of the match at {}", r.start.offset);
        }
        drop(got);
        if replace {
            for (a, b) in want.iter().rev() {
                text.replace_range(*a..*b, &by);
            }
            ensure_eq!(d.text(), text, "text after replacing by {by:?}: {what}");
            ok(s.build_index(&d), "build_index")?;
            steps += 1;
        } else {
            ensure_eq!(d.text(), text, "text after {what}");
        }
    }
    t.nontrivial_if(found > 1 && steps > 0);
    Ok(())
}
