//! A document as lines with known meaning; what the command checks compare against.
use crate::doc::Hist;
use ass_editor::*;
use vkit::ass::*;
use vkit::*;

#[derive(Clone, Debug)]
pub struct Ln {
    pub tag: Tag,
    pub s: String,
    pub nl: &'static str,
}
pub struct Rows {
    pub m: MScript,
    pub nl: &'static str,
    pub bom: bool,
    pub ls: Vec<Ln>,
    pub h: Hist,
}
pub fn cs(s: &str) -> Option<u32> {
    let p: Vec<&str> = s.split(':').collect();
    if p.len() != 3 {
        return None;
    }
    let (sec, frac) = p[2].split_once('.')?;
    Some(p[0].parse::<u32>().ok()? * 360_000 + p[1].parse::<u32>().ok()? * 6000 + sec.parse::<u32>().ok()? * 100 + frac.parse::<u32>().ok()?)
}
/// Bytes of each comma-separated field after the first colon, trimmed.
pub fn fields(line: &str, n: usize) -> Vec<std::ops::Range<usize>> {
    let body = line.find(':').unwrap() + 1;
    let mut v = vec![];
    let mut p = body;
    for part in line[body..].splitn(n, ',') {
        let lead = part.len() - part.trim_start().len();
        let tr = part.trim();
        // a value goes into blanks at their start, but behind those after the colon
        v.push(if tr.is_empty() { let q = if v.is_empty() { p + lead } else { p }; q..q } else { p + lead..p + lead + tr.len() });
        p += part.len() + 1;
    }
    v
}
impl Rows {
    pub fn open(t: &mut T, o: &Opts) -> Option<(Rows, EditorDocument)> {
        let m = script(t, o);
        let l = layout(t);
        let v = lines(t, &m, &l);
        let n = v.len();
        let ls: Vec<Ln> = v.into_iter().enumerate().map(|(i, (tag, s))| Ln { tag, s, nl: if i + 1 < n || l.final_nl { l.nl } else { "" } }).collect();
        let mut r = Rows { m, nl: l.nl, bom: l.bom, ls, h: Hist::default() };
        // where in a field of nothing but blanks a value goes is left open, so there are none
        for i in 0..r.ls.len() {
            let n = r.cols(i).len();
            if n > 0 {
                let body = r.ls[i].s.find(':').unwrap() + 1;
                let parts: Vec<&str> = r.ls[i].s[body..].splitn(n, ',').map(|p| if p.trim().is_empty() { "" } else { p }).collect();
                r.ls[i].s = format!("{}{}", &r.ls[i].s[..body], parts.join(","));
            }
        }
        let s = r.text();
        t.input("text", &s);
        let d = EditorDocument::from_content(&s).ok()?;
        r.h.text = s;
        Some((r, d))
    }
    pub fn text_of(&self, ls: &[Ln]) -> String {
        let mut s = String::new();
        if self.bom {
            s.push('\u{feff}');
        }
        for l in ls {
            s.push_str(&l.s);
            s.push_str(l.nl);
        }
        s
    }
    pub fn text(&self) -> String {
        self.text_of(&self.ls)
    }
    /// Byte offset of a line.
    pub fn at(&self, i: usize) -> usize {
        self.text_of(&self.ls[..i]).len()
    }
    pub fn events(&self) -> Vec<usize> {
        (0..self.ls.len()).filter(|i| matches!(self.ls[*i].tag, Tag::Event(..))).collect()
    }
    pub fn styles(&self) -> Vec<usize> {
        (0..self.ls.len()).filter(|i| matches!(self.ls[*i].tag, Tag::Style(..))).collect()
    }
    pub fn cols(&self, i: usize) -> Vec<String> {
        match self.ls[i].tag {
            Tag::Event(s, _) => self.m.sections[s].event_cols(),
            Tag::Style(s, _) => self.m.sections[s].style_cols(),
            _ => vec![],
        }
    }
    pub fn field(&self, i: usize, name: &str) -> Option<std::ops::Range<usize>> {
        let cols = self.cols(i);
        let c = cols.iter().position(|c| c.eq_ignore_ascii_case(name))?;
        fields(&self.ls[i].s, cols.len()).get(c).cloned()
    }
    pub fn get(&self, i: usize, name: &str) -> Option<String> {
        self.field(i, name).map(|r| self.ls[i].s[r].to_string())
    }
    /// The line with fields replaced.
    pub fn with(&self, i: usize, edits: &[(&str, &str)]) -> String {
        let mut v: Vec<(std::ops::Range<usize>, &str)> = edits.iter().filter_map(|(n, x)| self.field(i, n).map(|r| (r, *x))).collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.0.start));
        let mut s = self.ls[i].s.clone();
        for (r, x) in v {
            s.replace_range(r, x);
        }
        s
    }
    pub fn kind(&self, i: usize) -> String {
        let s = self.ls[i].s.trim_start();
        s[..s.find(':').unwrap()].to_string()
    }
    pub fn has(&self, f: impl Fn(&MSection) -> bool) -> Option<usize> {
        self.ls.iter().position(|l| matches!(l.tag, Tag::Header(s) if f(&self.m.sections[s])))
    }
    /// The document must hold exactly the model now; one entry in the history, unless nothing changed.
    pub fn agree(&mut self, d: &EditorDocument, what: &str) -> R {
        let want = self.text();
        self.h.edited(d, want, what)
    }
    /// The document must be as before.
    pub fn untouched(&mut self, d: &EditorDocument, what: &str) -> R {
        self.h.agree(d, what)
    }
    /// The document must be the model with one insertion between two lines; returns what was inserted.
    pub fn inserted(&mut self, d: &EditorDocument, i: usize, what: &str) -> std::result::Result<String, String> {
        let got = d.text();
        let (a, b) = (self.text_of(&self.ls[..i]), {
            let x = self.text_of(&self.ls);
            x[self.at(i)..].to_string()
        });
        ensure!(
            got.len() >= a.len() + b.len() && got.starts_with(&a) && got.ends_with(&b),
            "{what}: lines other than the new one changed\n got {got:?}\n was {:?}",
            self.text()
        );
        let ins = got[a.len()..got.len() - b.len()].to_string();
        self.h.edited(d, got, what)?;
        Ok(ins)
    }
    /// The document must be the model with line `i` replaced by another single line; returns it and takes it over.
    pub fn replaced(&mut self, d: &EditorDocument, i: usize, what: &str) -> std::result::Result<String, String> {
        let got = d.text();
        let a = self.text_of(&self.ls[..i]);
        let old = self.text();
        let b = &old[self.at(i) + self.ls[i].s.len()..];
        ensure!(
            got.len() >= a.len() + b.len() && got.starts_with(&a) && got.ends_with(b),
            "{what}: lines other than the addressed one changed\n got {got:?}\n was {old:?}"
        );
        let new = got[a.len()..got.len() - b.len()].to_string();
        ensure!(!new.contains('\n'), "{what}: the line became several: {new:?}");
        self.ls[i].s = new.clone();
        self.h.edited(d, got, what)?;
        Ok(new)
    }
    /// Takes a new line over into the model: the inserted text must be one line, apart from its break.
    pub fn take(&mut self, i: usize, tag: Tag, ins: &str, what: &str) -> std::result::Result<String, String> {
        let line = ins.trim_matches(|c| c == '\n' || c == '\r').to_string();
        ensure!(!line.contains('\n') && !line.is_empty(), "{what}: inserted {ins:?}");
        if i > 0 && self.ls[i - 1].nl.is_empty() {
            ensure!(ins.starts_with(['\n', '\r']), "{what}: {ins:?} was appended to the line before");
            self.ls[i - 1].nl = if ins.starts_with('\r') { "\r\n" } else { "\n" };
        } else {
            ensure!(!ins.starts_with(['\n', '\r']), "{what}: inserted {ins:?}");
        }
        let nl = if ins.ends_with("\r\n") { "\r\n" } else if ins.ends_with('\n') { "\n" } else { "" };
        ensure!(!nl.is_empty() || i == self.ls.len(), "{what}: {ins:?} has the next line appended");
        self.ls.insert(i, Ln { tag, s: line.clone(), nl });
        ensure_eq!(self.text(), self.h.text, "{what}: the new line is set off by more than line breaks");
        Ok(line)
    }
}
