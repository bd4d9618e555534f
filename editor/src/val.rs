//! E15: lazy validation reports what a fresh validation of the present text reports.
use crate::doc::*;
use ass_core::analysis::linting::IssueSeverity;
use ass_core::analysis::ScriptAnalysis;
use ass_core::Script;
use ass_editor::utils::validator::*;
use ass_editor::*;
use std::time::Duration;
use vkit::*;

type Found = Vec<(ValidationSeverity, Option<usize>, Option<usize>, String, String, Option<String>)>;
const SEV: [ValidationSeverity; 4] = [ValidationSeverity::Info, ValidationSeverity::Warning, ValidationSeverity::Error, ValidationSeverity::Critical];

/// All the issues of a text, by the definitions.
fn issues(text: &str) -> std::result::Result<Found, String> {
    let sc = Script::parse(text).map_err(|e| e.to_string())?;
    let mut v: Found = vec![];
    let an = ScriptAnalysis::analyze(&sc).map_err(|e| e.to_string())?;
    for i in an.lint_issues() {
        let s = match i.severity() {
            IssueSeverity::Hint | IssueSeverity::Info => ValidationSeverity::Info,
            IssueSeverity::Warning => ValidationSeverity::Warning,
            IssueSeverity::Error => ValidationSeverity::Error,
            IssueSeverity::Critical => ValidationSeverity::Critical,
        };
        v.push((s, i.location().map(|l| l.line), i.location().map(|l| l.column), i.message().into(), i.rule_id().into(), i.suggested_fix().map(|s| s.to_string())));
    }
    let mut add = |m: &str, r: &str| v.push((ValidationSeverity::Warning, None, None, m.into(), r.into(), None));
    if text.is_empty() {
        add("Document is empty", "basic");
    }
    if !text.contains("[Script Info]") {
        add("Missing [Script Info] section", "structure");
    }
    if !text.contains("[Events]") {
        add("Missing [Events] section", "structure");
    }
    Ok(v)
}
fn under(all: &Found, c: &ValidatorConfig) -> Found {
    let mut v: Found = all.iter().filter(|i| i.0 >= c.severity_threshold).cloned().collect();
    if c.max_issues > 0 {
        v.truncate(c.max_issues);
    }
    v
}
/// The result says `want`, and sums it up rightly.
fn agree(r: &ValidationResult, want: &Found, what: &str) -> R {
    let got: Found = r.issues.iter().map(|i| (i.severity, i.line, i.column, i.message.clone(), i.rule.clone(), i.suggestion.clone())).collect();
    ensure_eq!(&got, want, "{what}: issues");
    let n = |s| want.iter().filter(|i| i.0 == s).count();
    let errors = n(ValidationSeverity::Error) + n(ValidationSeverity::Critical);
    let warnings = n(ValidationSeverity::Warning);
    ensure_eq!((r.error_count, r.warning_count, r.is_valid), (errors, warnings, errors == 0), "{what}: counts of errors and warnings, validity");
    let sum = match (errors, warnings) {
        (0, 0) => "Valid".to_string(),
        (0, w) => format!("{w} warnings"),
        (e, w) => format!("{e} errors, {w} warnings"),
    };
    ensure_eq!(r.summary(), sum, "{what}: summary");
    for s in SEV {
        ensure_eq!(r.issues_with_severity(s).len(), want.iter().filter(|i| i.0 >= s).count(), "{what}: issues from {s:?} up");
    }
    for (i, w) in r.issues.iter().zip(want) {
        ensure_eq!((i.is_error(), i.is_warning_or_higher()), (w.0 >= ValidationSeverity::Error, w.0 >= ValidationSeverity::Warning), "{what}: severity tests of {i:?}");
    }
    Ok(())
}
fn config(t: &mut T) -> ValidatorConfig {
    ValidatorConfig {
        auto_validate: t.chance(1, 2),
        min_validation_interval: t.pick_c(&[Duration::ZERO, Duration::from_millis(500), Duration::from_secs(3600)]),
        max_issues: t.pick_c(&[0usize, 1, 2, 3, 5, 100]),
        severity_threshold: SEV[t.weighted(&[4, 2, 2, 1])],
        enable_performance_hints: t.chance(1, 2),
        enable_accessibility_checks: t.chance(1, 2),
        enable_spec_compliance: t.chance(1, 2),
        enable_unicode_checks: t.chance(1, 2),
    }
}
fn dialogue(t: &mut T) -> String {
    let a = t.us(20) as u32 * 50;
    let d = t.pick_c(&[0u32, 10, 100, 300]);
    let b = if t.chance(1, 6) { a.saturating_sub(100) } else { a + d };
    format!("Dialogue: 0,{},{},{},,0,0,0,,{}\n", vkit::ass::fmt_time(a), vkit::ass::fmt_time(b), t.pick(&["Default", "Nope"]), t.pick(&["Hi", "{\\c&HGG&}x", "{\\}", "\u{fffd}", "A rather long line that nobody can read in so short a time"]))
}
fn text(t: &mut T) -> String {
    match t.us(5) {
        0 => some_text(t),
        1 => start_text(t),
        _ => {
            let mut s = String::new();
            if t.chance(4, 5) {
                s += "[Script Info]\nTitle: x\n\n";
            }
            s += "[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour\nStyle: Default,Arial,20,";
            s += t.pick(&["&H00FFFFFF", "x"]);
            s += "\n\n";
            if t.chance(4, 5) {
                s += "[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
                for _ in 0..t.len(5) {
                    s += &dialogue(t);
                }
            }
            s
        }
    }
}
/// One document and its validator through edits, undo and settings.
pub fn document(t: &mut T) -> R {
    let start = text(t);
    t.input("text", &start);
    let mut d = EditorDocument::from_content(&start).map_err(|e| e.to_string())?;
    let mut cfg = ValidatorConfig::default();
    let mut asked = 0;
    let mut changed = 0;
    let mut log = vec![];
    for step in 0..t.span(1, 14) {
        let was = d.text();
        match t.weighted(&[3, 1, 1, 1, 1, 3, 1, 1, 1, 1]) {
            0 => {
                let at = good_off(t, &was);
                let x = if t.chance(1, 2) { dialogue(t) } else { some_text(t) };
                let ok = if t.chance(1, 2) { d.insert(Position::new(at), &x) } else { d.insert_incremental(Position::new(at), &x).map(|_| ()) };
                log.push(format!("insert {x:?} at {at}: {}", ok.is_ok()));
            }
            1 => {
                let (a, b) = good_range(t, &was);
                let ok = d.delete(rng(a, b)).is_ok();
                log.push(format!("delete {a}..{b}: {ok}"));
            }
            2 => {
                let (a, b) = good_range(t, &was);
                let x = some_text(t);
                let ok = d.replace(rng(a, b), &x).is_ok();
                log.push(format!("replace {a}..{b} by {x:?}: {ok}"));
            }
            3 => log.push(format!("undo: {}", d.undo().is_ok())),
            4 => log.push(format!("redo: {}", d.redo().is_ok())),
            5..=7 => {
                asked += 1;
                let now = d.text();
                let want = under(&issues(&now)?, &cfg);
                match t.us(3) {
                    0 => {
                        log.push("validate".into());
                        let r = d.validate_comprehensive().map_err(|e| format!("validation failed: {e}"))?;
                        agree(&r, &want, &format!("step {step} of {log:?}"))?;
                    }
                    1 => {
                        log.push("force".into());
                        let r = d.force_validate().map_err(|e| format!("validation failed: {e}"))?;
                        agree(&r, &want, &format!("step {step} of {log:?}"))?;
                    }
                    _ => {
                        log.push("is it valid".into());
                        let r = d.is_valid_cached().map_err(|e| format!("validation failed: {e}"))?;
                        ensure_eq!(r, want.iter().all(|i| i.0 < ValidationSeverity::Error), "step {step} of {log:?}: validity");
                    }
                }
                let r = d.validation_result().ok_or("no result is kept after a validation")?;
                agree(r, &want, &format!("step {step} of {log:?}: the kept result"))?;
            }
            8 => {
                cfg = config(t);
                log.push(format!("configure {cfg:?}"));
                if t.chance(1, 2) { d.set_validator_config(cfg.clone()) } else { d.validator_mut().set_config(cfg.clone()) }
                ensure!(d.validation_result().is_none(), "step {step} of {log:?}: a result of older settings is kept");
            }
            _ => {
                log.push("clear".into());
                d.validator_mut().clear_cache();
                ensure!(d.validation_result().is_none(), "step {step} of {log:?}: a cleared result is kept");
            }
        }
        changed += usize::from(d.text() != was);
    }
    t.input_dbg("steps", &log);
    t.nontrivial_if(asked > 1 && changed > 0);
    Ok(())
}
/// One validator asked about several documents in turn.
pub fn shared(t: &mut T) -> R {
    let texts: Vec<String> = (0..t.span(1, 4)).map(|_| text(t)).collect();
    t.input_dbg("texts", &texts);
    let docs = texts.iter().map(|s| EditorDocument::from_content(s)).collect::<std::result::Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
    let all = texts.iter().map(|s| issues(s)).collect::<std::result::Result<Vec<_>, _>>()?;
    let mut cfg = config(t);
    t.input_dbg("settings", &cfg);
    let mut v = LazyValidator::with_config(cfg.clone());
    ensure!(v.cached_result().is_none(), "a new validator has a result");
    for step in 0..t.span(1, 10) {
        let k = t.us(docs.len());
        let what = format!("step {step}, text {k}");
        let want = under(&all[k], &cfg);
        match t.weighted(&[4, 2, 2, 1]) {
            0 => agree(v.validate(&docs[k]).map_err(|e| e.to_string())?, &want, &what)?,
            1 => agree(v.force_validate(&docs[k]).map_err(|e| e.to_string())?, &want, &what)?,
            2 => ensure_eq!(v.is_valid(&docs[k]).map_err(|e| e.to_string())?, want.iter().all(|i| i.0 < ValidationSeverity::Error), "{what}: validity"),
            _ => {
                cfg = config(t);
                v.set_config(cfg.clone());
                ensure!(v.cached_result().is_none(), "{what}: a result of older settings is kept");
                continue;
            }
        }
        agree(v.cached_result().ok_or("no result is kept")?, &want, &what)?;
    }
    t.nontrivial_if(docs.len() > 1 && all.iter().any(|a| a.len() > 1));
    Ok(())
}
