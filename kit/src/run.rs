use crate::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

const THREADS: usize = 8;
const STACK: usize = 8 << 20;
/// A search case running this long is re-run alone to decide whether it terminates.
const CASE_HANG_S: u64 = 45;
/// The lone re-run may take this long before it counts as not terminating.
const LONE_HANG_S: u64 = 120;
/// Address-space limit of a searching process, so that a runaway allocation is an abort here.
const MEM_LIMIT: u64 = 16 << 30;
const HANG_EXIT: i32 = 77;

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn known_ids() -> &'static Vec<String> {
    static K: OnceLock<Vec<String>> = OnceLock::new();
    K.get_or_init(|| known_entries().into_iter().map(|e| e.0).collect())
}
/// (id, property, what) of each "known" line of known_findings.jsonl; "fixed" lines suppress nothing.
fn known_entries() -> Vec<(String, String, String)> {
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.jsonl")).unwrap_or_default();
    txt.lines()
        .filter(|l| jget(l, "status").as_deref() == Some("known"))
        .filter_map(|l| Some((jget(l, "id")?, jget(l, "property")?, jget(l, "what")?)))
        .collect()
}
/// String value of `key` in a one-line JSON object.
fn jget(l: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\"");
    let i = l.find(&k)? + k.len();
    let rest = l[i..].trim_start().strip_prefix(':')?.trim_start().strip_prefix('"')?;
    let mut out = String::new();
    let mut it = rest.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'r' => out.push('\r'),
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}
pub(crate) fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

fn run_case(f: fn(&mut T) -> R, t: &mut T) -> R {
    match catch_unwind(AssertUnwindSafe(|| f(t))) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    hash_of(&(seed, prop, sub, i))
}

struct Fail {
    sub: &'static str,
    idx: u64,
    choices: Vec<u64>,
    msg: String,
}

fn replay_path(prop: &str, sub: &str, choices: &[u64]) -> PathBuf {
    verif_dir().join("replays").join(format!("{prop}-{sub}-{:08x}.json", hash_of(choices) as u32))
}
fn write_replay(prop: &str, sub: &str, choices: &[u64], msg: &str, shown: &[(String, String)]) -> PathBuf {
    let p = replay_path(prop, sub, choices);
    let _ = std::fs::create_dir_all(p.parent().unwrap());
    let mut s = String::from("{\n");
    s.push_str(&format!(" \"property\": {},\n \"check\": {},\n", jstr(prop), jstr(sub)));
    s.push_str(&format!(" \"seed\": {},\n", seed()));
    s.push_str(&format!(" \"choices\": {:?},\n", choices));
    s.push_str(&format!(" \"failure\": {},\n \"input\": {{\n", jstr(msg)));
    for (i, (k, v)) in shown.iter().enumerate() {
        s.push_str(&format!("  {}: {}{}\n", jstr(&format!("{i:02} {k}")), jstr(v), if i + 1 < shown.len() { "," } else { "" }));
    }
    s.push_str(" }\n}\n");
    let _ = std::fs::write(&p, s);
    p
}
fn read_choices(txt: &str) -> Vec<u64> {
    let i = match txt.find("\"choices\"") {
        Some(i) => i,
        None => return vec![],
    };
    let a = i + txt[i..].find('[').unwrap_or(0) + 1;
    let b = a + txt[a..].find(']').unwrap_or(0);
    txt[a..b].split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

/// Run one choice sequence in its own thread; None = did not finish in time.
fn timed_case(f: fn(&mut T) -> R, c: Vec<u64>, verbose: bool, limit: Duration) -> Option<(R, Vec<u64>, Vec<(String, String)>)> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut t = T::replay(c, verbose);
            let r = run_case(f, &mut t);
            let _ = tx.send((r, t.rec, t.shown));
        })
        .ok()?;
    rx.recv_timeout(limit).ok()
}

/// Shrink by a predicate over choice sequences that returns the sequence actually consumed.
fn shrink(start: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: usize, wall: Duration) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut used = 0usize;
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            let mut ok = false;
            if smaller(&cand, &best) && used < budget && t0.elapsed() < wall {
                used += 1;
                if let Some(mut got) = fails(&cand) {
                    while got.last() == Some(&0) {
                        got.pop();
                    }
                    best = if smaller(&got, &cand) { got } else { cand };
                    ok = true;
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let e = (i + k).min(c.len());
                c.drain(i..e);
                if !attempt!(c) {
                    i += if k > 8 { k / 2 } else { 1 }.max(1);
                }
            }
            if k == 1 {
                break;
            }
            k = if k > 8 { k / 2 } else { k - 1 };
        }
        // delete a block and decrement an earlier counter
        let mut i = 0;
        while i < best.len() && best.len() < 400 {
            if best[i] > 0 && best[i] < 40 {
                for k in [1usize, 2, 3, 4, 5, 6, 8] {
                    if i + 1 + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        if attempt!(c) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        // zero blocks, then minimise values
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                i += k;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        if i >= best.len() {
                            break;
                        }
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || used >= budget || t0.elapsed() >= wall {
            return best;
        }
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}
fn limit_memory() {
    // RLIMIT_AS = 9 on Linux
    unsafe {
        setrlimit(9, &[MEM_LIMIT, MEM_LIMIT]);
        // no core files
        setrlimit(4, &[0, 0]);
    }
}

struct Slots(Vec<(AtomicU64, AtomicU64, AtomicU64)>); // sub index, case index, start ms (0 = idle)

fn child(prop: &Prop, slot_file: PathBuf, fail_file: PathBuf) -> i32 {
    limit_memory();
    install_hook();
    let t0 = Instant::now();
    let sd = seed();
    let slots = Arc::new(Slots((0..THREADS).map(|_| Default::default()).collect()));
    // crash slots on disk: fixed 16 bytes per thread, rewritten before each case
    let f = std::fs::File::create(&slot_file).expect("slot file");
    f.set_len((THREADS * 16) as u64).unwrap();
    let f = Arc::new(f);
    {
        let (slots, slot_file) = (slots.clone(), slot_file.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for s in &slots.0 {
                let st = s.2.load(SeqCst);
                if st != 0 && now.saturating_sub(st) > CASE_HANG_S * 1000 {
                    let _ = std::fs::write(slot_file.with_extension("hang"), format!("{} {}", s.0.load(SeqCst), s.1.load(SeqCst)));
                    unsafe { _exit(HANG_EXIT) }
                }
            }
        });
    }
    let mut evaluations = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = 0u64;
    let mut per_sub: Vec<(String, u64, u64)> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut failures: Vec<Fail> = vec![];
    let mult: f64 = std::env::var("VERIF_MULT").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();

    for (si, s) in prop.subs.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let n = ((if thorough() { s.thorough } else { s.quick }) as f64 * mult) as u64;
        let next = Arc::new(AtomicU64::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        type Acc = (u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<(u64, String)>, Vec<Fail>);
        let out: Arc<Mutex<Acc>> = Default::default();
        let mut hs = vec![];
        for th in 0..THREADS {
            let (next, stop, out, slots, f) = (next.clone(), stop.clone(), out.clone(), slots.clone(), f.clone());
            let (pid, s) = (prop.id, *s);
            hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
                use std::os::unix::fs::FileExt;
                let mut seen = HashSet::new();
                let mut lab: BTreeMap<&'static str, u64> = BTreeMap::new();
                let mut smp: Vec<(u64, String)> = vec![];
                let mut fails = vec![];
                let mut ev = 0u64;
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || stop.load(SeqCst) {
                        break;
                    }
                    let mut buf = [0u8; 16];
                    buf[..8].copy_from_slice(&(si as u64).to_le_bytes());
                    buf[8..].copy_from_slice(&(i + 1).to_le_bytes());
                    let _ = f.write_at(&buf, (th * 16) as u64);
                    slots.0[th].0.store(si as u64, SeqCst);
                    slots.0[th].1.store(i, SeqCst);
                    slots.0[th].2.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                    let mut t = T::random(case_seed(sd, pid, s.name, i), i < 40);
                    let r = run_case(s.f, &mut t);
                    slots.0[th].2.store(0, SeqCst);
                    ev += t.evals;
                    for l in &t.labels {
                        *lab.entry(l).or_default() += 1;
                    }
                    if t.nontrivial {
                        seen.insert(if t.hash != 0 { t.hash } else { hash_of(&t.rec) });
                        if i < 40 {
                            let body: Vec<String> = t.shown.iter().map(|(k, v)| format!("{k}={}", clip(v, 300))).collect();
                            smp.push((i, format!("[{}] {}", s.name, clip(&body.join(" | "), 700))));
                        }
                    }
                    if let Err(msg) = r {
                        fails.push(Fail { sub: s.name, idx: i, choices: t.rec, msg });
                        stop.store(true, SeqCst);
                    }
                }
                let _ = f.write_at(&[0u8; 16], (th * 16) as u64);
                let mut o = out.lock().unwrap();
                o.0 += ev;
                o.1.extend(seen);
                for (k, v) in lab {
                    *o.2.entry(k).or_default() += v;
                }
                o.3.extend(smp);
                o.4.extend(fails);
            }).expect("spawn"));
        }
        for h in hs {
            let _ = h.join();
        }
        let mut o = std::mem::take(&mut *out.lock().unwrap());
        evaluations += o.0;
        distinct += o.1.len() as u64;
        per_sub.push((s.name.to_string(), o.0, o.1.len() as u64));
        for (k, v) in o.2 {
            *labels.entry(format!("{}:{}", s.name, k)).or_default() += v;
        }
        o.3.sort();
        samples.extend(o.3.into_iter().take(3).map(|x| x.1));
        o.4.sort_by_key(|f| f.idx);
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("  {} {}: {} cases, {} distinct nontrivial, {:.1}s", prop.id, s.name, o.0, per_sub.last().unwrap().2, t0.elapsed().as_secs_f64());
        }
        if let Some(fl) = o.4.into_iter().next() {
            failures.push(fl);
        }
    }

    let mut rc = 0;
    for fl in &failures {
        rc = 1;
        // kept on disk in case shrinking itself dies
        let raw = write_replay(prop.id, fl.sub, &fl.choices, &fl.msg, &[]);
        let _ = std::fs::write(&fail_file, raw.to_string_lossy().as_bytes());
        let s = prop.subs.iter().find(|s| s.name == fl.sub).unwrap();
        let panicky = fl.msg.starts_with("panic at");
        let mut timeouts = 0;
        let best = shrink(
            fl.choices.clone(),
            |c| {
                if timeouts > 1 {
                    return None;
                }
                match timed_case(s.f, c.to_vec(), false, Duration::from_secs(10)) {
                    Some((Err(m), rec, _)) if m.starts_with("panic at") == panicky => Some(rec),
                    Some(_) => None,
                    None => {
                        timeouts += 1;
                        None
                    }
                }
            },
            4000,
            Duration::from_secs(60),
        );
        let (msg, shown, choices) = match timed_case(s.f, best.clone(), true, Duration::from_secs(30)) {
            Some((Err(m), rec, shown)) => (m, shown, rec),
            _ => match timed_case(s.f, fl.choices.clone(), true, Duration::from_secs(30)) {
                Some((Err(m), rec, shown)) => (m, shown, rec),
                _ => (fl.msg.clone(), vec![], fl.choices.clone()),
            },
        };
        if replay_path(prop.id, fl.sub, &choices) != raw {
            let _ = std::fs::remove_file(&raw);
        }
        let p = write_replay(prop.id, fl.sub, &choices, &msg, &shown);
        println!("check {} case {} failed: {}", fl.sub, fl.idx, clip(&msg, 1500));
        for (k, v) in &shown {
            println!("  {k}: {}", clip(&format!("{v:?}"), 600));
        }
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        let _ = std::fs::remove_file(&fail_file);
    }
    // recorded findings: re-run each fixed input
    for (id, p, what) in known_entries() {
        if p != prop.id {
            continue;
        }
        match prop.known.iter().find(|k| k.id == id) {
            Some(k) => {
                let kf = k.f;
                match catch_unwind(AssertUnwindSafe(kf)) {
                    Ok(Ok(())) => println!("note: recorded finding {id} of {} no longer reproduces", prop.id),
                    _ => println!("KNOWN-FINDING: property={} {id}: {what}", prop.id),
                }
            }
            None => println!("note: recorded finding {id} has no reproduction in this build"),
        }
    }
    write_evidence(prop, evaluations, distinct, &per_sub, &labels, &samples, t0.elapsed().as_secs_f64(), failures.len() as u64);
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1}s, {}",
        prop.id,
        if thorough() { "thorough" } else { "quick" },
        evaluations,
        distinct,
        t0.elapsed().as_secs_f64(),
        if rc == 0 { "held" } else { "BROKEN" }
    );
    rc
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &Prop, ev: u64, distinct: u64, per_sub: &[(String, u64, u64)], labels: &BTreeMap<String, u64>, samples: &[String], wall: f64, viol: u64) {
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let mut s = String::from("{\n");
    s.push_str(&format!(
        " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        jstr(prop.id),
        jstr(if thorough() { "thorough" } else { "quick" }),
        seed()
    ));
    s.push_str(&format!("  \"evaluations\": {ev},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {},\n", jstr(prop.rule)));
    s.push_str("  \"per_check\": {");
    s.push_str(&per_sub.iter().map(|(n, e, d)| format!("\n   {}: {{\"evaluations\": {e}, \"distinct_nontrivial\": {d}}}", jstr(n))).collect::<Vec<_>>().join(","));
    s.push_str("\n  },\n  \"classes\": {");
    s.push_str(&labels.iter().map(|(k, v)| format!("\n   {}: {v}", jstr(k))).collect::<Vec<_>>().join(","));
    s.push_str("\n  },\n  \"samples\": [");
    s.push_str(&samples.iter().map(|x| format!("\n   {}", jstr(x))).collect::<Vec<_>>().join(","));
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    s.push_str(&prop.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "));
    s.push_str(&format!("],\n \"wall_s\": {wall:.2},\n \"violations\": {viol}\n}}\n"));
    let _ = std::fs::write(d.join(format!("{}.json", prop.id)), s);
}

enum Lone {
    Fine,
    Failed,
    Crashed(String),
    Hung,
}
/// Run one case (by choices file or index) in its own process.
fn lone(prop: &str, sub: &str, how: &[String], secs: u64) -> Lone {
    use std::os::unix::process::ExitStatusExt;
    let mut c = match Command::new(std::env::current_exe().unwrap())
        .arg("lone").arg(prop).arg(sub).args(how)
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return Lone::Fine,
    };
    let t0 = Instant::now();
    loop {
        if let Ok(Some(st)) = c.try_wait() {
            if let Some(sig) = st.signal() {
                return Lone::Crashed(format!("signal {sig}"));
            }
            return if st.code() == Some(1) { Lone::Failed } else { Lone::Fine };
        }
        if t0.elapsed().as_secs() > secs {
            let _ = c.kill();
            let _ = c.wait();
            return Lone::Hung;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn parent(prop: &Prop) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let tmp = std::env::temp_dir().join(format!("vh-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let slot = tmp.join("slots");
    let failf = tmp.join("fail");
    let t0 = Instant::now();
    let st = Command::new(std::env::current_exe().unwrap())
        .arg("child").arg(prop.id).arg(&slot).arg(&failf)
        .stderr(Stdio::inherit())
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start: {e}");
            return 2;
        }
    };
    let code = st.code();
    if st.signal().is_none() && (code == Some(0) || code == Some(1)) {
        let _ = std::fs::remove_dir_all(&tmp);
        return code.unwrap();
    }
    let mut rc = 2;
    if let Ok(p) = std::fs::read_to_string(&failf) {
        // a failure was found, then shrinking died
        println!("VIOLATION property={} replay={}", prop.id, p.trim());
        rc = 1;
    } else {
        let mut cands: Vec<(usize, u64)> = vec![];
        if let Ok(h) = std::fs::read_to_string(slot.with_extension("hang")) {
            let v: Vec<u64> = h.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if v.len() == 2 {
                cands.push((v[0] as usize, v[1]));
            }
        } else if let Ok(b) = std::fs::read(&slot) {
            for ch in b.chunks_exact(16) {
                let s = u64::from_le_bytes(ch[..8].try_into().unwrap());
                let i = u64::from_le_bytes(ch[8..].try_into().unwrap());
                if i > 0 {
                    cands.push((s as usize, i - 1));
                }
            }
        }
        cands.sort();
        for (si, idx) in cands {
            let Some(s) = prop.subs.get(si) else { continue };
            let what = match lone(prop.id, s.name, &["idx".into(), idx.to_string()], LONE_HANG_S) {
                Lone::Crashed(w) => format!("process died: {w} (stack overflow or abort)"),
                Lone::Hung => format!("did not terminate within {LONE_HANG_S}s"),
                _ => {
                    println!("{} {} case {idx} was running", prop.id, s.name);
                    continue;
                }
            };
            let hung = what.starts_with("did not");
            // recover the choices without running the code under test is impossible in general:
            // the lone process streams them to a file as it draws them
            let cf = tmp.join("choices");
            let _ = lone_record(prop.id, s.name, idx, &cf, if hung { 20 } else { LONE_HANG_S });
            let full = read_choices(&format!("\"choices\": [{}]", std::fs::read_to_string(&cf).unwrap_or_default()));
            let mut best = full.clone();
            if !hung && !full.is_empty() {
                let cand_file = tmp.join("cand");
                best = shrink(
                    full.clone(),
                    |c| {
                        let _ = std::fs::write(&cand_file, format!("\"choices\": {c:?}"));
                        match lone(prop.id, s.name, &["file".into(), cand_file.to_string_lossy().into_owned()], 20) {
                            Lone::Crashed(_) => Some(c.to_vec()),
                            _ => None,
                        }
                    },
                    400,
                    Duration::from_secs(60),
                );
            }
            let p = write_replay(prop.id, s.name, &best, &what, &[]);
            println!("check {} case {}: {}", s.name, idx, what);
            println!("VIOLATION property={} replay={}", prop.id, p.display());
            rc = 1;
            break;
        }
    }
    if rc == 1 {
        write_evidence(prop, 1, 1, &[], &BTreeMap::new(), &["run cut short by a crash; see the replay file".to_string()], t0.elapsed().as_secs_f64(), 1);
    } else {
        eprintln!("{}: child ended abnormally ({st:?}) and no single case reproduces it", prop.id);
    }
    let _ = std::fs::remove_dir_all(&tmp);
    rc
}

fn lone_record(prop: &str, sub: &str, idx: u64, out: &std::path::Path, secs: u64) -> Lone {
    lone(prop, sub, &["idx".into(), idx.to_string(), out.to_string_lossy().into_owned()], secs)
}

/// `lone PROP SUB idx N [record-file]` or `lone PROP SUB file PATH`
fn lone_main(prop: &Prop, a: &[String]) -> i32 {
    limit_memory();
    install_hook();
    let s = match prop.subs.iter().find(|s| s.name == a[0]) {
        Some(s) => *s,
        None => return 2,
    };
    let a: Vec<String> = a.to_vec();
    let prop_id = prop.id;
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        let mut t = if a[1] == "idx" {
            T::random(case_seed(seed(), prop_id, s.name, a[2].parse().unwrap_or(0)), false)
        } else {
            T::replay(read_choices(&std::fs::read_to_string(&a[2]).unwrap_or_default()), true)
        };
        if a.get(3).is_some() {
            t.stream_to(&a[3]);
        }
        let r = run_case(s.f, &mut t);
        (r, t.shown)
    }).unwrap();
    match h.join() {
        Ok((Ok(()), shown)) => {
            for (k, v) in shown {
                println!("  {k}: {v:?}");
            }
            println!("held");
            0
        }
        Ok((Err(m), shown)) => {
            for (k, v) in shown {
                println!("  {k}: {v:?}");
            }
            println!("failed: {m}");
            1
        }
        Err(_) => 1,
    }
}

pub fn main_with(props: Vec<Prop>) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let usage = "usage: BIN run PROP | replay FILE | list";
    let find = |id: &str| props.iter().find(|p| p.id == id);
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => match a.get(2).and_then(|p| find(p)) {
            Some(p) => parent(p),
            None => 2,
        },
        Some("child") => match a.get(2).and_then(|p| find(p)) {
            Some(p) => child(p, a[3].clone().into(), a[4].clone().into()),
            None => 2,
        },
        Some("lone") => match a.get(2).and_then(|p| find(p)) {
            Some(p) => lone_main(p, &a[3..]),
            None => 2,
        },
        Some("replay") => {
            let txt = std::fs::read_to_string(&a[2]).unwrap_or_default();
            let one = txt.replace('\n', " ");
            match (jget(&one, "property"), jget(&one, "check")) {
                (Some(p), Some(s)) => match find(&p) {
                    Some(p) => lone_main(p, &[s, "file".into(), a[2].clone()]),
                    None => 2,
                },
                _ => 2,
            }
        }
        _ => {
            eprintln!("{usage}");
            2
        }
    };
    std::process::exit(rc)
}
