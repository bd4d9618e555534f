//! E16: the extension manager follows a simple model, whatever extensions do when called.
use ass_editor::core::Result as ER;
use ass_editor::extensions::*;
use ass_editor::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};
use vkit::*;

/// What an extension does when it is called.
#[derive(Clone, Debug)]
enum Act {
    SetConfig(String, String),
    GetConfig(String),
    SetData(String, String),
    GetData(String, String),
    State(String),
    Lists,
    Exec(String),
    Register(String),
    Text,
}
#[derive(Clone, Debug, Default)]
struct Plan {
    acts: Vec<Act>,
    fails: bool,
}
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Init(String),
    Shut(String),
    Exec(String, String, Vec<(String, String)>),
    Got(Option<String>),
    State(Option<ExtensionState>),
    Lists(BTreeSet<String>, BTreeSet<String>),
    Ran(bool),
    Text(Option<String>),
}
#[derive(Default)]
struct Shared {
    plan: Plan,
    seen: Vec<Seen>,
}
struct Probe {
    info: ExtensionInfo,
    commands: Vec<String>,
    /// The place the plan of the next call stands and what is seen is told.
    shared: Arc<Mutex<Shared>>,
    manager: ExtensionManager,
}
impl Probe {
    fn run(&mut self, first: Seen, c: &mut dyn ExtensionContext) -> ER<()> {
        let plan = {
            let mut s = self.shared.lock().unwrap();
            s.seen.push(first);
            std::mem::take(&mut s.plan)
        };
        for a in &plan.acts {
            let saw = match a {
                Act::SetConfig(k, v) => {
                    c.set_config(k.clone(), v.clone())?;
                    continue;
                }
                Act::SetData(k, v) => {
                    c.set_extension_data(k.clone(), v.clone())?;
                    continue;
                }
                Act::Register(id) => {
                    c.register_command(ExtensionCommand::new(id.clone(), "n".into(), "d".into()))?;
                    continue;
                }
                Act::GetConfig(k) => Seen::Got(c.get_config(k)),
                Act::GetData(n, k) => Seen::Got(c.get_extension_data(n, k)),
                Act::State(n) => Seen::State(self.manager.get_extension_state(n)),
                Act::Lists => Seen::Lists(self.manager.list_extensions().into_iter().collect(), self.manager.list_commands().into_iter().collect()),
                Act::Exec(id) => {
                    let mut m = self.manager.clone();
                    Seen::Ran(m.execute_command(id, &HashMap::new(), c).is_ok())
                }
                Act::Text => Seen::Text(c.current_document().map(|d| d.text())),
            };
            self.shared.lock().unwrap().seen.push(saw);
        }
        if plan.fails {
            return Err(EditorError::CommandFailed { message: "planned".into() });
        }
        Ok(())
    }
}
impl EditorExtension for Probe {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, c: &mut dyn ExtensionContext) -> ER<()> {
        let n = self.info.name.clone();
        self.run(Seen::Init(n), c)
    }
    fn shutdown(&mut self, c: &mut dyn ExtensionContext) -> ER<()> {
        let n = self.info.name.clone();
        self.run(Seen::Shut(n), c)
    }
    fn state(&self) -> ExtensionState {
        ExtensionState::Active
    }
    fn execute_command(&mut self, id: &str, args: &HashMap<String, String>, c: &mut dyn ExtensionContext) -> ER<ExtensionResult> {
        let mut a: Vec<_> = args.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        a.sort();
        let n = self.info.name.clone();
        self.run(Seen::Exec(n.clone(), id.into(), a), c)?;
        Ok(ExtensionResult::success_with_message(format!("{n} ran {id}")).with_data("by".into(), n))
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        self.commands.iter().map(|c| ExtensionCommand::new(c.clone(), format!("{c}!"), "does it".into())).collect()
    }
}

const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];
const IDS: [&str; 6] = ["x.one", "x.two", "y.one", "y.two", "z", "w"];
const KEYS: [&str; 3] = ["k", "l", "m"];

/// States an extension may be in.
type States = Vec<ExtensionState>;
#[derive(Default, Clone)]
struct Model {
    states: BTreeMap<String, States>,
    offers: BTreeMap<String, Vec<String>>,
    /// Who may own a command, and whether it surely is there.
    commands: BTreeMap<String, (BTreeSet<String>, bool)>,
    config: BTreeMap<String, String>,
    data: BTreeMap<(String, String), String>,
}
struct Lab {
    manager: ExtensionManager,
    model: Model,
    shared: Arc<Mutex<Shared>>,
    doc: EditorDocument,
}
impl Lab {
    /// The manager tells what the model tells.
    fn agree(&self) -> R {
        let m = &self.model;
        let mut names = self.manager.list_extensions();
        names.sort();
        ensure_eq!(names, m.states.keys().cloned().collect::<Vec<_>>(), "loaded extensions");
        for n in NAMES.iter().chain(&["nobody"]) {
            let got = self.manager.get_extension_state(n);
            match m.states.get(*n) {
                None => ensure_eq!(got, None, "state of {n}, which is not loaded"),
                Some(s) => ensure!(got.is_some_and(|g| s.contains(&g)), "state of {n} is {got:?}, expected one of {s:?}"),
            }
        }
        let listed = self.manager.list_commands();
        let set: BTreeSet<String> = listed.iter().cloned().collect();
        ensure_eq!(set.len(), listed.len(), "a command is listed twice: {listed:?}");
        for (id, (_, sure)) in &m.commands {
            ensure!(!sure || set.contains(id), "command {id} is not listed: {listed:?}");
        }
        for id in &set {
            ensure!(m.commands.contains_key(id), "command {id} is listed, but nobody offers it");
        }
        for k in KEYS {
            ensure_eq!(self.manager.get_config(k), m.config.get(k).cloned(), "setting {k}");
            for n in NAMES {
                ensure_eq!(self.manager.get_extension_data(n, k), m.data.get(&(n.to_string(), k.to_string())).cloned(), "data {k} of {n}");
            }
        }
        Ok(())
    }
    fn acts(&self, t: &mut T) -> Plan {
        let acts = t.vec(3, |t| match t.weighted(&[2, 2, 2, 2, 2, 1, 1, 1, 1]) {
            0 => Act::SetConfig(t.pick(&KEYS).into(), t.pick(&["1", "2", ""]).into()),
            1 => Act::GetConfig(t.pick(&KEYS).into()),
            2 => Act::SetData(t.pick(&KEYS).into(), t.pick(&["1", "2", ""]).into()),
            3 => Act::GetData(t.pick(&NAMES).into(), t.pick(&KEYS).into()),
            4 => Act::State(t.pick(&NAMES).into()),
            5 => Act::Lists,
            6 => Act::Exec(t.pick(&IDS).into()),
            7 => Act::Register(t.pick(&IDS).into()),
            _ => Act::Text,
        });
        Plan { acts, fails: t.chance(1, 4) }
    }
    /// What the called extension saw is what the model holds, of which its own acts become part.
    fn follow(&mut self, plan: &Plan, who: &str, first: &dyn Fn(&Seen) -> bool, ctx: &str, doc: bool, during: Option<ExtensionState>) -> R {
        let seen = std::mem::take(&mut self.shared.lock().unwrap().seen);
        let mut it = seen.iter().peekable();
        let f = it.next().ok_or("the extension was not called")?;
        ensure!(first(f), "another call than asked for: {f:?}");
        for a in &plan.acts {
            match a {
                Act::SetConfig(k, v) => {
                    self.model.config.insert(k.clone(), v.clone());
                }
                Act::SetData(k, v) => {
                    self.model.data.insert((ctx.to_string(), k.clone()), v.clone());
                }
                Act::Register(_) => {}
                Act::GetConfig(k) => ensure_eq!(it.next(), Some(&Seen::Got(self.model.config.get(k).cloned())), "setting {k} as {who} sees it"),
                Act::GetData(n, k) => ensure_eq!(it.next(), Some(&Seen::Got(self.model.data.get(&(n.clone(), k.clone())).cloned())), "data {k} of {n} as {who} sees it"),
                Act::State(n) => {
                    let Some(Seen::State(g)) = it.next() else { return Err("no state was seen".into()) };
                    match self.model.states.get(n) {
                        None => ensure_eq!(*g, None, "state of {n}, not loaded, as {who} sees it"),
                        Some(_) if n == who && during.is_some() => ensure_eq!(*g, during, "state of {n} as it sees it itself"),
                        Some(s) => ensure!(g.is_some_and(|g| s.contains(&g)), "state of {n} as {who} sees it: {g:?}, expected one of {s:?}"),
                    }
                }
                Act::Lists => {
                    let Some(Seen::Lists(e, c)) = it.next() else { return Err("no lists were seen".into()) };
                    ensure_eq!(e.iter().collect::<Vec<_>>(), self.model.states.keys().collect::<Vec<_>>(), "loaded extensions as {who} sees them");
                    for (id, (_, sure)) in &self.model.commands {
                        ensure!(!sure || c.contains(id), "command {id} is not listed for {who}: {c:?}");
                    }
                    for id in c {
                        ensure!(self.model.commands.contains_key(id), "command {id} is listed for {who}, but nobody offers it");
                    }
                }
                Act::Exec(id) => {
                    // the plan is spent: a nested call does nothing and succeeds
                    let mut called = None;
                    if let Some(Seen::Exec(by, i, a)) = it.peek() {
                        ensure!(i == id && a.is_empty(), "nested call of {id} arrives as {i} with {a:?}");
                        called = Some(by.clone());
                        it.next();
                    }
                    let Some(Seen::Ran(ok)) = it.next() else { return Err("no nested call was seen".into()) };
                    ensure_eq!(*ok, called.is_some(), "nested call of {id}: success");
                    match self.model.commands.get(id) {
                        None => ensure!(!*ok, "nested call of {id}, which nobody offers, succeeded"),
                        // whether an extension may call itself is left open
                        Some((by, sure)) => {
                            ensure!(*ok || !sure || by.contains(who), "nested call of {id}, offered by {by:?}, failed");
                            ensure!(called.as_ref().is_none_or(|c| by.contains(c)), "nested call of {id} went to {called:?}, offered by {by:?}");
                        }
                    }
                }
                Act::Text => ensure_eq!(it.next(), Some(&Seen::Text(doc.then(|| self.doc.text()))), "document as {who} sees it"),
            }
        }
        ensure!(it.next().is_none(), "more calls than asked for: {seen:?}");
        Ok(())
    }
    /// Calls `f` with a context for `name`, with or without the document.
    fn with<X>(&mut self, name: &str, doc: bool, f: impl FnOnce(&mut ExtensionManager, &mut dyn ExtensionContext) -> X) -> std::result::Result<X, String> {
        let mut handle = self.manager.clone();
        let mut c = handle.create_context(name.to_string(), doc.then_some(&mut self.doc)).map_err(|e| e.to_string())?;
        Ok(f(&mut self.manager, &mut *c))
    }
    fn quiet(&self, what: &str) -> R {
        let seen = std::mem::take(&mut self.shared.lock().unwrap().seen);
        ensure!(seen.is_empty(), "{what} called an extension: {seen:?}");
        Ok(())
    }
}
pub fn lifecycle(t: &mut T) -> R {
    let mut l = Lab { manager: ExtensionManager::new(), model: Model::default(), shared: Arc::default(), doc: EditorDocument::from_content("[Script Info]\nTitle: x\n").map_err(|e| e.to_string())? };
    let mut log: Vec<String> = vec![];
    let (mut active, mut failed) = (0, 0);
    for step in 0..t.span(2, 25) {
        let name = t.pick(&NAMES).to_string();
        // mostly an extension is given a context of its own
        let ctx = if t.chance(4, 5) { name.clone() } else { t.pick(&NAMES).to_string() };
        let doc = t.chance(1, 2);
        let r: R = (|| match t.weighted(&[5, 6, 4, 6, 1, 1]) {
            0 => {
                let mut info = ExtensionInfo::new(name.clone(), "1".into(), "me".into(), "probe".into());
                let deps = t.vec(2, |t| t.pick(&NAMES).to_string());
                let commands = t.vec(3, |t| t.pick(&IDS).to_string());
                for d in &deps {
                    info = info.with_dependency(d.clone());
                }
                log.push(format!("load {name} needing {deps:?} offering {commands:?}"));
                let p = Probe { info, commands: commands.clone(), shared: l.shared.clone(), manager: l.manager.clone() };
                let r = l.manager.load_extension(Box::new(p));
                let want = deps.iter().all(|d| l.model.states.contains_key(d)) && !l.model.states.contains_key(&name);
                ensure_eq!(r.is_ok(), want, "loading: success");
                if want {
                    l.model.states.insert(name.clone(), vec![ExtensionState::Uninitialized]);
                    l.model.offers.insert(name.clone(), commands);
                } else {
                    failed += 1;
                }
                l.quiet("loading")
            }
            1 => {
                let plan = l.acts(t);
                log.push(format!("initialise {name} by the context of {ctx} doing {plan:?}"));
                l.shared.lock().unwrap().plan = plan.clone();
                let r = l.with(&ctx, doc, |m, c| m.initialize_extension(&name, c))?;
                if !l.model.states.contains_key(&name) {
                    ensure!(r.is_err(), "an extension which is not loaded was initialised");
                    failed += 1;
                    return l.quiet("initialising nothing");
                }
                l.follow(&plan, &name, &|s| *s == Seen::Init(name.clone()), &ctx, doc, Some(ExtensionState::Initializing))?;
                ensure_eq!(r.is_ok(), !plan.fails, "initialising: success");
                l.model.states.insert(name.clone(), vec![if plan.fails { ExtensionState::Error } else { ExtensionState::Active }]);
                if plan.fails {
                    failed += 1;
                } else {
                    active += 1;
                    for id in &l.model.offers[&name] {
                        let e = l.model.commands.entry(id.clone()).or_default();
                        e.0.insert(name.clone());
                        e.1 = true;
                    }
                }
                Ok(())
            }
            2 => {
                let plan = l.acts(t);
                log.push(format!("unload {name} by the context of {ctx} doing {plan:?}"));
                l.shared.lock().unwrap().plan = plan.clone();
                let r = l.with(&ctx, doc, |m, c| m.unload_extension(&name, c))?;
                if !l.model.states.contains_key(&name) {
                    // may be refused or do nothing but forget data of that name
                    let kept: Vec<_> = KEYS.iter().filter(|k| l.manager.get_extension_data(&name, k).is_some()).collect();
                    if r.is_ok() && kept.is_empty() {
                        l.model.data.retain(|(n, _), _| *n != name);
                    }
                    return l.quiet("unloading nothing");
                }
                l.follow(&plan, &name, &|s| *s == Seen::Shut(name.clone()), &ctx, doc, Some(ExtensionState::ShuttingDown))?;
                ensure_eq!(r.is_ok(), !plan.fails, "unloading: success");
                if plan.fails {
                    failed += 1;
                    let s = l.model.states.get_mut(&name).unwrap();
                    s.extend([ExtensionState::Error, ExtensionState::ShuttingDown]);
                } else {
                    l.model.states.remove(&name);
                    l.model.offers.remove(&name);
                    l.model.data.retain(|(n, _), _| *n != name);
                    l.model.commands.retain(|_, (by, sure)| {
                        if by.remove(&name) {
                            *sure = false;
                        }
                        !by.is_empty()
                    });
                }
                Ok(())
            }
            3 => {
                let id = t.pick(&IDS).to_string();
                let plan = l.acts(t);
                let mut args = t.vec(2, |t| (t.pick(&KEYS).to_string(), t.pick(&["", "1"]).to_string()));
                args.sort();
                args.dedup_by(|a, b| a.0 == b.0);
                log.push(format!("call {id} with {args:?} by the context of {ctx} doing {plan:?}"));
                l.shared.lock().unwrap().plan = plan.clone();
                let map: HashMap<_, _> = args.iter().cloned().collect();
                let there = l.manager.list_commands().contains(&id);
                let r = l.with(&ctx, doc, |m, c| m.execute_command(&id, &map, c))?;
                if !there {
                    ensure!(r.is_err(), "a command nobody offers was run");
                    failed += 1;
                    return l.quiet("an unknown command");
                }
                let by = l.model.commands[&id].0.clone();
                let who = match l.shared.lock().unwrap().seen.first() {
                    Some(Seen::Exec(w, i, a)) if by.contains(w) && *i == id && *a == args => w.clone(),
                    x => return Err(format!("the command arrives as {x:?}, offered by {by:?}")),
                };
                l.follow(&plan, &who, &|_| true, &ctx, doc, None)?;
                match r {
                    Err(_) => ensure!(plan.fails, "the command failed though the extension did not"),
                    Ok(r) => {
                        ensure!(!plan.fails, "the command succeeded though the extension failed");
                        ensure!(r.success && r.message == Some(format!("{who} ran {id}")) && r.data.len() == 1 && r.data.get("by") == Some(&who), "the answer is not the extension's: {r:?}");
                    }
                }
                Ok(())
            }
            4 => {
                let (k, v) = (t.pick(&KEYS).to_string(), t.pick(&["1", "2", "3"]).to_string());
                log.push(format!("set {k} to {v}"));
                l.manager.set_config(k.clone(), v.clone());
                l.model.config.insert(k, v);
                Ok(())
            }
            _ => {
                let (k, v) = (t.pick(&KEYS).to_string(), t.pick(&["1", "2", "3"]).to_string());
                log.push(format!("set data {k} of {name} to {v}"));
                l.manager.set_extension_data(name.clone(), k.clone(), v.clone());
                l.model.data.insert((name.clone(), k), v);
                Ok(())
            }
        })();
        l.shared.lock().unwrap().plan = Plan::default();
        let r = r.and_then(|_| l.agree());
        if let Err(e) = r {
            t.input_dbg("steps", &log);
            return Err(format!("step {step}: {e}"));
        }
    }
    t.input_dbg("steps", &log);
    t.nontrivial_if(active > 1 && failed > 0);
    Ok(())
}

struct Counter {
    info: ExtensionInfo,
    id: String,
    runs: Arc<Mutex<usize>>,
}
impl EditorExtension for Counter {
    fn info(&self) -> &ExtensionInfo {
        &self.info
    }
    fn initialize(&mut self, c: &mut dyn ExtensionContext) -> ER<()> {
        c.set_config(format!("{}.ready", self.info.name), "yes".into())
    }
    fn shutdown(&mut self, c: &mut dyn ExtensionContext) -> ER<()> {
        c.set_config(format!("{}.ready", self.info.name), "no".into())
    }
    fn state(&self) -> ExtensionState {
        ExtensionState::Active
    }
    fn execute_command(&mut self, _: &str, _: &HashMap<String, String>, c: &mut dyn ExtensionContext) -> ER<ExtensionResult> {
        *self.runs.lock().unwrap() += 1;
        let n = c.get_config("count").and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
        c.set_extension_data("last".into(), n.to_string())?;
        Ok(ExtensionResult::success())
    }
    fn commands(&self) -> Vec<ExtensionCommand> {
        vec![ExtensionCommand::new(self.id.clone(), "n".into(), "d".into())]
    }
}
/// Threads that share a manager: none of their calls is lost or refused.
pub fn threads(t: &mut T) -> R {
    let n = t.span(2, 5);
    let calls: Vec<usize> = (0..n).map(|_| t.span(1, 12)).collect();
    let gone: Vec<bool> = (0..n).map(|_| t.chance(1, 2)).collect();
    t.input_dbg("calls, unloaded", &(&calls, &gone));
    let runs: Vec<Arc<Mutex<usize>>> = (0..=n).map(|_| Arc::default()).collect();
    let mut m = ExtensionManager::new();
    let ext = |k: usize| Box::new(Counter { info: ExtensionInfo::new(format!("e{k}"), "1".into(), "me".into(), "d".into()), id: format!("run{k}"), runs: runs[k].clone() });
    let enter = |m: &mut ExtensionManager, k: usize| -> R {
        m.load_extension(ext(k)).map_err(|e| e.to_string())?;
        let mut h = m.clone();
        let mut c = h.create_context(format!("e{k}"), None).map_err(|e| e.to_string())?;
        m.initialize_extension(&format!("e{k}"), &mut *c).map_err(|e| e.to_string())
    };
    enter(&mut m, n)?;
    let rs: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (mut m, calls, gone, enter) = (m.clone(), calls[k], gone[k], &enter);
                s.spawn(move || -> R {
                    enter(&mut m, k)?;
                    for _ in 0..calls {
                        for id in [format!("run{k}"), format!("run{n}")] {
                            let mut h = m.clone();
                            let mut c = h.create_context(format!("e{k}"), None).map_err(|e| e.to_string())?;
                            m.execute_command(&id, &HashMap::new(), &mut *c).map_err(|e| format!("{id} by thread {k}: {e}"))?;
                        }
                    }
                    if gone {
                        let mut h = m.clone();
                        let mut c = h.create_context(format!("e{k}"), None).map_err(|e| e.to_string())?;
                        m.unload_extension(&format!("e{k}"), &mut *c).map_err(|e| e.to_string())?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    rs.into_iter().collect::<R>()?;
    for k in 0..=n {
        let want = if k == n { calls.iter().sum() } else { calls[k] };
        ensure_eq!(*runs[k].lock().unwrap(), want, "calls of e{k}");
        let there = k == n || !gone[k];
        ensure_eq!(m.get_extension_state(&format!("e{k}")), there.then_some(ExtensionState::Active), "state of e{k}");
        ensure_eq!(m.list_commands().contains(&format!("run{k}")), there, "command of e{k}");
        ensure_eq!(m.get_config(&format!("e{k}.ready")), Some(if there { "yes" } else { "no" }.to_string()), "setting of e{k}");
    }
    t.nontrivial_if(n > 2 && gone.iter().any(|g| *g));
    Ok(())
}
