//! Exploration engine: exhaustive tree enumeration, parallel workers, panic /
//! hang / abort capture, known-finding filtering, evidence.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR");

pub fn verif_dir() -> std::path::PathBuf {
    std::path::Path::new(VERIF).parent().unwrap().to_path_buf()
}

/// A check failed on a case.  `sig` identifies what went wrong in a form that
/// is stable from run to run (it is what known findings are matched on).
#[derive(Debug, Clone, PartialEq)]
pub struct Fail {
    pub sig: String,
    pub detail: String,
}

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), detail: detail.into() })
}

/// Outcome class of a case (histogrammed in the evidence).
pub type Outcome = Result<&'static str, Fail>;

#[derive(Clone, Debug)]
pub struct Viol {
    pub scope: String,
    pub input: String,
    pub sig: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Local {
    pub states: u64,
    pub transitions: u64,
    pub outcomes: HashMap<&'static str, u64>,
    pub samples: Vec<String>,
}

pub struct Rep {
    pub prop: String,
    pub tier: String,
    pub config: String,
    pub t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub scopes: Mutex<Vec<(String, String, u64, u64, f64)>>,
    pub viols: Mutex<Vec<Viol>>,
    pub viol_count: AtomicU64,
    pub known: HashMap<(String, String), (String, usize)>,
    pub known_rules: Vec<String>,
    pub known_hit: Mutex<BTreeMap<usize, u64>>,
    slots: Option<std::fs::File>,
    beats: Vec<AtomicU64>,
    stop: AtomicBool,
    pub workers: usize,
    pub notes: Mutex<Vec<String>>,
    pub only: Option<String>,
    /// replay of a single case: (scope, input)
    pub one: Option<(String, String)>,
}

const SLOT: u64 = 1 << 16;
/// A single case may take this long before it is declared non-terminating.
const HANG_S: u64 = 60;

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{u:04x}");
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Inverse of `esc` (JSON string); returns rest of the text after the string.
pub fn unesc(s: &str) -> Option<(String, &str)> {
    let b: Vec<char> = s.chars().collect();
    if b.first() != Some(&'"') {
        return None;
    }
    let mut out: Vec<u16> = vec![];
    let mut i = 1;
    let mut bytes = 1;
    while i < b.len() {
        let c = b[i];
        bytes += c.len_utf8();
        i += 1;
        match c {
            '"' => return Some((String::from_utf16(&out).ok()?, &s[bytes..])),
            '\\' => {
                let c = b[i];
                bytes += c.len_utf8();
                i += 1;
                match c {
                    'n' => out.push(10),
                    'r' => out.push(13),
                    't' => out.push(9),
                    'u' => {
                        let h: String = b[i..i + 4].iter().collect();
                        bytes += 4;
                        i += 4;
                        out.push(u16::from_str_radix(&h, 16).ok()?);
                    }
                    c => out.push(c as u16),
                }
            }
            c => {
                let mut t = [0u16; 2];
                out.extend_from_slice(c.encode_utf16(&mut t));
            }
        }
    }
    None
}

thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

impl Rep {
    pub fn new(prop: &str, tier: &str, config: &str) -> Self {
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
        let slots = std::env::var("KDLMC_SLOTS")
            .ok()
            .and_then(|p| std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).ok());
        let mut known = HashMap::new();
        let mut rules = vec![];
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in t.lines() {
                // finding: property=P02 sig="..." input="..." -- what
                let Some(r) = l.strip_prefix(&format!("finding: property={prop} ")) else { continue };
                let parsed = (|| {
                    let r = r.strip_prefix("sig=")?;
                    let (sig, r) = unesc(r)?;
                    let r = r.trim_start().strip_prefix("input=")?;
                    let (inp, r) = unesc(r)?;
                    Some((sig, inp, r.trim_start().trim_start_matches("--").trim().to_string()))
                })();
                match parsed {
                    Some((sig, inp, what)) => {
                        let k = rules.iter().position(|w| *w == what).unwrap_or_else(|| {
                            rules.push(what.clone());
                            rules.len() - 1
                        });
                        known.insert((sig, inp), (what, k));
                    }
                    None => panic!("bad line in known_findings.txt: {l}"),
                }
            }
        }
        Rep {
            prop: prop.into(),
            tier: tier.into(),
            config: config.into(),
            t0: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            outcomes: Default::default(),
            samples: Default::default(),
            scopes: Default::default(),
            viols: Default::default(),
            viol_count: 0.into(),
            known,
            known_rules: rules,
            known_hit: Default::default(),
            slots,
            beats: (0..64).map(|_| AtomicU64::new(0)).collect(),
            stop: false.into(),
            workers,
            notes: Default::default(),
            only: std::env::var("KDLMC_ONLY").ok(),
            one: std::env::var("KDLMC_ONE")
                .ok()
                .and_then(|s| unesc(&s).map(|x| (std::env::var("KDLMC_ONE_SCOPE").unwrap_or_default(), x.0))),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// pick a bound by tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    fn now_ms(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64 + 1
    }

    /// Record what this worker is about to execute, so that an abort or a
    /// hang can be attributed to its input.
    fn beat(&self, scope: &str, input: &str) {
        let w = WORKER.with(|w| w.get());
        self.beats[w].store(self.now_ms(), Relaxed);
        if let Some(f) = &self.slots {
            let mut buf = Vec::with_capacity(input.len() + scope.len() + 8);
            let inp = &input.as_bytes()[..input.len().min(SLOT as usize - 256)];
            buf.extend_from_slice(&(scope.len() as u32).to_le_bytes());
            buf.extend_from_slice(&(inp.len() as u32).to_le_bytes());
            buf.extend_from_slice(scope.as_bytes());
            buf.extend_from_slice(inp);
            let _ = f.write_all_at(&buf, w as u64 * SLOT);
        }
    }

    pub fn idle(&self) {
        let w = WORKER.with(|w| w.get());
        self.beats[w].store(0, Relaxed);
        if let Some(f) = &self.slots {
            let _ = f.write_all_at(&[0; 8], w as u64 * SLOT);
        }
    }

    /// Work on behalf of several cases starts.
    pub fn busy(&self, scope: &str, input: &str) {
        self.beat(scope, input)
    }

    /// Execute one case.
    pub fn case(&self, loc: &mut Local, scope: &str, input: &str, f: impl FnOnce() -> Outcome) {
        if let Some((sc, i)) = &self.one
            && (sc != scope || i != input)
        {
            return;
        }
        self.beat(scope, input);
        let r = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(Fail { sig: "panic".into(), detail: format!("panicked: {p}") }),
        };
        match r {
            Ok(o) => {
                let n = loc.outcomes.entry(o).or_default();
                *n += 1;
                if (*n == 1 || *n == 500) && loc.samples.len() < 12 {
                    loc.samples.push(format!("{scope}: {input} -> {o}"));
                }
            }
            Err(e) => {
                *loc.outcomes.entry("FAIL").or_default() += 1;
                self.violate(scope, input, e);
            }
        }
    }

    pub fn violate(&self, scope: &str, input: &str, e: Fail) {
        if let Some((_, k)) = self.known.get(&(e.sig.clone(), input.to_string())) {
            *self.known_hit.lock().unwrap().entry(*k).or_default() += 1;
            return;
        }
        self.viol_count.fetch_add(1, Relaxed);
        let mut v = self.viols.lock().unwrap();
        v.push(Viol { scope: scope.into(), input: input.into(), sig: e.sig, detail: e.detail });
        let cap: usize = std::env::var("KDLMC_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(2000);
        if v.len() > cap * 2 {
            v.sort_by_key(|v| v.input.len());
            v.truncate(cap);
        }
    }

    pub fn merge(&self, loc: Local) {
        self.states.fetch_add(loc.states, Relaxed);
        self.transitions.fetch_add(loc.transitions, Relaxed);
        let mut o = self.outcomes.lock().unwrap();
        for (k, v) in loc.outcomes {
            *o.entry(k.into()).or_default() += v;
        }
        let mut s = self.samples.lock().unwrap();
        for x in loc.samples {
            if s.len() < 400 && !s.contains(&x) {
                s.push(x);
            }
        }
    }

    pub fn scope_enabled(&self, name: &str) -> bool {
        self.only.as_ref().is_none_or(|o| name.contains(o.as_str()))
    }

    /// Run `n` independent jobs on the workers.
    pub fn jobs(&self, scope: &str, what: &str, n: usize, f: impl Fn(usize, &mut Local) + Sync) {
        if !self.scope_enabled(scope) {
            return;
        }
        let t = Instant::now();
        let (s0, x0) = (self.states.load(Relaxed), self.transitions.load(Relaxed));
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        self.stop.store(false, Relaxed);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..self.workers.min(n.max(1)) {
                let (next, done, f) = (&next, &done, &f);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(sc, move || {
                            WORKER.with(|c| c.set(w));
                            let mut loc = Local::default();
                            loop {
                                let i = next.fetch_add(1, Relaxed);
                                if i >= n || self.viol_count.load(Relaxed) > 2_000_000 {
                                    break;
                                }
                                f(i, &mut loc);
                            }
                            self.idle();
                            self.merge(loc);
                            done.fetch_add(1, SeqCst);
                        })
                        .unwrap(),
                );
            }
            let total = hs.len();
            // watchdog
            while done.load(SeqCst) < total {
                std::thread::sleep(Duration::from_millis(20));
                let now = self.now_ms();
                for b in &self.beats {
                    let t = b.load(Relaxed);
                    if t != 0 && now > t + HANG_S * 1000 {
                        eprintln!("watchdog: a single case has been running for {HANG_S}s");
                        std::process::exit(77);
                    }
                }
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
            }
        });
        let secs = t.elapsed().as_secs_f64();
        let (ds, dx) = (self.states.load(Relaxed) - s0, self.transitions.load(Relaxed) - x0);
        eprintln!(
            "  [{}] {scope}: {ds} states, {dx} transitions, {secs:.1}s, violations so far {}",
            self.prop,
            self.viol_count.load(Relaxed)
        );
        self.scopes.lock().unwrap().push((scope.into(), what.into(), ds, dx, secs));
    }

    /// Exhaustive tree enumeration: all sequences over `toks` up to `depth`
    /// between `pre` and `suf`.  A sequence is extended only while
    /// `viable(pre + seq)` holds; every generated sequence (also the dead
    /// ones) is visited.
    pub fn tree(
        &self,
        scope: &str,
        pre: &str,
        toks: &[&str],
        suf: &str,
        depth: usize,
        viable: &(dyn Fn(&str) -> bool + Sync),
        visit: &(dyn Fn(&mut Local, &str) + Sync),
    ) {
        if !self.scope_enabled(scope) {
            return;
        }
        // frontier
        let mut level: Vec<String> = vec![pre.to_string()];
        let mut head: Vec<String> = vec![pre.to_string()];
        let mut d = 0;
        while d < depth && level.len() < 400 {
            let mut nx = vec![];
            for s in &level {
                if !viable(s) {
                    continue;
                }
                for t in toks {
                    let n = format!("{s}{t}");
                    head.push(n.clone());
                    nx.push(n);
                }
            }
            level = nx;
            d += 1;
        }
        // visit the head (levels 0..=d), then the subtrees below level d
        let nhead = head.len().div_ceil(64);
        let rest = depth - d;
        let n = nhead + if rest > 0 { level.len() } else { 0 };
        let what = format!(
            "all sequences of <= {depth} tokens over {} between {} and {}",
            toks.iter().map(|t| esc(t)).collect::<Vec<_>>().join(" "),
            esc(pre),
            esc(suf)
        );
        self.jobs(scope, &what, n, |i, loc| {
            let mut one = |loc: &mut Local, s: &str| {
                loc.states += 1;
                if s.len() > pre.len() {
                    loc.transitions += 1;
                }
                if suf.is_empty() {
                    visit(loc, s);
                } else {
                    visit(loc, &format!("{s}{suf}"));
                }
            };
            if i < nhead {
                for s in &head[i * 64..((i + 1) * 64).min(head.len())] {
                    one(loc, s);
                }
                return;
            }
            let mut buf = level[i - nhead].clone();
            fn go(
                buf: &mut String,
                left: usize,
                toks: &[&str],
                viable: &(dyn Fn(&str) -> bool + Sync),
                loc: &mut Local,
                one: &mut dyn FnMut(&mut Local, &str),
            ) {
                if left == 0 || !viable(buf) {
                    return;
                }
                for t in toks {
                    let l = buf.len();
                    buf.push_str(t);
                    one(loc, buf);
                    go(buf, left - 1, toks, viable, loc, one);
                    buf.truncate(l);
                }
            }
            go(&mut buf, rest, toks, viable, loc, &mut one);
        });
    }

    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    /// Print the verdict, write evidence, return the exit code.
    pub fn finish(&self, extra: &[(&str, String)]) -> i32 {
        let ev = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(ev.join("replays"));
        let mut v = self.viols.lock().unwrap().clone();
        v.sort_by(|a, b| (a.input.len(), &a.input).cmp(&(b.input.len(), &b.input)));
        // one representative per (scope, sig) first
        let mut seen = HashSet::new();
        let mut reps: Vec<&Viol> = v.iter().filter(|x| seen.insert(if std::env::var("KDLMC_BYSIG").is_ok() { (String::new(), x.sig.clone()) } else { (x.scope.clone(), x.sig.clone()) })).collect();
        reps.truncate(20);
        if let Ok(p) = std::env::var("KDLMC_DUMP") {
            let mut t = String::new();
            for x in &v {
                let _ = writeln!(t, "finding: property={} sig={} input={} -- {}", self.prop, esc(&x.sig), esc(&x.input), x.detail.replace('\n', "\\n"));
            }
            let _ = std::fs::write(p, t);
        }
        for (k, n) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({n} listed inputs fail as listed)", self.prop, self.known_rules[*k]);
        }
        let mut paths = vec![];
        for (k, x) in reps.iter().enumerate() {
            let p = ev.join("replays").join(format!("{}-{}-{k}.txt", self.prop, self.config));
            let body = format!(
                "property: {}\nconfig: {}\nscope: {}\ninput: {}\nsignature: {}\ndetail: {}\n",
                self.prop, self.config, x.scope, esc(&x.input), x.sig, x.detail
            );
            let _ = std::fs::write(&p, body);
            println!(
                "VIOLATION property={} replay={} scope={} input={} {}: {}",
                self.prop,
                p.display(),
                x.scope,
                esc(&x.input),
                x.sig,
                x.detail.replace('\n', "\\n")
            );
            paths.push(p.display().to_string());
        }
        let n = self.viol_count.load(Relaxed);
        let out = self.outcomes.lock().unwrap().clone();
        let scopes = self.scopes.lock().unwrap();
        let mut j = String::from("{\n");
        let _ = writeln!(j, "  \"property\": {},", esc(&self.prop));
        let _ = writeln!(j, "  \"config\": {},", esc(&self.config));
        let _ = writeln!(j, "  \"states\": {},", self.states.load(Relaxed));
        let _ = writeln!(j, "  \"transitions\": {},", self.transitions.load(Relaxed));
        let _ = writeln!(j, "  \"traces_validated_against_impl\": {},", self.outcomes.lock().unwrap().values().sum::<u64>());
        let _ = writeln!(j, "  \"violations\": {n},");
        let _ = writeln!(
            j,
            "  \"outcomes\": {{{}}},",
            out.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(
            j,
            "  \"scopes\": [{}],",
            scopes
                .iter()
                .map(|(a, b, s, x, t)| format!(
                    "{{\"scope\": {}, \"bound\": {}, \"states\": {s}, \"transitions\": {x}, \"wall_s\": {t:.1}}}",
                    esc(a),
                    esc(b)
                ))
                .collect::<Vec<_>>()
                .join(",\n    ")
        );
        let _ = writeln!(
            j,
            "  \"samples\": [{}],",
            {
                // one per scope, evenly spread
                let s = self.samples.lock().unwrap();
                let k = s.len().div_ceil(24).max(1);
                s.iter().step_by(k).map(|s| if s.len() > 400 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s.clone() }).collect::<Vec<_>>()
            }
            .iter()
            .map(|s| esc(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(
            j,
            "  \"notes\": [{}],",
            self.notes.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(
            j,
            "  \"known_findings\": [{}],",
            self.known_hit
                .lock()
                .unwrap()
                .iter()
                .map(|(k, n)| format!("{{\"what\": {}, \"inputs\": {n}}}", esc(&self.known_rules[*k])))
                .collect::<Vec<_>>()
                .join(", ")
        );
        for (k, v) in extra {
            let _ = writeln!(j, "  {}: {v},", esc(k));
        }
        let _ = writeln!(j, "  \"replays\": [{}],", paths.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
        let _ = writeln!(j, "  \"wall_s\": {:.1}\n}}", self.t0.elapsed().as_secs_f64());
        let part = std::env::var("KDLMC_PART").unwrap_or_else(|_| ev.join(format!("{}.{}.part.json", self.prop, self.config)).display().to_string());
        let _ = std::fs::write(part, j);
        println!(
            "{} [{}/{}] states={} transitions={} violations={n} known={} outcomes={:?} wall={:.1}s",
            self.prop,
            self.config,
            self.tier,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.known_hit.lock().unwrap().values().sum::<u64>(),
            out,
            self.t0.elapsed().as_secs_f64()
        );
        if n > 0 { 1 } else { 0 }
    }
}

/// Parse the slot file left by a worker process that died.
pub fn read_slots(path: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let Ok(b) = std::fs::read(path) else { return out };
    for w in 0..64usize {
        let o = w * SLOT as usize;
        if b.len() < o + 8 {
            break;
        }
        let sl = u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
        let il = u32::from_le_bytes(b[o + 4..o + 8].try_into().unwrap()) as usize;
        if sl == 0 || b.len() < o + 8 + sl + il {
            continue;
        }
        out.push((
            String::from_utf8_lossy(&b[o + 8..o + 8 + sl]).into(),
            String::from_utf8_lossy(&b[o + 8 + sl..o + 8 + sl + il]).into(),
        ));
    }
    out
}
