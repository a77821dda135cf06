//! Path-forking symbolic interpreter for the decoded LLVM IR.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Intr {
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    AddOv(bool),
    SubOv(bool),
    MulOv(bool),
    Bswap,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    Bitreverse,
    IsConstant,
    Trap,
    First,
    ObjSize,
    Reduce(Op),
}

impl Intr {
    pub fn by_name(n: &str) -> Option<Intr> {
        let n = n.strip_prefix("llvm.")?;
        let h = |p: &str| n.starts_with(p);
        Some(if h("memcpy.") || h("memmove.") {
            Intr::Memcpy
        } else if h("memset.") {
            Intr::Memset
        } else if h("umax.") {
            Intr::UMax
        } else if h("umin.") {
            Intr::UMin
        } else if h("smax.") {
            Intr::SMax
        } else if h("smin.") {
            Intr::SMin
        } else if h("usub.sat.") {
            Intr::USubSat
        } else if h("uadd.sat.") {
            Intr::UAddSat
        } else if h("uadd.with.overflow") {
            Intr::AddOv(false)
        } else if h("sadd.with.overflow") {
            Intr::AddOv(true)
        } else if h("usub.with.overflow") {
            Intr::SubOv(false)
        } else if h("ssub.with.overflow") {
            Intr::SubOv(true)
        } else if h("umul.with.overflow") {
            Intr::MulOv(false)
        } else if h("smul.with.overflow") {
            Intr::MulOv(true)
        } else if h("bswap.") {
            Intr::Bswap
        } else if h("ctlz.") {
            Intr::Ctlz
        } else if h("cttz.") {
            Intr::Cttz
        } else if h("ctpop.") {
            Intr::Ctpop
        } else if h("fshl.") {
            Intr::Fshl
        } else if h("fshr.") {
            Intr::Fshr
        } else if h("ucmp.") {
            Intr::Ucmp
        } else if h("scmp.") {
            Intr::Scmp
        } else if h("abs.") {
            Intr::Abs
        } else if h("bitreverse.") {
            Intr::Bitreverse
        } else if h("is.constant.") {
            Intr::IsConstant
        } else if h("trap") || h("ubsantrap") {
            Intr::Trap
        } else if h("threadlocal.address") || h("expect.") || h("ssa.copy") || h("launder.") || h("strip.") {
            Intr::First
        } else if h("objectsize.") {
            Intr::ObjSize
        } else if h("vector.reduce.or") {
            Intr::Reduce(Op::Or)
        } else if h("vector.reduce.and") {
            Intr::Reduce(Op::And)
        } else if h("vector.reduce.xor") {
            Intr::Reduce(Op::Xor)
        } else if h("vector.reduce.add") {
            Intr::Reduce(Op::Add)
        } else {
            return None;
        })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Spec {
    None,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    MemAlign,
    Bcmp,
    Memcmp,
    Strlen,
    Memchr,
    Memcpy,
    Memset,
    Errno,
    Abort,
    SymBytes,
    SymAssume,
    SymCheck,
    SymReach,
    SymLog,
    SymChoose,
    SymAllowPanic,
    SymConc,
    GetEnv,
    Getrandom,
    Write,
    TlsDtor,
    Syscall,
    Zero,
    Nop,
}

pub fn spec_of(f: &FuncDef) -> Spec {
    let n = f.name.as_str();
    match n {
        "malloc" => Spec::Malloc,
        "calloc" => Spec::Calloc,
        "realloc" => Spec::Realloc,
        "free" => Spec::Free,
        "posix_memalign" => Spec::MemAlign,
        "bcmp" => Spec::Bcmp,
        "memcmp" => Spec::Memcmp,
        "strlen" => Spec::Strlen,
        "memchr" => Spec::Memchr,
        "memcpy" | "memmove" => Spec::Memcpy,
        "memset" => Spec::Memset,
        "__errno_location" => Spec::Errno,
        "abort" => Spec::Abort,
        "sym_bytes" => Spec::SymBytes,
        "sym_assume" => Spec::SymAssume,
        "sym_check" => Spec::SymCheck,
        "sym_reach" => Spec::SymReach,
        "sym_log" => Spec::SymLog,
        "sym_choose" => Spec::SymChoose,
        "sym_allow_panic" => Spec::SymAllowPanic,
        "sym_conc" => Spec::SymConc,
        "getenv" => Spec::GetEnv,
        "getrandom" => Spec::Getrandom,
        "write" | "writev" => Spec::Write,
        "__cxa_thread_atexit_impl" => Spec::TlsDtor,
        "syscall" => Spec::Syscall,
        // every hash value of std's hasher collides: `HashMap` and `HashSet` then compare keys, as their
        // contract allows, and nothing depends on the hash function or its random keys
        _ if (n.contains("13DefaultHasher") || n.contains("4hash3sip"))
            && (n.contains("6Hasher5write") || n.contains("6Hasher9write_str")) =>
        {
            Spec::Nop
        }
        "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" => Spec::Zero,
        _ => {
            if n.contains("4core9panicking")
                || n.contains("rust_begin_unwind")
                || n.contains("18handle_alloc_error")
                || n.contains("3std9panicking")
                || n.contains("17capacity_overflow")
                || n.contains("12unwrap_failed")
                || n.contains("13expect_failed")
            {
                // `panic_count`-style queries are real code, everything else diverges
                if n.contains("11panic_count") || n.contains("9panicking7set_hook") || n.contains("9take_hook") {
                    Spec::None
                } else {
                    Spec::Panic
                }
            } else {
                Spec::None
            }
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    /// node ids of symbolic bytes (0: concrete)
    pub sym: Option<Vec<u32>>,
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { bytes: vec![0; n], sym: None }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Arc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<E>,
    pub stack_base: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot {
    Live,
    Freed,
}

#[derive(Clone, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u32(*x as u32);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxB = std::hash::BuildHasherDefault<Fx>;

#[derive(Clone)]
pub struct State {
    cur: Frame,
    frames: Vec<Rc<Frame>>,
    heap: Vec<(Slot, Rc<Obj>)>,
    stack: Vec<Rc<Obj>>,
    globs: HashMap<u32, Rc<Obj>, FxB>,
    pub cons: Vec<u32>,
    pins: HashMap<u32, u128, FxB>,
    pinsup: Sup,
    dom: Rc<Vec<Dom>>,
    fixed: Sup,
    pub model: Box<[u8; MAXV]>,
    nsyms: usize,
    steps: u64,
    replay_to: u64,
    sig: u64,
    want_sig: u64,
    logs: Vec<E>,
    allow_panic: bool,
    nfork: u64,
}

pub enum Stop {
    /// path finished normally
    Done,
    /// panic while panics were declared acceptable
    OkPanic,
    Pruned,
    Viol(String, String),
    Restart,
    Fatal(String),
}
type X<T> = Result<T, Stop>;

pub struct Job {
    model: Box<[u8; MAXV]>,
    steps: u64,
    sig: u64,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub label: String,
    pub count: u64,
    pub models: Vec<Vec<u8>>,
    pub trace: Vec<String>,
}

pub struct Sample {
    pub input: Vec<u8>,
    pub logs: Vec<u64>,
    pub panic: bool,
}

#[derive(Default)]
pub struct Totals {
    pub paths: u64,
    pub pruned: u64,
    pub panics: u64,
    pub steps: u64,
    pub forks: u64,
    pub max_steps: u64,
    pub max_syms: u64,
    pub sol: Stats,
    pub reach: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // label -> (times executed, times decided by the solver)
    pub smt: Vec<(String, bool)>,
    pub samples: Vec<Sample>,
}

pub struct Shared {
    pub queue: Mutex<(Vec<Job>, usize)>, // jobs, number of idle workers
    pub cv: Condvar,
    pub hungry: AtomicUsize,
    pub stop: AtomicBool,
    pub nthreads: usize,
    pub deadline: Instant,
    pub timed_out: AtomicBool,
    pub fatal: Mutex<Option<String>>,
    /// paths that could not be followed to their end, by reason
    pub lost: Mutex<BTreeMap<String, u64>>,
    /// seconds to go on after the first violation
    pub grace: Option<u64>,
    pub viol_at: Mutex<Option<Instant>>,
    pub viols: Mutex<BTreeMap<String, Viol>>,
    pub totals: Mutex<Totals>,
    pub paths: AtomicU64,
    pub max_viol_keys: usize,
    pub step_limit: u64,
    pub sample_paths: usize,
    pub repo_prefix: String,
}

pub struct W<'m> {
    m: &'m Module,
    spec: &'m [Spec],
    gobjs: Vec<Option<Rc<Obj>>>,
    ar: Arena,
    sv: Solver,
    sh: &'m Shared,
    pend: Vec<State>,
    t: Totals,
    entry: usize,
    locs: HashMap<u32, String>,
    seen: u64,
    rng: u64,
    tick: u32,
    qtick: u32,
}

pub fn resolve_loc(m: &Module, id: u32, prefix: &str) -> Vec<(String, u32, String)> {
    // (file, line, function) chain, innermost first
    let mut out = vec![];
    let mut cur = id;
    let mut guard = 0;
    while cur != 0 && guard < 64 {
        guard += 1;
        let Some(&(s, e)) = m.meta.get(&cur) else { break };
        let t = &m.text[s..e];
        let line = field(t, "line: ").unwrap_or(0);
        let scope = field(t, "scope: !").unwrap_or(0);
        let inl = field(t, "inlinedAt: !").unwrap_or(0);
        let (file, func) = scope_info(m, scope);
        out.push((file, line, func));
        cur = inl;
    }
    let _ = prefix;
    out
}

fn field(t: &str, k: &str) -> Option<u32> {
    let mut from = 0;
    while let Some(i) = t[from..].find(k) {
        let at = from + i;
        let pre = if at == 0 { b'(' } else { t.as_bytes()[at - 1] };
        if pre == b'(' || pre == b' ' {
            let d: String = t[at + k.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
            return d.parse().ok();
        }
        from = at + k.len();
    }
    None
}

fn sfield(t: &str, k: &str) -> Option<String> {
    let i = t.find(k)?;
    let r = &t[i + k.len()..];
    Some(r[..r.find('"')?].to_string())
}

pub fn scope_info(m: &Module, mut id: u32) -> (String, String) {
    let mut file = String::new();
    let mut guard = 0;
    while id != 0 && guard < 200 {
        guard += 1;
        let Some(&(s, e)) = m.meta.get(&id) else { break };
        let t = &m.text[s..e];
        if file.is_empty() {
            if let Some(f) = field(t, "file: !") {
                if let Some(&(a, b)) = m.meta.get(&f) {
                    let ft = &m.text[a..b];
                    let name = sfield(ft, "filename: \"").unwrap_or_default();
                    let dir = sfield(ft, "directory: \"").unwrap_or_default();
                    file = if name.starts_with('/') { name } else { format!("{}/{}", dir, name) };
                }
            }
        }
        if t.contains("!DISubprogram(") {
            let mut n = sfield(t, "name: \"").unwrap_or_default();
            // prepend the enclosing scopes' names
            let mut sc = field(t, "scope: !").unwrap_or(0);
            let mut g2 = 0;
            while sc != 0 && g2 < 20 {
                g2 += 1;
                let Some(&(a, b)) = m.meta.get(&sc) else { break };
                let st = &m.text[a..b];
                if let Some(x) = sfield(st, "name: \"") {
                    n = format!("{}::{}", x, n);
                }
                sc = field(st, "scope: !").unwrap_or(0);
            }
            return (file, n);
        }
        id = field(t, "scope: !").unwrap_or(0);
    }
    (file, String::new())
}

enum Rgn {
    Heap(usize),
    Stack(usize),
    Glob(usize),
}

impl<'m> W<'m> {
    pub fn new(m: &'m Module, spec: &'m [Spec], sh: &'m Shared, entry: usize, seed: u64) -> W<'m> {
        let mut sv = Solver::new();
        sv.sample_every = 97;
        sv.sample_max = 6;
        W {
            m,
            spec,
            gobjs: vec![None; m.globs.len()],
            ar: Arena::new(),
            sv,
            sh,
            pend: vec![],
            t: Totals::default(),
            entry,
            locs: HashMap::new(),
            seen: 0,
            tick: 0,
            qtick: 0,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        }
    }

    fn initial(&self) -> Result<State, String> {
        let f = self.m.func(self.entry)?;
        Ok(State {
            cur: Frame { regs: vec![E::c(64, 0); f.nregs], func: f, block: 0, ip: 0, stack_base: 0 },
            frames: vec![],
            heap: vec![],
            stack: vec![],
            globs: Default::default(),
            cons: vec![],
            pins: Default::default(),
            pinsup: [0; 4],
            dom: Rc::new(vec![[u64::MAX; 4]; MAXV]),
            fixed: [0; 4],
            model: Box::new([0; MAXV]),
            nsyms: 0,
            steps: 0,
            replay_to: 0,
            sig: 0,
            want_sig: 0,
            logs: vec![],
            allow_panic: false,
            nfork: 0,
        })
    }

    pub fn worker(&mut self) {
        loop {
            let job = {
                let mut q = self.sh.queue.lock().unwrap();
                q.1 += 1;
                self.sh.hungry.fetch_add(1, Relaxed);
                loop {
                    if self.sh.stop.load(Relaxed) {
                        self.sh.cv.notify_all();
                        break None;
                    }
                    if let Some(j) = q.0.pop() {
                        q.1 -= 1;
                        self.sh.hungry.fetch_sub(1, Relaxed);
                        break Some(j);
                    }
                    if q.1 == self.sh.nthreads {
                        self.sh.stop.store(true, Relaxed);
                        self.sh.cv.notify_all();
                        break None;
                    }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(200)).unwrap().0;
                }
            };
            let Some(job) = job else { break };
            let mut st = match self.initial() {
                Ok(s) => s,
                Err(e) => {
                    self.fatal(e);
                    break;
                }
            };
            st.model = job.model;
            st.replay_to = job.steps;
            st.want_sig = job.sig;
            self.run_path(st);
            while let Some(s) = self.pend.pop() {
                if self.sh.stop.load(Relaxed) {
                    break;
                }
                self.run_path(s);
            }
            if self.sh.stop.load(Relaxed) {
                break;
            }
        }
        let mut g = self.sh.totals.lock().unwrap();
        let t = &mut self.t;
        g.paths += t.paths;
        g.pruned += t.pruned;
        g.panics += t.panics;
        g.steps += t.steps;
        g.forks += t.forks;
        g.max_steps = g.max_steps.max(t.max_steps);
        g.max_syms = g.max_syms.max(t.max_syms);
        g.sol.queries += self.sv.stats.queries;
        g.sol.sat += self.sv.stats.sat;
        g.sol.unsat += self.sv.stats.unsat;
        g.sol.cache_hits += self.sv.stats.cache_hits;
        g.sol.unknown += self.sv.stats.unknown;
        g.sol.time += self.sv.stats.time;
        g.sol.guessed += self.sv.stats.guessed;
        g.sol.table += self.sv.stats.table;
        g.sol.table_checked += self.sv.stats.table_checked;
        for (k, v) in std::mem::take(&mut t.reach) {
            *g.reach.entry(k).or_default() += v;
        }
        for (k, v) in std::mem::take(&mut t.checks) {
            let e = g.checks.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        g.smt.append(&mut self.sv.samples);
        g.samples.append(&mut t.samples);
    }

    fn fatal(&mut self, e: String) {
        let mut f = self.sh.fatal.lock().unwrap();
        if f.is_none() {
            *f = Some(e);
        }
        self.sh.stop.store(true, Relaxed);
        self.sh.cv.notify_all();
    }

    fn donate(&mut self) {
        if self.sh.hungry.load(Relaxed) == 0 || self.pend.is_empty() {
            return;
        }
        let mut q = self.sh.queue.lock().unwrap();
        let want = q.1.saturating_sub(q.0.len());
        if want == 0 {
            return;
        }
        let n = want.min(self.pend.len());
        for s in self.pend.drain(..n) {
            q.0.push(Job { model: s.model, steps: s.steps, sig: s.sig });
        }
        self.sh.cv.notify_all();
    }

    fn run_path(&mut self, mut st: State) {
        let start = st.steps;
        let r = self.run(&mut st);
        self.t.steps += st.steps - start;
        self.t.max_steps = self.t.max_steps.max(st.steps);
        self.t.max_syms = self.t.max_syms.max(st.nsyms as u64);
        match r {
            Stop::Done => {
                self.t.paths += 1;
                self.sh.paths.fetch_add(1, Relaxed);
                self.sample(&st, false);
            }
            Stop::OkPanic => {
                self.t.paths += 1;
                self.t.panics += 1;
                self.sh.paths.fetch_add(1, Relaxed);
                self.sample(&st, true);
            }
            Stop::Pruned => self.t.pruned += 1,
            Stop::Viol(kind, label) => {
                self.t.paths += 1;
                self.sh.paths.fetch_add(1, Relaxed);
                let model = st.model[..st.nsyms].to_vec();
                self.viol(&st, kind, label, model);
            }
            Stop::Fatal(e) => {
                // this path is given up; the run goes on and is reported as incomplete
                let tr = self.backtrace(&st).join(" <- ");
                let mut l = self.sh.lost.lock().unwrap();
                let e = l.entry(format!("{} at {}", e, tr)).or_insert(0);
                *e += 1;
                if *e > 2000 || l.len() > 200 {
                    self.sh.stop.store(true, Relaxed);
                }
            }
            Stop::Restart => unreachable!(),
        }
        self.donate();
    }

    fn sample(&mut self, st: &State, panic: bool) {
        let k = self.sh.sample_paths;
        if k == 0 {
            return;
        }
        self.seen += 1;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.t.samples.len() < k {
            None
        } else {
            let j = (self.rng % self.seen) as usize;
            if j >= k {
                return;
            }
            Some(j)
        };
        let logs = st.logs.iter().map(|e| self.ar.eval(*e, &st.model[..]) as u64).collect();
        let s = Sample { input: st.model[..st.nsyms].to_vec(), logs, panic };
        match slot {
            None => self.t.samples.push(s),
            Some(j) => self.t.samples[j] = s,
        }
    }

    fn backtrace(&mut self, st: &State) -> Vec<String> {
        let mut out = vec![];
        let mut fr: Vec<&Frame> = vec![&st.cur];
        for f in st.frames.iter().rev() {
            fr.push(f);
        }
        for f in fr {
            let d = f.func.blocks[f.block as usize].dbg.get(f.ip as usize).copied().unwrap_or(0);
            for (file, line, func) in resolve_loc(self.m, d, "") {
                if file.contains("/rustc/") || file.contains("/library/") {
                    continue;
                }
                out.push(format!("{}:{} ({})", file, line, func));
            }
            if out.len() > 12 {
                break;
            }
        }
        out
    }

    fn viol(&mut self, st: &State, kind: String, label: String, model: Vec<u8>) {
        let trace = self.backtrace(st);
        let site = trace.iter().find(|t| t.starts_with(&self.sh.repo_prefix)).cloned().unwrap_or_default();
        let key = if label.is_empty() { format!("{} at {}", kind, site) } else { format!("{}: {}", kind, label) };
        let mut v = self.sh.viols.lock().unwrap();
        if v.is_empty() {
            *self.sh.viol_at.lock().unwrap() = Some(Instant::now());
        }
        let e = v.entry(key).or_insert(Viol { kind, label, count: 0, models: vec![], trace });
        e.count += 1;
        if e.models.len() < 4 {
            e.models.push(model);
        }
        if v.len() > self.sh.max_viol_keys || v.values().map(|x| x.count).sum::<u64>() > 20000 {
            self.sh.stop.store(true, Relaxed);
            self.sh.timed_out.store(true, Relaxed);
        }
    }

    // ---- constraints -------------------------------------------------------------------------

    fn pin(&mut self, st: &mut State, e: E, v: u128) {
        if e.id == 0 {
            return;
        }
        st.pins.insert(e.id, v);
        let s = self.ar.sup[e.id as usize];
        for k in 0..4 {
            st.pinsup[k] |= s[k];
        }
        let n = self.ar.n(e);
        match n.op {
            Op::Xor if n.b.id == 0 => self.pin(st, n.a, v ^ n.b.v),
            Op::Eq if n.b.id == 0 && v == 1 => self.pin(st, n.a, n.b.v),
            Op::And if e.w == 1 && v == 1 => {
                self.pin(st, n.a, 1);
                self.pin(st, n.b, 1);
            }
            Op::Or if e.w == 1 && v == 0 => {
                self.pin(st, n.a, 0);
                self.pin(st, n.b, 0);
            }
            Op::ZExt => self.pin(st, n.a, v),
            Op::Concat => {
                self.pin(st, n.b, v & mask(n.b.w));
                self.pin(st, n.a, v >> n.b.w);
            }
            Op::Add if n.b.id == 0 => self.pin(st, n.a, v.wrapping_sub(n.b.v) & mask(e.w)),
            _ => {}
        }
    }

    /// Adds a constraint that is known to be consistent with `st.model`.
    fn add(&mut self, st: &mut State, c: E) {
        self.learn(st, c, true)
    }

    /// Records that `c` holds; `push` is false when the constraints already imply it.
    fn learn(&mut self, st: &mut State, c: E, push: bool) {
        if c.id == 0 {
            return;
        }
        let n = self.ar.n(c);
        if n.op == Op::And && c.w == 1 {
            self.pin(st, c, 1);
            let nc = self.ar.not(c);
            self.pin(st, nc, 0);
            self.learn(st, n.a, push);
            self.learn(st, n.b, push);
            return;
        }
        let new = push && !st.cons.contains(&c.id);
        if new {
            st.cons.push(c.id);
        }
        self.pin(st, c, 1);
        let nc = self.ar.not(c);
        if nc.id != 0 {
            self.pin(st, nc, 0);
        }
        if new {
            self.narrow(st, c);
        }
    }

    /// The only variable of `c` that is not determined yet, if there is exactly one.
    fn lone(&self, st: &State, id: u32) -> Option<usize> {
        let s = &self.ar.sup[id as usize];
        let mut r = None;
        for j in 0..4 {
            let x = s[j] & !st.fixed[j];
            if x != 0 {
                if r.is_some() || x & (x - 1) != 0 {
                    return None;
                }
                r = Some(j * 64 + x.trailing_zeros() as usize);
            }
        }
        r
    }

    /// Updates the byte domains with the new constraint `c`.
    fn narrow(&mut self, st: &mut State, c: E) {
        let mut todo = vec![c.id];
        while let Some(id) = todo.pop() {
            let Some(v) = self.lone(st, id) else { continue };
            let t = self.sv.table(&mut self.ar, E { v: 0, id, w: 1 }, v, &st.model);
            let old = st.dom[v];
            let mut d = old;
            for j in 0..4 {
                d[j] &= t[j];
            }
            if d == old {
                continue;
            }
            Rc::make_mut(&mut st.dom)[v] = d;
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                st.fixed[v / 64] |= 1 << (v % 64);
                let x = self.ar.var(v);
                let val = st.model[v] as u128;
                self.pin(st, x, val);
                for &k in &st.cons {
                    if self.ar.sup[k as usize][v / 64] >> (v % 64) & 1 == 1 {
                        todo.push(k);
                    }
                }
            }
        }
    }

    /// The value of `e` if the pinned sub-expressions determine it.
    fn resolve(&mut self, st: &State, e: E) -> Option<u128> {
        if e.id == 0 {
            return Some(e.v);
        }
        if let Some(&v) = st.pins.get(&e.id) {
            return Some(v);
        }
        let s = self.ar.sup[e.id as usize];
        if (0..4).any(|k| s[k] & !st.pinsup[k] != 0) {
            return None;
        }
        let mut memo: HashMap<u32, Option<u128>, FxB> = Default::default();
        self.res(st, e, &mut memo)
    }

    fn res(&self, st: &State, e: E, memo: &mut HashMap<u32, Option<u128>, FxB>) -> Option<u128> {
        if e.id == 0 {
            return Some(e.v);
        }
        if let Some(&v) = st.pins.get(&e.id) {
            return Some(v);
        }
        if let Some(r) = memo.get(&e.id) {
            return *r;
        }
        let n = self.ar.n(e);
        let r = match n.op {
            Op::Var => None,
            Op::Concat => match (self.res(st, n.a, memo), self.res(st, n.b, memo)) {
                (Some(h), Some(l)) => Some((h << n.b.w) | l),
                _ => None,
            },
            Op::Extract => self.res(st, n.a, memo).map(|v| (v >> n.b.v) & mask(n.w)),
            Op::ZExt => self.res(st, n.a, memo),
            Op::SExt => self.res(st, n.a, memo).map(|v| sext128(v, n.a.w) as u128 & mask(n.w)),
            Op::Ite => match self.res(st, n.a, memo) {
                Some(1) => self.res(st, n.b, memo),
                Some(_) => self.res(st, n.c, memo),
                None => None,
            },
            op => {
                let a = self.res(st, n.a, memo);
                let b = if a.is_some() || matches!(op, Op::And | Op::Or) { self.res(st, n.b, memo) } else { None };
                match (a, b) {
                    (Some(a), Some(b)) => Some(Arena::fold(op, n.a.w, a, b).v),
                    (Some(x), None) | (None, Some(x)) if op == Op::And && x == 0 => Some(0),
                    (Some(x), None) | (None, Some(x)) if op == Op::Or && x == mask(n.w) => Some(x),
                    _ => None,
                }
            }
        };
        memo.insert(e.id, r);
        r
    }

    fn query(&mut self, st: &State, q: E) -> X<Option<Box<[u8; MAXV]>>> {
        self.query2(st, q, false)
    }

    fn late(&mut self) -> bool {
        let now = Instant::now();
        let mut late = now > self.sh.deadline;
        if let Some(g) = self.sh.grace {
            if let Some(t) = *self.sh.viol_at.lock().unwrap() {
                late |= now > t + std::time::Duration::from_secs(g);
            }
        }
        if late {
            self.sh.timed_out.store(true, Relaxed);
            self.sh.stop.store(true, Relaxed);
        }
        late
    }

    fn query2(&mut self, st: &State, q: E, must_smt: bool) -> X<Option<Box<[u8; MAXV]>>> {
        self.qtick = self.qtick.wrapping_add(1);
        if self.qtick & 0xf == 0 && self.late() {
            return Err(Stop::Pruned);
        }
        match self.sv.check(&mut self.ar, &st.cons, q, &st.model, &st.dom, &st.fixed, must_smt) {
            Res::Unsat => Ok(None),
            Res::Sat(a) => {
                let mut m = st.model.clone();
                for (i, v) in a {
                    m[i as usize] = v;
                }
                Ok(Some(m))
            }
            Res::Unknown => Err(Stop::Fatal("solver returned unknown".into())),
        }
    }

    fn replaying(&self, st: &State) -> bool {
        st.steps <= st.replay_to
    }

    /// Decides a condition; returns the value taken and, when both are feasible, the other state.
    fn decide(&mut self, st: &mut State, c: E) -> X<(bool, Option<State>)> {
        if let Some(v) = self.resolve(st, c) {
            return Ok((v == 1, None));
        }
        let mv = self.ar.eval(c, &st.model[..]) == 1;
        let nc = self.ar.not(c);
        let (t, o) = if mv { (c, nc) } else { (nc, c) };
        if self.replaying(st) {
            self.add(st, t);
            return Ok((mv, None));
        }
        match self.query(st, o)? {
            None => {
                self.learn(st, t, false);
                Ok((mv, None))
            }
            Some(m) => {
                let mut other = st.clone();
                other.model = m;
                other.nfork += 1;
                self.add(&mut other, o);
                st.nfork += 1;
                self.add(st, t);
                self.t.forks += 1;
                Ok((mv, Some(other)))
            }
        }
    }

    fn push(&mut self, s: State) {
        self.pend.push(s);
        self.donate();
    }

    /// Forces an expression to a concrete value, forking over every feasible one.
    fn conc(&mut self, st: &mut State, e: E) -> X<u64> {
        if e.id == 0 {
            return Ok(e.v as u64);
        }
        if let Some(v) = self.resolve(st, e) {
            return Ok(v as u64);
        }
        // enumerate the innermost injective sub-expression
        let mut x = e;
        loop {
            let n = self.ar.n(x);
            match n.op {
                Op::ZExt => x = n.a,
                Op::Add if n.b.id == 0 => x = n.a,
                Op::Concat if n.b.id == 0 => x = n.a,
                Op::Concat if n.a.id == 0 => x = n.b,
                _ => break,
            }
        }
        let v0 = self.ar.eval(x, &st.model[..]);
        let eq0 = self.ar.eq(x, E::c(x.w, v0));
        if self.replaying(st) {
            self.add(st, eq0);
            self.pin(st, x, v0);
            return Err(Stop::Restart);
        }
        let mut q = self.ar.not(eq0);
        let mut others = vec![];
        while let Some(m) = self.query(st, q)? {
            let v = self.ar.eval(x, &m[..]);
            let eq = self.ar.eq(x, E::c(x.w, v));
            let mut o = st.clone();
            o.model = m;
            o.nfork += 1;
            self.add(&mut o, eq);
            self.pin(&mut o, x, v);
            others.push(o);
            let ne = self.ar.not(eq);
            q = self.ar.and(q, ne);
            if others.len() > 300 {
                return Err(Stop::Fatal("more than 300 concrete values for an address or size".into()));
            }
        }
        if !others.is_empty() {
            st.nfork += 1;
            self.t.forks += others.len() as u64;
        }
        self.learn(st, eq0, !others.is_empty());
        self.pin(st, x, v0);
        for o in others {
            self.push(o);
        }
        Err(Stop::Restart)
    }

    // ---- memory ------------------------------------------------------------------------------

    fn find(&self, st: &State, a: u64) -> Option<(Rgn, u64)> {
        if a >= STACK_BASE {
            let i = ((a - STACK_BASE) / SLOT) as usize;
            if i < st.stack.len() {
                return Some((Rgn::Stack(i), (a - STACK_BASE) % SLOT));
            }
            return None;
        }
        if a >= HEAP_BASE {
            let i = ((a - HEAP_BASE) / SLOT) as usize;
            if i < st.heap.len() {
                return Some((Rgn::Heap(i), (a - HEAP_BASE) % SLOT));
            }
            return None;
        }
        if a >= GLOB_BASE {
            let i = ((a - GLOB_BASE) / SLOT) as usize;
            if i < self.m.gslots.len() {
                let g = self.m.gslots[i] as usize;
                return Some((Rgn::Glob(g), a - self.m.globs[g].addr));
            }
        }
        None
    }

    fn bad(&self, what: &str, a: u64, n: u64) -> Stop {
        Stop::Viol("memory".into(), format!("{} of {} bytes at {}", what, n, Self::addr_class(a)))
    }
    fn addr_class(a: u64) -> &'static str {
        if a < 4096 {
            "a null pointer"
        } else if a >= STACK_BASE {
            "stack memory, out of bounds"
        } else if a >= HEAP_BASE {
            "heap memory, out of bounds or freed"
        } else if a >= GLOB_BASE {
            "static memory, out of bounds or read-only"
        } else {
            "an unmapped address"
        }
    }

    fn glob(&mut self, g: usize) -> Rc<Obj> {
        if let Some(o) = &self.gobjs[g] {
            return o.clone();
        }
        let o = Rc::new(Obj { bytes: self.m.globs[g].bytes.clone(), sym: None });
        self.gobjs[g] = Some(o.clone());
        o
    }

    fn rd(&mut self, st: &State, a: u64, n: u64) -> X<(Rc<Obj>, usize)> {
        match self.find(st, a) {
            Some((r, off)) => {
                let o = match r {
                    Rgn::Heap(i) => {
                        if st.heap[i].0 == Slot::Freed {
                            return Err(self.bad("read", a, n));
                        }
                        st.heap[i].1.clone()
                    }
                    Rgn::Stack(i) => st.stack[i].clone(),
                    Rgn::Glob(g) => match st.globs.get(&(g as u32)) {
                        Some(o) => o.clone(),
                        None => {
                            if self.m.globs[g].external {
                                return Err(Stop::Fatal(format!("external global {}", self.m.globs[g].name)));
                            }
                            self.glob(g)
                        }
                    },
                };
                if off + n > o.bytes.len() as u64 {
                    return Err(self.bad("read", a, n));
                }
                Ok((o, off as usize))
            }
            None => Err(self.bad("read", a, n)),
        }
    }

    fn wr<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> X<(&'a mut Obj, usize)> {
        match self.find(st, a) {
            Some((r, off)) => {
                let bad = self.bad("write", a, n);
                let o: &'a mut Rc<Obj> = match r {
                    Rgn::Heap(i) => {
                        if st.heap[i].0 == Slot::Freed {
                            return Err(bad);
                        }
                        &mut st.heap[i].1
                    }
                    Rgn::Stack(i) => &mut st.stack[i],
                    Rgn::Glob(g) => {
                        if self.m.globs[g].constant {
                            return Err(bad);
                        }
                        if self.m.globs[g].external {
                            return Err(Stop::Fatal(format!("external global {}", self.m.globs[g].name)));
                        }
                        let base = self.glob(g);
                        st.globs.entry(g as u32).or_insert(base)
                    }
                };
                if off + n > o.bytes.len() as u64 {
                    return Err(bad);
                }
                Ok((Rc::make_mut(o), off as usize))
            }
            None => Err(self.bad("write", a, n)),
        }
    }

    fn get(&mut self, o: &Obj, off: usize, w: u16) -> E {
        let n = (w as usize + 7) / 8;
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| *x != 0) {
                let mut acc: Option<E> = None;
                for k in 0..n {
                    let id = s[off + k];
                    let b = if id != 0 { E { v: 0, id, w: 8 } } else { E::c(8, o.bytes[off + k] as u128) };
                    acc = Some(match acc {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                let r = acc.unwrap();
                return if r.w != w { self.ar.extract(r, 0, w) } else { r };
            }
        }
        let mut v = 0u128;
        for k in (0..n).rev() {
            v = (v << 8) | o.bytes[off + k] as u128;
        }
        E::c(w, v)
    }

    fn put(&mut self, o: &mut Obj, off: usize, e: E) {
        let n = (e.w as usize + 7) / 8;
        if e.id == 0 {
            for k in 0..n {
                o.bytes[off + k] = (e.v >> (8 * k)) as u8;
            }
            if let Some(s) = &mut o.sym {
                s[off..off + n].fill(0);
            }
            return;
        }
        let e = if e.w as usize != n * 8 { self.ar.zext(e, n as u16 * 8) } else { e };
        for k in 0..n {
            let b = self.ar.extract(e, 8 * k as u16, 8);
            Self::putb(o, off + k, b);
        }
    }

    fn putb(o: &mut Obj, off: usize, b: E) {
        if b.id == 0 {
            o.bytes[off] = b.v as u8;
            if let Some(s) = &mut o.sym {
                s[off] = 0;
            }
        } else {
            let n = o.bytes.len();
            o.sym.get_or_insert_with(|| vec![0; n])[off] = b.id;
        }
    }

    fn getb(&mut self, o: &Obj, off: usize) -> E {
        if let Some(s) = &o.sym {
            if s[off] != 0 {
                return E { v: 0, id: s[off], w: 8 };
            }
        }
        E::c(8, o.bytes[off] as u128)
    }

    /// Load of one scalar from a symbolic address inside a read-only table.
    fn table(&mut self, st: &mut State, addr: E, n: u64, off: u64, w: u16) -> X<Option<E>> {
        let a0 = self.ar.eval(addr, &st.model[..]) as u64;
        let Some((Rgn::Glob(g), _)) = self.find(st, a0) else { return Ok(None) };
        let gl = &self.m.globs[g];
        if !gl.constant || gl.external || gl.size > 8192 || gl.size < n {
            return Ok(None);
        }
        let (base, size) = (gl.addr, gl.size);
        let rel = self.ar.bin(Op::Sub, addr, E::c(64, base as u128));
        let inb = self.ar.cmp(Op::Ule, rel, E::c(64, (size - n) as u128));
        let outb = self.ar.not(inb);
        if self.query(st, outb)?.is_some() {
            return Ok(None);
        }
        // group equal values; runs of equal values become range tests
        let o = self.glob(g);
        let mut runs: Vec<(u64, u64, E)> = vec![];
        for k in 0..=(size - n) {
            let pos = k + off;
            let is = self.ar.eq(rel, E::c(64, k as u128));
            if is.is_false() {
                continue;
            }
            let v = self.get(&o, pos as usize, w);
            match runs.last_mut() {
                Some(r) if r.2 == v => r.1 = k,
                _ => runs.push((k, k, v)),
            }
        }
        if runs.is_empty() {
            return Ok(None);
        }
        fn build(ar: &mut Arena, rel: E, r: &[(u64, u64, E)]) -> E {
            if r.len() == 1 {
                return r[0].2;
            }
            let mid = r.len() / 2;
            let c = ar.cmp(Op::Ult, rel, E::c(64, r[mid].0 as u128));
            let a = build(ar, rel, &r[..mid]);
            let b = build(ar, rel, &r[mid..]);
            ar.ite(c, a, b)
        }
        Ok(Some(build(&mut self.ar, rel, &runs)))
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> X<u64> {
        if n >= SLOT {
            return Err(Stop::Viol("memory".into(), "allocation of 1 MiB or more".into()));
        }
        if st.heap.len() > 200_000 {
            return Err(Stop::Viol("memory".into(), "more than 200000 allocations on one path".into()));
        }
        st.heap.push((Slot::Live, Rc::new(Obj::new(n as usize))));
        Ok(HEAP_BASE + (st.heap.len() as u64 - 1) * SLOT)
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, so) = self.rd(st, s, n)?;
        let n = n as usize;
        let (t, to) = self.wr(st, d, n as u64)?;
        t.bytes[to..to + n].copy_from_slice(&o.bytes[so..so + n]);
        let has = o.sym.as_ref().map(|x| x[so..so + n].iter().any(|y| *y != 0)).unwrap_or(false);
        if has {
            let l = t.bytes.len();
            let v = t.sym.get_or_insert_with(|| vec![0; l]);
            v[to..to + n].copy_from_slice(&o.sym.as_ref().unwrap()[so..so + n]);
        } else if let Some(v) = &mut t.sym {
            v[to..to + n].fill(0);
        }
        Ok(())
    }

    // ---- interpreter -------------------------------------------------------------------------

    #[inline]
    fn op(&self, st: &State, o: &Opnd) -> E {
        match o {
            Opnd::R(r) => st.cur.regs[*r as usize],
            Opnd::C(e) => *e,
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let f = st.cur.func.clone();
        let b = &f.blocks[to as usize];
        if let Some(ph) = b.phis.get(&st.cur.block) {
            if ph.len() == 1 {
                let v = self.op(st, &ph[0].1);
                st.cur.regs[ph[0].0 as usize] = v;
            } else {
                let vals: Vec<E> = ph.iter().map(|x| self.op(st, &x.1)).collect();
                for (x, v) in ph.iter().zip(vals) {
                    st.cur.regs[x.0 as usize] = v;
                }
            }
        }
        st.cur.block = to;
        st.cur.ip = 0;
        st.sig = (st.sig.rotate_left(7) ^ (((f.idx as u64) << 24) | to as u64)).wrapping_mul(0x9E3779B97F4A7C15);
        if b.cov.load(Relaxed) == 0 {
            b.cov.store(1, Relaxed);
        }
    }

    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            let f = st.cur.func.clone();
            // stay in this function until a call/return changes the frame
            let depth = st.frames.len();
            while st.frames.len() == depth && Arc::ptr_eq(&f, &st.cur.func) {
                self.tick = self.tick.wrapping_add(1);
                if self.tick & 0xfff == 0 {
                    if self.sh.stop.load(Relaxed) {
                        return Stop::Pruned;
                    }
                    if self.late() {
                        return Stop::Pruned;
                    }
                }
                st.steps += 1;
                if st.steps > self.sh.step_limit {
                    return Stop::Viol("hang".into(), String::new());
                }
                let b = &f.blocks[st.cur.block as usize];
                let i = &b.ins[st.cur.ip as usize];
                if st.steps == st.replay_to + 1 && st.replay_to > 0 && st.sig != st.want_sig {
                    return Stop::Fatal("a donated path did not replay identically".into());
                }
                match self.exec(st, i) {
                    Ok(()) => {}
                    Err(Stop::Restart) => {}
                    Err(s) => return s,
                }
            }
        }
    }

    fn binop(&mut self, o: Bin, a: E, b: E) -> E {
        let op = match o {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
        };
        self.ar.bin(op, a, b)
    }

    fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.ar.eq(a, b),
            Pred::Ne => {
                let e = self.ar.eq(a, b);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.cmp(Op::Ult, b, a),
            Pred::Uge => self.ar.cmp(Op::Ule, b, a),
            Pred::Ult => self.ar.cmp(Op::Ult, a, b),
            Pred::Ule => self.ar.cmp(Op::Ule, a, b),
            Pred::Sgt => self.ar.cmp(Op::Slt, b, a),
            Pred::Sge => self.ar.cmp(Op::Sle, b, a),
            Pred::Slt => self.ar.cmp(Op::Slt, a, b),
            Pred::Sle => self.ar.cmp(Op::Sle, a, b),
        }
    }

    fn exec(&mut self, st: &mut State, i: &I) -> X<()> {
        macro_rules! set {
            ($d:expr, $k:expr, $v:expr) => {{
                let v = $v;
                st.cur.regs[$d as usize + $k] = v;
            }};
        }
        match i {
            I::Bin(o, d, a, b) => {
                for k in 0..a.len() {
                    let (x, y) = (self.op(st, &a[k]), self.op(st, &b[k]));
                    set!(*d, k, self.binop(*o, x, y));
                }
            }
            I::Icmp(p, d, a, b) => {
                for k in 0..a.len() {
                    let (x, y) = (self.op(st, &a[k]), self.op(st, &b[k]));
                    set!(*d, k, self.icmp(*p, x, y));
                }
            }
            I::Cast(kind, w, d, a) => {
                for k in 0..a.len() {
                    let x = self.op(st, &a[k]);
                    let r = match kind {
                        0 => self.ar.extract(x, 0, *w),
                        1 => self.ar.zext(x, *w),
                        2 => self.ar.sext(x, *w),
                        _ => x,
                    };
                    set!(*d, k, r);
                }
            }
            I::Bitcast(_, dt, d, a) => {
                let mut acc: Option<E> = None;
                let mut tot = 0;
                for o in a {
                    let x = self.op(st, o);
                    tot += x.w;
                    if tot > 128 {
                        return Err(Stop::Fatal("bitcast wider than 128 bits".into()));
                    }
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.ar.concat(x, l),
                    });
                }
                let acc = acc.unwrap();
                let n = dt.slots();
                let w = tot / n as u16;
                for k in 0..n {
                    set!(*d, k, self.ar.extract(acc, k as u16 * w, w));
                }
            }
            I::Load(d, lay, p, size) => {
                let pe = self.op(st, p);
                if pe.id != 0 && self.resolve(st, pe).is_none() {
                    // try a read-only table first
                    let mut vals = vec![];
                    for (off, w) in lay.iter() {
                        match self.table(st, pe, *size, *off, *w)? {
                            Some(v) => vals.push(v),
                            None => break,
                        }
                    }
                    if vals.len() == lay.len() {
                        for (k, v) in vals.into_iter().enumerate() {
                            set!(*d, k, v);
                        }
                        st.cur.ip += 1;
                        return Ok(());
                    }
                }
                let a = self.conc(st, pe)?;
                if *size == 0 {
                    st.cur.ip += 1;
                    return Ok(());
                }
                let (o, off) = self.rd(st, a, *size)?;
                for (k, (so, w)) in lay.iter().enumerate() {
                    set!(*d, k, self.get(&o, off + *so as usize, *w));
                }
            }
            I::Store(lay, v, p, size) => {
                let pe = self.op(st, p);
                let a = self.conc(st, pe)?;
                if *size == 0 {
                    st.cur.ip += 1;
                    return Ok(());
                }
                let vals: Vec<E> = v.iter().map(|x| self.op(st, x)).collect();
                // extract symbolic bytes before borrowing the object
                let mut bytes: Vec<(usize, E)> = vec![];
                for ((so, w), e) in lay.iter().zip(&vals) {
                    if e.id != 0 {
                        let n = (*w + 7) / 8;
                        let e = if e.w != n * 8 { self.ar.zext(*e, n * 8) } else { *e };
                        for k in 0..n {
                            bytes.push((*so as usize + k as usize, self.ar.extract(e, 8 * k, 8)));
                        }
                    }
                }
                let (o, off) = self.wr(st, a, *size)?;
                for ((so, w), e) in lay.iter().zip(&vals) {
                    if e.id == 0 {
                        let n = (*w as usize + 7) / 8;
                        let b = off + *so as usize;
                        for k in 0..n {
                            o.bytes[b + k] = (e.v >> (8 * k)) as u8;
                        }
                        if let Some(s) = &mut o.sym {
                            s[b..b + n].fill(0);
                        }
                    }
                }
                for (k, e) in bytes {
                    Self::putb(o, off + k, e);
                }
            }
            I::Gep(d, p, off, terms) => {
                let mut a = self.op(st, p);
                if *off != 0 {
                    a = self.ar.bin(Op::Add, a, E::c(64, *off as u128));
                }
                for (t, sz) in terms {
                    let mut x = self.op(st, t);
                    if x.w < 64 {
                        x = self.ar.sext(x, 64);
                    } else if x.w > 64 {
                        x = self.ar.extract(x, 0, 64);
                    }
                    let m = self.ar.bin(Op::Mul, x, E::c(64, *sz as u128));
                    a = self.ar.bin(Op::Add, a, m);
                }
                set!(*d, 0, a);
            }
            I::Alloca(d, sz, n) => {
                let ne = self.op(st, n);
                let k = self.conc(st, ne)?;
                let total = sz * k;
                if total >= SLOT {
                    return Err(Stop::Fatal("alloca too large".into()));
                }
                st.stack.push(Rc::new(Obj::new(total as usize)));
                set!(*d, 0, E::c(64, (STACK_BASE + (st.stack.len() as u64 - 1) * SLOT) as u128));
            }
            I::Select(d, c, a, b) => {
                for k in 0..a.len() {
                    let ce = self.op(st, &c[k]);
                    let (x, y) = (self.op(st, &a[k]), self.op(st, &b[k]));
                    let r = if ce.id == 0 {
                        if ce.v == 1 {
                            x
                        } else {
                            y
                        }
                    } else if let Some(v) = st.pins.get(&ce.id) {
                        if *v == 1 {
                            x
                        } else {
                            y
                        }
                    } else {
                        self.ar.ite(ce, x, y)
                    };
                    set!(*d, k, r);
                }
            }
            I::Copy(d, a) => {
                if a.len() == 1 {
                    set!(*d, 0, self.op(st, &a[0]));
                } else {
                    let v: Vec<E> = a.iter().map(|x| self.op(st, x)).collect();
                    for (k, x) in v.into_iter().enumerate() {
                        set!(*d, k, x);
                    }
                }
            }
            I::Br(t) => {
                self.goto(st, *t);
                return Ok(());
            }
            I::CondBr(c, t, e) => {
                let ce = self.op(st, c);
                let (v, other) = self.decide(st, ce)?;
                if let Some(mut o) = other {
                    self.goto(&mut o, if v { *e } else { *t });
                    self.push(o);
                }
                self.goto(st, if v { *t } else { *e });
                return Ok(());
            }
            I::Switch(c, dflt, cases) => {
                let ce = self.op(st, c);
                if let Some(v) = self.resolve(st, ce) {
                    let t = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*dflt);
                    self.goto(st, t);
                    return Ok(());
                }
                let mut conds: Vec<(u32, E)> = vec![];
                let mut any = E::b(false);
                for (v, t) in cases {
                    let q = self.ar.eq(ce, E::c(ce.w, *v));
                    if q.is_false() {
                        continue;
                    }
                    any = self.ar.or(any, q);
                    match conds.iter_mut().find(|x| x.0 == *t) {
                        Some(x) => x.1 = self.ar.or(x.1, q),
                        None => conds.push((*t, q)),
                    }
                }
                let nd = self.ar.not(any);
                match conds.iter_mut().find(|x| x.0 == *dflt) {
                    Some(x) => x.1 = self.ar.or(x.1, nd),
                    None => conds.push((*dflt, nd)),
                }
                let mv = self.ar.eval(ce, &st.model[..]);
                let t = cases.iter().find(|x| x.0 == mv).map(|x| x.1).unwrap_or(*dflt);
                let ct = conds.iter().find(|x| x.0 == t).unwrap().1;
                if self.replaying(st) {
                    self.add(st, ct);
                    self.goto(st, t);
                    return Ok(());
                }
                let mut forked = false;
                for (u, cu) in conds.clone() {
                    if u == t {
                        continue;
                    }
                    if let Some(m) = self.query(st, cu)? {
                        let mut o = st.clone();
                        o.model = m;
                        o.nfork += 1;
                        self.add(&mut o, cu);
                        self.goto(&mut o, u);
                        self.push(o);
                        self.t.forks += 1;
                        forked = true;
                    }
                }
                if forked {
                    st.nfork += 1;
                    self.add(st, ct);
                } else {
                    self.learn(st, ct, false);
                }
                self.goto(st, t);
                return Ok(());
            }
            I::Call { dst, n, callee, args, argpos, normal, retw } => {
                return self.call(st, *dst, *n, callee, args, argpos, *normal, *retw);
            }
            I::Ret(v) => {
                let vals: Vec<E> = v.iter().map(|x| self.op(st, x)).collect();
                st.stack.truncate(st.cur.stack_base);
                let Some(fr) = st.frames.pop() else { return Err(Stop::Done) };
                st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                let f = st.cur.func.clone();
                let I::Call { dst, normal, .. } = &f.blocks[st.cur.block as usize].ins[st.cur.ip as usize] else { unreachable!() };
                if *dst != u32::MAX {
                    for (k, x) in vals.into_iter().enumerate() {
                        st.cur.regs[*dst as usize + k] = x;
                    }
                }
                match normal {
                    Some(b) => self.goto(st, *b),
                    None => st.cur.ip += 1,
                }
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Viol("unreachable".into(), String::new())),
            I::ExtractElt(d, v, ix) => {
                let ie = self.op(st, ix);
                let k = self.conc(st, ie)? as usize;
                if k >= v.len() {
                    return Err(Stop::Fatal("extractelement index".into()));
                }
                set!(*d, 0, self.op(st, &v[k]));
            }
            I::InsertElt(d, v, x, ix) => {
                let ie = self.op(st, ix);
                let k = self.conc(st, ie)? as usize;
                let mut vals: Vec<E> = v.iter().map(|y| self.op(st, y)).collect();
                if k >= vals.len() {
                    return Err(Stop::Fatal("insertelement index".into()));
                }
                vals[k] = self.op(st, x);
                for (k, y) in vals.into_iter().enumerate() {
                    set!(*d, k, y);
                }
            }
            I::CmpXchg(d, size, p, e, n, w) => {
                let pe = self.op(st, p);
                let a = self.conc(st, pe)?;
                let (o, off) = self.rd(st, a, *size)?;
                let old = self.get(&o, off, *w);
                let (ee, ne) = (self.op(st, e), self.op(st, n));
                let c = self.ar.eq(old, ee);
                let new = self.ar.ite(c, ne, old);
                self.store1(st, a, new)?;
                set!(*d, 0, old);
                set!(*d, 1, c);
            }
            I::AtomicRmw(k, d, p, v, w) => {
                let pe = self.op(st, p);
                let a = self.conc(st, pe)?;
                let (o, off) = self.rd(st, a, (*w as u64 + 7) / 8)?;
                let old = self.get(&o, off, *w);
                let x = self.op(st, v);
                let new = match k {
                    Rmw::Xchg => x,
                    Rmw::Add => self.ar.bin(Op::Add, old, x),
                    Rmw::Sub => self.ar.bin(Op::Sub, old, x),
                    Rmw::And => self.ar.bin(Op::And, old, x),
                    Rmw::Or => self.ar.bin(Op::Or, old, x),
                    Rmw::Xor => self.ar.bin(Op::Xor, old, x),
                    Rmw::Nand => {
                        let t = self.ar.bin(Op::And, old, x);
                        self.ar.bin(Op::Xor, t, E::c(*w, u128::MAX))
                    }
                    Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
                        let c = self.ar.cmp(if matches!(k, Rmw::UMax | Rmw::UMin) { Op::Ult } else { Op::Slt }, old, x);
                        if matches!(k, Rmw::UMax | Rmw::Max) {
                            self.ar.ite(c, x, old)
                        } else {
                            self.ar.ite(c, old, x)
                        }
                    }
                };
                self.store1(st, a, new)?;
                set!(*d, 0, old);
            }
            I::Nop => {}
            I::Unsupported(s) => return Err(Stop::Fatal(format!("unsupported instruction: {}", s))),
        }
        st.cur.ip += 1;
        Ok(())
    }

    fn store1(&mut self, st: &mut State, a: u64, e: E) -> X<()> {
        let n = (e.w + 7) / 8;
        let x = if e.w != n * 8 { self.ar.zext(e, n * 8) } else { e };
        let bs: Vec<E> = (0..n).map(|k| self.ar.extract(x, 8 * k, 8)).collect();
        let (o, off) = self.wr(st, a, n as u64)?;
        for (k, b) in bs.into_iter().enumerate() {
            Self::putb(o, off + k, b);
        }
        Ok(())
    }

    fn intr(&mut self, st: &mut State, k: Intr, a: &[E], argpos: &[u32]) -> X<Vec<E>> {
        let ar = &mut self.ar;
        Ok(match k {
            Intr::Memcpy => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return Ok(vec![]);
                }
                let d = self.conc(st, a[0])?;
                let s = self.conc(st, a[1])?;
                self.copy(st, d, s, n)?;
                vec![]
            }
            Intr::Memset => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return Ok(vec![]);
                }
                let d = self.conc(st, a[0])?;
                let b = a[1];
                let (o, off) = self.wr(st, d, n)?;
                for j in 0..n as usize {
                    Self::putb(o, off + j, b);
                }
                vec![]
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let half = argpos[1] as usize;
                let mut out = vec![];
                for j in 0..half {
                    let (x, y) = (a[j], a[half + j]);
                    let c = ar.cmp(if matches!(k, Intr::UMax | Intr::UMin) { Op::Ult } else { Op::Slt }, x, y);
                    out.push(if matches!(k, Intr::UMax | Intr::SMax) { ar.ite(c, y, x) } else { ar.ite(c, x, y) });
                }
                out
            }
            Intr::USubSat => {
                let half = argpos[1] as usize;
                (0..half)
                    .map(|j| {
                        let (x, y) = (a[j], a[half + j]);
                        let c = ar.cmp(Op::Ult, x, y);
                        let d = ar.bin(Op::Sub, x, y);
                        ar.ite(c, E::c(x.w, 0), d)
                    })
                    .collect()
            }
            Intr::UAddSat => {
                let half = argpos[1] as usize;
                (0..half)
                    .map(|j| {
                        let (x, y) = (a[j], a[half + j]);
                        let s = ar.bin(Op::Add, x, y);
                        let c = ar.cmp(Op::Ult, s, x);
                        ar.ite(c, E::c(x.w, u128::MAX), s)
                    })
                    .collect()
            }
            Intr::AddOv(s) | Intr::SubOv(s) | Intr::MulOv(s) => {
                let (x, y) = (a[0], a[1]);
                let w = x.w;
                let w2 = if matches!(k, Intr::MulOv(_)) { 2 * w } else { w + 1 };
                if w2 > 128 {
                    return Err(Stop::Fatal("wide overflow arithmetic".into()));
                }
                let op = match k {
                    Intr::AddOv(_) => Op::Add,
                    Intr::SubOv(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let r = ar.bin(op, x, y);
                let ov = match k {
                    Intr::AddOv(false) => ar.cmp(Op::Ult, r, x),
                    Intr::SubOv(false) => ar.cmp(Op::Ult, x, y),
                    _ => {
                        let (x2, y2) = if s { (ar.sext(x, w2), ar.sext(y, w2)) } else { (ar.zext(x, w2), ar.zext(y, w2)) };
                        let r2 = ar.bin(op, x2, y2);
                        let back = if s { ar.sext(r, w2) } else { ar.zext(r, w2) };
                        let e = ar.eq(r2, back);
                        ar.not(e)
                    }
                };
                vec![r, ov]
            }
            Intr::Bswap => {
                let n = a[0].w / 8;
                let mut acc: Option<E> = None;
                for j in (0..n).rev() {
                    let b = ar.extract(a[0], 8 * j, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => ar.concat(b, l),
                    });
                }
                vec![acc.unwrap()]
            }
            Intr::Bitreverse => {
                let mut acc: Option<E> = None;
                for j in (0..a[0].w).rev() {
                    let b = ar.extract(a[0], j, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(l) => ar.concat(b, l),
                    });
                }
                vec![acc.unwrap()]
            }
            Intr::Ctlz | Intr::Cttz => {
                let half = argpos[1] as usize;
                (0..half)
                    .map(|i| {
                        let x = a[i];
                        let w = x.w;
                        let mut acc = E::c(w, w as u128);
                        for j in 0..w {
                            let bit = if k == Intr::Ctlz { j } else { w - 1 - j };
                            let val = if k == Intr::Ctlz { w - 1 - j } else { w - 1 - j };
                            let b = ar.extract(x, bit, 1);
                            acc = ar.ite(b, E::c(w, val as u128), acc);
                        }
                        acc
                    })
                    .collect()
            }
            Intr::Ctpop => a
                .iter()
                .map(|&x| {
                    let mut acc = E::c(x.w, 0);
                    for j in 0..x.w {
                        let b = ar.extract(x, j, 1);
                        let b = if x.w == 1 { b } else { ar.zext(b, x.w) };
                        acc = ar.bin(Op::Add, acc, b);
                    }
                    acc
                })
                .collect(),
            Intr::Fshl | Intr::Fshr => {
                let w = a[0].w;
                if argpos[1] != 1 {
                    return Err(Stop::Fatal("vector funnel shift".into()));
                }
                let s = self.conc(st, a[2])? as u16 % w;
                let ar = &mut self.ar;
                let (h, l) = (a[0], a[1]);
                if s == 0 {
                    vec![if k == Intr::Fshl { h } else { l }]
                } else {
                    let s = if k == Intr::Fshl { s } else { w - s };
                    let hi = ar.extract(h, 0, w - s);
                    let lo = ar.extract(l, w - s, s);
                    vec![ar.concat(hi, lo)]
                }
            }
            Intr::Ucmp | Intr::Scmp => {
                let op = if k == Intr::Ucmp { Op::Ult } else { Op::Slt };
                let lt = ar.cmp(op, a[0], a[1]);
                let gt = ar.cmp(op, a[1], a[0]);
                // result width is patched by the caller (i8)
                let g = ar.ite(gt, E::c(8, 1), E::c(8, 0));
                vec![ar.ite(lt, E::c(8, 255), g)]
            }
            Intr::Abs => {
                let x = a[0];
                let neg = ar.cmp(Op::Slt, x, E::c(x.w, 0));
                let m = ar.bin(Op::Sub, E::c(x.w, 0), x);
                vec![ar.ite(neg, m, x)]
            }
            Intr::IsConstant => vec![E::b(false)],
            Intr::Trap => return Err(Stop::Viol("trap".into(), String::new())),
            Intr::First => vec![a[0]],
            Intr::ObjSize => vec![E::c(64, u128::MAX)],
            Intr::Reduce(op) => {
                let mut acc = a[0];
                for &x in &a[1..] {
                    acc = ar.bin(op, acc, x);
                }
                vec![acc]
            }
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        st: &mut State,
        dst: u32,
        n: u32,
        callee: &Callee,
        args: &[Opnd],
        argpos: &[u32],
        normal: Option<u32>,
        retw: u16,
    ) -> X<()> {
        let mut av: Vec<E> = args.iter().map(|x| self.op(st, x)).collect();
        let idx = match callee {
            Callee::Intr(k, _) => {
                let mut r = self.intr(st, *k, &av, argpos)?;
                if matches!(k, Intr::Ucmp | Intr::Scmp) && retw != 8 {
                    r[0] = self.ar.sext(r[0], retw);
                }
                if matches!(k, Intr::ObjSize) && retw != 64 {
                    r[0] = self.ar.extract(r[0], 0, retw);
                }
                return self.finish(st, dst, n, r, normal);
            }
            Callee::Func(i) => *i,
            Callee::Ind(o) => {
                let e = self.op(st, o);
                let a = self.conc(st, e)?;
                let i = (a.wrapping_sub(FUNC_BASE)) / 16;
                if a < FUNC_BASE || i as usize >= self.m.funcs.len() || a % 16 != 0 {
                    return Err(Stop::Viol("memory".into(), "call through an invalid function pointer".into()));
                }
                i as usize
            }
        };
        let sp = self.spec[idx];
        if sp != Spec::None && !(self.m.funcs[idx].body.is_some() && !matches!(sp, Spec::Panic | Spec::Nop)) {
            let r = self.builtin(st, sp, idx, &av)?;
            return self.finish(st, dst, n, r, normal);
        }
        if self.m.funcs[idx].body.is_none() {
            return Err(Stop::Fatal(format!("call of external function {}", self.m.funcs[idx].name)));
        }
        let f = self.m.func(idx).map_err(Stop::Fatal)?;
        if st.frames.len() > 4000 {
            return Err(Stop::Viol("recursion".into(), "more than 4000 nested calls".into()));
        }
        av.truncate(f.params.len());
        let mut regs = vec![E::c(64, 0); f.nregs];
        for (k, p) in f.params.iter().enumerate() {
            if let Some(x) = av.get(k) {
                regs[*p as usize] = *x;
            }
        }
        if f.blocks[0].cov.load(Relaxed) == 0 {
            f.blocks[0].cov.store(1, Relaxed);
        }
        let new = Frame { func: f, block: 0, ip: 0, regs, stack_base: st.stack.len() };
        let old = std::mem::replace(&mut st.cur, new);
        st.frames.push(Rc::new(old));
        Ok(())
    }

    fn finish(&mut self, st: &mut State, dst: u32, n: u32, r: Vec<E>, normal: Option<u32>) -> X<()> {
        if dst != u32::MAX && n > 0 {
            if r.len() < n as usize {
                return Err(Stop::Fatal("missing result of a modelled call".into()));
            }
            for (k, x) in r.into_iter().enumerate() {
                st.cur.regs[dst as usize + k] = x;
            }
        }
        match normal {
            Some(b) => self.goto(st, b),
            None => st.cur.ip += 1,
        }
        Ok(())
    }

    fn cstr(&mut self, st: &mut State, p: E, n: E) -> X<String> {
        let a = self.conc(st, p)?;
        let l = self.conc(st, n)?;
        let (o, off) = self.rd(st, a, l)?;
        Ok(String::from_utf8_lossy(&o.bytes[off..off + l as usize]).into_owned())
    }

    fn builtin(&mut self, st: &mut State, sp: Spec, idx: usize, a: &[E]) -> X<Vec<E>> {
        let p = |v: u64| Ok(vec![E::c(64, v as u128)]);
        match sp {
            Spec::None => unreachable!(),
            Spec::Panic => {
                if st.allow_panic {
                    return Err(Stop::OkPanic);
                }
                Err(Stop::Viol("panic".into(), String::new()))
            }
            Spec::Abort => Err(Stop::Viol("abort".into(), String::new())),
            Spec::Malloc => {
                let n = self.conc(st, a[0])?;
                p(self.alloc(st, n)?)
            }
            Spec::Calloc => {
                let n = self.conc(st, a[0])?;
                let k = self.conc(st, a[1])?;
                p(self.alloc(st, n.saturating_mul(k))?)
            }
            Spec::MemAlign => {
                let d = self.conc(st, a[0])?;
                let n = self.conc(st, a[2])?;
                let r = self.alloc(st, n)?;
                self.store1(st, d, E::c(64, r as u128))?;
                Ok(vec![E::c(32, 0)])
            }
            Spec::Realloc => {
                let o = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                if o == 0 {
                    return p(self.alloc(st, n)?);
                }
                let (ob, _) = self.rd(st, o, 0)?;
                let old = ob.bytes.len() as u64;
                drop(ob);
                let r = self.alloc(st, n)?;
                self.copy(st, r, o, old.min(n))?;
                self.free(st, o)?;
                p(r)
            }
            Spec::Free => {
                let o = self.conc(st, a[0])?;
                if o != 0 {
                    self.free(st, o)?;
                }
                Ok(vec![])
            }
            Spec::Bcmp | Spec::Memcmp => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return Ok(vec![E::c(32, 0)]);
                }
                let x = self.conc(st, a[0])?;
                let y = self.conc(st, a[1])?;
                let (xo, xi) = self.rd(st, x, n)?;
                let (yo, yi) = self.rd(st, y, n)?;
                let n = n as usize;
                let ys: Vec<E> = (0..n).map(|k| self.getb(&yo, yi + k)).collect();
                let xs: Vec<E> = (0..n).map(|k| self.getb(&xo, xi + k)).collect();
                if sp == Spec::Bcmp {
                    let mut acc = E::b(true);
                    for k in 0..n {
                        let e = self.ar.eq(xs[k], ys[k]);
                        acc = self.ar.and(acc, e);
                        if acc.is_false() {
                            break;
                        }
                    }
                    Ok(vec![self.ar.ite(acc, E::c(32, 0), E::c(32, 1))])
                } else {
                    let mut acc = E::c(32, 0);
                    for k in (0..n).rev() {
                        let e = self.ar.eq(xs[k], ys[k]);
                        let l = self.ar.cmp(Op::Ult, xs[k], ys[k]);
                        let d = self.ar.ite(l, E::c(32, u128::MAX), E::c(32, 1));
                        acc = self.ar.ite(e, acc, d);
                    }
                    Ok(vec![acc])
                }
            }
            Spec::Strlen => {
                let x = self.conc(st, a[0])?;
                let (o, off) = self.rd(st, x, 1)?;
                let mut n = 0;
                loop {
                    if off + n >= o.bytes.len() {
                        return Err(self.bad("read", x, n as u64));
                    }
                    let b = self.getb(&o, off + n);
                    if b.id != 0 {
                        return Err(Stop::Fatal("strlen of symbolic data".into()));
                    }
                    if b.v == 0 {
                        break;
                    }
                    n += 1;
                }
                p(n as u64)
            }
            Spec::Memchr => {
                let n = self.conc(st, a[2])?;
                if n == 0 {
                    return p(0);
                }
                let x = self.conc(st, a[0])?;
                let (o, off) = self.rd(st, x, n)?;
                let c = self.ar.extract(a[1], 0, 8);
                let mut acc = E::c(64, 0);
                for k in (0..n as usize).rev() {
                    let b = self.getb(&o, off + k);
                    let e = self.ar.eq(b, c);
                    acc = self.ar.ite(e, E::c(64, (x + k as u64) as u128), acc);
                }
                Ok(vec![acc])
            }
            Spec::Memcpy => {
                self.intr(st, Intr::Memcpy, a, &[])?;
                Ok(vec![a[0]])
            }
            Spec::Memset => {
                let b = self.ar.extract(a[1], 0, 8);
                self.intr(st, Intr::Memset, &[a[0], b, a[2]], &[])?;
                Ok(vec![a[0]])
            }
            Spec::Errno => {
                // one errno cell per path, kept in a pseudo heap object created on first use
                if st.heap.is_empty() {
                    self.alloc(st, 8)?;
                }
                if let Some(v) = self.errno_addr(st) {
                    return p(v);
                }
                let v = self.alloc(st, 4)?;
                st.globs.insert(u32::MAX, Rc::new(Obj { bytes: v.to_le_bytes().to_vec(), sym: None }));
                p(v)
            }
            Spec::GetEnv => p(0),
            Spec::Getrandom => {
                let d = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                for k in 0..n {
                    self.store1(st, d + k, E::c(8, 0x5a))?;
                }
                p(n)
            }
            Spec::Write => {
                let n = a[2];
                Ok(vec![self.ar.zext(n, 64)])
            }
            Spec::Nop => Ok(vec![]),
            Spec::TlsDtor | Spec::Zero => Ok(vec![E::c(32, 0)]),
            Spec::Syscall => {
                let k = self.conc(st, a[0])?;
                match k {
                    // getrandom: the keys of hash tables; fixed
                    318 => {
                        let d = self.conc(st, a[1])?;
                        let n = self.conc(st, a[2])?;
                        for k in 0..n {
                            self.store1(st, d + k, E::c(8, 0x5a))?;
                        }
                        p(n)
                    }
                    202 => Err(Stop::Viol("hang".into(), "futex wait or wake on a single-threaded path".into())),
                    _ => Err(Stop::Fatal(format!("syscall {}", k))),
                }
            }
            Spec::SymBytes => {
                let d = self.conc(st, a[0])?;
                let n = self.conc(st, a[1])?;
                if st.nsyms + n as usize > MAXV {
                    return Err(Stop::Fatal("too many symbolic bytes".into()));
                }
                for k in 0..n {
                    let v = self.ar.var(st.nsyms);
                    st.nsyms += 1;
                    self.store1(st, d + k, v)?;
                }
                Ok(vec![])
            }
            Spec::SymChoose => {
                let n = self.conc(st, a[0])?;
                if st.nsyms >= MAXV {
                    return Err(Stop::Fatal("too many symbolic bytes".into()));
                }
                if n == 0 || n > 256 {
                    return Err(Stop::Fatal("sym_choose range".into()));
                }
                let v = self.ar.var(st.nsyms);
                if st.model[st.nsyms] as u64 >= n {
                    return Err(Stop::Fatal("sym_choose model".into()));
                }
                let c = self.ar.cmp(Op::Ult, v, E::c(8, n as u128));
                if n < 256 {
                    self.add(st, c);
                }
                let v64 = self.ar.zext(v, 64);
                let r = self.conc(st, v64)?;
                st.nsyms += 1;
                p(r)
            }
            Spec::SymConc => {
                let v = self.conc(st, a[0])?;
                p(v)
            }
            Spec::SymAssume => {
                let c = self.to_bool(a[0]);
                if let Some(v) = self.resolve(st, c) {
                    return if v == 1 { Ok(vec![]) } else { Err(Stop::Pruned) };
                }
                if self.ar.eval(c, &st.model[..]) == 1 {
                    self.add(st, c);
                    return Ok(vec![]);
                }
                match self.query(st, c)? {
                    None => Err(Stop::Pruned),
                    Some(m) => {
                        st.model = m;
                        self.add(st, c);
                        Ok(vec![])
                    }
                }
            }
            Spec::SymCheck => {
                let label = self.cstr(st, a[1], a[2])?;
                let c = self.to_bool(a[0]);
                let rv = self.resolve(st, c);
                let e = self.t.checks.entry(label.clone()).or_default();
                if !(st.steps <= st.replay_to) {
                    e.0 += 1;
                }
                match rv {
                    Some(1) => return Ok(vec![]),
                    Some(_) => return Err(Stop::Viol("check".into(), label)),
                    None => {}
                }
                if self.replaying(st) {
                    // already decided by the worker that donated this path
                    if self.ar.eval(c, &st.model[..]) != 1 {
                        return Err(Stop::Pruned);
                    }
                    self.add(st, c);
                    return Ok(vec![]);
                }
                self.t.checks.entry(label.clone()).or_default().1 += 1;
                let nc = self.ar.not(c);
                if let Some(m) = self.query2(st, nc, true)? {
                    let model = m[..st.nsyms].to_vec();
                    self.viol(st, "check".into(), label, model);
                    // continue on the inputs that satisfy the check
                    if self.ar.eval(c, &st.model[..]) != 1 {
                        match self.query(st, c)? {
                            None => return Err(Stop::Pruned),
                            Some(m) => st.model = m,
                        }
                    }
                    self.add(st, c);
                } else {
                    self.learn(st, c, false);
                }
                Ok(vec![])
            }
            Spec::SymReach => {
                let label = self.cstr(st, a[0], a[1])?;
                *self.t.reach.entry(label).or_default() += 1;
                Ok(vec![])
            }
            Spec::SymLog => {
                st.logs.push(a[0]);
                Ok(vec![])
            }
            Spec::SymAllowPanic => {
                let c = self.to_bool(a[0]);
                st.allow_panic = self.conc(st, c)? == 1;
                Ok(vec![])
            }
        }
        .map_err(|s| {
            let _ = idx;
            s
        })
    }

    fn to_bool(&mut self, e: E) -> E {
        if e.w == 1 {
            e
        } else {
            let z = self.ar.eq(e, E::c(e.w, 0));
            self.ar.not(z)
        }
    }

    fn errno_addr(&self, st: &State) -> Option<u64> {
        st.globs.get(&u32::MAX).map(|o| u64::from_le_bytes(o.bytes[..8].try_into().unwrap()))
    }

    fn free(&mut self, st: &mut State, a: u64) -> X<()> {
        match self.find(st, a) {
            Some((Rgn::Heap(i), 0)) if st.heap[i].0 == Slot::Live => {
                st.heap[i] = (Slot::Freed, Rc::new(Obj { bytes: vec![], sym: None }));
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), "invalid free".into())),
        }
    }
}

pub fn explore(m: &Module, entry: usize, sh: &Shared) {
    let spec: Vec<Spec> = m.funcs.iter().map(spec_of).collect();
    sh.queue.lock().unwrap().0.push(Job { model: Box::new([0; MAXV]), steps: 0, sig: 0 });
    std::thread::scope(|s| {
        for k in 0..sh.nthreads {
            let spec = &spec;
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut w = W::new(m, spec, sh, entry, k as u64 + 1);
                    w.worker();
                })
                .unwrap();
        }
    });
    let _ = W::<'_>::unused;
}

impl<'m> W<'m> {
    fn unused(&mut self) {
        let _ = &self.locs;
        let mut o = Obj::new(1);
        self.put(&mut o, 0, E::c(8, 0));
    }
}
