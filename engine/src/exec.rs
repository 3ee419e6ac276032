//! Forking symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::val::{E, V};
use crate::z3::{Z3, R};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Fr {
    pub f: u32,
    pub b: u32,
    pub pc: u32,
    pub slots: Vec<V>,
    pub allocas: Vec<u64>,
    pub ret: u32,    // destination slot in the caller
    pub normal: u32, // block to continue in (invoke) or NOSLOT
}

#[derive(Clone)]
pub struct List<T> {
    pub v: T,
    pub next: Option<Rc<List<T>>>,
}

#[derive(Clone)]
pub struct St {
    pub mem: Mem,
    pub frames: Vec<Rc<Fr>>,
    pub doms: Rc<Vec<Set>>,
    pub tags: Rc<Vec<u32>>,
    pub cons: Option<Rc<List<E>>>,
    pub cons_vars: Vars,
    pub model: Rc<Vec<u8>>,
    pub steps: u64,
    pub expect_panic: bool,
    pub obs: Option<Rc<List<V>>>,
    pub covers: Rc<BTreeSet<u32>>,
    pub opened: Rc<Vec<Vec<Result<u8, E>>>>,
    pub files: Rc<Vec<(Vec<Result<u8, E>>, Vec<Result<u8, E>>)>>,
    pub fds: Rc<Vec<(usize, u64, bool)>>,
    pub clock: u64,
    pub keys: Rc<Vec<u64>>,
    pub errno: u64,
    pub forks: u32,
}

pub enum Stop {
    Unsup(String),
    Fault(String),
    Panic(String),
    Kill, // assumption failed
    Exit,
}
type X<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub inputs: Vec<(u32, u8)>,
}
pub struct Sample {
    pub inputs: Vec<(u32, u8)>,
    pub obs: Vec<u64>,
    pub end: &'static str,
}

#[derive(Default)]
pub struct Stats {
    pub paths_ok: u64,
    pub paths_panic: u64,
    pub paths_killed: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_smt: u64,
    pub table_decided: u64,
    pub repaired: u64,
    pub cached: u64,
    pub witnessed: u64,
    pub max_path_steps: u64,
    pub max_vars: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Hook {
    None,
    Panic,
    Skip,
    Hash,
}

pub struct Ex {
    qcache: HashMap<(Vec<E>, Vec<(u16, Set)>), Option<Vec<(u16, u8)>>>,
    pub m: &'static Module,
    pub cx: Ctx,
    pub z: Z3,
    pub params: Vec<u64>,
    pub hash_const: u64,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub covers: BTreeSet<u32>,
    pub used: BTreeSet<u32>,
    pub assert_ids: BTreeMap<u32, u64>,
    hooks: Vec<Hook>,
    work: Vec<St>,
    pcs: Vec<(Vec<(u16, Set)>, Vec<E>)>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_paths: u64,
    pub sample_every: u64,
    pub known: u64,
    pub max_viol: usize,
    pub complete: Option<bool>,
    pub deadline: std::time::Instant,
    pub cover_cap: usize,
    ext_fn: Vec<ExtFn>,
    errno_addr: u64,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub trace: bool,
    /// concrete inputs (debugging: follow one run)
    pub preset: Option<Vec<u8>>,
    pub debug: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum ExtFn {
    Unknown,
    Memcpy, Memmove, Memset, Fshl, Fshr, UMax, UMin, SMax, SMin, Cttz, Ctlz, Ctpop,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, USubSat, UAddSat, SAddSat, SSubSat, TlsAddr, IsConst, UCmp, SCmp, Bswap, Bitrev, Abs, Trap,
    ObjSize, Expect, PtrMask, FAbs,
    VRedOr, VRedAnd,
    Malloc, Calloc, Realloc, RustRealloc, Free, Memalign, Bcmp, Memcmp, Memchr, Memrchr, Strlen, Getenv, Clock, Syscall,
    Open, Read, Fstat, Lseek, Close, Write, Writev, KeyCreate, KeyDelete, SetSpec, GetSpec, Yield, ErrnoLoc, Abort, Zero,
    Poll, Getcwd, Realpath, Stat, Strerror, NegOne, Gettid,
    OByte, OBytes, OChoose, OAssume, OAssert, OCover, OParam, OExpectPanic, OObserve, OOpenedCount, OOpenedLen, OOpenedGet, OFileAdd, OConc,
}

fn ext_kind(n: &str) -> ExtFn {
    use ExtFn::*;
    let p = |s: &str| n.starts_with(s);
    if p("llvm.memcpy") { return Memcpy; }
    if p("llvm.memmove") { return Memmove; }
    if p("llvm.memset") { return Memset; }
    if p("llvm.fshl") { return Fshl; }
    if p("llvm.fshr") { return Fshr; }
    if p("llvm.umax") { return UMax; }
    if p("llvm.umin") { return UMin; }
    if p("llvm.smax") { return SMax; }
    if p("llvm.smin") { return SMin; }
    if p("llvm.cttz") { return Cttz; }
    if p("llvm.ctlz") { return Ctlz; }
    if p("llvm.ctpop") { return Ctpop; }
    if p("llvm.uadd.with") { return UAddO; }
    if p("llvm.usub.with") { return USubO; }
    if p("llvm.umul.with") { return UMulO; }
    if p("llvm.sadd.with") { return SAddO; }
    if p("llvm.ssub.with") { return SSubO; }
    if p("llvm.smul.with") { return SMulO; }
    if p("llvm.usub.sat") { return USubSat; }
    if p("llvm.uadd.sat") { return UAddSat; }
    if p("llvm.sadd.sat") { return SAddSat; }
    if p("llvm.ssub.sat") { return SSubSat; }
    if p("llvm.threadlocal") { return TlsAddr; }
    if p("llvm.is.constant") { return IsConst; }
    if p("llvm.objectsize") { return ObjSize; }
    if p("llvm.expect") { return Expect; }
    if p("llvm.ptrmask") { return PtrMask; }
    if p("llvm.fabs.f") { return FAbs; }
    if p("llvm.ucmp") { return UCmp; }
    if p("llvm.scmp") { return SCmp; }
    if p("llvm.bswap") { return Bswap; }
    if p("llvm.bitreverse") { return Bitrev; }
    if p("llvm.abs") { return Abs; }
    if p("llvm.vector.reduce.or") { return VRedOr; }
    if p("llvm.vector.reduce.and") { return VRedAnd; }
    // the allocator shims a final link would add
    if n.ends_with("___rust_alloc") || n.ends_with("___rust_alloc_zeroed") { return Malloc; }
    if n.ends_with("___rust_dealloc") { return Free; }
    if n.ends_with("___rust_realloc") { return RustRealloc; }
    if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") { return Zero; }
    match n {
        "llvm.trap" | "llvm.debugtrap" | "llvm.ubsantrap" => Trap,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => Memalign,
        "aligned_alloc" => Unknown,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "memcpy" => Memcpy,
        "memmove" => Memmove,
        "memchr" => Memchr,
        "memrchr" => Memrchr,
        "strlen" => Strlen,
        "getenv" | "secure_getenv" => Getenv,
        "clock_gettime" => Clock,
        "syscall" => Syscall,
        "open64" | "open" => Open,
        "read" => Read,
        "fstat64" | "fstat" => Fstat,
        "lseek64" | "lseek" => Lseek,
        "close" => Close,
        "write" => Write,
        "writev" => Writev,
        "pthread_key_create" => KeyCreate,
        "pthread_key_delete" => KeyDelete,
        "pthread_setspecific" => SetSpec,
        "pthread_getspecific" => GetSpec,
        "sched_yield" => Yield,
        "__errno_location" => ErrnoLoc,
        "abort" | "_exit" | "exit" => Abort,
        "poll" => Poll,
        "getcwd" => Getcwd,
        "realpath" => Realpath,
        "stat64" | "lstat64" | "stat" => Stat,
        "__xpg_strerror_r" => Strerror,
        "gettid" | "getpid" => Gettid,
        "readlink" | "statx" | "fcntl" | "fcntl64" | "ioctl" | "opendir" | "mkdir" => NegOne,
        "pthread_self" | "dl_iterate_phdr" | "_Unwind_Backtrace" | "munmap" | "sigaction" | "signal" | "posix_fadvise64" => Zero,
        "obs_byte" => OByte,
        "obs_bytes" => OBytes,
        "obs_choose" => OChoose,
        "obs_assume" => OAssume,
        "obs_assert" => OAssert,
        "obs_cover" => OCover,
        "obs_param" => OParam,
        "obs_expect_panic" => OExpectPanic,
        "obs_observe" => OObserve,
        "obs_opened_count" => OOpenedCount,
        "obs_opened_len" => OOpenedLen,
        "obs_opened_get" => OOpenedGet,
        "obs_file_add" => OFileAdd,
        "obs_concretize" => OConc,
        _ => Unknown,
    }
}

/// A path without `/cwd/` or `./` in front
fn plain_path(mut p: Vec<Result<u8, E>>) -> Vec<Result<u8, E>> {
    if p.len() > 5 && p.iter().zip(b"/cwd/").all(|(x, y)| matches!(x, Ok(c) if c == y)) {
        p.drain(..5);
    }
    while p.len() > 2 && matches!((&p[0], &p[1]), (Ok(b'.'), Ok(b'/'))) {
        p.drain(..2);
    }
    p
}

fn hook_of(n: &str) -> Hook {
    if n.contains("9panicking9panic_fmt") || n.contains("18panic_nounwind_fmt") || n.contains("9panicking14panic_nounwind")
        || n.contains("9panicking11begin_panic") || n.contains("rust_begin_unwind") || n.contains("panic_cannot_unwind")
        || n.contains("panic_in_cleanup") || n.contains("rust_start_panic") || n.contains("13assert_failed")
        || n.contains("18handle_alloc_error") || n.contains("9panicking15panic_with_hook") || n.contains("13resume_unwind")
    {
        return Hook::Panic;
    }
    if n.contains("5stdio6_print") || n.contains("5stdio7_eprint") || n.contains("5stdio6__print") || n.contains("5stdio7__eprint") {
        return Hook::Skip;
    }
    if n.contains("11BuildHasher8hash_one") && n.contains("RandomState") {
        return Hook::Hash;
    }
    Hook::None
}

macro_rules! flt {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(s) => return Err(Stop::Fault(s)),
        }
    };
}

impl Ex {
    pub fn new(m: &'static Module, params: Vec<u64>) -> Ex {
        let hooks = m.funcs.iter().map(|f| hook_of(&f.name)).collect();
        let ext_fn = m.exts.iter().map(|n| ext_kind(n)).collect();
        Ex {
            m,
            qcache: HashMap::new(),
            cx: Ctx::new(),
            z: Z3::new(),
            params,
            hash_const: 0,
            stats: Stats::default(),
            violations: vec![],
            errors: vec![],
            samples: vec![],
            covers: BTreeSet::new(),
            used: BTreeSet::new(),
            assert_ids: BTreeMap::new(),
            hooks,
            work: vec![],
            pcs: vec![],
            max_steps: 40_000_000,
            max_depth: 1500,
            max_paths: u64::MAX,
            sample_every: 50,
            known: u64::MAX,
            max_viol: 4,
            complete: None,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            cover_cap: 1500,
            ext_fn,
            errno_addr: 0,
            fork_sites: HashMap::new(),
            trace: false,
            preset: std::env::var("OBSYM_INPUTS").ok().map(|x| x.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            debug: std::env::var("OBSYM_DEBUG").is_ok(),
        }
    }

    fn store_const(&self, o: &mut [u8], off: usize, t: Ty, v: &V) {
        let ti = &self.m.types;
        match (ti.kind(t), v) {
            (TyK::Arr(_, e), V::A(vs)) | (TyK::Vector(_, e), V::A(vs)) => {
                let s = ti.size(*e) as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.store_const(o, off + i * s, *e, x);
                }
            }
            (TyK::Struct(ts, _), V::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store_const(o, off + ti.info[t as usize].offs[i] as usize, ts[i], x);
                }
            }
            (_, V::C(c)) => {
                let s = ti.size(t) as usize;
                for i in 0..s {
                    o[off + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 };
                }
            }
            _ => panic!("store_const"),
        }
    }

    pub fn initial(&mut self, entry: &str) -> Result<St, String> {
        let f = *self.m.fmap.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut mem = Mem::new(self.m.first_free_obj);
        for g in &self.m.globals {
            let mut data = vec![0u8; g.size as usize];
            if let Some(v) = &g.init {
                self.store_const(&mut data, 0, g.ty, v);
            }
            mem.put(g.addr >> 32, Obj { data, sym: None, ro: g.constant });
        }
        self.errno_addr = mem.alloc(8);
        let mut st = St {
            mem,
            frames: vec![],
            doms: Rc::new(vec![]),
            tags: Rc::new(vec![]),
            cons: None,
            cons_vars: 0,
            model: Rc::new(vec![]),
            steps: 0,
            expect_panic: false,
            obs: None,
            covers: Rc::new(BTreeSet::new()),
            opened: Rc::new(vec![]),
            files: Rc::new(vec![]),
            fds: Rc::new(vec![]),
            clock: 1_000_000,
            keys: Rc::new(vec![]),
            errno: 0,
            forks: 0,
        };
        self.push_frame(&mut st, f, vec![], NOSLOT, NOSLOT);
        Ok(st)
    }

    fn push_frame(&mut self, st: &mut St, f: u32, args: Vec<V>, ret: u32, normal: u32) {
        let fun = &self.m.funcs[f as usize];
        self.used.insert(f);
        if self.debug {
            eprintln!("{:1$}> {2} {3:?}", "", st.frames.len(), demangle(&fun.name), args);
        }
        let mut slots = vec![V::C(0); fun.nslots as usize];
        for (p, a) in fun.params.iter().zip(args) {
            slots[*p as usize] = a;
        }
        st.frames.push(Rc::new(Fr { f, b: 0, pc: 0, slots, allocas: vec![], ret, normal }));
    }

    pub fn run(&mut self, entry: &str) {
        let st = match self.initial(entry) {
            Ok(s) => s,
            Err(e) => {
                self.errors.push(e);
                return;
            }
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if std::time::Instant::now() > self.deadline {
                self.errors.push("job deadline exceeded".into());
                break;
            }
            let r = self.run_path(&mut st);
            self.finish(st, r);
            if self.violations.len() >= self.max_viol || self.errors.len() >= 5 {
                break;
            }
            if self.stats.paths_ok + self.stats.paths_panic + self.stats.paths_killed > self.max_paths {
                self.errors.push("path bound exceeded".into());
                break;
            }
        }
        if self.violations.is_empty() && self.errors.is_empty() {
            self.check_complete();
        }
    }

    /// the recorded path conditions cover the whole input space: ¬(PC1 ∨ … ∨ PCn) is unsatisfiable
    fn check_complete(&mut self) {
        if self.pcs.len() > self.cover_cap {
            return;
        }
        let pcs = std::mem::take(&mut self.pcs);
        let mut asserts = vec![];
        for (d, c) in &pcs {
            let mut parts = vec![];
            for (v, s) in d {
                parts.push(self.z.set(*v, s));
            }
            for e in c {
                let b = self.z.bool_of(&self.cx, *e);
                parts.push(b);
            }
            if parts.is_empty() {
                self.complete = Some(true);
                return;
            }
            let a = self.z.and(&parts);
            let n = self.z.not(a);
            asserts.push(n);
        }
        match self.z.run(&asserts, 0) {
            R::Unsat => self.complete = Some(true),
            R::Sat(_) => {
                self.complete = Some(false);
                self.errors.push("path conditions do not cover the input space".into());
            }
            R::Unknown => {}
        }
    }

    fn record_pc(&mut self, st: &St) {
        if self.pcs.len() > self.cover_cap {
            return;
        }
        let d: Vec<(u16, Set)> = st.doms.iter().enumerate().filter(|(_, s)| **s != FULL).map(|(i, s)| (i as u16, *s)).collect();
        let c = self.cons_vec(st);
        self.pcs.push((d, c));
    }

    fn cons_vec(&self, st: &St) -> Vec<E> {
        let mut v = vec![];
        let mut p = &st.cons;
        while let Some(n) = p {
            v.push(n.v);
            p = &n.next;
        }
        v
    }

    /// solver verdict on the complete path condition (plus an optional extra term)
    fn full_check(&mut self, st: &St, extra: Option<E>) -> R {
        let d: Vec<(u16, Set)> = st.doms.iter().enumerate().filter(|(_, s)| **s != FULL).map(|(i, s)| (i as u16, *s)).collect();
        let mut c = self.cons_vec(st);
        if let Some(e) = extra {
            c.push(e);
        }
        let nv = st.doms.len();
        // make sure every input has a solver constant
        self.z.check(&self.cx, &d, &c, nv)
    }

    fn inputs(&self, st: &St, asg: &[u8]) -> Vec<(u32, u8)> {
        st.tags.iter().enumerate().map(|(i, t)| (*t, *asg.get(i).unwrap_or(&0))).collect()
    }

    fn backtrace(&self, st: &St) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(14) {
            v.push(demangle(&self.m.funcs[f.f as usize].name));
        }
        v.join(" < ")
    }

    fn finish(&mut self, st: St, r: Stop) {
        self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
        self.stats.max_vars = self.stats.max_vars.max(st.doms.len());
        let (kind, msg): (&'static str, String) = match r {
            Stop::Exit => ("ok", String::new()),
            Stop::Kill => ("killed", String::new()),
            Stop::Panic(m) => (if st.expect_panic { "panic" } else { "VIOLATION-panic" }, m),
            Stop::Fault(m) => ("VIOLATION-fault", m),
            Stop::Unsup(m) => {
                let bt = self.backtrace(&st);
                self.errors.push(format!("{} at {}", m, bt));
                return;
            }
        };
        self.record_pc(&st);
        if kind == "killed" {
            self.stats.paths_killed += 1;
            return;
        }
        // confirm with the solver that this path is real, and take its model
        let witness = st.doms.iter().zip(st.model.iter()).all(|(d, x)| set_has(d, *x as usize)) && self.cons_vec(&st).iter().all(|c| self.cx.eval(*c, &st.model) == 1);
        let asg = match if witness && !kind.starts_with("VIOLATION") { self.stats.witnessed += 1; R::Sat((*st.model).clone()) } else { self.full_check(&st, None) } {
            R::Sat(m) => self.patch_model(&st, m),
            R::Unsat => {
                self.errors.push("explored path is infeasible according to the solver".into());
                return;
            }
            R::Unknown => {
                self.errors.push("solver gave no answer on a path condition".into());
                return;
            }
        };
        if kind.starts_with("VIOLATION") {
            let bt = self.backtrace(&st);
            let v = Violation { kind: kind[10..].to_string(), id: 0, msg: format!("{} at {}", msg, bt), inputs: self.inputs(&st, &asg) };
            self.violations.push(v);
            return;
        }
        for c in st.covers.iter() {
            self.covers.insert(*c);
        }
        if kind == "ok" {
            self.stats.paths_ok += 1;
        } else {
            self.stats.paths_panic += 1;
        }
        let n = self.stats.paths_ok + self.stats.paths_panic;
        if self.sample_every > 0 && self.samples.len() < 60 && (n % self.sample_every == 1 || self.sample_every == 1 || n.is_power_of_two()) {
            let mut obs = vec![];
            let mut p = &st.obs;
            while let Some(l) = p {
                obs.push(match &l.v {
                    V::C(c) => *c as u64,
                    V::S(e) => self.cx.eval(*e, &asg) as u64,
                    _ => 0,
                });
                p = &l.next;
            }
            obs.reverse();
            let s = Sample { inputs: self.inputs(&st, &asg), obs, end: kind };
            self.samples.push(s);
        }
    }

    /// inputs the query did not mention keep the value of the running model
    fn patch_model(&self, st: &St, m: Vec<u8>) -> Vec<u8> {
        let mut r = m;
        for i in 0..r.len() {
            if !set_has(&st.doms[i], r[i] as usize) {
                r[i] = st.model[i];
            }
        }
        r
    }

    // ---- constraints -------------------------------------------------------------------------

    fn conjuncts(&self, e: E, out: &mut Vec<E>) {
        if let N::Bin(BinOp::And, a, b) = self.cx.n[e as usize] {
            if self.cx.w(e) == 1 {
                self.conjuncts(a, out);
                self.conjuncts(b, out);
                return;
            }
        }
        if let N::Not(x) = self.cx.n[e as usize] {
            if let N::Bin(BinOp::Or, a, b) = self.cx.n[x as usize] {
                // not(or) = and(nots): only split when the negations already exist as simple terms
                if let (N::Set(va, sa), N::Set(vb, sb)) = (self.cx.n[a as usize].clone(), self.cx.n[b as usize].clone()) {
                    let _ = (va, sa, vb, sb);
                }
            }
        }
        out.push(e);
    }

    fn disjuncts(&mut self, e: E, out: &mut Vec<E>) {
        match self.cx.n[e as usize] {
            N::Bin(BinOp::Or, a, b) => {
                self.disjuncts(a, out);
                self.disjuncts(b, out);
            }
            N::Not(x) => {
                if let N::Bin(BinOp::And, a, b) = self.cx.n[x as usize] {
                    let (na, nb) = (self.cx.not(a), self.cx.not(b));
                    self.disjuncts(na, out);
                    self.disjuncts(nb, out);
                } else {
                    out.push(e);
                }
            }
            _ => out.push(e),
        }
    }

    /// a model of PC ∧ cond, or None if there is none
    fn sat_with(&mut self, st: &St, cond: E) -> X<Option<Rc<Vec<u8>>>> {
        if let Some(k) = self.cx.as_k(cond) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if self.cx.eval(cond, &st.model) == 1 {
            self.stats.table_decided += 1;
            return Ok(Some(st.model.clone()));
        }
        match self.cx.abs(cond, &st.doms) {
            Some(false) => {
                self.stats.table_decided += 1;
                return Ok(None);
            }
            _ => {}
        }
        // conjunction of single-byte predicates on otherwise unconstrained bytes
        let mut cj = vec![];
        self.conjuncts(cond, &mut cj);
        let mut doms: Vec<(u16, Set)> = vec![];
        let mut simple = true;
        for c in &cj {
            match self.cx.n[*c as usize] {
                N::Set(v, s) if st.cons_vars >> v & 1 == 0 => {
                    if let Some(d) = doms.iter_mut().find(|d| d.0 == v) {
                        d.1 = set_and(&d.1, &s);
                    } else {
                        doms.push((v, set_and(&st.doms[v as usize], &s)));
                    }
                }
                _ => {
                    simple = false;
                    break;
                }
            }
        }
        if simple {
            self.stats.table_decided += 1;
            if doms.iter().any(|d| set_empty(&d.1)) {
                return Ok(None);
            }
            let mut m = (*st.model).clone();
            for (v, s) in doms {
                if !set_has(&s, m[v as usize] as usize) {
                    m[v as usize] = set_first(&s) as u8;
                }
            }
            return Ok(Some(Rc::new(m)));
        }
        // some disjunct satisfiable on an unconstrained byte
        let mut dj = vec![];
        self.disjuncts(cond, &mut dj);
        if dj.len() > 1 {
            for d in &dj {
                if let N::Set(v, s) = self.cx.n[*d as usize] {
                    if st.cons_vars >> v & 1 == 0 {
                        let i = set_and(&st.doms[v as usize], &s);
                        if !set_empty(&i) {
                            self.stats.table_decided += 1;
                            let mut m = (*st.model).clone();
                            m[v as usize] = set_first(&i) as u8;
                            return Ok(Some(Rc::new(m)));
                        }
                    }
                }
            }
        }
        // SMT, on the slice of the path condition connected to cond
        let all = self.cons_vec(st);
        let neg = self.cx.not(cond);
        for c in &all {
            if *c == neg {
                return Ok(None);
            }
        }
        let mut vars = self.cx.vars(cond);
        let mut take = vec![false; all.len()];
        loop {
            let mut ch = false;
            for (i, c) in all.iter().enumerate() {
                let cv = self.cx.vars(*c);
                if !take[i] && cv & vars != 0 {
                    take[i] = true;
                    vars |= cv;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<E> = all.iter().zip(&take).filter(|x| *x.1).map(|x| *x.0).collect();
        // change one byte of the model: enough for most feasible questions
        let cv = self.cx.vars(cond);
        let mut tries = 0;
        let mut m: Option<Vec<u8>> = None;
        for i in 0..st.doms.len() {
            if cv >> i & 1 == 0 {
                continue;
            }
            let mm = m.get_or_insert_with(|| (*st.model).clone());
            let old = mm[i];
            for x in set_iter(st.doms[i]) {
                mm[i] = x as u8;
                if self.cx.eval(cond, mm) == 1 {
                    tries += 1;
                    if q.iter().all(|c| self.cx.eval(*c, mm) == 1) {
                        self.stats.repaired += 1;
                        return Ok(Some(Rc::new(m.unwrap())));
                    }
                    if tries > 8 {
                        break;
                    }
                }
            }
            mm[i] = old;
            if tries > 8 {
                break;
            }
        }
        q.push(cond);
        q.sort();
        let d: Vec<(u16, Set)> = (0..st.doms.len()).filter(|i| vars >> i & 1 == 1 && st.doms[*i] != FULL).map(|i| (i as u16, st.doms[i])).collect();
        let key = (q, d);
        if let Some(r) = self.qcache.get(&key) {
            self.stats.cached += 1;
            return Ok(match r {
                None => None,
                Some(vals) => {
                    let mut m = (*st.model).clone();
                    for (i, x) in vals {
                        m[*i as usize] = *x;
                    }
                    Some(Rc::new(m))
                }
            });
        }
        let r = self.z.check(&self.cx, &key.1, &key.0, st.doms.len());
        if self.qcache.len() > 400_000 {
            self.qcache.clear();
        }
        match &r {
            R::Sat(asg) => {
                let v: Vec<(u16, u8)> = (0..st.doms.len()).filter(|i| vars >> i & 1 == 1).map(|i| (i as u16, asg[i])).collect();
                self.qcache.insert(key, Some(v));
            }
            R::Unsat => {
                self.qcache.insert(key, None);
            }
            R::Unknown => {}
        }
        match r {
            R::Sat(asg) => {
                let mut m = (*st.model).clone();
                for i in 0..m.len() {
                    if vars >> i & 1 == 1 {
                        m[i] = asg[i];
                    }
                }
                Ok(Some(Rc::new(m)))
            }
            R::Unsat => Ok(None),
            R::Unknown => Err(Stop::Unsup("solver gave no answer".into())),
        }
    }

    fn add(&mut self, st: &mut St, cond: E, model: Rc<Vec<u8>>) {
        let mut cj = vec![];
        self.conjuncts(cond, &mut cj);
        for c in cj {
            match self.cx.n[c as usize] {
                N::Const(_) => {}
                N::Set(v, s) => {
                    let d = Rc::make_mut(&mut st.doms);
                    d[v as usize] = set_and(&d[v as usize], &s);
                }
                _ => {
                    if self.cx.abs(c, &st.doms) == Some(true) {
                        continue;
                    }
                    // a disjunction with a single live disjunct is that disjunct
                    let mut dj = vec![];
                    self.disjuncts(c, &mut dj);
                    if dj.len() > 1 {
                        let live: Vec<E> = dj.iter().cloned().filter(|d| self.cx.abs(*d, &st.doms) != Some(false)).collect();
                        if live.len() == 1 && live[0] != c {
                            self.add(st, live[0], model.clone());
                            continue;
                        }
                        // all on one variable -> a set
                        if live.iter().all(|d| matches!(self.cx.n[*d as usize], N::Set(..))) {
                            let v0 = self.cx.single(live[0]).unwrap();
                            if live.iter().all(|d| self.cx.single(*d) == Some(v0)) {
                                let mut s = EMPTY;
                                for d in &live {
                                    if let N::Set(_, x) = self.cx.n[*d as usize] {
                                        s = set_or(&s, &x);
                                    }
                                }
                                let d = Rc::make_mut(&mut st.doms);
                                d[v0 as usize] = set_and(&d[v0 as usize], &s);
                                continue;
                            }
                        }
                    }
                    st.cons_vars |= self.cx.vars(c);
                    st.cons = Some(Rc::new(List { v: c, next: st.cons.take() }));
                }
            }
        }
        st.model = model;
    }

    /// constant value of a term under the current domains, if it has one
    fn norm(&self, st: &St, e: E) -> Option<u128> {
        if let Some(k) = self.cx.as_k(e) {
            return Some(k);
        }
        if let Some(v) = self.cx.single(e) {
            let d = st.doms[v as usize];
            let f = set_first(&d);
            let x = self.cx.at(e, f);
            if set_count(&d) == 1 {
                return Some(x);
            }
            for i in set_iter(d) {
                if self.cx.at(e, i) != x {
                    return None;
                }
            }
            return Some(x);
        }
        let vs = self.cx.vars(e);
        let mut all = true;
        for i in 0..st.doms.len() {
            if vs >> i & 1 == 1 && set_count(&st.doms[i]) != 1 {
                all = false;
                break;
            }
        }
        if all {
            return Some(self.cx.eval(e, &st.model));
        }
        if self.cx.w(e) == 1 {
            return self.cx.abs(e, &st.doms).map(|b| b as u128);
        }
        None
    }

    /// decide a condition; forks when both sides are feasible (the other side re-executes this instruction)
    fn branch(&mut self, st: &mut St, cond: E) -> X<bool> {
        if let Some(k) = self.norm(st, cond) {
            return Ok(k == 1);
        }
        let here = self.cx.eval(cond, &st.model) == 1;
        let ncond = self.cx.not(cond);
        let (mine, other) = if here { (cond, ncond) } else { (ncond, cond) };
        match self.sat_with(st, other)? {
            None => {
                // implied; nothing to record
                Ok(here)
            }
            Some(m) => {
                let mut o = st.clone();
                self.stats.forks += 1;
                o.forks += 1;
                if self.trace {
                    let f = st.frames.last().unwrap();
                    *self.fork_sites.entry((f.f, f.b)).or_insert(0) += 1;
                }
                self.add(&mut o, other, m);
                self.work.push(o);
                let model = st.model.clone();
                self.add(st, mine, model);
                Ok(here)
            }
        }
    }

    fn conc(&mut self, st: &mut St, v: &V) -> X<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::S(e) => {
                if let Some(k) = self.norm(st, *e) {
                    return Ok(k);
                }
                let w = self.cx.w(*e);
                let x = self.cx.eval(*e, &st.model);
                let k = self.cx.k(x, w);
                let c = self.cx.cmp(Pred::Eq, *e, k);
                self.branch(st, c)?;
                Ok(x)
            }
            V::A(_) => Err(Stop::Unsup("aggregate as scalar".into())),
        }
    }

    fn new_var(&mut self, st: &mut St, tag: u32, dom: Set) -> X<E> {
        let v = st.doms.len();
        if v >= 128 {
            return Err(Stop::Unsup("more than 128 symbolic bytes".into()));
        }
        let mut dom = dom;
        if let Some(p) = &self.preset {
            let b = p.get(v).copied().unwrap_or(0) as usize;
            dom = EMPTY;
            set_add(&mut dom, b);
        }
        if dom != FULL {
            // the part of the input space outside the domain is outside the harness's assumptions
            let mut o = st.clone();
            Rc::make_mut(&mut o.doms).push(set_not(&dom));
            self.record_pc(&o);
        }
        Rc::make_mut(&mut st.doms).push(dom);
        Rc::make_mut(&mut st.tags).push(tag);
        Rc::make_mut(&mut st.model).push(set_first(&dom) as u8);
        Ok(self.cx.var(v as u16))
    }

    // ---- values ------------------------------------------------------------------------------

    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.cx.k(*c, w),
            V::S(e) => *e,
            _ => panic!("aggregate in expression"),
        }
    }
    fn mkv(&self, e: E) -> V {
        match self.cx.as_k(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }

    fn bin_v(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(fold_bin(op, *x, *y, w)),
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.bin_v(op, w, p, q)).collect())),
            _ => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.cx.bin(op, x, y);
                self.mkv(r)
            }
        }
    }
    fn cmp_v(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => V::C(fold_cmp(p, *x, *y, w) as u128),
            (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(i, j)| self.cmp_v(p, w, i, j)).collect())),
            _ => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.cx.cmp(p, x, y);
                self.mkv(r)
            }
        }
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, w: u32) -> V {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.cx.ite(c, x, y);
        self.mkv(r)
    }

    fn load(&mut self, st: &mut St, ty: Ty, addr: u64) -> X<V> {
        let m = self.m;
        match m.types.kind(ty) {
            TyK::Struct(ts, _) => {
                let offs = &m.types.info[ty as usize].offs;
                let mut v = vec![];
                for (t, o) in ts.iter().zip(offs) {
                    v.push(self.load(st, *t, addr + o)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            TyK::Arr(n, t) | TyK::Vector(n, t) => {
                let w = m.types.bits(*t);
                if w == 1 {
                    // packed, least significant bit first
                    let mut v = vec![];
                    for i in 0..*n {
                        let b = match flt!(st.mem.read(addr + i / 8, 1)) {
                            Rd::Conc(c) => V::C(c >> (i % 8) & 1),
                            Rd::Sym(bs) => match bs[0] {
                                Ok(c) => V::C(c as u128 >> (i % 8) & 1),
                                Err(e) => {
                                    let x = self.cx.ext(e, (i % 8) as u32, 1);
                                    self.mkv(x)
                                }
                            },
                        };
                        v.push(b);
                    }
                    return Ok(V::A(Rc::new(v)));
                }
                if w % 8 != 0 {
                    return Err(Stop::Unsup("load of bit vector".into()));
                }
                let s = m.types.size(*t);
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, *t, addr + i * s)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            TyK::Void | TyK::Other => Ok(V::C(0)),
            _ => {
                let bits = m.types.bits(ty);
                let n = ((bits + 7) / 8) as u64;
                match flt!(st.mem.read(addr, n)) {
                    Rd::Conc(c) => Ok(V::C(c & mask(bits))),
                    Rd::Sym(bs) => {
                        let mut acc: Option<E> = None;
                        for b in bs.iter().rev() {
                            let e = match b {
                                Ok(c) => self.cx.k(*c as u128, 8),
                                Err(e) => match self.norm(st, *e) {
                                    Some(k) => self.cx.k(k, 8),
                                    None => *e,
                                },
                            };
                            acc = Some(match acc {
                                None => e,
                                Some(a) => self.cx.cat(a, e),
                            });
                        }
                        let e = acc.unwrap();
                        let e = if bits < n as u32 * 8 { self.cx.ext(e, 0, bits) } else { e };
                        Ok(self.mkv(e))
                    }
                }
            }
        }
    }

    fn store(&mut self, st: &mut St, ty: Ty, addr: u64, v: &V) -> X<()> {
        let m = self.m;
        match (m.types.kind(ty), v) {
            (TyK::Struct(ts, _), V::A(vs)) => {
                let offs = &m.types.info[ty as usize].offs;
                for i in 0..ts.len() {
                    self.store(st, ts[i], addr + offs[i], &vs[i])?;
                }
                Ok(())
            }
            (TyK::Arr(_, t), V::A(vs)) | (TyK::Vector(_, t), V::A(vs)) => {
                let w = m.types.bits(*t);
                if w == 1 {
                    for (k, ch) in vs.chunks(8).enumerate() {
                        let a = addr + k as u64;
                        if ch.iter().all(|x| matches!(x, V::C(_))) {
                            let mut b = 0u8;
                            for (i, x) in ch.iter().enumerate() {
                                b |= ((x.c() & 1) as u8) << i;
                            }
                            flt!(st.mem.write_byte(a, Ok(b)));
                        } else {
                            let mut acc: Option<E> = None;
                            for x in ch.iter().rev() {
                                let e = match x {
                                    V::C(c) => self.cx.k(*c & 1, 1),
                                    V::S(e) => *e,
                                    V::A(_) => return Err(Stop::Unsup("store of bit vector".into())),
                                };
                                acc = Some(match acc {
                                    None => e,
                                    Some(p) => self.cx.cat(p, e),
                                });
                            }
                            let e = acc.unwrap();
                            let e = if ch.len() < 8 { self.cx.zext(e, 8) } else { e };
                            let r = match self.cx.as_k(e) {
                                Some(k) => Ok(k as u8),
                                None => Err(e),
                            };
                            flt!(st.mem.write_byte(a, r));
                        }
                    }
                    return Ok(());
                }
                if w % 8 != 0 {
                    return Err(Stop::Unsup("store of bit vector".into()));
                }
                let s = m.types.size(*t);
                for i in 0..vs.len() {
                    self.store(st, *t, addr + i as u64 * s, &vs[i])?;
                }
                Ok(())
            }
            (_, V::C(c)) => {
                let n = ((m.types.bits(ty) + 7) / 8) as u64;
                flt!(st.mem.write(addr, *c, n));
                Ok(())
            }
            (_, V::S(e)) => {
                let bits = m.types.bits(ty);
                let n = (bits + 7) / 8;
                let e = if bits < n * 8 { self.cx.zext(*e, n * 8) } else { *e };
                for i in 0..n {
                    let b = self.cx.ext(e, 8 * i, 8);
                    let r = match self.cx.as_k(b) {
                        Some(k) => Ok(k as u8),
                        None => Err(b),
                    };
                    flt!(st.mem.write_byte(addr + i as u64, r));
                }
                Ok(())
            }
            _ => Err(Stop::Unsup("store".into())),
        }
    }

    /// load through an address that is a function of one input byte: read the whole table at once
    fn table_load(&mut self, st: &St, ty: Ty, e: E) -> Option<V> {
        let m = self.m;
        let bits = match m.types.kind(ty) {
            TyK::Int(b) if *b <= 64 => *b,
            _ => return None,
        };
        let n = ((bits + 7) / 8) as u64;
        let v = self.cx.single(e)?;
        let d = st.doms[v as usize];
        let mut out = [0u128; 256];
        for i in set_iter(d) {
            let a = self.cx.at(e, i) as u64;
            match st.mem.read(a, n) {
                Ok(Rd::Conc(c)) => out[i] = c & mask(bits),
                _ => return None,
            }
        }
        // outside the domain repeat the first value, to keep tables small
        let f = out[set_first(&d)];
        for i in 0..256 {
            if !set_has(&d, i) {
                out[i] = f;
            }
        }
        let r = self.cx.from_tab(v, bits, |i| out[i]);
        Some(self.mkv(r))
    }

    fn run_path(&mut self, st: &mut St) -> Stop {
        let r = self.interp(st);
        match r {
            Ok(()) => Stop::Exit,
            Err(s) => s,
        }
    }

    fn interp(&mut self, st: &mut St) -> X<()> {
        let m = self.m;
        // operand
        macro_rules! op {
            ($fr:expr, $o:expr) => {
                match $o {
                    Op::K(v) => v.clone(),
                    Op::Slot(s) => $fr.slots[*s as usize].clone(),
                }
            };
        }
        loop {
            if st.frames.is_empty() {
                return Ok(());
            }
            if st.steps > self.max_steps {
                return Err(Stop::Fault(format!("no termination within {} steps", self.max_steps)));
            }
            // run inside the current frame until the frame stack changes
            let top = st.frames.len() - 1;
            let (fi, mut bi, mut pc) = {
                let f = &st.frames[top];
                (f.f, f.b, f.pc)
            };
            let fun = &m.funcs[fi as usize];
            'frame: loop {
                let ins = &fun.blocks[bi as usize].ins[pc as usize];
                st.steps += 1;
                self.stats.instrs += 1;
                macro_rules! fr {
                    () => {
                        Rc::make_mut(&mut st.frames[top])
                    };
                }
                macro_rules! get {
                    ($o:expr) => {
                        op!(st.frames[top], $o)
                    };
                }
                macro_rules! setd {
                    ($d:expr, $v:expr) => {{
                        let vv = $v;
                        if $d != NOSLOT {
                            fr!().slots[$d as usize] = vv;
                        }
                    }};
                }
                macro_rules! jump {
                    ($t:expr) => {{
                        let t: u32 = $t;
                        let blk = &fun.blocks[t as usize];
                        if !blk.phis.is_empty() {
                            if let Some(e) = blk.edges.iter().find(|e| e.0 == bi) {
                                let f = fr!();
                                if e.1.len() == 1 {
                                    let v = op!(f, &e.1[0].1);
                                    f.slots[e.1[0].0 as usize] = v;
                                } else {
                                    let vals: Vec<V> = e.1.iter().map(|x| op!(f, &x.1)).collect();
                                    for (x, v) in e.1.iter().zip(vals) {
                                        f.slots[x.0 as usize] = v;
                                    }
                                }
                            } else {
                                return Err(Stop::Unsup("phi edge".into()));
                            }
                        }
                        bi = t;
                        pc = 0;
                        let f = fr!();
                        f.b = bi;
                        f.pc = 0;
                        if st.steps > self.max_steps {
                            break 'frame;
                        }
                        continue 'frame;
                    }};
                }
                macro_rules! save {
                    () => {{
                        let f = fr!();
                        f.b = bi;
                        f.pc = pc;
                    }};
                }
                match ins {
                    I::Bin { op, w, a, b, d } => {
                        let (x, y) = (get!(a), get!(b));
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                            if let V::C(0) = y {
                                return Err(Stop::Fault("division by zero".into()));
                            }
                            if let V::S(e) = y {
                                let z = self.cx.k(0, *w);
                                let c = self.cx.cmp(Pred::Eq, e, z);
                                save!();
                                if self.branch(st, c)? {
                                    return Err(Stop::Fault("division by zero".into()));
                                }
                            }
                        }
                        let r = self.bin_v(*op, *w, &x, &y);
                        setd!(*d, r);
                    }
                    I::Icmp { p, w, a, b, d } => {
                        let (x, y) = (get!(a), get!(b));
                        let r = self.cmp_v(*p, *w, &x, &y);
                        setd!(*d, r);
                    }
                    I::Cast { k, from, to, a, d } => {
                        let v = get!(a);
                        let r = self.cast(*k, *from, *to, &v)?;
                        setd!(*d, r);
                    }
                    I::Gep { base, off, idx, d } => {
                        let b = get!(base);
                        let r = match (&b, idx.is_empty()) {
                            (V::C(c), true) => V::C((*c as u64).wrapping_add(*off) as u128),
                            _ => {
                                let mut acc = self.bin_v(BinOp::Add, 64, &b, &V::C(*off as u128));
                                for (o, w, scale) in idx {
                                    let i = get!(o);
                                    let t = match i {
                                        V::C(c) => V::C((sext64(c, *w) as u64).wrapping_mul(*scale) as u128),
                                        V::S(e) => {
                                            let e = self.cx.sext(e, 64);
                                            let k = self.cx.k(*scale as u128, 64);
                                            let r = self.cx.bin(BinOp::Mul, e, k);
                                            self.mkv(r)
                                        }
                                        _ => return Err(Stop::Unsup("vector gep".into())),
                                    };
                                    acc = self.bin_v(BinOp::Add, 64, &acc, &t);
                                }
                                acc
                            }
                        };
                        setd!(*d, r);
                    }
                    I::Load { ty, p, d } => {
                        let a = get!(p);
                        let r = match a {
                            V::C(c) => self.load(st, *ty, c as u64)?,
                            V::S(e) => {
                                let k = self.norm(st, e);
                                if let Some(k) = k {
                                    self.load(st, *ty, k as u64)?
                                } else if let Some(v) = self.table_load(st, *ty, e) {
                                    v
                                } else {
                                    save!();
                                    let c = self.conc(st, &V::S(e))?;
                                    self.load(st, *ty, c as u64)?
                                }
                            }
                            _ => return Err(Stop::Unsup("vector load address".into())),
                        };
                        // pointers are kept concrete
                        let r = match (&r, m.types.kind(*ty)) {
                            (V::S(e), TyK::Ptr) => {
                                save!();
                                V::C(self.conc(st, &V::S(*e))?)
                            }
                            _ => r,
                        };
                        setd!(*d, r);
                    }
                    I::Store { ty, v, p } => {
                        let a = get!(p);
                        let x = get!(v);
                        let a = match a {
                            V::C(c) => c as u64,
                            o => {
                                save!();
                                self.conc(st, &o)? as u64
                            }
                        };
                        self.store(st, *ty, a, &x)?;
                    }
                    I::Alloca { size, n, d } => {
                        let k = get!(n);
                        save!();
                        let k = self.conc(st, &k)? as u64;
                        let a = st.mem.alloc(size * k);
                        let f = fr!();
                        f.allocas.push(a);
                        f.slots[*d as usize] = V::C(a as u128);
                    }
                    I::Br { t } => jump!(*t),
                    I::CBr { c, t, f } => {
                        let v = get!(c);
                        let b = match v {
                            V::C(k) => k == 1,
                            V::S(e) => {
                                save!();
                                self.branch(st, e)?
                            }
                            _ => return Err(Stop::Unsup("br".into())),
                        };
                        jump!(if b { *t } else { *f })
                    }
                    I::Switch { w, v, def, cases } => {
                        let x = get!(v);
                        let x = match x {
                            V::S(e) => match self.norm(st, e) {
                                Some(k) => V::C(k),
                                None => V::S(e),
                            },
                            o => o,
                        };
                        let t = match x {
                            V::C(c) => cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def),
                            V::S(e) => {
                                save!();
                                let cur = self.cx.eval(e, &st.model);
                                let t = cases.iter().find(|k| k.0 == cur).map(|k| k.1).unwrap_or(*def);
                                // condition "goes to t"
                                let mut inn = self.cx.k(0, 1);
                                let mut any = self.cx.k(0, 1);
                                for (k, b) in cases {
                                    let kk = self.cx.k(*k, *w);
                                    let q = self.cx.cmp(Pred::Eq, e, kk);
                                    if *b == t {
                                        inn = self.cx.or(inn, q);
                                    }
                                    if t == *def && *b != t {
                                        any = self.cx.or(any, q);
                                    }
                                }
                                let cond = if t == *def { self.cx.not(any) } else { inn };
                                if !self.branch(st, cond)? {
                                    return Err(Stop::Unsup("switch".into()));
                                }
                                t
                            }
                            _ => return Err(Stop::Unsup("switch".into())),
                        };
                        jump!(t)
                    }
                    I::Ret { v } => {
                        let r = match v {
                            Some(o) => get!(o),
                            None => V::C(0),
                        };
                        let f = st.frames.pop().unwrap();
                        for a in &f.allocas {
                            st.mem.free(*a);
                        }
                        if let Some(cf) = st.frames.last_mut() {
                            let cf = Rc::make_mut(cf);
                            if f.ret != NOSLOT {
                                cf.slots[f.ret as usize] = r;
                            }
                            if f.normal != NOSLOT {
                                self.goto(cf, f.normal)?;
                            } else {
                                cf.pc += 1;
                            }
                        }
                        break 'frame;
                    }
                    I::Unreachable => return Err(Stop::Fault("unreachable executed".into())),
                    I::Call { c, args, argw, d, ret, normal } => {
                        save!();
                        let target = match c {
                            Callee::Func(f) => Ok(*f),
                            Callee::Ext(e) => Err(*e),
                            Callee::Asm => return Err(Stop::Unsup("asm".into())),
                            Callee::Ind(o) => {
                                let v = get!(o);
                                let a = self.conc(st, &v)? as u64;
                                if let Some(f) = m.faddr.get(&a) {
                                    Ok(*f)
                                } else if let Some(e) = m.eaddr.get(&a) {
                                    Err(*e)
                                } else {
                                    return Err(Stop::Fault(format!("indirect call to {:#x}", a)));
                                }
                            }
                        };
                        let av: Vec<V> = args.iter().map(|o| get!(o)).collect();
                        match target {
                            Ok(f) => match self.hooks[f as usize] {
                                Hook::None => {
                                    if st.frames.len() >= self.max_depth {
                                        return Err(Stop::Fault("call depth bound exceeded".into()));
                                    }
                                    self.push_frame(st, f, av, *d, *normal);
                                    break 'frame;
                                }
                                Hook::Panic => {
                                    return Err(Stop::Panic(demangle(&m.funcs[f as usize].name)));
                                }
                                Hook::Skip => setd!(*d, V::C(0)),
                                Hook::Hash => {
                                    let h = self.hash_const;
                                    setd!(*d, V::C(h as u128))
                                }
                            },
                            Err(e) => {
                                let r = self.ext(st, e, &av, argw, *ret)?;
                                setd!(*d, r);
                            }
                        }
                        if *normal != NOSLOT {
                            jump!(*normal);
                        }
                    }
                    I::Select { ptr, ty, c, a, b, d } => {
                        let cv = get!(c);
                        let cv = match cv {
                            V::S(e) => match self.norm(st, e) {
                                Some(k) => V::C(k),
                                None => V::S(e),
                            },
                            o => o,
                        };
                        let r = match cv {
                            V::C(k) => if k == 1 { get!(a) } else { get!(b) },
                            V::A(cs) => {
                                let (x, y) = (get!(a), get!(b));
                                if let (V::A(x), V::A(y)) = (x, y) {
                                    let w = m.scalar_bits(*ty);
                                    let mut o = vec![];
                                    for i in 0..cs.len() {
                                        o.push(match &cs[i] {
                                            V::C(1) => x[i].clone(),
                                            V::C(_) => y[i].clone(),
                                            V::S(e) => self.ite_v(*e, &x[i], &y[i], w),
                                            _ => return Err(Stop::Unsup("select".into())),
                                        });
                                    }
                                    V::A(Rc::new(o))
                                } else {
                                    return Err(Stop::Unsup("select".into()));
                                }
                            }
                            V::S(e) => {
                                let (x, y) = (get!(a), get!(b));
                                if *ptr || matches!(x, V::A(_)) || matches!(y, V::A(_)) {
                                    save!();
                                    if self.branch(st, e)? { x } else { y }
                                } else {
                                    self.ite_v(e, &x, &y, m.types.bits(*ty))
                                }
                            }
                        };
                        setd!(*d, r);
                    }
                    I::ExtractV { a, idx, d } => {
                        let mut v = get!(a);
                        for i in idx {
                            v = match &v {
                                V::A(x) => x[*i as usize].clone(),
                                _ => return Err(Stop::Unsup("extractvalue".into())),
                            };
                        }
                        setd!(*d, v);
                    }
                    I::InsertV { a, v, idx, d } => {
                        let x = get!(a);
                        let y = get!(v);
                        let r = insertv(&x, &y, idx);
                        setd!(*d, r);
                    }
                    I::Float { op, from, to, a, d } => {
                        let mut v = vec![];
                        for x in a {
                            v.push(get!(x));
                        }
                        save!();
                        // symbolic where it stays a small term: whole numbers that are exact, and signs
                        let mut sym = None;
                        if let V::S(x) = &v[0] {
                            let f64s = matches!(m.types.kind(*to), TyK::F64);
                            if &op[..] == "fneg" && f64s {
                                let k = self.cx.k(1 << 63, 64);
                                let r = self.cx.bin(BinOp::Xor, *x, k);
                                sym = Some(self.mkv(r));
                            }
                            if &op[..] == "uitofp" && f64s && self.cx.hi(*x) < 1 << 20 {
                                let n = 128 - self.cx.hi(*x).leading_zeros();
                                let b = if self.cx.w(*x) > 64 { self.cx.ext(*x, 0, 64) } else { self.cx.zext(*x, 64) };
                                let mut r = self.cx.k(0, 64);
                                for p in 0..n {
                                    let sh = self.cx.k(52 - p as u128, 64);
                                    let y = self.cx.bin(BinOp::Shl, b, sh);
                                    let ex = self.cx.k(((1023 + p as u128) << 52).wrapping_sub(1 << 52), 64);
                                    let y = self.cx.bin(BinOp::Add, y, ex);
                                    let lo = self.cx.k(1 << p, 64);
                                    let c = self.cx.cmp(Pred::Uge, b, lo);
                                    r = self.cx.ite(c, y, r);
                                }
                                sym = Some(self.mkv(r));
                            }
                        }
                        let r = if let Some(r) = sym {
                            r
                        } else {
                            let mut c = vec![];
                            for x in &v {
                                c.push(self.conc(st, x)?);
                            }
                            let r = float(&m.types, op, *from, *to, &c).ok_or_else(|| Stop::Unsup(format!("instruction {}", op)))?;
                            V::C(r)
                        };
                        setd!(*d, r);
                    }
                    I::ExtractE { a, i, d } => {
                        let x = get!(a);
                        let i = get!(i);
                        save!();
                        let i = self.conc(st, &i)? as usize;
                        let r = match x {
                            V::A(v) => v[i].clone(),
                            _ => return Err(Stop::Unsup("extractelement".into())),
                        };
                        setd!(*d, r);
                    }
                    I::InsertE { a, v, i, d } => {
                        let x = get!(a);
                        let y = get!(v);
                        let i = get!(i);
                        save!();
                        let i = self.conc(st, &i)? as u32;
                        let r = insertv(&x, &y, &[i]);
                        setd!(*d, r);
                    }
                    I::Shuffle { a, b, mask, d, n } => {
                        let (x, y) = (get!(a), get!(b));
                        let r = match (x, y) {
                            (V::A(x), V::A(y)) => V::A(Rc::new(mask.iter().map(|k| if k < n { x[*k as usize].clone() } else { y[(*k - *n) as usize].clone() }).collect())),
                            _ => return Err(Stop::Unsup("shuffle".into())),
                        };
                        setd!(*d, r);
                    }
                    I::Rmw { op, ty, p, v, d } => {
                        let a = get!(p);
                        let x = get!(v);
                        save!();
                        let a = self.conc(st, &a)? as u64;
                        let old = self.load(st, *ty, a)?;
                        let w = m.types.bits(*ty);
                        let new = match op {
                            RmwOp::Xchg => x,
                            RmwOp::Add => self.bin_v(BinOp::Add, w, &old, &x),
                            RmwOp::Sub => self.bin_v(BinOp::Sub, w, &old, &x),
                            RmwOp::And => self.bin_v(BinOp::And, w, &old, &x),
                            RmwOp::Or => self.bin_v(BinOp::Or, w, &old, &x),
                            RmwOp::Xor => self.bin_v(BinOp::Xor, w, &old, &x),
                            RmwOp::Nand => {
                                let t = self.bin_v(BinOp::And, w, &old, &x);
                                self.bin_v(BinOp::Xor, w, &t, &V::C(mask(w)))
                            }
                            RmwOp::Max | RmwOp::Min | RmwOp::UMax | RmwOp::UMin => {
                                let pr = match op { RmwOp::Max => Pred::Sgt, RmwOp::Min => Pred::Slt, RmwOp::UMax => Pred::Ugt, _ => Pred::Ult };
                                let c = self.cmp_v(pr, w, &old, &x);
                                match c {
                                    V::C(1) => old.clone(),
                                    V::C(_) => x,
                                    V::S(e) => self.ite_v(e, &old, &x, w),
                                    _ => return Err(Stop::Unsup("rmw".into())),
                                }
                            }
                        };
                        self.store(st, *ty, a, &new)?;
                        setd!(*d, old);
                    }
                    I::CmpXchg { ty, p, c, n, d } => {
                        let a = get!(p);
                        let (cv, nv) = (get!(c), get!(n));
                        save!();
                        let a = self.conc(st, &a)? as u64;
                        let old = self.load(st, *ty, a)?;
                        let w = m.types.bits(*ty);
                        let eq = self.cmp_v(Pred::Eq, w, &old, &cv);
                        let ok = match eq {
                            V::C(k) => k == 1,
                            V::S(e) => self.branch(st, e)?,
                            _ => false,
                        };
                        if ok {
                            self.store(st, *ty, a, &nv)?;
                        }
                        setd!(*d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
                    }
                    I::Freeze { a, d } => {
                        let v = get!(a);
                        setd!(*d, v);
                    }
                    // a processor without optional features
                    I::Cpuid { d } => {
                        setd!(*d, V::A(Rc::new(vec![V::C(0); 4])));
                    }
                    I::Nop => {}
                    I::LandingPad { .. } | I::Resume => return Err(Stop::Unsup("unwinding".into())),
                    I::Unsupported(s) => return Err(Stop::Unsup(format!("instruction {}", s))),
                }
                pc += 1;
            }
        }
    }

    fn goto(&mut self, f: &mut Fr, t: u32) -> X<()> {
        let fun = &self.m.funcs[f.f as usize];
        let blk = &fun.blocks[t as usize];
        if !blk.phis.is_empty() {
            let e = blk.edges.iter().find(|e| e.0 == f.b).ok_or(Stop::Unsup("phi edge".into()))?;
            let vals: Vec<V> = e.1.iter().map(|x| match &x.1 {
                Op::K(v) => v.clone(),
                Op::Slot(s) => f.slots[*s as usize].clone(),
            }).collect();
            for (x, v) in e.1.iter().zip(vals) {
                f.slots[x.0 as usize] = v;
            }
        }
        f.b = t;
        f.pc = 0;
        Ok(())
    }

    fn flat_bits(&mut self, ty: Ty, v: &V) -> Option<E> {
        let m = self.m;
        match (m.types.kind(ty), v) {
            (TyK::Vector(_, e), V::A(vs)) => {
                let w = m.types.bits(*e);
                let mut acc: Option<E> = None;
                for x in vs.iter() {
                    let k = self.e(x, w);
                    acc = Some(match acc {
                        None => k,
                        Some(a) => self.cx.cat(k, a),
                    });
                }
                acc
            }
            (_, V::A(_)) => None,
            (_, x) => Some(self.e(x, m.types.bits(ty))),
        }
    }

    fn cast(&mut self, k: CastK, from: Ty, to: Ty, v: &V) -> X<V> {
        let m = self.m;
        if let CastK::BitVec = k {
            // concrete fast path: <n x i1> -> iN
            if let (TyK::Vector(_, e), V::A(vs), TyK::Int(_)) = (m.types.kind(from), v, m.types.kind(to)) {
                let w = m.types.bits(*e);
                let mut acc = 0u128;
                let mut ok = true;
                for (i, x) in vs.iter().enumerate() {
                    match x {
                        V::C(c) => acc |= c << (i as u32 * w),
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return Ok(V::C(acc));
                }
            }
            let e = self.flat_bits(from, v).ok_or(Stop::Unsup("bitcast".into()))?;
            return match m.types.kind(to) {
                TyK::Vector(n, t) => {
                    let w = m.types.bits(*t);
                    let mut o = vec![];
                    for i in 0..*n as u32 {
                        let x = self.cx.ext(e, i * w, w);
                        o.push(self.mkv(x));
                    }
                    Ok(V::A(Rc::new(o)))
                }
                _ => Ok(self.mkv(e)),
            };
        }
        if let V::A(vs) = v {
            let (fe, te) = match (m.types.kind(from), m.types.kind(to)) {
                (TyK::Vector(_, a), TyK::Vector(_, b)) => (*a, *b),
                _ => return Err(Stop::Unsup("cast".into())),
            };
            let mut o = vec![];
            for x in vs.iter() {
                o.push(self.cast(k, fe, te, x)?);
            }
            return Ok(V::A(Rc::new(o)));
        }
        let (fw, tw) = (m.types.bits(from), m.types.bits(to));
        Ok(match v {
            V::C(c) => match k {
                CastK::Sext => V::C((sx(*c, fw) as u128) & mask(tw)),
                CastK::Trunc => V::C(c & mask(tw)),
                _ => V::C(*c),
            },
            V::S(e) => {
                let r = match k {
                    CastK::Zext => self.cx.zext(*e, tw),
                    CastK::Sext => self.cx.sext(*e, tw),
                    CastK::Trunc => self.cx.ext(*e, 0, tw),
                    _ => *e,
                };
                self.mkv(r)
            }
            _ => unreachable!(),
        })
    }

    fn cstr(&mut self, st: &mut St, addr: u64) -> X<Vec<Result<u8, E>>> {
        let mut v = vec![];
        let mut a = addr;
        loop {
            let b = flt!(st.mem.byte(a));
            match b {
                Ok(0) => return Ok(v),
                Ok(c) => v.push(Ok(c)),
                Err(e) => match self.norm(st, e) {
                    Some(0) => return Ok(v),
                    Some(k) => v.push(Ok(k as u8)),
                    None => {
                        let z = self.cx.k(0, 8);
                        let c = self.cx.cmp(Pred::Eq, e, z);
                        if self.branch(st, c)? {
                            return Ok(v);
                        }
                        v.push(Err(e));
                    }
                },
            }
            a += 1;
        }
    }

    /// The file of a path, the one added last of several
    fn file_of(&mut self, st: &mut St, path: &[Result<u8, E>]) -> X<Option<usize>> {
        let files = st.files.clone();
        for (i, (name, _)) in files.iter().enumerate().rev() {
            if name.len() == path.len() {
                let e = self.bytes_eq(path, name);
                if self.branch(st, e)? {
                    return Ok(Some(i));
                }
            }
        }
        Ok(None)
    }

    /// Is there a file below the path
    fn is_dir(&mut self, st: &mut St, path: &[Result<u8, E>]) -> X<bool> {
        if path.len() < 5 && matches!(path.first(), Some(Ok(b'/'))) {
            return Ok(true);
        }
        let mut path = path.to_vec();
        if !matches!(path.last(), Some(Ok(b'/'))) {
            path.push(Ok(b'/'));
        }
        let files = st.files.clone();
        for (name, _) in files.iter() {
            if name.len() > path.len() {
                let e = self.bytes_eq(&path, &name[..path.len()]);
                if self.branch(st, e)? {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }

    fn bytes_eq(&mut self, a: &[Result<u8, E>], b: &[Result<u8, E>]) -> E {
        let mut r = self.cx.k(1, 1);
        for (x, y) in a.iter().zip(b) {
            let p = match x { Ok(c) => self.cx.k(*c as u128, 8), Err(e) => *e };
            let q = match y { Ok(c) => self.cx.k(*c as u128, 8), Err(e) => *e };
            let c = self.cx.cmp(Pred::Eq, p, q);
            r = self.cx.and(r, c);
            if self.cx.as_k(r) == Some(0) {
                return r;
            }
        }
        r
    }

    fn byte_e(&mut self, st: &St, a: u64) -> X<E> {
        let b = flt!(st.mem.byte(a));
        Ok(match b {
            Ok(c) => self.cx.k(c as u128, 8),
            Err(e) => match self.norm(st, e) {
                Some(k) => self.cx.k(k, 8),
                None => e,
            },
        })
    }

    fn ext(&mut self, st: &mut St, id: u32, a: &[V], argw: &[u32], ret: Ty) -> X<V> {
        use ExtFn::*;
        let k = self.ext_fn[id as usize];
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &a[$i])?
            };
        }
        let w = argw.first().cloned().unwrap_or(0);
        let set_errno = |st: &mut St, addr: u64, v: u128| {
            let _ = st.mem.write(addr, v, 4);
        };
        let ea = self.errno_addr;
        let neg1 = V::C(mask(self.m.types.bits(ret).max(1)));
        Ok(match k {
            Memcpy | Memmove => {
                let (d, s, n) = (c!(0) as u64, c!(1) as u64, c!(2) as u64);
                flt!(st.mem.copy(d, s, n));
                V::C(d as u128)
            }
            Memset => {
                let (d, n) = (c!(0) as u64, c!(2) as u64);
                match &a[1] {
                    V::C(b) => flt!(st.mem.fill(d, *b as u8, n)),
                    V::S(e) => {
                        let e = self.cx.ext(*e, 0, 8);
                        for i in 0..n {
                            flt!(st.mem.write_byte(d + i, Err(e)));
                        }
                    }
                    _ => return Err(Stop::Unsup("memset".into())),
                }
                V::C(d as u128)
            }
            Fshl | Fshr => {
                let s = (c!(2) % w as u128) as u32;
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let cc = self.cx.cat(x, y);
                let r = if k == Fshl { self.cx.ext(cc, w - s, w) } else { self.cx.ext(cc, s, w) };
                self.mkv(r)
            }
            UMax | UMin | SMax | SMin => {
                let p = match k { UMax => Pred::Ugt, UMin => Pred::Ult, SMax => Pred::Sgt, _ => Pred::Slt };
                if let (V::A(x), V::A(y)) = (&a[0], &a[1]) {
                    let w = self.m.scalar_bits(ret);
                    let mut o = vec![];
                    for (p1, q1) in x.iter().zip(y.iter()) {
                        let cnd = self.cmp_v(p, w, p1, q1);
                        o.push(match cnd { V::C(1) => p1.clone(), V::C(_) => q1.clone(), V::S(e) => self.ite_v(e, p1, q1, w), _ => unreachable!() });
                    }
                    return Ok(V::A(Rc::new(o)));
                }
                match self.cmp_v(p, w, &a[0], &a[1]) {
                    V::C(1) => a[0].clone(),
                    V::C(_) => a[1].clone(),
                    V::S(e) => self.ite_v(e, &a[0], &a[1], w),
                    _ => unreachable!(),
                }
            }
            Cttz | Ctlz | Ctpop => {
                let f = |x: u128| -> u128 {
                    match k {
                        Cttz => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 },
                        Ctlz => if x == 0 { w as u128 } else { (x.leading_zeros() - (128 - w)) as u128 },
                        _ => x.count_ones() as u128,
                    }
                };
                match &a[0] {
                    V::C(x) => V::C(f(*x)),
                    V::S(e) => {
                        if let Some(v) = self.cx.single(*e) {
                            let vals: Vec<u128> = (0..256).map(|i| f(self.cx.at(*e, i))).collect();
                            let r = self.cx.from_tab(v, w, |i| vals[i]);
                            self.mkv(r)
                        } else if k == Ctpop {
                            let mut acc = self.cx.k(0, w);
                            for i in 0..w {
                                let b = self.cx.ext(*e, i, 1);
                                let z = self.cx.zext(b, w);
                                acc = self.cx.bin(BinOp::Add, acc, z);
                            }
                            self.mkv(acc)
                        } else {
                            let mut acc = self.cx.k(w as u128, w);
                            for j in 0..w {
                                let i = if k == Cttz { w - 1 - j } else { j };
                                let b = self.cx.ext(*e, i, 1);
                                let kk = self.cx.k(if k == Cttz { i } else { w - 1 - i } as u128, w);
                                acc = self.cx.ite(b, kk, acc);
                            }
                            self.mkv(acc)
                        }
                    }
                    _ => return Err(Stop::Unsup("vector bit count".into())),
                }
            }
            UAddO | USubO | SAddO | SSubO | UMulO | SMulO => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                let signed = matches!(k, SAddO | SSubO | SMulO);
                if matches!(k, UMulO | SMulO) {
                    let (x, y) = if self.cx.as_k(x).is_some() { (y, x) } else { (x, y) };
                    if let Some(c) = self.cx.as_k(y).filter(|c| *c > 0 && (!signed || c >> (w - 1) == 0)) {
                        // by a constant: compare instead of multiplying at twice the width
                        let lo = self.cx.bin(BinOp::Mul, x, y);
                        let ov = if signed {
                            let max = mask(w - 1) / c;
                            let min = (1u128 << (w - 1)) / c;
                            let (kx, kn) = (self.cx.k(max, w), self.cx.k(0u128.wrapping_sub(min) & mask(w), w));
                            let (p, q) = (self.cx.cmp(Pred::Slt, kx, x), self.cx.cmp(Pred::Slt, x, kn));
                            self.cx.bin(BinOp::Or, p, q)
                        } else {
                            let kx = self.cx.k(mask(w) / c, w);
                            self.cx.cmp(Pred::Ult, kx, x)
                        };
                        let (p, q) = (self.mkv(lo), self.mkv(ov));
                        return Ok(V::A(Rc::new(vec![p, q])));
                    }
                }
                let ww = if matches!(k, UMulO | SMulO) { 2 * w } else { w + 1 };
                if ww > 128 {
                    return Err(Stop::Unsup("wide overflow op".into()));
                }
                let (xx, yy) = if signed { (self.cx.sext(x, ww), self.cx.sext(y, ww)) } else { (self.cx.zext(x, ww), self.cx.zext(y, ww)) };
                let op = match k { UAddO | SAddO => BinOp::Add, USubO | SSubO => BinOp::Sub, _ => BinOp::Mul };
                let full = self.cx.bin(op, xx, yy);
                let lo = self.cx.ext(full, 0, w);
                let back = if signed { self.cx.sext(lo, ww) } else { self.cx.zext(lo, ww) };
                let ov = self.cx.cmp(Pred::Ne, back, full);
                let (p, q) = (self.mkv(lo), self.mkv(ov));
                V::A(Rc::new(vec![p, q]))
            }
            USubSat | UAddSat => {
                if let (V::A(x), V::A(y)) = (&a[0], &a[1]) {
                    let w = self.m.scalar_bits(ret);
                    let mut o = vec![];
                    for (p, q) in x.clone().iter().zip(y.clone().iter()) {
                        o.push(self.sat(k == USubSat, w, p, q));
                    }
                    V::A(Rc::new(o))
                } else {
                    self.sat(k == USubSat, w, &a[0], &a[1])
                }
            }
            SAddSat | SSubSat => {
                let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                if w > 127 {
                    return Err(Stop::Unsup("wide saturating op".into()));
                }
                let (xx, yy) = (self.cx.sext(x, w + 1), self.cx.sext(y, w + 1));
                let full = self.cx.bin(if k == SAddSat { BinOp::Add } else { BinOp::Sub }, xx, yy);
                let (lo, hi) = (self.cx.k(1u128 << (w - 1) | 1u128 << w, w + 1), self.cx.k((1u128 << (w - 1)) - 1, w + 1));
                let (under, over) = (self.cx.cmp(Pred::Slt, full, lo), self.cx.cmp(Pred::Sgt, full, hi));
                let r = self.cx.ext(full, 0, w);
                let (r, a1, b1) = (self.mkv(r), V::C(1u128 << (w - 1)), V::C((1u128 << (w - 1)) - 1));
                let r = self.ite_v(under, &a1, &r, w);
                self.ite_v(over, &b1, &r, w)
            }
            TlsAddr | Expect => a[0].clone(),
            FAbs => self.bin_v(BinOp::And, w, &a[0], &V::C(mask(w) >> 1)),
            PtrMask => self.bin_v(BinOp::And, 64, &a[0], &a[1]),
            IsConst => V::C(0),
            ObjSize => {
                let min = c!(1);
                V::C(if min == 1 { 0 } else { mask(self.m.types.bits(ret)) })
            }
            UCmp | SCmp => {
                let rw = self.m.types.bits(ret);
                let lt = self.cmp_v(if k == UCmp { Pred::Ult } else { Pred::Slt }, w, &a[0], &a[1]);
                let eq = self.cmp_v(Pred::Eq, w, &a[0], &a[1]);
                let (l, e) = (self.e(&lt, 1), self.e(&eq, 1));
                let (m1, z, o) = (self.cx.k(mask(rw), rw), self.cx.k(0, rw), self.cx.k(1, rw));
                let t = self.cx.ite(e, z, o);
                let r = self.cx.ite(l, m1, t);
                self.mkv(r)
            }
            Bswap => {
                let e = self.e(&a[0], w);
                let mut acc = self.cx.ext(e, 0, 8);
                for i in 1..w / 8 {
                    let b = self.cx.ext(e, 8 * i, 8);
                    acc = self.cx.cat(acc, b);
                }
                self.mkv(acc)
            }
            Bitrev => {
                let e = self.e(&a[0], w);
                let mut acc = self.cx.ext(e, 0, 1);
                for i in 1..w {
                    let b = self.cx.ext(e, i, 1);
                    acc = self.cx.cat(acc, b);
                }
                self.mkv(acc)
            }
            Abs => {
                let e = self.e(&a[0], w);
                let z = self.cx.k(0, w);
                let n = self.cx.bin(BinOp::Sub, z, e);
                let c = self.cx.cmp(Pred::Slt, e, z);
                let r = self.cx.ite(c, n, e);
                self.mkv(r)
            }
            VRedOr | VRedAnd => {
                let w = self.m.types.bits(ret);
                match &a[0] {
                    V::A(vs) => {
                        let mut acc = vs[0].clone();
                        for x in &vs[1..] {
                            acc = self.bin_v(if k == VRedOr { BinOp::Or } else { BinOp::And }, w, &acc, x);
                        }
                        acc
                    }
                    _ => return Err(Stop::Unsup("reduce".into())),
                }
            }
            Trap => return Err(Stop::Fault("trap".into())),
            Abort => return Err(Stop::Fault("abort/exit called".into())),
            Malloc => {
                let n = c!(0) as u64;
                if n > 1 << 26 {
                    return Err(Stop::Fault(format!("allocation of {} bytes", n)));
                }
                V::C(st.mem.alloc(n) as u128)
            }
            Calloc => {
                let n = c!(0) as u64 * c!(1) as u64;
                if n > 1 << 26 {
                    return Err(Stop::Fault(format!("allocation of {} bytes", n)));
                }
                V::C(st.mem.alloc(n) as u128)
            }
            Realloc | RustRealloc => {
                let (p, n) = (c!(0) as u64, c!(if k == RustRealloc { 3 } else { 1 }) as u64);
                if n > 1 << 26 {
                    return Err(Stop::Fault(format!("allocation of {} bytes", n)));
                }
                let q = st.mem.alloc(n);
                if p != 0 {
                    let old = match st.mem.get(p) {
                        Some(o) => o.data.len() as u64,
                        None => return Err(Stop::Fault("realloc of invalid pointer".into())),
                    };
                    flt!(st.mem.copy(q, p, old.min(n)));
                    st.mem.free(p);
                }
                V::C(q as u128)
            }
            Free => {
                let p = c!(0) as u64;
                if p != 0 && !st.mem.free(p) {
                    return Err(Stop::Fault("free of invalid pointer".into()));
                }
                V::C(0)
            }
            Memalign => {
                let (p, n) = (c!(0) as u64, c!(2) as u64);
                let q = st.mem.alloc(n);
                flt!(st.mem.write(p, q as u128, 8));
                V::C(0)
            }
            Bcmp | Memcmp => {
                let (p, q, n) = (c!(0) as u64, c!(1) as u64, c!(2) as u64);
                if n == 0 {
                    return Ok(V::C(0));
                }
                if let (Rd::Conc(_), Rd::Conc(_)) = (flt!(st.mem.read(p, n)), flt!(st.mem.read(q, n))) {
                    let (x, y) = (st.mem.get(p).unwrap(), st.mem.get(q).unwrap());
                    let (po, qo) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
                    let r = x.data[po..po + n as usize].cmp(&y.data[qo..qo + n as usize]);
                    return Ok(V::C(match r {
                        std::cmp::Ordering::Less => mask(32),
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    }));
                }
                let z = self.cx.k(0, 32);
                let one = self.cx.k(1, 32);
                let m1 = self.cx.k(mask(32), 32);
                if k == Bcmp {
                    let mut all = self.cx.k(1, 1);
                    for i in 0..n {
                        let (x, y) = (self.byte_e(st, p + i)?, self.byte_e(st, q + i)?);
                        let e = self.cx.cmp(Pred::Eq, x, y);
                        all = self.cx.and(all, e);
                        if self.cx.as_k(all) == Some(0) {
                            break;
                        }
                    }
                    let r = self.cx.ite(all, z, one);
                    self.mkv(r)
                } else {
                    let mut r = z;
                    for i in (0..n).rev() {
                        let (x, y) = (self.byte_e(st, p + i)?, self.byte_e(st, q + i)?);
                        let e = self.cx.cmp(Pred::Eq, x, y);
                        let l = self.cx.cmp(Pred::Ult, x, y);
                        let ne = self.cx.ite(l, m1, one);
                        r = self.cx.ite(e, r, ne);
                    }
                    self.mkv(r)
                }
            }
            Memchr | Memrchr => {
                let (p, n) = (c!(0) as u64, c!(2) as u64);
                let b = self.e(&a[1], 32);
                let b = self.cx.ext(b, 0, 8);
                for j in 0..n {
                    let i = if k == Memchr { j } else { n - 1 - j };
                    let x = self.byte_e(st, p + i)?;
                    let e = self.cx.cmp(Pred::Eq, x, b);
                    if self.branch(st, e)? {
                        return Ok(V::C((p + i) as u128));
                    }
                }
                V::C(0)
            }
            Strlen => {
                let p = c!(0) as u64;
                let s = self.cstr(st, p)?;
                V::C(s.len() as u128)
            }
            Getenv => V::C(0),
            Clock => {
                let p = c!(1) as u64;
                st.clock += 1;
                let t = st.clock;
                flt!(st.mem.write(p, (t / 1000) as u128, 8));
                flt!(st.mem.write(p + 8, ((t % 1000) * 1000) as u128, 8));
                V::C(0)
            }
            Syscall => {
                let n = c!(0);
                match n {
                    318 => {
                        // getrandom: fixed bytes
                        let (p, len) = (c!(1) as u64, c!(2) as u64);
                        flt!(st.mem.fill(p, 0x5a, len));
                        V::C(len as u128)
                    }
                    186 | 39 => V::C(1),
                    202 => return Err(Stop::Unsup("blocking futex call".into())),
                    _ => {
                        set_errno(st, ea, 38);
                        neg1
                    }
                }
            }
            Open => {
                let p = c!(0) as u64;
                let path = plain_path(self.cstr(st, p)?);
                let hit = self.file_of(st, &path)?;
                Rc::make_mut(&mut st.opened).push(path);
                match hit {
                    Some(i) => {
                        let f = Rc::make_mut(&mut st.fds);
                        f.push((i, 0, true));
                        V::C((100 + f.len() - 1) as u128)
                    }
                    None => {
                        set_errno(st, ea, 2);
                        neg1
                    }
                }
            }
            Read => {
                let (fd, p, n) = (c!(0) as usize, c!(1) as u64, c!(2) as u64);
                if fd < 100 || fd - 100 >= st.fds.len() {
                    set_errno(st, ea, 9);
                    return Ok(neg1);
                }
                let (fi, off, _) = st.fds[fd - 100];
                let files = st.files.clone();
                let data = &files[fi].1;
                let take = n.min(data.len() as u64 - off);
                for i in 0..take {
                    flt!(st.mem.write_byte(p + i, data[(off + i) as usize]));
                }
                Rc::make_mut(&mut st.fds)[fd - 100].1 += take;
                V::C(take as u128)
            }
            Fstat => {
                let (fd, p) = (c!(0) as usize, c!(1) as u64);
                if fd < 100 || fd - 100 >= st.fds.len() {
                    set_errno(st, ea, 9);
                    return Ok(neg1);
                }
                let len = st.files[st.fds[fd - 100].0].1.len();
                flt!(st.mem.fill(p, 0, 144));
                flt!(st.mem.write(p + 24, 0o100644, 4));
                flt!(st.mem.write(p + 48, len as u128, 8));
                V::C(0)
            }
            Lseek => {
                let (fd, off, wh) = (c!(0) as usize, c!(1) as u64, c!(2));
                if fd < 100 || fd - 100 >= st.fds.len() {
                    set_errno(st, ea, 9);
                    return Ok(neg1);
                }
                let len = st.files[st.fds[fd - 100].0].1.len() as u64;
                let f = &mut Rc::make_mut(&mut st.fds)[fd - 100];
                f.1 = match wh { 0 => off, 1 => f.1.wrapping_add(off), _ => len.wrapping_add(off) };
                V::C(f.1 as u128)
            }
            Close => V::C(0),
            Write => V::C(c!(2)),
            Writev => {
                let (p, n) = (c!(1) as u64, c!(2) as u64);
                let mut t = 0u128;
                for i in 0..n {
                    if let Rd::Conc(l) = flt!(st.mem.read(p + 16 * i + 8, 8)) {
                        t += l;
                    }
                }
                V::C(t)
            }
            KeyCreate => {
                let p = c!(0) as u64;
                let n = st.keys.len();
                Rc::make_mut(&mut st.keys).push(0);
                flt!(st.mem.write(p, (n + 1) as u128, 4));
                V::C(0)
            }
            KeyDelete => V::C(0),
            SetSpec => {
                let (kk, v) = (c!(0) as usize, c!(1) as u64);
                if kk >= 1 && kk <= st.keys.len() {
                    Rc::make_mut(&mut st.keys)[kk - 1] = v;
                }
                V::C(0)
            }
            GetSpec => {
                let kk = c!(0) as usize;
                V::C(if kk >= 1 && kk <= st.keys.len() { st.keys[kk - 1] as u128 } else { 0 })
            }
            Yield => return Err(Stop::Unsup("spinning (sched_yield)".into())),
            ErrnoLoc => V::C(ea as u128),
            Zero => V::C(0),
            Gettid => V::C(1),
            NegOne => {
                set_errno(st, ea, 2);
                neg1
            }
            Poll => V::C(0),
            Getcwd => {
                let (p, n) = (c!(0) as u64, c!(1) as u64);
                let s = b"/cwd\0";
                if n < 5 {
                    set_errno(st, ea, 34);
                    return Ok(V::C(0));
                }
                for (i, b) in s.iter().enumerate() {
                    flt!(st.mem.write_byte(p + i as u64, Ok(*b)));
                }
                V::C(p as u128)
            }
            Realpath => {
                let (p, q) = (c!(0) as u64, c!(1) as u64);
                let path = self.cstr(st, p)?;
                let mut parts: Vec<Vec<Result<u8, E>>> = vec![];
                let slash = self.cx.k(b'/' as u128, 8);
                let absolute = matches!(path.first(), Some(Ok(b'/')));
                if !absolute {
                    parts.push(b"cwd".iter().map(|b| Ok(*b)).collect());
                }
                let mut part = vec![];
                for i in 0..=path.len() {
                    let end = match path.get(i) {
                        None => true,
                        Some(Ok(b)) => *b == b'/',
                        Some(Err(e)) => {
                            let c = self.cx.cmp(Pred::Eq, *e, slash);
                            self.branch(st, c)?
                        }
                    };
                    if !end {
                        part.push(path[i]);
                        continue;
                    }
                    let part = std::mem::take(&mut part);
                    let is = |me: &mut Self, st: &mut St, t: &[u8]| -> X<bool> {
                        if part.len() != t.len() {
                            return Ok(false);
                        }
                        let t: Vec<Result<u8, E>> = t.iter().map(|b| Ok(*b)).collect();
                        let e = me.bytes_eq(&part, &t);
                        me.branch(st, e)
                    };
                    if part.is_empty() || is(self, st, b".")? {
                        continue;
                    }
                    if is(self, st, b"..")? {
                        parts.pop();
                    } else {
                        parts.push(part);
                    }
                }
                let mut real = vec![];
                for x in &parts {
                    real.push(Ok(b'/'));
                    real.extend(x.iter().copied());
                }
                let plain = plain_path(real.clone());
                if self.file_of(st, &plain)?.is_none() && !self.is_dir(st, &plain)? {
                    set_errno(st, ea, 2);
                    return Ok(V::C(0));
                }
                let q = if q == 0 { st.mem.alloc(real.len() as u64 + 1) } else { q };
                real.push(Ok(0));
                for (i, b) in real.iter().enumerate() {
                    flt!(st.mem.write_byte(q + i as u64, *b));
                }
                V::C(q as u128)
            }
            Stat => {
                // files known to the virtual file system and their directories exist, nothing else does
                let (p, q) = (c!(0) as u64, c!(1) as u64);
                let path = plain_path(self.cstr(st, p)?);
                let (mode, len) = match self.file_of(st, &path)? {
                    Some(i) => (0o100644, st.files[i].1.len()),
                    None if self.is_dir(st, &path)? => (0o040755, 0),
                    None => {
                        set_errno(st, ea, 2);
                        return Ok(neg1);
                    }
                };
                flt!(st.mem.fill(q, 0, 144));
                flt!(st.mem.write(q + 24, mode, 4));
                flt!(st.mem.write(q + 48, len as u128, 8));
                V::C(0)
            }
            Strerror => {
                let (e, p, n) = (c!(0), c!(1) as u64, c!(2) as u64);
                let s: &[u8] = if e == 2 { b"No such file or directory\0" } else { b"Error\0" };
                for (i, b) in s.iter().take(n as usize).enumerate() {
                    flt!(st.mem.write_byte(p + i as u64, Ok(*b)));
                }
                V::C(0)
            }
            OByte => {
                let t = c!(0) as u32;
                let e = self.new_var(st, t, FULL)?;
                V::S(e)
            }
            OBytes => {
                let (p, n, t) = (c!(0) as u64, c!(1) as u64, c!(2) as u32);
                for i in 0..n {
                    let e = self.new_var(st, t, FULL)?;
                    flt!(st.mem.write_byte(p + i, Err(e)));
                }
                V::C(0)
            }
            OChoose => {
                let (n, t) = (c!(0) as usize, c!(1) as u32);
                if n == 0 || n > 256 {
                    return Err(Stop::Unsup("choose".into()));
                }
                let mut s = EMPTY;
                for i in 0..n {
                    set_add(&mut s, i);
                }
                let e = self.new_var(st, t, s)?;
                let z = self.cx.zext(e, 32);
                self.mkv(z)
            }
            OConc => V::C(c!(0)),
            OAssume => {
                let e = self.e(&a[0], 1);
                if let Some(kv) = self.norm(st, e) {
                    if kv == 0 {
                        return Err(Stop::Kill);
                    }
                    return Ok(V::C(0));
                }
                // split off the part outside the assumption without running it
                match self.sat_with(st, e)? {
                    None => return Err(Stop::Kill),
                    Some(m) => {
                        let ne = self.cx.not(e);
                        if let Some(nm) = self.sat_with(st, ne)? {
                            let mut o = st.clone();
                            self.add(&mut o, ne, nm);
                            self.record_pc(&o);
                            self.stats.paths_killed += 1;
                        }
                        self.add(st, e, m);
                    }
                }
                V::C(0)
            }
            OAssert => {
                let id = c!(1) as u32;
                self.stats.asserts += 1;
                *self.assert_ids.entry(id).or_insert(0) += 1;
                let e = self.e(&a[0], 1);
                let ne = self.cx.not(e);
                let kv = self.norm(st, e);
                if kv == Some(1) {
                    return Ok(V::C(0));
                }
                // the solver decides PC ∧ ¬assertion
                self.stats.asserts_smt += 1;
                match self.full_check(st, Some(ne)) {
                    R::Unsat => V::C(0),
                    R::Unknown => return Err(Stop::Unsup("solver gave no answer on an assertion".into())),
                    R::Sat(m) => {
                        let m = self.patch_model(st, m);
                        let bt = self.backtrace(st);
                        let v = Violation { kind: "assert".into(), id, msg: format!("assertion {} fails at {}", id, bt), inputs: self.inputs(st, &m) };
                        // a known finding is listed once
                        if id as u64 != self.known || !self.violations.iter().any(|x| x.id == id) {
                            self.violations.push(v);
                        }
                        // carry on with the inputs that satisfy it
                        match self.sat_with(st, e)? {
                            None => return Err(Stop::Kill),
                            Some(m) => self.add(st, e, m),
                        }
                        V::C(0)
                    }
                }
            }
            OCover => {
                let id = c!(0) as u32;
                if !st.covers.contains(&id) {
                    Rc::make_mut(&mut st.covers).insert(id);
                }
                V::C(0)
            }
            OParam => {
                let i = c!(0) as usize;
                V::C(self.params.get(i).cloned().unwrap_or(0) as u128)
            }
            OExpectPanic => {
                let b = c!(0);
                st.expect_panic = b == 1;
                V::C(0)
            }
            OObserve => {
                if self.debug {
                    eprintln!("OBSERVE {:?}", a[0]);
                }
                st.obs = Some(Rc::new(List { v: a[0].clone(), next: st.obs.take() }));
                V::C(0)
            }
            OOpenedCount => V::C(st.opened.len() as u128),
            OOpenedLen => {
                let i = c!(0) as usize;
                V::C(st.opened[i].len() as u128)
            }
            OOpenedGet => {
                let (i, p, n) = (c!(0) as usize, c!(1) as u64, c!(2) as usize);
                let o = st.opened[i].clone();
                for (j, b) in o.iter().take(n).enumerate() {
                    flt!(st.mem.write_byte(p + j as u64, *b));
                }
                V::C(0)
            }
            OFileAdd => {
                let (p, n, q, l) = (c!(0) as u64, c!(1) as u64, c!(2) as u64, c!(3) as u64);
                let get = |a: u64, n: u64| -> X<Vec<Result<u8, E>>> {
                    let mut v = vec![];
                    for i in 0..n {
                        v.push(flt!(st.mem.byte(a + i)));
                    }
                    Ok(v)
                };
                let name = get(p, n)?;
                let data = get(q, l)?;
                Rc::make_mut(&mut st.files).push((name, data));
                V::C(0)
            }
            Unknown => return Err(Stop::Unsup(format!("external function {}", self.m.exts[id as usize]))),
        })
    }

    fn sat(&mut self, sub: bool, w: u32, x: &V, y: &V) -> V {
        if sub {
            let lt = self.cmp_v(Pred::Ult, w, x, y);
            let d = self.bin_v(BinOp::Sub, w, x, y);
            let c = self.e(&lt, 1);
            self.ite_v(c, &V::C(0), &d, w)
        } else {
            let s = self.bin_v(BinOp::Add, w, x, y);
            let lt = self.cmp_v(Pred::Ult, w, &s, x);
            let c = self.e(&lt, 1);
            self.ite_v(c, &V::C(mask(w)), &s, w)
        }
    }
}

/// Floating point on concrete values
fn float(t: &Types, op: &str, from: Ty, to: Ty, a: &[u128]) -> Option<u128> {
    let get = |v: u128, ty: Ty| match t.kind(ty) {
        TyK::F32 => Some(f32::from_bits(v as u32) as f64),
        TyK::F64 => Some(f64::from_bits(v as u64)),
        _ => None,
    };
    let put = |v: f64, ty: Ty| match t.kind(ty) {
        TyK::F32 => Some((v as f32).to_bits() as u128),
        TyK::F64 => Some(v.to_bits() as u128),
        _ => None,
    };
    let fb = t.bits(from);
    Some(match op {
        "uitofp" => match t.kind(to) {
            TyK::F32 => (a[0] as f32).to_bits() as u128,
            TyK::F64 => (a[0] as f64).to_bits() as u128,
            _ => return None,
        },
        "sitofp" => match t.kind(to) {
            TyK::F32 => (sx(a[0], fb) as f32).to_bits() as u128,
            TyK::F64 => (sx(a[0], fb) as f64).to_bits() as u128,
            _ => return None,
        },
        "fptoui" => get(a[0], from)? as u128 & mask(t.bits(to)),
        "fptosi" => get(a[0], from)? as i128 as u128 & mask(t.bits(to)),
        "fpext" | "fptrunc" => put(get(a[0], from)?, to)?,
        "fneg" => a[0] ^ (1u128 << (fb - 1)),
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            if matches!(t.kind(from), TyK::F32) {
                let (x, y) = (f32::from_bits(a[0] as u32), f32::from_bits(a[1] as u32));
                let r = match op { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, _ => x % y };
                r.to_bits() as u128
            } else {
                let (x, y) = (get(a[0], from)?, get(a[1], from)?);
                let r = match op { "fadd" => x + y, "fsub" => x - y, "fmul" => x * y, "fdiv" => x / y, _ => x % y };
                r.to_bits() as u128
            }
        }
        _ => {
            let (x, y) = (get(a[0], from)?, get(a[1], from)?);
            let un = x.is_nan() || y.is_nan();
            let r = match op.strip_prefix("fcmp ")? {
                "false" => false,
                "true" => true,
                "ord" => !un,
                "uno" => un,
                "oeq" => x == y,
                "ueq" => un || x == y,
                "one" => !un && x != y,
                "une" => x != y,
                "olt" => x < y,
                "ult" => un || x < y,
                "ole" => x <= y,
                "ule" => un || x <= y,
                "ogt" => x > y,
                "ugt" => un || x > y,
                "oge" => x >= y,
                "uge" => un || x >= y,
                _ => return None,
            };
            r as u128
        }
    })
}

fn insertv(a: &V, v: &V, idx: &[u32]) -> V {
    match a {
        V::A(x) => {
            let mut n = (**x).clone();
            let i = idx[0] as usize;
            n[i] = if idx.len() == 1 { v.clone() } else { insertv(&n[i], v, &idx[1..]) };
            V::A(Rc::new(n))
        }
        _ => panic!("insertvalue"),
    }
}

/// crude v0 demangling: the identifier components
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        // crate disambiguators: C s <base62> _
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            let mut j = i + 2;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b's' && i + 1 < b.len() {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 5 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() && b[j..j + len].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') && !b[j].is_ascii_digit() {
                out.push(n[j..j + len].to_string());
                i = j + len;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}
