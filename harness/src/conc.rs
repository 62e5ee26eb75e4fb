//! G05/G06: a control thread editing and committing against an audio thread processing blocks, under every
//! schedule up to a preemption bound. The threads run the real code; the scheduler switches at every access
//! of the shared ring positions, atomics and locks.
use crate::alloc;
use crate::common::*;
use crate::g_struct::*;
use crate::tu::*;
use crate::world::*;
use mcsched::Outcome;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Neither,
    /// the control thread drops the graph at the end of its script
    Graph,
    /// the audio thread drops the processor at the end of its script
    Proc,
    Both,
}
pub struct ConcSpace {
    pub name: String,
    pub cfg: Cfg,
    pub setup: Vec<Op>,
    pub alphabets: Vec<Vec<Op>>,
    /// commit after every op (else only where the script says)
    pub commit_each: bool,
    pub blocks: usize,
    pub bound: usize,
    pub ends: Vec<End>,
}
#[derive(Default)]
struct Shared {
    versions: Vec<Structure>,
    sent: usize,
    acked: usize,
    blocks: Vec<(usize, usize, Vec<Vec<S>>, Vec<u64>)>,
    obs: Vec<Arc<Obs>>,
    err: Option<Fail>,
}
impl ConcSpace {
    fn ops(&self, case: &[u16]) -> Vec<Op> {
        case[1..].iter().zip(&self.alphabets).map(|(i, a)| a[*i as usize]).collect()
    }
}
impl Space for ConcSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.is_empty() { self.ends.len() } else { self.alphabets.get(p.len() - 1).map(|a| a.len()).unwrap_or(0) }
    }
    fn describe(&self, case: &[u16]) -> String {
        format!("setup {:?}; end {:?}; control thread: {:?}{}; audio thread: {} blocks; ≤{} preemptions", self.setup, self.ends[case[0] as usize], self.ops(case), if self.commit_each { " (commit after each)" } else { "" }, self.blocks, self.bound)
    }
    fn run(&self, case: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let ops = self.ops(case);
        let end = self.ends[case[0] as usize];
        let result: RefCell<Option<Fail>> = RefCell::new(None);
        let delta0: Cell<Option<i64>> = Cell::new(None);
        let adj = Cell::new(0i64);
        let schedules = Cell::new(0u64);
        let outs_seen: RefCell<std::collections::HashSet<Vec<usize>>> = Default::default();
        let (n, steps) = mcsched::explore(self.bound, || {
            let live0 = alloc::live();
            alloc::quarantine_start();
            let world: Rc<RefCell<Option<World>>> = Rc::new(RefCell::new(None));
            let sh = Rc::new(RefCell::new(Shared::default()));
            let proc = Rc::new(RefCell::new(None));
            let setup = || -> Result<(), Fail> {
                let mut w = World::new(&self.cfg);
                for op in &self.setup {
                    w.apply(op)?;
                }
                w.commit();
                w.run()?;
                *proc.borrow_mut() = w.proc.take();
                sh.borrow_mut().versions.push(w.com.clone());
                sh.borrow_mut().obs = w.nodes.iter().map(|n| n.obs.clone()).collect();
                *world.borrow_mut() = Some(w);
                Ok(())
            };
            if let Err(f) = setup() {
                sh.borrow_mut().err = Some(f);
            }
            let m0 = world.borrow().as_ref().map(|w| w.m.clone());
            let control = {
                let (world, sh, ops) = (world.clone(), sh.clone(), &ops);
                move || {
                    let mut wb = world.borrow_mut();
                    let Some(w) = wb.as_mut() else { return };
                    let commit = |w: &mut World| {
                        {
                            let mut s = sh.borrow_mut();
                            s.versions.push(w.pend.clone());
                            s.sent += 1;
                        }
                        w.commit();
                        let mut s = sh.borrow_mut();
                        s.acked = s.sent;
                    };
                    for op in ops {
                        if *op == Op::Commit {
                            commit(w);
                        } else if let Err(f) = w.apply(op) {
                            sh.borrow_mut().err = Some(f);
                            return;
                        } else {
                            if w.nodes.len() > sh.borrow().obs.len() {
                                sh.borrow_mut().obs.push(w.nodes.last().unwrap().obs.clone());
                            }
                            if self.commit_each {
                                commit(w);
                            }
                        }
                    }
                    if matches!(end, End::Graph | End::Both) {
                        w.graph.0 = None;
                    }
                }
            };
            let audio = {
                let (proc, sh, m0) = (proc.clone(), sh.clone(), m0.clone());
                move || {
                    let Some(mut m) = m0 else { return };
                    let mut pb = proc.borrow_mut();
                    let Some(p) = pb.as_mut() else { return };
                    for _ in 0..self.blocks {
                        let lo = sh.borrow().acked;
                        let input = m.input();
                        let ins: Vec<&[S]> = input.iter().map(|v| v.as_slice()).collect();
                        let before = alloc::audio_counts();
                        on_audio(|| p.run(&ins));
                        let after = alloc::audio_counts();
                        let ob = p.output_block();
                        let outs = (0..self.cfg.nout).map(|o| knaster_core::BlockRead::channel_as_slice(&*ob, o).to_vec()).collect();
                        let mut s = sh.borrow_mut();
                        let hi = s.sent;
                        let fr = s.obs.iter().map(|o| o.frames.load(SeqCst)).collect();
                        s.blocks.push((lo, hi, outs, fr));
                        m.blocks += 1;
                        if self.cfg.check_alloc && before != after {
                            s.err = Some(Fail { key: "audio-alloc".into(), msg: format!("{} allocations, {} frees, {} locks on the audio thread", after.0 - before.0, after.1 - before.1, after.2 - before.2) });
                        }
                    }
                    if matches!(end, End::Proc | End::Both) {
                        *pb = None;
                    }
                }
            };
            let (result, delta0, outs_seen, adj, schedules) = (&result, &delta0, &outs_seen, &adj, &schedules);
            let check = move |o: &Outcome| {
                let r = (|| -> Result<(), Fail> {
                    let sched = format!("schedule {:?}", o.order);
                    if o.deadlock {
                        return fail("deadlock", format!("both threads wait forever; {sched}"));
                    }
                    if !o.panicked.is_empty() {
                        return fail("panic", format!("thread {:?} (0 control, 1 audio): {}; {sched}", o.panicked, last_panic()));
                    }
                    let mut s = sh.borrow_mut();
                    if let Some(f) = s.err.take() {
                        return fail(f.key, format!("{}; {sched}", f.msg));
                    }
                    let mut wb = world.borrow_mut();
                    let w = wb.as_mut().unwrap();
                    // which version did each block play?
                    let mut cands: Vec<(usize, Model, Vec<usize>)> = vec![(0, m0.clone().unwrap(), vec![])];
                    for (b, (lo, hi, outs, fr)) in s.blocks.iter().enumerate() {
                        let mut next: Vec<(usize, Model, Vec<usize>)> = vec![];
                        for (v, m, h) in &cands {
                            for v2 in (*v).max(*lo)..=*hi {
                                let mut m2 = m.clone();
                                m2.kinds = w.m.kinds.clone();
                                m2.st.resize(m2.kinds.len(), (0, [0.0; 2]));
                                let want = m2.block(&s.versions[v2])?;
                                let same = m2.st.iter().enumerate().all(|(i, (f, _))| fr.get(i).copied().unwrap_or(0) == *f);
                                if same && &want == outs && !next.iter().any(|(a, b, _)| *a == v2 && *b == m2) {
                                    let mut h = h.clone();
                                    h.push(v2);
                                    next.push((v2, m2, h));
                                }
                            }
                        }
                        if next.is_empty() {
                            let mut all = vec![];
                            for (v, st) in s.versions.iter().enumerate() {
                                let mut m2 = cands[0].1.clone();
                                m2.kinds = w.m.kinds.clone();
                                m2.st.resize(m2.kinds.len(), (0, [0.0; 2]));
                                let o = m2.block(st)?;
                                all.push((v, o, m2.st.iter().map(|x| x.0).collect::<Vec<_>>()));
                            }
                            return fail(
                                "version",
                                format!("block {} output {:?} with node frame counts {fr:?}, which is no committed version in {}..={} (earlier blocks played {:?}; the versions would output {:?}); {sched}", b + 1, outs, lo, hi, cands[0].2, all),
                            );
                        }
                        cands = next;
                    }
                    {
                        let l = alloc::live().0;
                        outs_seen.borrow_mut().insert(cands[0].2.clone());
                        adj.set(alloc::live().0 - l);
                    }
                    w.proc = proc.borrow_mut().take();
                    // settle
                    if w.graph.0.is_some() && w.proc.is_some() {
                        for k in 0..4 {
                            if k > 1 {
                                w.touch();
                            }
                            w.commit();
                            if k == 3 {
                                break;
                            }
                            let p = w.proc.as_mut().unwrap();
                            let input = cands[0].1.input();
                            let ins: Vec<&[S]> = input.iter().map(|v| v.as_slice()).collect();
                            on_audio(|| p.run(&ins));
                            let ob = p.output_block();
                            let outs: Vec<Vec<S>> = (0..self.cfg.nout).map(|o| knaster_core::BlockRead::channel_as_slice(&*ob, o).to_vec()).collect();
                            let mut next = vec![];
                            for (v, mut m, h) in std::mem::take(&mut cands) {
                                m.kinds = w.m.kinds.clone();
                                m.st.resize(m.kinds.len(), (0, [0.0; 2]));
                                let want = m.block(&w.com)?;
                                if want == outs && m.st.iter().zip(&w.nodes).all(|(s, n)| n.obs.frames.load(SeqCst) == s.0) {
                                    next.push((v, m, h));
                                }
                            }
                            check!(!next.is_empty(), "settled-version", "block {} after both threads finished outputs {outs:?}, not what the last commit computes; {sched}", self.blocks + k + 1);
                            cands = next;
                        }
                        for (i, n) in w.nodes.iter().enumerate() {
                            let d = n.obs.drops.load(SeqCst);
                            check!(w.pend_live(i) || d == 1, "not-freed", "node {i} was removed and its removal applied, but after three more commits it is dropped {d} times; {sched}");
                        }
                        w.check_count()?;
                    }
                    if o.steps % 2 == 0 {
                        w.graph.0 = None;
                        w.proc = None;
                    } else {
                        w.proc = None;
                        w.graph.0 = None;
                    }
                    for (i, n) in w.nodes.iter().enumerate() {
                        let d = n.obs.drops.load(SeqCst);
                        check!(d == 1, "final-drop", "node {i} was dropped {d} times after everything was dropped; {sched}");
                        check!(!n.obs.dropped_on_audio.load(SeqCst), "drop-on-audio", "node {i} was dropped while processing a block; {sched}");
                        check!(!n.obs.used_after_drop.load(SeqCst), "use-after-drop", "node {i} was processed after its drop; {sched}");
                    }
                    Ok(())
                })();
                let ok = match r {
                    Ok(()) => true,
                    Err(f) => {
                        *result.borrow_mut() = Some(f);
                        false
                    }
                };
                if !ok {
                    alloc::quarantine_end();
                    return false;
                }
                *world.borrow_mut() = None;
                *sh.borrow_mut() = Shared::default();
                let bad = alloc::quarantine_end();
                if bad > 0 {
                    *result.borrow_mut() = Some(Fail { key: "write-after-free".into(), msg: format!("{bad} freed memory blocks were written to; schedule {:?}", o.order) });
                    return false;
                }
                // memory still held: the same in every schedule (the first one is compared with nothing:
                // the explorer's own vectors differ there)
                schedules.set(schedules.get() + 1);
                if schedules.get() > 1 {
                    let d = alloc::live().0 - live0.0 - adj.get();
                    match delta0.get() {
                        None => delta0.set(Some(d)),
                        Some(x) if x != d => {
                            *result.borrow_mut() = Some(Fail { key: "leak".into(), msg: format!("{} memory blocks more than after another schedule stay allocated after graph and processor were dropped; schedule {:?}", d - x, o.order) });
                            return false;
                        }
                        _ => {}
                    }
                }
                true
            };
            (vec![Box::new(control) as Box<dyn FnOnce()>, Box::new(audio)], Box::new(check))
        });
        rec.transitions += steps;
        rec.count("schedules", n);
        rec.count("distinct version histories", outs_seen.borrow().len() as u64);
        rec.state(&(case, self.name.as_str()));
        match result.into_inner() {
            None => Ok(()),
            Some(f) => Err(f),
        }
    }
}

// ---------------------------------------------------------------- G06 / G05
fn conc(name: &str, cfg: Cfg, setup: Vec<Op>, alphabets: Vec<Vec<Op>>, blocks: usize, bound: usize, ends: &[End]) -> ConcSpace {
    ConcSpace { name: name.into(), cfg, setup, alphabets, commit_each: true, blocks, bound, ends: ends.to_vec() }
}
/// Commits pile up while no block is processed; all words over {real commit, idle commit, block}.
struct Pile {
    len: usize,
}
impl Space for Pile {
    fn name(&self) -> String {
        "pending-commits".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.is_empty() { 4 } else if p.len() <= self.len { 4 } else { 0 }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("ring capacity {}; {:?} (0 push+commit, 1 free+commit, 2 idle commit, 3 block)", c[0] + 1, &c[1..])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let cap = c[0] as usize + 1;
        let mut cfg = Cfg::new(2, 1, 2);
        cfg.ring = cap;
        cfg.check_alloc = true;
        let mut w = World::new(&cfg);
        let mut pending = 0;
        for x in &c[1..] {
            let n = w.nodes.len();
            match x {
                0 | 1 => {
                    if pending == cap {
                        return Ok(());
                    }
                    if *x == 0 {
                        w.apply(&Op::Push(k(1, 1)))?;
                        w.apply(&Op::Conn(R::N(n as u8), 0, R::G, (n % 2) as u16, Mode::Add))?;
                        if n > 0 && w.pend_live(n - 1) {
                            w.apply(&Op::Conn(R::N(n as u8 - 1), 0, R::N(n as u8), 0, Mode::Add))?;
                        }
                    } else {
                        let Some(v) = (0..n).find(|i| w.pend_live(*i)) else { return Ok(()) };
                        w.apply(&Op::Free(R::N(v as u8)))?;
                    }
                    w.commit();
                    pending += 1;
                }
                2 => w.commit(),
                _ => {
                    w.run()?;
                    pending = 0;
                }
            }
            rec.step();
        }
        w.run()?;
        rec.state(&(c[0], w.pend.clone()));
        Ok(())
    }
}
pub fn g06(run: &Run) {
    run.assume("sequentially consistent memory: the scheduler switches at every atomic access, lock and ring position access, in program order");
    run.explore(&conc("edits-x-blocks", Cfg::new(2, 1, 2), five()[..3].to_vec(), seq(&reduced_alphabet(), 2), 2, run.pick(3, 6), &[End::Neither]));
    run.explore(&conc("three-edits-x-blocks", Cfg::new(2, 1, 2), five()[..3].to_vec(), seq(&reduced_alphabet(), 3), 2, run.pick(1, 3), &[End::Neither]));
    run.explore(&conc("all-edits-x-blocks", Cfg::new(4, 1, 2), five(), vec![full_alphabet()], 3, run.pick(5, 8), &[End::Neither]));
    let mut s = conc("batched-edits-x-blocks", Cfg::new(2, 1, 2), five()[..3].to_vec(), vec![reduced_alphabet(), reduced_alphabet(), vec![Op::Commit]], 3, run.pick(3, 5), &[End::Neither]);
    s.commit_each = false;
    run.explore(&s);
    run.explore(&Pile { len: run.pick(8, 11) });
}
/// Exact accounting of the memory of single-threaded edit histories.
struct Leaks(OpSpace);
impl Space for Leaks {
    fn name(&self) -> String {
        self.0.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        self.0.arity(p)
    }
    fn describe(&self, c: &[u16]) -> String {
        self.0.describe(c)
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let mut quiet = Rec { quiet: true, ..Default::default() };
        alloc::quarantine_start();
        let a = alloc::live();
        let r = self.0.run(c, &mut quiet);
        let b = alloc::live();
        let bad = alloc::quarantine_end();
        r?;
        check!(a == b, "leak", "{} memory blocks ({} bytes) stay allocated after graph and processor were dropped", b.0 - a.0, b.1 - a.1);
        check!(bad == 0, "write-after-free", "{bad} freed memory blocks were written to");
        rec.transitions += quiet.transitions;
        rec.state(&c);
        Ok(())
    }
}
/// Repeating an edit cycle forever holds no more memory.
struct Steady {
    cycles: Vec<(&'static str, Vec<Op>)>,
    reps: usize,
}
impl Space for Steady {
    fn name(&self) -> String {
        "steady-memory".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        [self.cycles.len(), 2, 2].get(p.len()).copied().unwrap_or(0)
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("repeat {:?}, {} each", self.cycles[c[0] as usize].0, ["commit and block", "commit twice and block"][c[1] as usize])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let cfg = Cfg::new(2, 1, 2);
        let mut w = World::new(&cfg);
        for op in &five()[..3] {
            w.apply(op)?;
        }
        w.commit();
        w.run()?;
        let mut hist = Vec::with_capacity(8);
        let n0 = w.nodes.len() as u8;
        for r in 0..self.reps {
            for op in &self.cycles[c[0] as usize].1 {
                // node 9 stands for the node pushed in this cycle
                let sub = |x: R| if x == R::N(9) { R::N(w.nodes.len() as u8 - 1) } else { x };
                let op = match *op {
                    Op::Conn(a, b, d, e, m) => Op::Conn(sub(a), b, sub(d), e, m),
                    Op::Free(a) => Op::Free(sub(a)),
                    Op::Par(a, b, d, p, x) => Op::Par(sub(a), b, sub(d), p, x),
                    o => o,
                };
                w.apply(&op)?;
                if c[2] == 1 {
                    w.commit();
                    w.run()?;
                }
            }
            for _ in 0..=c[1] {
                w.commit();
            }
            w.run()?;
            rec.step();
            if (r + 1) % 10 == 0 {
                for _ in 0..3 {
                    w.commit();
                    w.run()?;
                }
                // forget the harness's record of dead nodes
                while w.nodes.len() as u8 > n0 && w.nodes.last().unwrap().obs.drops.load(SeqCst) == 1 && !w.pend_live(w.nodes.len() - 1) {
                    w.forget_last();
                }
                check!(w.nodes.len() as u8 == n0, "not-freed", "a removed node was not dropped: {} nodes are left after three more commits and blocks", w.nodes.len());
                w.shrink();
                hist.push(alloc::live().0);
            }
        }
        check!(hist[2] <= hist[1], "grows", "the number of allocated memory blocks keeps growing when the cycle is repeated; after 10, 20, 30 times: {hist:?}");
        Ok(())
    }
}
pub fn g05(run: &Run) {
    run.assume("sequentially consistent memory: the scheduler switches at every atomic access, lock and ring position access, in program order");
    let ends = [End::Neither, End::Graph, End::Proc, End::Both];
    let mut frees: Vec<Op> = reduced_alphabet().into_iter().filter(|o| matches!(o, Op::Free(..) | Op::DiscOut(..) | Op::DiscIn(..) | Op::Conn(_, _, _, _, Mode::Fb) | Op::Conn(_, _, _, _, Mode::Rep))).collect();
    frees.push(Op::Push(k(1, 1)));
    frees.push(Op::Conn(R::N(1), 0, R::G, 0, Mode::Add));
    frees.push(Op::Conn(R::N(0), 0, R::G, 0, Mode::Add));
    run.explore(&conc("free-x-blocks", Cfg::new(2, 1, 2), five()[..3].to_vec(), seq(&frees, 2), 2, run.pick(2, 5), &ends));
    run.explore(&conc("free3-x-blocks", Cfg::new(2, 1, 2), five()[..3].to_vec(), seq(&frees, 3), 2, run.pick(1, 3), &ends));
    run.explore(&conc("all-edits-x-drop", Cfg::new(4, 1, 2), five(), vec![full_alphabet()], 2, run.pick(4, 7), &ends));
    use Policy::*;
    let leak = |name: &str, al: Vec<Vec<Op>>| Leaks(OpSpace { name: name.into(), cfg: Cfg::new(2, 1, 2), setup: five(), alphabets: al, policies: vec![EachRun, EachCommit, Single], after: nothing, foreign: false });
    run.explore(&leak("leaks-full-d2", seq(&full_alphabet(), 2)));
    run.explore(&leak("leaks-reduced-d3", seq(&reduced_alphabet(), run.pick(3, 4))));
    use Mode::*;
    use R::*;
    let n9 = N(9);
    let mut push = vec![Op::Push(k(1, 1)), Op::Conn(N(0), 0, n9, 0, Add), Op::Conn(n9, 0, G, 0, Add)];
    push.push(Op::Free(n9));
    run.explore(&Steady {
        reps: 30,
        cycles: vec![
            ("push, connect, free", push),
            ("push, feedback, free", vec![Op::Push(k(1, 1)), Op::Conn(n9, 0, N(1), 0, Fb), Op::Conn(N(1), 0, n9, 0, Fb), Op::Free(n9)]),
            ("connect, replace", vec![Op::Conn(N(0), 0, N(1), 0, Add), Op::Conn(N(0), 0, N(1), 0, Add), Op::Conn(N(0), 0, N(1), 0, Rep)]),
            ("connect, disconnect", vec![Op::Conn(N(0), 0, N(1), 0, Add), Op::Conn(N(2), 0, N(1), 0, Add), Op::DiscIn(N(1), 0)]),
            ("feedback, disconnect source", vec![Op::Conn(N(1), 0, N(1), 0, Fb), Op::Conn(N(0), 0, N(1), 0, Add), Op::DiscOut(N(1), 0), Op::DiscOut(N(0), 0)]),
            ("parameter, disconnect source", vec![Op::Par(N(0), 0, N(1), Prm::I(0), false), Op::Par(N(2), 0, N(1), Prm::I(0), false), Op::DiscOut(N(0), 0), Op::DiscOut(N(2), 0)]),
            ("push, parameter, free", vec![Op::Push(k(0, 1)), Op::Par(n9, 0, N(1), Prm::I(0), false), Op::Par(N(0), 0, N(1), Prm::I(0), false), Op::Free(n9), Op::DiscOut(N(0), 0)]),
            ("graph input add, disconnect", vec![Op::Conn(G, 0, G, 0, Add), Op::Conn(G, 0, G, 0, Add), Op::DiscIn(G, 0)]),
        ],
    });
}
/// The audio side allocates, frees and locks nothing, whatever is going on.
pub fn g07(run: &Run) {
    use Policy::*;
    run.assume("sequentially consistent memory in the concurrent spaces");
    run.assume("channel capacities are not exceeded");
    let c = || {
        let mut c = Cfg::new(2, 1, 2);
        c.check_alloc = true;
        c
    };
    let sp = |name: &str, setup: Vec<Op>, al: Vec<Vec<Op>>, pol: &[Policy]| OpSpace { name: name.into(), cfg: c(), setup, alphabets: al, policies: pol.to_vec(), after: nothing, foreign: false };
    run.explore(&sp("alloc-full-d2", five(), seq(&full_alphabet(), 2), &[EachRun, EachCommit, Single]));
    run.explore(&sp("alloc-reduced", five()[..3].to_vec(), seq(&reduced_alphabet(), run.pick(3, 4)), &[EachRun, EachCommit]));
    run.explore(&sp("alloc-feedback", five()[..3].to_vec(), seq(&feedback_alphabet(), 2), &[EachRun, EachCommit]));
    let a = vec![Op::Commit, Op::Run, Op::Push(kar(1, 1)), Op::Conn(R::N(0), 0, R::G, 0, Mode::Add), Op::Par(R::N(0), 0, R::N(1), Prm::I(0), false), Op::Free(R::N(0)), Op::Free(R::N(1)), Op::Conn(R::N(1), 0, R::N(1), 0, Mode::Fb)];
    run.explore(&sp("alloc-commit-run", vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1))], seq(&a, run.pick(5, 7)), &[Explicit]));
    let all: Vec<usize> = (0..crate::shapes::FAMILIES.len()).collect();
    crate::shapes::explore(run, "shapes", &all, crate::shapes::Judge::Alloc, run.pick(4, 16));
    // edits racing with blocks
    run.explore(&conc("alloc-edits-x-blocks", c(), five()[..3].to_vec(), seq(&reduced_alphabet(), 2), 2, run.pick(1, 3), &[End::Neither, End::Graph]));
    run.explore(&conc("alloc-all-edits-x-blocks", c(), five(), vec![full_alphabet()], 3, run.pick(2, 5), &[End::Neither, End::Graph]));
    run.explore(&Pile { len: run.pick(6, 9) });
    crate::sched::g07_spaces(run);
    // the scenarios of other properties
    CHECK_ALLOC.store(true, SeqCst);
    crate::doneact::g11_spaces(run, run.pick(3, 4), run.pick(5, 6));
    crate::subg::g12_spaces(run, [run.pick(3, 4), run.pick(3, 3), run.pick(3, 4)]);
    run.explore(&crate::proc::Runs { blocks: 4 });
    crate::chunks::g07_spaces(run);
    CHECK_ALLOC.store(false, SeqCst);
}
