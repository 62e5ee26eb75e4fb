//! G01 and relatives: exhaustive edit sequences on the real graph against the reference model.
use crate::common::*;
use crate::world::*;
use Mode::*;
use R::*;

fn pairs(src: &[(R, u16)], sink: &[(R, u16)], modes: &[Mode]) -> Vec<Op> {
    let mut v = vec![];
    for &(s, c) in src {
        for &(d, e) in sink {
            for &m in modes {
                v.push(Op::Conn(s, c, d, e, m));
            }
        }
    }
    v
}
/// generator 0, filter 1 (audio-rate parameters), 2-in/2-out 2, sink 3, island 4
pub fn five() -> Vec<Op> {
    vec![Op::Push(k(0, 1)), Op::Push(kar(1, 1)), Op::Push(k(2, 2)), Op::Push(k(1, 0)), Op::Push(k(0, 0))]
}
pub fn full_alphabet() -> Vec<Op> {
    let src = [(N(0), 0), (N(1), 0), (N(2), 0), (N(2), 1), (G, 0)];
    let sink = [(N(1), 0), (N(2), 0), (N(2), 1), (N(3), 0), (G, 0), (G, 1)];
    let mut v = pairs(&src, &sink, &[Add, Rep]);
    v.extend(pairs(&src[..4], &sink[..3], &[Fb]));
    v.extend([Op::Conn(N(2), 0, N(1), 0, FbRep), Op::Conn(N(1), 0, N(2), 1, FbRep)]);
    v.extend(sink.iter().map(|s| Op::DiscIn(s.0, s.1)));
    v.extend(src.iter().map(|s| Op::DiscOut(s.0, s.1)));
    v.extend((0..5).map(|i| Op::Free(N(i))));
    for s in [(N(0), 0), (N(2), 1)] {
        v.push(Op::Par(s.0, s.1, N(1), Prm::I(0), false));
        v.push(Op::Par(s.0, s.1, N(1), Prm::D("beta"), true));
    }
    v.push(Op::Push(k(1, 1)));
    v.push(Op::Conn(N(0), 0, N(5), 0, Add));
    v.push(Op::Conn(N(5), 0, G, 0, Add));
    v
}
pub fn reduced_alphabet() -> Vec<Op> {
    let mut v = pairs(&[(N(0), 0), (N(1), 0), (N(2), 1), (G, 0)], &[(N(1), 0), (N(2), 0), (G, 0)], &[Add]);
    v.extend([
        Op::Conn(N(2), 0, G, 1, Add),
        Op::Conn(N(0), 0, G, 0, Rep),
        Op::Conn(N(2), 0, G, 0, Rep),
        Op::Conn(N(0), 0, N(1), 0, Rep),
        Op::Conn(N(2), 0, N(1), 0, Fb),
        Op::Conn(N(1), 0, N(1), 0, Fb),
        Op::DiscIn(N(1), 0),
        Op::DiscIn(G, 0),
        Op::DiscOut(N(0), 0),
        Op::DiscOut(N(2), 1),
        Op::DiscOut(G, 0),
        Op::Free(N(0)),
        Op::Free(N(1)),
        Op::Free(N(2)),
        Op::Par(N(0), 0, N(1), Prm::I(0), false),
        Op::Par(N(2), 0, N(1), Prm::I(0), false),
    ]);
    v
}
pub fn g01(run: &Run) {
    use Policy::*;
    run.assume("node behaviour is represented by instrumented units whose output depends on identity, elapsed frames, parameters and every input sample");
    let full = full_alphabet();
    run.explore(&OpSpace {
        name: "full-d2".into(),
        cfg: Cfg::new(4, 1, 2),
        setup: five(),
        alphabets: seq(&full, 2),
        policies: vec![EachRun, EachCommit, Single],
        after: nothing,
        foreign: false,
    });
    run.explore(&OpSpace {
        name: "full-d3".into(),
        cfg: Cfg::new(2, 1, 2),
        setup: five(),
        alphabets: seq(&full, 3),
        policies: vec![EachRun, Single],
        after: nothing,
        foreign: false,
    });
    run.explore(&OpSpace {
        name: "reduced-deep".into(),
        cfg: Cfg::new(2, 1, 2),
        setup: five()[..3].to_vec(),
        alphabets: seq(&reduced_alphabet(), run.pick(4, 5)),
        policies: vec![EachRun, Single],
        after: nothing,
        foreign: false,
    });
    let all: Vec<usize> = (0..crate::shapes::FAMILIES.len()).collect();
    crate::shapes::explore(run, "shapes", &all, crate::shapes::Judge::Output, run.pick(9, 24));
}

pub fn space(name: &str, cfg: Cfg, setup: Vec<Op>, alphabets: Vec<Vec<Op>>, policies: &[Policy]) -> OpSpace {
    OpSpace { name: name.into(), cfg, setup, alphabets, policies: policies.to_vec(), after: nothing, foreign: false }
}
fn cross(f: impl Fn(&mut Vec<Op>)) -> Vec<Op> {
    let mut v = vec![];
    f(&mut v);
    v
}

// ---------------------------------------------------------------- G02
pub fn feedback_alphabet() -> Vec<Op> {
    cross(|v| {
        let n = [(N(0), 0), (N(1), 0), (N(2), 1)];
        let d = [(N(0), 0), (N(1), 0), (N(2), 0)];
        v.extend(pairs(&n, &d, &[Add, Fb]));
        v.extend([
            Op::Conn(N(0), 0, N(1), 0, FbRep),
            Op::Conn(N(2), 1, N(0), 0, FbRep),
            Op::Conn(N(1), 0, N(1), 0, FbRep),
            Op::Conn(N(2), 0, N(2), 1, Fb),
            Op::Par(N(0), 0, N(1), Prm::I(0), false),
            Op::Par(N(2), 1, N(1), Prm::D("beta"), true),
            Op::Par(N(1), 0, N(1), Prm::I(1), false),
            Op::Conn(N(1), 0, G, 0, Add),
            Op::Conn(N(2), 0, G, 1, Add),
            Op::DiscIn(N(0), 0),
            Op::DiscIn(N(1), 0),
            Op::DiscIn(G, 0),
            Op::DiscOut(N(0), 0),
            Op::DiscOut(N(2), 1),
            Op::Free(N(0)),
            Op::Free(N(2)),
        ]);
    })
}
pub fn g02(run: &Run) {
    use Policy::*;
    let nodes = vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1)), Op::Push(k(2, 2))];
    let a = feedback_alphabet();
    let mut c = Cfg::new(3, 1, 2);
    c.check_refusal = false;
    run.explore(&space("fb-d3", c, [nodes.clone(), vec![Op::Conn(N(0), 0, G, 0, Add)]].concat(), seq(&a, 3), &[EachRun, EachCommit, Single]));
    let looped = [nodes.clone(), vec![Op::Conn(N(1), 0, N(0), 0, Fb), Op::Conn(N(0), 0, N(1), 0, Add), Op::Conn(N(0), 0, N(2), 0, Fb), Op::Conn(N(2), 1, N(2), 1, Fb), Op::Conn(N(2), 0, G, 1, Add)]].concat();
    run.explore(&space("fb-loop-d3", Cfg::new(1, 1, 2), looped, seq(&a, 3), &[EachRun, Single]));
    let small: Vec<Op> = a.iter().copied().filter(|o| !matches!(o, Op::Conn(N(2), ..) | Op::Conn(_, _, N(2), ..) | Op::DiscOut(N(2), _) | Op::Free(N(2)) | Op::Par(N(2), ..))).collect();
    run.explore(&space("fb-two-deep", Cfg::new(2, 1, 2), nodes[..2].to_vec(), seq(&small, run.pick(5, 6)), &[EachRun, Single]));
    crate::shapes::explore(run, "feedback shapes", &[11, 15], crate::shapes::Judge::Output, run.pick(16, 40));
    if run.thorough() {
        run.explore(&space("fb-d4", Cfg::new(2, 1, 2), nodes, seq(&a, 4), &[EachRun, Single]));
    }
}

// ---------------------------------------------------------------- G03
pub fn invalid_alphabet(small: bool) -> Vec<Op> {
    cross(|v| {
        let who = [N(0), N(1), N(2), Foreign, G];
        let chs: &[u16] = if small { &[0, 2] } else { &[0, 1, 2, 65535] };
        let ends: Vec<(R, u16)> = who.iter().flat_map(|r| chs.iter().map(move |c| (*r, *c))).collect();
        v.extend(pairs(&ends, &ends, if small { &[Add, FbRep] } else { &[Add, Rep, Fb, FbRep] }));
        for e in &ends {
            v.push(Op::DiscIn(e.0, e.1));
            v.push(Op::DiscOut(e.0, e.1));
        }
        for r in who {
            if r == G {
                continue;
            }
            v.push(Op::Free(r));
            v.push(Op::Mortal(r, false));
            let ps: &[Prm] = if small { &[Prm::I(0), Prm::I(2), Prm::D("nope")] } else { &[Prm::I(0), Prm::I(1), Prm::I(2), Prm::I(3), Prm::I(65535), Prm::D("alpha"), Prm::D("beta"), Prm::D("nope"), Prm::D("")] };
            for &p in ps {
                v.push(Op::Set(r, p, 3));
                for s in &ends {
                    if s.0 == G {
                        continue;
                    }
                    v.push(Op::Par(s.0, s.1, r, p, false));
                    if !small {
                        v.push(Op::Par(s.0, s.1, r, p, true));
                    }
                }
            }
        }
    })
}
pub fn g03(run: &Run) {
    use Policy::*;
    // node 0 live, node 1 freed, node 2 live
    let base = vec![Op::Push(k(1, 1)), Op::Push(k(2, 2)), Op::Push(kar(2, 2)), Op::Conn(N(0), 0, N(2), 0, Add), Op::Conn(N(2), 1, G, 0, Add), Op::Conn(N(1), 0, G, 1, Add)];
    let mk = || {
        let mut c = Cfg::new(2, 2, 2);
        c.check_refusal = true;
        c
    };
    let all = invalid_alphabet(false);
    let small = invalid_alphabet(true);
    let mid: Vec<Op> = vec![
        Op::Free(N(1)),
        Op::Free(N(0)),
        Op::Free(N(2)),
        Op::Mortal(N(0), false),
        Op::Conn(N(2), 0, N(0), 0, Fb),
        Op::Conn(N(1), 0, N(2), 1, Add),
        Op::Conn(N(0), 0, N(2), 0, Add),
        Op::Conn(G, 1, N(2), 0, Add),
        Op::Par(N(0), 0, N(2), Prm::I(0), false),
        Op::Par(N(1), 1, N(2), Prm::I(0), false),
        Op::DiscOut(N(2), 1),
    ];
    for (name, extra) in [("alive", vec![]), ("freed", vec![Op::Free(N(1))]), ("freed-gone", vec![Op::Free(N(1)), Op::Commit, Op::Run, Op::Commit])] {
        let mut sp = space(&format!("{name}-mid-any"), mk(), [base.clone(), extra.clone()].concat(), vec![mid.clone(), all.clone()], &[EachRun, Single]);
        sp.foreign = true;
        run.explore(&sp);
        let mut sp = space(&format!("{name}-any-mid"), mk(), [base.clone(), extra.clone()].concat(), vec![all.clone(), mid.clone()], &[EachRun, Single]);
        sp.foreign = true;
        run.explore(&sp);
        let mut sp = space(&format!("{name}-small-d2"), mk(), [base.clone(), extra.clone()].concat(), seq(if run.thorough() { &all } else { &small }, 2), &[Single]);
        sp.foreign = true;
        run.explore(&sp);
        if run.thorough() {
            let mut sp = space(&format!("{name}-mid-mid-any"), mk(), [base.clone(), extra].concat(), vec![mid.clone(), mid.clone(), all.clone()], &[EachRun, Single]);
            sp.foreign = true;
            run.explore(&sp);
        }
    }
}

// ---------------------------------------------------------------- G04
pub fn g04(run: &Run) {
    use Policy::*;
    let a = vec![
        Op::Commit,
        Op::Run,
        Op::Push(k(1, 1)),
        Op::Conn(N(0), 0, N(1), 0, Add),
        Op::Conn(N(1), 0, N(0), 0, Add),
        Op::Conn(N(0), 0, G, 0, Add),
        Op::Conn(N(3), 0, G, 0, Rep),
        Op::Conn(N(3), 0, N(0), 0, Add),
        Op::Conn(N(1), 0, N(1), 0, Fb),
        Op::DiscOut(N(0), 0),
        Op::Free(N(0)),
        Op::Free(N(1)),
        Op::Free(N(3)),
    ];
    let nodes = vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1)), Op::Push(k(0, 0))];
    run.explore(&space("commit-run-d5", Cfg::new(2, 1, 2), nodes.clone(), seq(&a, 5), &[Explicit]));
    let s = vec![Op::Commit, Op::Run, Op::Push(k(0, 1)), Op::Conn(N(0), 0, G, 0, Add), Op::Free(N(0)), Op::Free(N(1)), Op::Conn(N(1), 0, G, 0, Rep)];
    run.explore(&space("commit-run-deep", Cfg::new(1, 0, 2), nodes[..2].to_vec(), seq(&s, run.pick(7, 9)), &[Explicit]));
    // nodes without any channels
    let z = vec![Op::Commit, Op::Run, Op::Push(k(0, 0)), Op::Push(k(1, 0)), Op::Push(k(0, 1)), Op::Free(N(0)), Op::Free(N(1)), Op::Free(N(2))];
    run.explore(&space("no-channels", Cfg::new(1, 0, 2), vec![], seq(&z, run.pick(6, 7)), &[Explicit]));
    // many commits between two blocks around one edit
    let e = full_alphabet();
    let cr = vec![Op::Commit, Op::Run];
    run.explore(&space("edit-commits-edit", Cfg::new(2, 1, 2), five(), vec![e.clone(), cr.clone(), e.clone(), cr.clone(), cr], &[Explicit]));
    if run.thorough() {
        run.explore(&space("commit-run-d6", Cfg::new(2, 1, 2), nodes, seq(&a, 6), &[Explicit]));
    }
}

// ---------------------------------------------------------------- G10
pub fn g10(run: &Run) {
    use Policy::*;
    let nodes = vec![Op::Push(k(0, 1)), Op::Push(kar(1, 1)), Op::Push(kar(1, 2)), Op::Push(k(1, 1)), Op::Conn(N(1), 0, G, 0, Add), Op::Conn(N(2), 1, G, 1, Add)];
    let a = cross(|v| {
        for (s, c) in [(N(0), 0), (N(3), 0), (N(2), 1)] {
            for p in [Prm::I(0), Prm::D("beta")] {
                v.push(Op::Par(s, c, N(1), p, false));
                v.push(Op::Par(s, c, N(1), p, true));
            }
        }
        v.extend([
            Op::Par(N(0), 0, N(2), Prm::I(1), false),
            Op::Par(N(1), 0, N(2), Prm::I(0), true),
            Op::Set(N(1), Prm::I(0), 5),
            Op::Set(N(1), Prm::I(1), 6),
            Op::Set(N(2), Prm::I(1), 7),
            Op::DiscOut(N(0), 0),
            Op::DiscOut(N(3), 0),
            Op::DiscOut(N(2), 1),
            Op::Free(N(0)),
            Op::Free(N(1)),
            Op::Free(N(3)),
            Op::Push(k(0, 2)),
            Op::Conn(N(4), 1, G, 0, Add),
            Op::Conn(N(0), 0, N(3), 0, Add),
            Op::Conn(N(0), 0, N(1), 0, Add),
            Op::Conn(N(1), 0, N(3), 0, Fb),
            Op::Conn(N(1), 0, N(3), 0, Add),
            Op::DiscIn(N(1), 0),
        ]);
    });
    run.explore(&space("par-d3", Cfg::new(3, 1, 2), nodes.clone(), seq(&a, 3), &[EachRun, EachCommit, Single]));
    let con = [nodes.clone(), vec![Op::Par(N(0), 0, N(1), Prm::I(0), false), Op::Par(N(2), 1, N(1), Prm::I(0), false), Op::Par(N(3), 0, N(1), Prm::I(1), false), Op::Par(N(0), 0, N(2), Prm::I(1), false)]].concat();
    run.explore(&space("par-connected-d3", Cfg::new(2, 1, 2), con.clone(), seq(&a, 3), &[EachRun, Single]));
    let small: Vec<Op> = a.iter().copied().filter(|o| !matches!(o, Op::Par(_, _, _, Prm::D(_), _) | Op::Set(_, Prm::I(1), _) | Op::Free(N(3)) | Op::DiscOut(N(3), _) | Op::Conn(N(1), ..) | Op::DiscIn(..))).collect();
    run.explore(&space("par-deep", Cfg::new(2, 1, 2), nodes.clone(), seq(&small, run.pick(4, 5)), &[EachRun, Single]));
    crate::shapes::explore(run, "parameter shapes", &[10, 16], crate::shapes::Judge::Output, run.pick(16, 40));
    if run.thorough() {
        run.explore(&space("par-d4", Cfg::new(2, 1, 2), nodes, seq(&a, 4), &[EachRun, Single]));
        run.explore(&space("par-connected-d4", Cfg::new(2, 1, 2), con, seq(&a, 4), &[Single]));
    }
}

// ---------------------------------------------------------------- G14
fn inspect(w: &mut World) -> Result<(), Fail> {
    w.check_inspection()
}
pub fn g14_structure(run: &Run) {
    use Policy::*;
    let mut sp = space("inspect-full-d2", Cfg::new(2, 1, 2), five(), seq(&full_alphabet(), 2), &[EachRun, EachCommit, Single]);
    sp.after = inspect;
    run.explore(&sp);
    let mut sp = space("inspect-reduced", Cfg::new(2, 1, 2), five()[..3].to_vec(), seq(&reduced_alphabet(), run.pick(3, 4)), &[EachRun, EachCommit, Single]);
    sp.after = inspect;
    run.explore(&sp);
    let mut sp = space("inspect-feedback", Cfg::new(2, 1, 2), vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1)), Op::Push(k(2, 2))], seq(&feedback_alphabet(), 3), &[EachRun, Single]);
    sp.after = inspect;
    run.explore(&sp);
    let all: Vec<usize> = (0..crate::shapes::FAMILIES.len()).collect();
    crate::shapes::explore(run, "shapes", &all, crate::shapes::Judge::Inspection, run.pick(5, 16));
    if run.thorough() {
        let mut sp = space("inspect-full-d3", Cfg::new(2, 1, 2), five(), seq(&full_alphabet(), 3), &[EachRun, Single]);
        sp.after = inspect;
        run.explore(&sp);
    }
}

// ---------------------------------------------------------------- G16
fn count(w: &mut World) -> Result<(), Fail> {
    w.check_count()
}
/// A list of edits repeated many times.
struct Cycles {
    name: String,
    setup: Vec<Op>,
    alphabet: Vec<Op>,
    len: usize,
    reps: usize,
}
impl Space for Cycles {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.is_empty() {
            2
        } else if p.len() <= self.len {
            self.alphabet.len()
        } else {
            0
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("{} x {:?} (commit per edit: {})", self.reps, c[1..].iter().map(|i| self.alphabet[*i as usize]).collect::<Vec<_>>(), c[0] == 0)
    }
    fn run(&self, case: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let cfg = Cfg::new(2, 1, 2);
        let mut w = World::new(&cfg);
        for op in &self.setup {
            w.apply(op)?;
        }
        w.commit();
        w.run()?;
        let mut sizes = vec![];
        for _ in 0..self.reps {
            for i in &case[1..] {
                let op = &self.alphabet[*i as usize];
                w.apply(op)?;
                rec.step();
                if case[0] == 0 {
                    w.commit();
                    w.check_count()?;
                    w.run()?;
                }
            }
            w.commit();
            w.check_count()?;
            w.run()?;
            rec.state(&w.pend);
            w.commit();
            w.run()?;
            w.commit();
            let live = w.nodes.iter().filter(|n| n.obs.drops.load(std::sync::atomic::Ordering::SeqCst) == 0).count();
            check!(live == w.pend.user_nodes(), "not-dropped", "{live} nodes are still stored, {} are live", w.pend.user_nodes());
            sizes.push(w.graph.inspection().nodes.len());
        }
        rec.count("repetitions", self.reps as u64);
        Ok(())
    }
}
pub fn g16(run: &Run) {
    use Policy::*;
    let mut sp = space("count-full-d2", Cfg::new(2, 1, 2), five(), seq(&full_alphabet(), 2), &[EachRun, EachCommit, Single]);
    sp.after = count;
    run.explore(&sp);
    let mut sp = space("count-reduced", Cfg::new(2, 1, 2), five()[..3].to_vec(), seq(&reduced_alphabet(), run.pick(4, 5)), &[EachRun, EachCommit, Single]);
    sp.after = count;
    run.explore(&sp);
    let mut sp = space("count-feedback", Cfg::new(1, 1, 2), vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1)), Op::Push(k(2, 2))], seq(&feedback_alphabet(), 3), &[EachRun, EachCommit, Single]);
    sp.after = count;
    run.explore(&sp);
    let a = cross(|v| {
        v.extend([
            Op::Conn(N(0), 0, G, 0, Rep),
            Op::Conn(N(1), 0, G, 0, Add),
            Op::Conn(N(0), 0, N(1), 0, Add),
            Op::Conn(N(0), 0, N(1), 0, Fb),
            Op::Conn(N(1), 0, N(0), 0, FbRep),
            Op::Conn(N(1), 0, N(1), 0, Fb),
            Op::DiscIn(N(1), 0),
            Op::DiscIn(N(0), 0),
            Op::DiscIn(G, 0),
            Op::DiscOut(N(0), 0),
            Op::DiscOut(N(1), 0),
            Op::Par(N(0), 0, N(1), Prm::I(0), false),
            Op::Par(N(0), 0, N(1), Prm::I(0), true),
        ]);
    });
    let all: Vec<usize> = (0..crate::shapes::FAMILIES.len()).collect();
    crate::shapes::explore(run, "shapes", &all, crate::shapes::Judge::Count, run.pick(6, 20));
    run.explore(&Cycles { name: "cycles".into(), setup: vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1))], alphabet: a, len: run.pick(3, 4), reps: 6 });
    if run.thorough() {
        let mut sp = space("count-full-d3", Cfg::new(1, 1, 2), five(), seq(&full_alphabet(), 3), &[EachRun, Single]);
        sp.after = count;
        run.explore(&sp);
    }
}

/// Names, lookup and handles obtained from the inspection.
pub fn g14(run: &Run) {
    g14_structure(run);
    #[derive(Clone, Copy, Debug)]
    enum L {
        Name(u8, &'static str),
        Free(u8),
        Push(Kind),
        Conn(u8, u8),
        Block,
    }
    const A: [L; 14] = [
        L::Name(0, "a"),
        L::Name(1, "b"),
        L::Name(1, "a"),
        L::Name(0, "b"),
        L::Name(2, "a"),
        L::Name(3, "a"),
        L::Name(0, ""),
        L::Free(0),
        L::Free(1),
        L::Push(k(1, 1)),
        L::Push(kar(2, 1)),
        L::Conn(0, 1),
        L::Conn(1, 0),
        L::Block,
    ];
    run.explore(&Product {
        name: "lookup".into(),
        dims: vec![A.len(); run.pick(4, 5)],
        f: |c: &[u16], rec: &mut Rec| {
            use knaster_graph::handle::HandleTrait;
            let cfg = Cfg::new(2, 0, 2);
            let mut w = World::new(&cfg);
            for op in [Op::Push(k(0, 1)), Op::Push(k(1, 1)), Op::Conn(N(0), 0, G, 0, Add), Op::Conn(N(1), 0, G, 1, Add)] {
                w.apply(&op)?;
            }
            w.commit();
            for i in c {
                rec.step();
                match A[*i as usize] {
                    L::Name(n, s) => {
                        let live = w.nodes.get(n as usize).is_some() && w.pend_live(n as usize);
                        let taken = w.names.iter().any(|(o, x)| x == s && *o != n as usize && w.pend_live(*o));
                        if live && !taken {
                            // a later node may take the name of a freed one
                            w.names.retain(|_, x| x != s);
                            w.set_name(n as usize, s);
                        }
                    }
                    L::Free(n) => w.apply(&Op::Free(N(n)))?,
                    L::Push(k) => w.apply(&Op::Push(k))?,
                    L::Conn(a, b) => {
                        if w.pend_live(a as usize) && w.pend_live(b as usize) {
                            w.apply(&Op::Conn(N(a), 0, N(b), 0, Add))?
                        }
                    }
                    L::Block => {
                        w.commit();
                        w.run()?;
                    }
                }
                rec.state(&w.pend);
            }
            w.commit();
            w.check_inspection()?;
            // every handle controls its own node
            let ins = w.graph.inspection();
            let hs = ins.node_handles();
            check!(hs.len() == ins.nodes.len(), "handles", "{} handles for {} nodes", hs.len(), ins.nodes.len());
            for (n, h) in ins.nodes.iter().zip(&hs) {
                check!(h.node_id().key() == n.key && h.inputs() == n.inputs && h.outputs() == n.outputs && h.parameters() == n.parameter_descriptions && h.hints().len() == n.parameter_hints.len(), "handle-meta", "handle of {} differs from its listing", n.name);
                let Some(u) = w.nodes.iter().position(|x| x.id == h.node_id()) else { continue };
                h.set(("beta", 3.0 + u as f64)).map_err(|e| Fail { key: "handle-set".into(), msg: e.to_string() })?;
                w.sets.push((u, 1, 3.0 + u as f64));
            }
            w.run()?;
            for i in 0..w.nodes.len() {
                if !w.pend_live(i) {
                    continue;
                }
                let id = w.nodes[i].id;
                let name = w.names.get(&i).cloned();
                let found = w.graph.edit(|g| {
                    let Some(h) = g.handle(id) else { return Err("not found by id") };
                    let _ = h;
                    if let Some(n) = name {
                        if g.handle_from_name(n.as_str()).is_none() {
                            return Err("not found by name");
                        }
                    }
                    Ok(())
                });
                check!(found.is_ok(), "edit-handle", "node {i}: {found:?}");
                w.graph.set(id, "alpha", 40.0 + i as f64, knaster_graph::Time::asap()).map_err(|e| Fail { key: "set".into(), msg: e.to_string() })?;
                w.sets.push((i, 0, 40.0 + i as f64));
                w.run()?;
            }
            Ok(())
        },
        d: |c| format!("{:?}", c.iter().map(|i| A[*i as usize]).collect::<Vec<_>>()),
    });
}
