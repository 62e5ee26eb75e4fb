//! G11: done actions.
use crate::common::*;
use crate::tu::*;
use crate::world::*;
use knaster_core::typenum::*;
use knaster_core::{BlockRead, Done, PInteger};
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

const BS: usize = 4;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Push {
    Plain,
    With(Done),
    Immortal,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
    /// what A and B report in the block
    Block(Option<(u32, u32)>, Option<(u32, u32)>),
    /// commit the graph of the reporting nodes
    Commit,
    /// commit the graphs around it, outermost first
    CommitOuter,
    /// set the done action of A (0) or B (1)
    Set(usize, Done),
    /// add another node
    Edit,
}
struct Nd {
    uid: u32,
    obs: Arc<Obs>,
    id: NodeId,
    push: Push,
    action: Done,
    /// in the edited structure, the committed one, the running one
    pend: bool,
    com: bool,
    run: bool,
    flagged: bool,
    frames: u64,
    sets: Vec<Done>,
}
struct DoneSpace {
    depth: usize,
    letters: Vec<L>,
    a: Vec<Push>,
    b: Vec<Push>,
    nests: usize,
}
impl Space for DoneSpace {
    fn name(&self) -> String {
        format!("done-actions depth {}", self.depth)
    }
    fn arity(&self, p: &[u16]) -> usize {
        match p.len() {
            0 => self.nests,
            1 => self.a.len(),
            2 => self.b.len(),
            n if n < 3 + self.depth => self.letters.len(),
            _ => 0,
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("nesting {}, A pushed {:?}, B pushed {:?}: {:?}", c[0], self.a[c[1] as usize], self.b[c[2] as usize], c[3..].iter().map(|l| self.letters[*l as usize]).collect::<Vec<_>>())
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let nest = c[0] as usize;
        let mut w = W::new(nest, self.a[c[1] as usize], self.b[c[2] as usize]);
        w.commit_outer()?;
        w.commit()?;
        w.block(None, None)?;
        for l in &c[3..] {
            let l = self.letters[*l as usize];
            if rec.verbose {
                println!("  {l:?}");
            }
            match l {
                L::Block(a, b) => w.block(a, b)?,
                L::Commit => w.commit()?,
                L::CommitOuter => w.commit_outer()?,
                L::Set(n, d) => w.set(n, d)?,
                L::Edit => w.edit(Push::Plain),
            }
            rec.step();
        }
        rec.state(&(nest, w.terminated, w.removed, w.nodes.iter().map(|n| (n.pend, n.com, n.run, n.flagged, n.action as u8)).collect::<Vec<_>>()));
        w.end(c.iter().map(|x| *x as u32).sum())
    }
}
struct W {
    graphs: Vec<Graph<S>>,
    proc: knaster_graph::processor::AudioProcessor<S>,
    nodes: Vec<Nd>,
    sibs: Vec<(u32, Arc<Obs>, u64)>,
    /// id of each graph's node in its parent
    subs: Vec<NodeId>,
    terminated: bool,
    /// the terminated graph was removed from the committed / running parent
    removed_com: bool,
    removed: bool,
    /// and everything in it dropped
    gone: bool,
    blocks: u64,
}
const A: usize = 0;
const B: usize = 1;
const C: usize = 2;
impl W {
    /// let everything settle, then drop it
    fn end(self, order: u32) -> Result<(), Fail> {
        let mut w = self;
        for _ in 0..2 {
            w.block(None, None)?;
            w.commit()?;
            w.commit_outer()?;
        }
        w.block(None, None)?;
        w.commit_outer()?;
        w.commit()?;
        w.block(None, None)?;
        // everything removed and applied is really freed
        for (i, n) in w.nodes.iter().enumerate() {
            let gone = (!n.run && !n.com && !w.removed) || (w.removed && n.run);
            let d = n.obs.drops.load(SeqCst);
            check!(d == gone as u32 || (w.removed && !n.run && d <= 1), "freed", "node {i} was dropped {d} times after being {}", if gone { "removed and settled" } else { "kept" });
        }
        let W { graphs, proc, nodes, sibs, .. } = w;
        if order % 2 == 0 {
            drop(graphs);
            drop(proc);
        } else {
            drop(proc);
            drop(graphs);
        }
        for o in nodes.iter().map(|n| &n.obs).chain(sibs.iter().map(|s| &s.1)) {
            check!(o.drops.load(SeqCst) == 1 && !o.dropped_on_audio.load(SeqCst) && !o.used_after_drop.load(SeqCst), "drop", "a node was dropped {} times, on the audio thread: {}, used after: {}", o.drops.load(SeqCst), o.dropped_on_audio.load(SeqCst), o.used_after_drop.load(SeqCst));
        }
        Ok(())
    }
    fn new(nest: usize, a: Push, b: Push) -> W {
        let mut cfg = Cfg::new(BS, 0, 2);
        cfg.ring = 32;
        let (graph, proc, _l) = make_proc(&cfg);
        let mut graphs = vec![graph];
        let mut sibs = vec![];
        let mut subs = vec![];
        for i in 0..nest {
            let parent = graphs.last_mut().unwrap();
            #[allow(deprecated)]
            let sub = parent.subgraph::<U0, U2>(GraphOptions { name: "sub".into(), ring_buffer_size: 32 });
            let (t, o) = TU::<U0, U1>::new(50 + i as u32);
            #[allow(deprecated)]
            let h = parent.push(t);
            use knaster_graph::handle::HandleTrait;
            parent.connect2(NodeOrGraph::Node(h.node_id()), 0, 0, NodeOrGraph::Graph).unwrap();
            for ch in 0..2 {
                parent.connect2(NodeOrGraph::Node(sub.id()), ch, ch, NodeOrGraph::Graph).unwrap();
            }
            sibs.push((50 + i as u32, o, 0));
            subs.push(sub.id());
            graphs.push(sub);
        }
        let mut w = W { graphs, proc, nodes: vec![], sibs, subs, terminated: false, removed_com: false, removed: false, gone: false, blocks: 0 };
        w.push::<U0>(1, a);
        w.push::<U0>(2, b);
        w.push::<U1>(3, Push::Plain);
        let ids: Vec<NodeId> = w.nodes.iter().map(|n| n.id).collect();
        let g = w.graphs.last_mut().unwrap();
        let n = NodeOrGraph::Node;
        g.connect2(n(ids[A]), 0, 0, n(ids[C])).unwrap();
        g.connect2(n(ids[A]), 0, 1, NodeOrGraph::Graph).unwrap();
        g.connect2(n(ids[B]), 0, 0, NodeOrGraph::Graph).unwrap();
        g.connect2(n(ids[C]), 0, 0, NodeOrGraph::Graph).unwrap();
        w
    }
    fn push<I: knaster_core::Size>(&mut self, uid: u32, push: Push) {
        let (t, obs) = TU::<I, U1>::new(uid);
        let g = self.graphs.last_mut().unwrap();
        let mut ge = knaster_graph::graph_edit::GraphEdit::new(g);
        let (id, action) = match push {
            Push::Plain => (ge.push(t).id(), Done::None),
            Push::With(d) => (ge.push_with_done_action(t, d).id(), d),
            Push::Immortal => (ge.push_with_done_action(t, Done::FreeSelf).id(), Done::FreeSelf),
        };
        // no commit
        let _ = &mut ge;
        std::mem::forget(ge);
        if push == Push::Immortal {
            g.set_mortality(id, false).unwrap();
        }
        self.nodes.push(Nd { uid, obs, id, push, action, pend: true, com: false, run: false, flagged: false, frames: 0, sets: vec![] });
    }
    fn edit(&mut self, push: Push) {
        let uid = 100 + self.nodes.len() as u32;
        self.push::<U0>(uid, push);
        let id = self.nodes.last().unwrap().id;
        self.graphs.last_mut().unwrap().connect2(NodeOrGraph::Node(id), 0, 1, NodeOrGraph::Graph).unwrap();
    }
    fn commit(&mut self) -> Result<(), Fail> {
        let g = self.graphs.last_mut().unwrap();
        if let Err(e) = no_panic(|| g.edit(|_| {})) {
            check!(false, "commit-panic", "{e}");
        }
        for n in &mut self.nodes {
            if n.flagged && n.push != Push::Immortal {
                n.pend = false;
            }
            n.com = n.pend;
        }
        self.inspect()
    }
    fn commit_outer(&mut self) -> Result<(), Fail> {
        let k = self.graphs.len() - 1;
        self.gone |= self.removed;
        for i in 0..k {
            let g = &mut self.graphs[i];
            if let Err(e) = no_panic(|| g.edit(|_| {})) {
                check!(false, "commit-panic", "{e}");
            }
        }
        if self.terminated && k > 0 {
            self.removed_com = true;
        }
        self.inspect()
    }
    fn inspect(&self) -> Result<(), Fail> {
        let g = self.graphs.last().unwrap().inspection();
        for (i, n) in self.nodes.iter().enumerate() {
            let there = g.nodes.iter().any(|x| x.key == n.id.key());
            // before its first commit a node isn't listed
            check!(there == n.com, "inspection", "node {i} is {} the inspection", if there { "still in" } else { "missing from" });
        }
        for (i, s) in self.subs.iter().enumerate() {
            let there = self.graphs[i].inspection().nodes.iter().any(|x| x.key == s.key());
            let gone = i + 1 == self.subs.len() && self.removed_com;
            check!(there != gone, "inspection-sub", "the graph at nesting {} is {} the inspection of its parent", i + 1, if there { "still in" } else { "missing from" });
        }
        Ok(())
    }
    fn set(&mut self, n: usize, d: Done) -> Result<(), Fail> {
        let id = self.nodes[n].id;
        let v = knaster_core::ParameterValue::Integer(PInteger(d as usize));
        let r = self.graphs.last_mut().unwrap().set(id, "done_action", v, Time::asap());
        let want = self.nodes[n].pend && self.nodes[n].push != Push::Plain && !self.gone;
        check!(r.is_ok() == want, "set-result", "setting the done action returned {r:?}");
        if want {
            self.nodes[n].sets.push(d);
        }
        Ok(())
    }
    fn block(&mut self, ra: Option<(u32, u32)>, rb: Option<(u32, u32)>) -> Result<(), Fail> {
        self.block_with(&[(A, ra), (B, rb)])
    }
    /// a block in which these nodes report
    fn block_with(&mut self, reports: &[(usize, Option<(u32, u32)>)]) -> Result<(), Fail> {
        for &(n, r) in reports {
            let (k, f) = r.unwrap_or((0, 0));
            self.nodes[n].obs.rep_kind.store(k, SeqCst);
            self.nodes[n].obs.rep_frame.store(f, SeqCst);
        }
        let proc = &mut self.proc;
        match no_panic(|| on_audio_checked(|| proc.run_without_inputs())) {
            Err(e) => check!(false, "audio-panic", "{e}"),
            Ok(r) => r?,
        }
        let mut out = [[0.0 as S; BS]; 2];
        for (uid, obs, frames) in &mut self.sibs {
            for f in 0..BS {
                out[0][f] += unit_value(*uid, *frames + f as u64, &[0.0; 2], 0, std::iter::empty());
            }
            *frames += BS as u64;
            check!(obs.frames.load(SeqCst) == *frames, "sibling", "a node next to the graph has processed {} frames instead of {frames}", obs.frames.load(SeqCst));
        }
        self.removed = self.removed_com;
        if !self.removed {
            for n in &mut self.nodes {
                n.run = n.com;
                if n.run {
                    if let Some(d) = n.sets.last() {
                        n.action = *d;
                    }
                    n.sets.clear();
                }
            }
            if !self.terminated {
                let mut g = [[0.0 as S; BS]; 2];
                for f in 0..BS {
                    let nd = &self.nodes;
                    let v = |n: &Nd, i: Option<f64>| unit_value(n.uid, n.frames + f as u64, &[0.0; 2], 0, i.into_iter());
                    let a = if nd[A].run { v(&nd[A], None) } else { 0.0 };
                    g[1][f] += a;
                    if nd[B].run {
                        g[0][f] += v(&nd[B], None);
                    }
                    if nd[C].run {
                        g[0][f] += v(&nd[C], Some(a as f64));
                    }
                    for n in &nd[C + 1..] {
                        if n.run {
                            g[1][f] += v(n, None);
                        }
                    }
                }
                let mut end: Option<u32> = None;
                for &(n, r) in reports {
                    let n = &mut self.nodes[n];
                    if !n.run {
                        continue;
                    }
                    if let Some((k, f)) = r {
                        let mut parent = k & 4 != 0;
                        let mut own = k & 2 != 0;
                        if k & 1 != 0 {
                            parent |= n.action == Done::FreeParent;
                            own |= n.action == Done::FreeSelf;
                        }
                        if n.push == Push::Plain {
                            own = false;
                            parent = k & 4 != 0;
                        }
                        n.flagged |= own;
                        if parent {
                            end = Some(end.map_or(f, |e| e.min(f)));
                        }
                    }
                }
                for n in &mut self.nodes {
                    if n.run {
                        n.frames += BS as u64;
                    }
                }
                if let Some(e) = end {
                    self.terminated = true;
                    for ch in &mut g {
                        for s in ch.iter_mut().skip(e as usize) {
                            *s = 0.0;
                        }
                    }
                }
                for ch in 0..2 {
                    for f in 0..BS {
                        out[ch][f] += g[ch][f];
                    }
                }
            }
        }
        self.blocks += 1;
        for (i, n) in self.nodes.iter().enumerate() {
            check!(n.obs.frames.load(SeqCst) == n.frames, "processed", "block {}: node {i} has processed {} frames instead of {}", self.blocks, n.obs.frames.load(SeqCst), n.frames);
        }
        for ch in 0..2 {
            let got = self.proc.output_block().channel_as_slice(ch);
            check!(got == out[ch].as_slice(), "output", "block {}: output {ch} is {got:?} instead of {:?}", self.blocks, out[ch]);
        }
        Ok(())
    }
}
/// Many nodes that are done, in regular patterns
struct Many {
    counts: Vec<usize>,
}
const ACTIONS: [&str; 6] = ["all free themselves", "by turns free themselves and do nothing", "the last frees the parent, the others themselves", "every third immortal", "every third set to free itself after it was pushed", "every third without a done action"];
const REPORTS: [&str; 7] = ["all in one block", "one per block", "one per block, the last first", "all in each block", "one", "every other one", "all, each at another frame"];
const COMMITS: [&str; 4] = ["a commit after each block", "a commit at the end", "a commit every third block", "another node and a commit after each block"];
impl Space for Many {
    fn name(&self) -> String {
        "many done nodes".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        match p.len() {
            0 => self.counts.len(),
            1 => ACTIONS.len(),
            2 => REPORTS.len(),
            3 => COMMITS.len(),
            4 => 3,
            // which one
            5 => if p[2] == 4 { 4 } else { 1 },
            _ => 0,
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("{} nodes, {}; reporting {} ({}); {}; nesting {}", self.counts[c[0] as usize], ACTIONS[c[1] as usize], REPORTS[c[2] as usize], c[5], COMMITS[c[3] as usize], c[4])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let n = self.counts[c[0] as usize];
        let mut w = W::new(c[4] as usize, Push::Plain, Push::Plain);
        let first = w.nodes.len();
        for i in 0..n {
            w.edit(match c[1] {
                1 if i % 2 == 1 => Push::With(Done::None),
                2 if i + 1 == n => Push::With(Done::FreeParent),
                3 if i % 3 == 0 => Push::Immortal,
                4 if i % 3 == 0 => Push::With(Done::None),
                5 if i % 3 == 0 => Push::Plain,
                _ => Push::With(Done::FreeSelf),
            });
        }
        w.commit_outer()?;
        w.commit()?;
        w.block(None, None)?;
        if c[1] == 4 {
            for i in (0..n).step_by(3) {
                w.set(first + i, Done::FreeSelf)?;
            }
            w.block(None, None)?;
        }
        let bs = BS as u32;
        let sel = match c[5] {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => n.saturating_sub(2),
        };
        let mut plan: Vec<Vec<(usize, u32)>> = match c[2] {
            0 => vec![(0..n).map(|i| (i, 1)).collect()],
            1 => (0..n).map(|i| vec![(i, i as u32 % (bs + 1))]).collect(),
            2 => (0..n).rev().map(|i| vec![(i, i as u32 % (bs + 1))]).collect(),
            3 => vec![(0..n).map(|i| (i, 0)).collect(); 3],
            4 => vec![vec![(sel, 2)]],
            5 => vec![(0..n).step_by(2).map(|i| (i, 3)).collect()],
            _ => vec![(0..n).map(|i| (i, (i as u32 * 3) % (bs + 1))).collect()],
        };
        plan.push(vec![]);
        for (b, now) in plan.iter().enumerate() {
            let r: Vec<(usize, Option<(u32, u32)>)> = (0..n).map(|i| (first + i, now.iter().find(|x| x.0 == i).map(|x| (1, x.1)))).collect();
            w.block_with(&r)?;
            if c[3] == 0 || (c[3] == 2 && b % 3 == 2) || c[3] == 3 {
                if c[3] == 3 {
                    w.edit(Push::Plain);
                }
                w.commit()?;
            }
            rec.step();
        }
        rec.state(&c);
        w.end(c.iter().map(|x| *x as u32).sum())
    }
}
pub fn g11(run: &Run) {
    run.explore(&Many { counts: run.pick(vec![1, 2, 3, 4, 5, 8, 9, 16, 17, 33], (1..=40).chain([63, 64, 65, 66]).collect()) });
    g11_spaces(run, run.pick(3, 5), run.pick(6, 7));
}
pub fn g11_spaces(run: &Run, depth: usize, few_depth: usize) {
    use Push::*;
    let mut letters = vec![L::Block(None, None), L::Commit, L::CommitOuter, L::Edit];
    for d in [Done::None, Done::FreeSelf, Done::FreeParent] {
        letters.push(L::Set(0, d));
    }
    letters.push(L::Set(1, Done::FreeSelf));
    letters.push(L::Set(1, Done::FreeParent));
    letters.push(L::Block(Some((1, 1)), None));
    letters.push(L::Block(Some((1, BS as u32)), None));
    letters.push(L::Block(Some((2, 0)), None));
    letters.push(L::Block(Some((4, 2)), None));
    letters.push(L::Block(Some((1, 3)), Some((1, 1))));
    letters.push(L::Block(Some((1, 1)), Some((1, 3))));
    letters.push(L::Block(None, Some((1, 0))));
    letters.push(L::Block(None, Some((7, 2))));
    let all = vec![Plain, With(Done::None), With(Done::FreeSelf), With(Done::FreeParent), Immortal];
    run.explore(&DoneSpace { depth, letters: letters.clone(), a: all.clone(), b: all[..4].to_vec(), nests: 3 });
    // longer histories of fewer letters
    let few = [0, 1, 2, 5, 9, 13, 15].map(|i| letters[i]).to_vec();
    run.explore(&DoneSpace { depth: few_depth, letters: few, a: vec![With(Done::None), With(Done::FreeSelf)], b: vec![With(Done::FreeSelf), With(Done::FreeParent)], nests: run.pick(2, 3) });
}
