//! G12: a subgraph behaves like its contents inlined.
use crate::common::*;
use crate::tu::*;
use crate::world::*;
use knaster_core::typenum::*;
use knaster_core::{BlockRead, ParameterValue};
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::GraphEdit;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

const BS: usize = 4;
const PIN: usize = 2;
const POUT: usize = 2;
#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
    Block,
    Commit(usize),
    /// push a unit and connect it from the first input (if any) to the last output
    Unit(usize),
    /// last input directly to the first output
    Pass(usize),
    /// disconnect the first output
    Cut(usize),
    /// free the oldest unit
    Free(usize),
    /// set a parameter of the newest unit
    Set(usize),
    /// free the node of the graph in its parent
    FreeSub(usize),
    /// drop the Graph
    Drop(usize),
    /// connect the graph's first output through a new unit to the parent's last output
    Post(usize),
    /// connect the parent's last input to the graph's first input too
    Pre(usize),
    /// disconnect the graph's first input in the parent
    CutIn(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum N {
    Io,
    U(usize),
    G(usize),
}
#[derive(Clone, Default)]
struct St {
    /// source, channel, sink, channel
    e: Vec<(N, usize, N, usize)>,
    units: Vec<usize>,
    subs: Vec<usize>,
}
impl St {
    fn without(&mut self, n: N) {
        self.e.retain(|e| e.0 != n && e.2 != n);
    }
}
struct Gm {
    graph: Option<Graph<S>>,
    parent: usize,
    id: Option<NodeId>,
    nin: usize,
    nout: usize,
    pend: St,
    com: St,
    run: St,
}
struct Un {
    id: NodeId,
    obs: Arc<Obs>,
    uid: u32,
    nin: usize,
    frames: u64,
    alpha: f64,
    sets: Vec<f64>,
    graph: usize,
}
struct W {
    proc: knaster_graph::processor::AudioProcessor<S>,
    g: Vec<Gm>,
    u: Vec<Un>,
    clock: u64,
    nset: u64,
    blocks: u32,
}
fn n2(w: &[Un], g: &[Gm], n: N) -> NodeOrGraph {
    match n {
        N::Io => NodeOrGraph::Graph,
        N::U(i) => NodeOrGraph::Node(w[i].id),
        N::G(i) => NodeOrGraph::Node(g[i].id.unwrap()),
    }
}
impl W {
    fn new() -> W {
        let mut cfg = Cfg::new(BS, PIN, POUT);
        cfg.ring = 32;
        let (graph, proc, _l) = make_proc(&cfg);
        W { proc, g: vec![Gm { graph: Some(graph), parent: 0, id: None, nin: PIN, nout: POUT, pend: St::default(), com: St::default(), run: St::default() }], u: vec![], clock: 0, nset: 0, blocks: 0 }
    }
    /// Make a new subgraph of the last graph; `init`: its content is made in the callback.
    fn sub(&mut self, nin: usize, nout: usize, init: bool, old: bool) {
        let me = self.g.len();
        let parent = me - 1;
        self.g.push(Gm { graph: None, parent, id: None, nin, nout, pend: St::default(), com: St::default(), run: St::default() });
        let mut graph = self.g[parent].graph.take().unwrap();
        let o = GraphOptions { name: "sub".into(), ring_buffer_size: 32 };
        macro_rules! go { ($($i:literal $o:literal $it:ty, $ot:ty;)*) => { match (nin, nout) { $(($i,$o) => {
            if old {
                #[allow(deprecated)]
                let s = graph.subgraph::<$it,$ot>(o);
                s
            } else {
                let ge = GraphEdit::new(&mut graph);
                let this = &mut *self;
                let (_h, s) = ge.subgraph::<$it,$ot>(o, |e: GraphEdit<S>| {
                    if init {
                        this.content(me, &e);
                    }
                });
                // not committed yet
                std::mem::forget(ge);
                s
            }
        })* _ => panic!() } } }
        let s = go!(0 1 U0,U1; 1 1 U1,U1; 1 2 U1,U2; 2 1 U2,U1; 2 2 U2,U2; 0 2 U0,U2;);
        self.g[me].id = Some(s.id());
        self.g[me].graph = Some(s);
        self.g[parent].graph = Some(graph);
        self.g[parent].pend.subs.push(me);
        if init && !old {
            self.g[me].com = self.g[me].pend.clone();
        }
        for ch in 0..nin.min(self.g[parent].nin) {
            self.connect(parent, N::Io, ch, N::G(me), ch);
        }
        for ch in 0..nout.min(self.g[parent].nout) {
            self.connect(parent, N::G(me), ch, N::Io, ch);
        }
    }
    /// A unit from the first input to the last output, made with the given edit.
    fn content(&mut self, g: usize, e: &GraphEdit<S>) {
        let uid = 1 + self.u.len() as u32;
        let (nin, nout) = (self.g[g].nin, self.g[g].nout);
        if nin > 0 {
            let (t, obs) = TU::<U1, U1>::new(uid);
            let h = e.push(t);
            e.from_inputs(0).unwrap().to(h);
            h.to_graph_out_channels([nout as u16 - 1]);
            self.add_unit(g, h.id(), obs, 1);
            let i = self.u.len() - 1;
            self.g[g].pend.e.push((N::Io, 0, N::U(i), 0));
            self.g[g].pend.e.push((N::U(i), 0, N::Io, nout - 1));
        } else {
            let (t, obs) = TU::<U0, U1>::new(uid);
            let h = e.push(t);
            h.to_graph_out_channels([nout as u16 - 1]);
            self.add_unit(g, h.id(), obs, 0);
            let i = self.u.len() - 1;
            self.g[g].pend.e.push((N::U(i), 0, N::Io, nout - 1));
        }
    }
    fn add_unit(&mut self, g: usize, id: NodeId, obs: Arc<Obs>, nin: usize) {
        self.u.push(Un { id, obs, uid: 1 + self.u.len() as u32, nin, frames: 0, alpha: 0.0, sets: vec![], graph: g });
        self.g[g].pend.units.push(self.u.len() - 1);
    }
    fn push1(&mut self, g: usize, nin: usize) -> usize {
        let uid = 1 + self.u.len() as u32;
        let graph = self.g[g].graph.as_mut().unwrap();
        use knaster_graph::handle::HandleTrait;
        #[allow(deprecated)]
        let (id, obs) = if nin == 1 {
            let (t, o) = TU::<U1, U1>::new(uid);
            (graph.push(t).node_id(), o)
        } else {
            let (t, o) = TU::<U0, U1>::new(uid);
            (graph.push(t).node_id(), o)
        };
        self.add_unit(g, id, obs, nin);
        self.u.len() - 1
    }
    fn connect(&mut self, g: usize, a: N, ac: usize, b: N, bc: usize) {
        let (s, d) = (n2(&self.u, &self.g, a), n2(&self.u, &self.g, b));
        let graph = self.g[g].graph.as_mut().unwrap();
        graph.connect2(s, ac as u16, bc as u16, d).unwrap_or_else(|e| panic!("connecting {a:?} {ac} to {b:?} {bc} failed: {e}"));
        self.g[g].pend.e.push((a, ac, b, bc));
    }
    /// A graph that can be edited and (for things that need it) whose node is in its parent.
    fn can(&self, g: usize, in_parent: bool) -> bool {
        g < self.g.len() && self.g[g].graph.is_some() && (!in_parent || g == 0 || (self.g[self.g[g].parent].pend.subs.contains(&g) && self.g[self.g[g].parent].graph.is_some()))
    }
    fn apply(&mut self, l: L) -> Result<bool, Fail> {
        match l {
            L::Block => self.block()?,
            L::Commit(g) => {
                if !self.can(g, false) {
                    return Ok(false);
                }
                self.commit(g)?
            }
            L::Unit(g) => {
                if !self.can(g, false) {
                    return Ok(false);
                }
                let (nin, nout) = (self.g[g].nin, self.g[g].nout);
                let i = self.push1(g, nin.min(1));
                if nin > 0 {
                    self.connect(g, N::Io, 0, N::U(i), 0);
                }
                self.connect(g, N::U(i), 0, N::Io, nout - 1);
            }
            L::Pass(g) => {
                if !self.can(g, false) || self.g[g].nin == 0 {
                    return Ok(false);
                }
                self.connect(g, N::Io, self.g[g].nin - 1, N::Io, 0);
            }
            L::Cut(g) => {
                if !self.can(g, false) {
                    return Ok(false);
                }
                self.g[g].graph.as_mut().unwrap().disconnect_input_to_sink(0, NodeOrGraph::Graph).ok();
                self.g[g].pend.e.retain(|e| !(e.2 == N::Io && e.3 == 0));
            }
            L::Free(g) => {
                if !self.can(g, false) || self.g[g].pend.units.is_empty() {
                    return Ok(false);
                }
                let i = self.g[g].pend.units.remove(0);
                self.g[g].pend.without(N::U(i));
                let id = self.u[i].id;
                let e = GraphEdit::new(self.g[g].graph.as_mut().unwrap());
                let r = e.free_node(id);
                std::mem::forget(e);
                check!(r.is_ok(), "free", "freeing a unit failed: {r:?}");
            }
            L::Set(g) => {
                if !self.can(g, false) || self.removed(g) {
                    return Ok(false);
                }
                let Some(&i) = self.g[g].pend.units.last() else { return Ok(false) };
                self.nset += 1;
                let v = self.nset as f64;
                let r = self.g[g].graph.as_mut().unwrap().set(self.u[i].id, "alpha", ParameterValue::Float(v as knaster_core::PFloat), Time::asap());
                check!(r.is_ok(), "set", "setting a parameter failed: {r:?}");
                self.u[i].sets.push(v);
            }
            L::FreeSub(g) => {
                if g >= self.g.len() {
                    return Ok(false);
                }
                let p = self.g[g].parent;
                if !self.can(p, false) || !self.g[p].pend.subs.contains(&g) {
                    return Ok(false);
                }
                self.g[p].pend.subs.retain(|s| *s != g);
                self.g[p].pend.without(N::G(g));
                let id = self.g[g].id.unwrap();
                let e = GraphEdit::new(self.g[p].graph.as_mut().unwrap());
                let r = e.free_node(id);
                std::mem::forget(e);
                check!(r.is_ok(), "free-sub", "freeing a subgraph failed: {r:?}");
            }
            L::Drop(g) => {
                if !self.can(g, false) || g == 0 {
                    return Ok(false);
                }
                let graph = self.g[g].graph.take();
                if let Err(e) = no_panic(|| drop(graph)) {
                    check!(false, "drop-panic", "{e}");
                }
            }
            L::Post(g) => {
                if g == 0 || g >= self.g.len() || !self.can(self.g[g].parent, false) || !self.g[self.g[g].parent].pend.subs.contains(&g) {
                    return Ok(false);
                }
                let p = self.g[g].parent;
                let i = self.push1(p, 1);
                self.connect(p, N::G(g), 0, N::U(i), 0);
                self.connect(p, N::U(i), 0, N::Io, self.g[p].nout - 1);
            }
            L::Pre(g) => {
                if g == 0 || g >= self.g.len() || !self.can(self.g[g].parent, false) || !self.g[self.g[g].parent].pend.subs.contains(&g) || self.g[g].nin == 0 || self.g[self.g[g].parent].nin == 0 {
                    return Ok(false);
                }
                let p = self.g[g].parent;
                self.connect(p, N::Io, self.g[p].nin - 1, N::G(g), 0);
            }
            L::CutIn(g) => {
                if g == 0 || g >= self.g.len() || !self.can(self.g[g].parent, false) || !self.g[self.g[g].parent].pend.subs.contains(&g) || self.g[g].nin == 0 {
                    return Ok(false);
                }
                let p = self.g[g].parent;
                let id = self.g[g].id.unwrap();
                self.g[p].graph.as_mut().unwrap().disconnect_input_to_sink(0, NodeOrGraph::Node(id)).ok();
                self.g[p].pend.e.retain(|e| !(e.2 == N::G(g) && e.3 == 0));
            }
        }
        Ok(true)
    }
    fn removed(&self, g: usize) -> bool {
        let mut x = g;
        while x != 0 {
            let p = self.g[x].parent;
            if !self.g[p].pend.subs.contains(&x) {
                return true;
            }
            x = p;
        }
        false
    }
    fn commit(&mut self, g: usize) -> Result<(), Fail> {
        let graph = self.g[g].graph.as_mut().unwrap();
        if let Err(e) = no_panic(|| graph.edit(|_| {})) {
            check!(false, "commit-panic", "{e}");
        }
        self.g[g].com = self.g[g].pend.clone();
        let insp = self.g[g].graph.as_ref().unwrap().inspection();
        for s in &self.g[g].com.subs {
            let id = self.g[*s].id.unwrap();
            let n = insp.nodes.iter().find(|n| n.key == id.key());
            check!(n.is_some(), "inspection", "the subgraph isn't in the inspection");
            if let Some(sg) = &self.g[*s].graph {
                check!(n.unwrap().is_graph == Some(sg.graph_id()), "inspection-graph", "the inspection names the wrong graph");
            }
        }
        Ok(())
    }
    /// One block of graph `g` given its inputs.
    fn eval(&mut self, g: usize, input: &[Vec<S>]) -> Vec<Vec<S>> {
        self.g[g].run = self.g[g].com.clone();
        let st = self.g[g].run.clone();
        for &i in &st.units {
            if let Some(v) = self.u[i].sets.last() {
                self.u[i].alpha = *v;
            }
            self.u[i].sets.clear();
        }
        let mut done: Vec<(N, Vec<Vec<S>>)> = vec![(N::Io, input.to_vec())];
        let mut todo: Vec<N> = st.units.iter().map(|i| N::U(*i)).chain(st.subs.iter().map(|s| N::G(*s))).collect();
        let gather = |done: &Vec<(N, Vec<Vec<S>>)>, n: N, ch: usize| -> Vec<S> {
            let mut v = vec![0.0 as S; BS];
            for (s, sc, d, dc) in &st.e {
                if *d == n && *dc == ch {
                    let src = &done.iter().find(|x| x.0 == *s).unwrap().1[*sc];
                    for f in 0..BS {
                        v[f] += src[f];
                    }
                }
            }
            v
        };
        while !todo.is_empty() {
            let k = todo.iter().position(|n| st.e.iter().all(|e| e.2 != *n || done.iter().any(|d| d.0 == e.0))).expect("a cycle");
            let n = todo.swap_remove(k);
            let out = match n {
                N::U(i) => {
                    let ins: Vec<Vec<S>> = (0..self.u[i].nin).map(|c| gather(&done, n, c)).collect();
                    let u = &mut self.u[i];
                    let o = (0..BS).map(|f| unit_value(u.uid, u.frames + f as u64, &[u.alpha, 0.0], 0, ins.iter().map(|x| x[f] as f64))).collect();
                    u.frames += BS as u64;
                    vec![o]
                }
                N::G(s) => {
                    let ins: Vec<Vec<S>> = (0..self.g[s].nin).map(|c| gather(&done, n, c)).collect();
                    self.eval(s, &ins)
                }
                N::Io => unreachable!(),
            };
            done.push((n, out));
        }
        (0..self.g[g].nout).map(|c| gather(&done, N::Io, c)).collect()
    }
    fn block(&mut self) -> Result<(), Fail> {
        let input: Vec<Vec<S>> = (0..PIN).map(|ch| (0..BS).map(|f| ((self.clock + f as u64) * 29 + 4001 * ch as u64 + 3) as S).collect()).collect();
        let want = self.eval(0, &input);
        let proc = &mut self.proc;
        let s: Vec<&[S]> = input.iter().map(|i| i.as_slice()).collect();
        match no_panic(|| on_audio_checked(|| proc.run(&s))) {
            Err(e) => check!(false, "audio-panic", "{e}"),
            Ok(r) => r?,
        }
        self.blocks += 1;
        for c in 0..POUT {
            let got = self.proc.output_block().channel_as_slice(c);
            check!(got == want[c].as_slice(), "output", "block {}: output {c} is {got:?}, inlined it is {:?}", self.blocks, want[c]);
        }
        for (i, u) in self.u.iter().enumerate() {
            check!(u.obs.frames.load(SeqCst) == u.frames && u.obs.inits.load(SeqCst) == 1, "processed", "block {}: unit {i} of graph {} has processed {} frames instead of {}; initialised {} times", self.blocks, u.graph, u.obs.frames.load(SeqCst), u.frames, u.obs.inits.load(SeqCst));
        }
        for c in u_ctx(&self.u) {
            check!(c.0 != self.blocks || (c.1 == self.clock && c.2 == BS), "context", "a unit saw clock {} instead of {}", c.1, self.clock);
        }
        self.clock += BS as u64;
        let now = knaster_core::Seconds::from_samples(self.clock, 48000);
        for (i, g) in self.g.iter().enumerate() {
            if let Some(graph) = &g.graph {
                check!(graph.shared_frame_clock().get() == now, "clock", "the clock of graph {i} is {:?} instead of {now:?}", graph.shared_frame_clock().get());
            }
        }
        Ok(())
    }
}
fn u_ctx(u: &[Un]) -> Vec<(u32, u64, usize)> {
    u.iter().map(|u| (u.obs.blocks.load(SeqCst), u.obs.ctx_clock.load(SeqCst), u.obs.ctx_frames.load(SeqCst))).collect()
}
#[derive(Clone, Copy, Debug)]
enum Setup {
    /// content in the callback, everything committed by the parents' first commit
    Init,
    /// empty, committed, then filled but not committed
    Late,
    /// content in the callback and more, not committed
    Both,
    /// made directly with Graph::subgraph
    Old,
    /// the same, but the child is committed before the parent has ever been
    ChildFirst,
}
const SETUPS: [Setup; 5] = [Setup::Init, Setup::Late, Setup::Both, Setup::Old, Setup::ChildFirst];
const SHAPES: [(usize, usize); 6] = [(1, 1), (2, 2), (0, 1), (1, 2), (2, 1), (0, 2)];
struct SubSpace {
    depth: usize,
    nest: usize,
    letters: Vec<L>,
    shapes: usize,
}
impl Space for SubSpace {
    fn name(&self) -> String {
        format!("subgraphs nested {} deep, {} steps", self.nest, self.depth)
    }
    fn arity(&self, p: &[u16]) -> usize {
        match p.len() {
            0 => self.shapes,
            1 => SETUPS.len(),
            n if n < 2 + self.depth => self.letters.len(),
            _ => 0,
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("subgraphs with {:?} inputs/outputs, {:?}: {:?}", SHAPES[c[0] as usize], SETUPS[c[1] as usize], c[2..].iter().map(|l| self.letters[*l as usize]).collect::<Vec<_>>())
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let (nin, nout) = SHAPES[c[0] as usize];
        let setup = SETUPS[c[1] as usize];
        let mut w = W::new();
        for _ in 0..self.nest {
            w.sub(nin, nout, matches!(setup, Setup::Init | Setup::Both), matches!(setup, Setup::Old));
        }
        match setup {
            Setup::Init => {
                for g in 0..=self.nest {
                    w.commit(g)?;
                }
                w.block()?;
            }
            Setup::Both => {
                for g in 1..=self.nest {
                    w.apply(L::Unit(g))?;
                }
            }
            Setup::Late => {
                for g in 0..=self.nest {
                    w.commit(g)?;
                }
                w.block()?;
                for g in 1..=self.nest {
                    w.apply(L::Unit(g))?;
                }
            }
            Setup::Old => {}
            Setup::ChildFirst => {
                for g in (1..=self.nest).rev() {
                    w.apply(L::Unit(g))?;
                    w.commit(g)?;
                }
            }
        }
        for l in &c[2..] {
            let l = self.letters[*l as usize];
            let did = w.apply(l)?;
            rec.step();
            if rec.verbose {
                println!("  {l:?} {did}");
            }
            if !did {
                rec.count("inapplicable steps", 1);
                return Ok(());
            }
        }
        rec.state(&(c[0], c[1], w.g.iter().map(|g| (g.pend.e.len(), g.com.e.len(), g.run.e.len(), g.pend.subs.clone(), g.com.subs.clone(), g.com.units.clone(), g.graph.is_some())).collect::<Vec<_>>()));
        w.block()?;
        for g in 0..w.g.len() {
            if w.can(g, false) {
                w.commit(g)?;
            }
        }
        w.block()?;
        w.block()?;
        for g in 0..w.g.len() {
            if w.can(g, false) {
                w.commit(g)?;
            }
        }
        rec.transitions += w.blocks as u64;
        let now = knaster_core::Seconds::from_samples(w.clock, 48000);
        for (i, g) in w.g.iter().enumerate() {
            if let Some(graph) = &g.graph {
                for h in graph.inspection().node_handles() {
                    use knaster_graph::handle::HandleTrait;
                    check!(h.current_frame_time() == now, "clock-handle", "a handle to a node of graph {i} reads the time {:?} instead of {now:?}", h.current_frame_time());
                }
            }
        }
        // what was freed and is no longer used is really dropped
        for (i, u) in w.u.iter().enumerate() {
            let d = u.obs.drops.load(SeqCst);
            let g = u.graph;
            // pushed to a graph whose handle was dropped or whose node was removed before it was sent
            let mut lost = w.removed(g);
            let mut x = g;
            while x != 0 {
                lost |= w.g[x].graph.is_none();
                x = w.g[x].parent;
            }
            let gone = !w.g[g].com.units.contains(&i);
            check!(d <= 1 && (lost || d == gone as u32), "freed", "unit {i} of graph {g} was dropped {d} times; it was {}", if gone { "freed" } else { "kept" });
        }
        let W { proc, g, u, .. } = w;
        let graphs: Vec<Option<Graph<S>>> = g.into_iter().map(|g| g.graph).collect();
        match c.iter().map(|x| *x as u32).sum::<u32>() % 3 {
            0 => {
                drop(graphs);
                drop(proc);
            }
            1 => {
                drop(proc);
                drop(graphs);
            }
            _ => {
                let mut graphs = graphs;
                drop(graphs.remove(0));
                drop(proc);
                drop(graphs);
            }
        }
        for (i, u) in u.iter().enumerate() {
            let o = &u.obs;
            check!(o.drops.load(SeqCst) == 1 && !o.dropped_on_audio.load(SeqCst) && !o.used_after_drop.load(SeqCst) && !o.processed_off_audio.load(SeqCst), "drop", "unit {i} was dropped {} times, on the audio thread: {}, used after: {}", o.drops.load(SeqCst), o.dropped_on_audio.load(SeqCst), o.used_after_drop.load(SeqCst));
        }
        Ok(())
    }
}
pub fn g12(run: &Run) {
    g12_diagrams(run);
    g12_spaces(run, [run.pick(4, 5), run.pick(3, 4), run.pick(3, 5)]);
}
/// Whole diagrams in a graph inside others: what is heard is what the diagram computes
fn g12_diagrams(run: &Run) {
    use crate::g_struct::*;
    use crate::shapes::{FAMILIES, Judge, Shapes};
    use {Mode::*, Policy::*, R::*};
    for nest in [1, 2] {
        let sp = |name: &str, bs: usize, nin: usize, setup: Vec<Op>, alphabets: Vec<Vec<Op>>, policies: &[Policy]| {
            let mut c = Cfg::new(bs, nin, 2);
            c.nest = nest;
            run.explore(&space(&format!("{name} in a graph {nest} deep"), c, setup, alphabets, policies));
        };
        let few = vec![Op::Push(k(1, 1)), Op::Push(kar(1, 1)), Op::Push(k(2, 2))];
        sp("full", 4, 1, five(), seq(&full_alphabet(), 2), if nest == 1 { &[EachRun, EachCommit, Single] } else { &[EachRun] });
        sp("reduced", 3, 1, five()[..3].to_vec(), seq(&reduced_alphabet(), if nest == 1 { 3 } else { run.pick(2, 3) }), &[EachRun, Single]);
        sp("feedback", 2, 1, few.clone(), seq(&feedback_alphabet(), if nest == 1 { 3 } else { run.pick(2, 3) }), &[EachRun, Single]);
        let s = vec![Op::Commit, Op::Run, Op::Push(k(0, 1)), Op::Conn(N(0), 0, G, 0, Add), Op::Conn(G, 0, N(0), 0, Add), Op::Free(N(0)), Op::Free(N(1)), Op::Conn(N(1), 0, G, 0, Rep)];
        sp("commits and blocks", 1, 1, few, seq(&s, run.pick(5, 6)), &[Explicit]);
        run.explore(&Shapes { name: format!("shapes in a graph {nest} deep"), families: (0..FAMILIES.len()).collect(), sizes: run.pick(vec![3, 17], vec![1, 2, 3, 5, 8, 17, 34]), bs: vec![3, 67], judge: Judge::Output, nest });
    }
    crate::sched::nested(run);
}
pub fn g12_spaces(run: &Run, depth: [usize; 3]) {
    let mut one = vec![L::Block, L::Commit(0), L::Commit(1), L::Unit(0), L::Unit(1), L::Pass(0), L::Pass(1), L::Cut(0), L::Cut(1), L::Free(0), L::Free(1), L::Set(1), L::FreeSub(1), L::Drop(1), L::Post(1), L::Pre(1), L::CutIn(1)];
    run.explore(&SubSpace { depth: depth[0], nest: 1, letters: one.clone(), shapes: run.pick(4, 6) });
    one.extend([L::Commit(2), L::Unit(2), L::Pass(2), L::Cut(2), L::Free(2), L::Set(2), L::FreeSub(2), L::Drop(2), L::Post(2), L::Pre(2)]);
    run.explore(&SubSpace { depth: depth[1], nest: 2, letters: one.clone(), shapes: run.pick(4, 6) });
    let deep = vec![L::Block, L::Commit(0), L::Commit(1), L::Commit(2), L::Commit(3), L::Unit(3), L::Pass(3), L::Free(3), L::FreeSub(2), L::FreeSub(3), L::Drop(2), L::Drop(3), L::Set(3), L::CutIn(3)];
    run.explore(&SubSpace { depth: depth[2], nest: 3, letters: deep, shapes: run.pick(2, 6) });
}
