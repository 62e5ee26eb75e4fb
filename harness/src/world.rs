//! A real graph driven next to a reference model of the documented graph semantics.
use crate::common::*;
use crate::tu::*;
use knaster_core::typenum::*;
use knaster_core::{BlockRead, Param};
use knaster_core_dsp::wrappers_core::WrArParams;
use knaster_graph::Time;
use knaster_graph::handle::HandleTrait;
use knaster_graph::graph::{Graph, GraphError, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::GraphEdit;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::collections::HashMap;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Kind {
    pub i: u8,
    pub o: u8,
    /// wrapped in WrArParams
    pub ar: bool,
}
pub const fn k(i: u8, o: u8) -> Kind {
    Kind { i, o, ar: false }
}
pub const fn kar(i: u8, o: u8) -> Kind {
    Kind { i, o, ar: true }
}
/// End of a connection.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum R {
    N(u8),
    G,
    /// a node of another graph (whose key also exists in this graph)
    Foreign,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Add,
    Rep,
    Fb,
    FbRep,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Prm {
    I(u16),
    D(&'static str),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Push(Kind),
    Conn(R, u16, R, u16, Mode),
    DiscIn(R, u16),
    DiscOut(R, u16),
    Free(R),
    Par(R, u16, R, Prm, bool),
    Set(R, Prm, i8),
    Mortal(R, bool),
    Commit,
    Run,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Src {
    N(usize),
    G,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Conn {
    src: Src,
    ch: usize,
    fb: bool,
    id: u32,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Structure {
    live: Vec<bool>,
    ins: Vec<Vec<Vec<Conn>>>,
    par: Vec<[Vec<Conn>; 2]>,
    outs: Vec<Vec<Conn>>,
}
impl Structure {
    fn feeds(&self, sink: usize) -> Vec<usize> {
        let mut v = vec![];
        for c in self.ins[sink].iter().flatten().chain(self.par[sink].iter().flatten()) {
            if let (Src::N(n), false) = (c.src, c.fb) {
                v.push(n)
            }
        }
        v
    }
    fn uses(&self, sink: usize, src: usize) -> bool {
        self.ins[sink].iter().flatten().chain(self.par[sink].iter().flatten()).any(|c| c.src == Src::N(src))
    }
    /// is there a direct path from `from` to `to` (or are they the same)?
    fn path(&self, from: usize, to: usize) -> bool {
        let mut seen = vec![false; self.live.len()];
        let mut st = vec![to];
        while let Some(n) = st.pop() {
            if n == from {
                return true;
            }
            if !std::mem::replace(&mut seen[n], true) {
                st.extend(self.feeds(n));
            }
        }
        false
    }
    fn drop_conns(&mut self, mut f: impl FnMut(&Conn) -> bool) {
        for v in self.ins.iter_mut().flatten().chain(self.par.iter_mut().flatten()).chain(self.outs.iter_mut()) {
            v.retain(|c| !f(c));
        }
    }
    /// Most nodes (user and helper) this structure can need.
    pub fn max_nodes(&self) -> usize {
        let mut n = self.live.iter().filter(|l| **l).count();
        for v in self.ins.iter().flatten().chain(self.par.iter().flatten()).chain(self.outs.iter()) {
            n += v.len().saturating_sub(1) + 2 * v.iter().filter(|c| c.fb).count();
        }
        n
    }
    pub fn user_nodes(&self) -> usize {
        self.live.iter().filter(|l| **l).count()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EK {
    Circ,
    NotFound,
    WrongGraph,
    In,
    Out,
    GIn,
    GOut,
    ParDesc,
    ParIdx,
    Immortal,
    Other,
}
pub fn ek(e: &GraphError) -> EK {
    use knaster_core::ParameterError as P;
    match e {
        GraphError::CircularConnection => EK::Circ,
        GraphError::NodeNotFound => EK::NotFound,
        GraphError::WrongSourceNodeGraph { .. } | GraphError::WrongSinkNodeGraph { .. } => EK::WrongGraph,
        GraphError::InputOutOfBounds(_) => EK::In,
        GraphError::OutputOutOfBounds(_) => EK::Out,
        GraphError::GraphInputOutOfBounds(_) => EK::GIn,
        GraphError::GraphOutputOutOfBounds(_) => EK::GOut,
        GraphError::ParameterDescriptionNotFound(_) | GraphError::ParameterError(P::DescriptionNotFound(_)) => EK::ParDesc,
        GraphError::ParameterIndexOutOfBounds(_) | GraphError::ParameterError(P::ParameterIndexOutOfBounds) => EK::ParIdx,
        GraphError::FreeError(knaster_graph::graph::FreeError::NodeNotFound) => EK::NotFound,
        GraphError::FreeError(knaster_graph::graph::FreeError::ImmortalNode) => EK::Immortal,
        _ => EK::Other,
    }
}

pub struct NodeRec {
    pub id: NodeId,
    pub kind: Kind,
    pub obs: Arc<Obs>,
    pub mortal: bool,
}
/// The reference state: what the nodes of a graph hold after some blocks.
#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub bs: usize,
    pub nin: usize,
    pub nout: usize,
    pub kinds: Vec<Kind>,
    pub st: Vec<(u64, [f64; 2])>,
    pub fbhist: HashMap<u32, Vec<S>>,
    pub blocks: u64,
}
pub struct Cfg {
    pub bs: usize,
    pub nin: usize,
    pub nout: usize,
    pub sr: u32,
    pub ring: usize,
    /// compare the graph's output
    pub check_output: bool,
    pub check_nodes: bool,
    /// a refused edit must leave the inspected structure as it was
    pub check_refusal: bool,
    /// no allocation, free or lock inside a block
    pub check_alloc: bool,
    /// the graph is this deep inside others that only pass everything through
    pub nest: usize,
}
impl Cfg {
    pub const fn new(bs: usize, nin: usize, nout: usize) -> Cfg {
        Cfg { bs, nin, nout, sr: 48000, ring: 24, check_output: true, check_nodes: true, check_refusal: false, check_alloc: false, nest: 0 }
    }
}
/// A value that can be taken away.
pub struct Slot<T>(pub Option<T>);
impl<T> std::ops::Deref for Slot<T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0.as_ref().unwrap()
    }
}
impl<T> std::ops::DerefMut for Slot<T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0.as_mut().unwrap()
    }
}
pub struct World<'c> {
    pub cfg: &'c Cfg,
    /// those it is in
    pub around: Vec<Graph<S>>,
    pub graph: Slot<Graph<S>>,
    pub proc: Option<AudioProcessor<S>>,
    foreign: Option<(Graph<S>, NodeId)>,
    _log: knaster_core::log::ArLogReceiver<U1>,
    pub nodes: Vec<NodeRec>,
    pub pend: Structure,
    pub com: Structure,
    pub m: Model,
    next_conn: u32,
    pub sets: Vec<(usize, usize, f64)>,
    pub last_out: Vec<Vec<S>>,
    pub refused: u64,
    pub dirty: bool,
    pub names: HashMap<usize, String>,
}

/// Some of the nodes with audio rate parameters have another wrapper around them, the one that only graphs can make
fn wrapped_done(kind: Kind, uid: u32) -> bool {
    kind.ar && uid % 2 == 0
}
fn push_any(g: &mut Graph<S>, kind: Kind, uid: u32) -> (NodeId, Arc<Obs>) {
    macro_rules! go {
        ($i:ty,$o:ty) => {{
            let (t, obs) = TU::<$i, $o>::new(uid);
            #[allow(deprecated)]
            let id = match kind.ar {
                true if wrapped_done(kind, uid) => {
                    let e = GraphEdit::new(g);
                    let id = e.push_with_done_action(WrArParams::new(t), knaster_core::Done::FreeSelf).id();
                    // nothing is committed
                    std::mem::forget(e);
                    id
                }
                true => NodeId::from(g.push(WrArParams::new(t)).node_id()),
                false => NodeId::from(g.push(t).node_id()),
            };
            (id, obs)
        }};
    }
    match (kind.i, kind.o) {
        (0, 0) => go!(U0, U0),
        (0, 1) => go!(U0, U1),
        (0, 2) => go!(U0, U2),
        (0, 3) => go!(U0, U3),
        (1, 0) => go!(U1, U0),
        (1, 1) => go!(U1, U1),
        (1, 2) => go!(U1, U2),
        (2, 0) => go!(U2, U0),
        (2, 1) => go!(U2, U1),
        (2, 2) => go!(U2, U2),
        (3, 3) => go!(U3, U3),
        (8, 8) => go!(U8, U8),
        (0, 8) => go!(U0, U8),
        (20, 20) => go!(U20, U20),
        (40, 1) => go!(U40, U1),
        _ => panic!("kind"),
    }
}
pub fn make_proc(cfg: &Cfg) -> (Graph<S>, AudioProcessor<S>, knaster_core::log::ArLogReceiver<U1>) {
    let o = AudioProcessorOptions { block_size: cfg.bs, sample_rate: cfg.sr, ring_buffer_size: cfg.ring, log_channel_capacity: 64 };
    macro_rules! go { ($($i:literal $o:literal $it:ty, $ot:ty;)*) => { match (cfg.nin, cfg.nout) { $(($i,$o) => AudioProcessor::<S>::new::<$it,$ot>(o),)* _ => panic!("io") } } }
    go!(0 1 U0,U1; 1 1 U1,U1; 2 1 U2,U1; 3 1 U3,U1; 0 2 U0,U2; 1 2 U1,U2; 2 2 U2,U2; 3 2 U3,U2; 0 3 U0,U3; 1 3 U1,U3; 2 3 U2,U3; 3 3 U3,U3; 9 9 U9,U9; 17 5 U17,U5; 40 1 U40,U1; 0 17 U0,U17; 2 40 U2,U40;)
}

/// The graph `cfg.nest` deep, and those around it (outermost first), which pass all its inputs and outputs through
pub fn make_nested(cfg: &Cfg) -> (Vec<Graph<S>>, Graph<S>, AudioProcessor<S>, knaster_core::log::ArLogReceiver<U1>) {
    let (mut graph, proc, log) = make_proc(cfg);
    let mut around = vec![];
    for i in 0..cfg.nest {
        let o = GraphOptions { name: format!("inner {i}").into(), ring_buffer_size: cfg.ring };
        let mut made = None;
        graph.edit(|ge| {
        macro_rules! go { ($($i:literal $o:literal $it:ty, $ot:ty;)*) => { match (cfg.nin, cfg.nout) { $(($i,$o) => {
            let (h, inner) = ge.subgraph::<$it,$ot>(o, |_: GraphEdit<S>| {});
            if $i > 0 {
                ge.from_inputs(std::array::from_fn::<u16, { $i }, _>(|c| c as u16)).unwrap().to(h);
            }
            h.to_graph_out();
            inner
        })* _ => panic!("io") } } }
        made = Some(go!(0 1 U0,U1; 1 1 U1,U1; 2 1 U2,U1; 0 2 U0,U2; 1 2 U1,U2; 2 2 U2,U2; 2 3 U2,U3; 3 2 U3,U2; 3 3 U3,U3; 1 3 U1,U3; 9 9 U9,U9; 17 5 U17,U5; 40 1 U40,U1; 0 17 U0,U17; 2 40 U2,U40;));
        });
        around.push(std::mem::replace(&mut graph, made.unwrap()));
    }
    (around, graph, proc, log)
}
impl<'c> World<'c> {
    pub fn new(cfg: &'c Cfg) -> World<'c> {
        let (around, graph, proc, log) = make_nested(cfg);
        World {
            around,
            graph: Slot(Some(graph)),
            proc: Some(proc),
            foreign: None,
            _log: log,
            nodes: vec![],
            pend: Structure { outs: vec![vec![]; cfg.nout], ..Default::default() },
            com: Structure { outs: vec![vec![]; cfg.nout], ..Default::default() },
            m: Model { bs: cfg.bs, nin: cfg.nin, nout: cfg.nout, kinds: vec![], st: vec![], fbhist: HashMap::new(), blocks: 0 },
            next_conn: 1,
            sets: vec![],
            last_out: vec![vec![0.0; cfg.bs]; cfg.nout],
            cfg,
            refused: 0,
            dirty: false,
            names: HashMap::new(),
        }
    }
    /// Provide a second graph whose node keys collide with this graph's.
    pub fn with_foreign(mut self) -> Self {
        let c = Cfg::new(self.cfg.bs, 1, 1);
        let (mut g, _p, _l) = make_proc(&c);
        let id = push_any(&mut g, kar(2, 2), 999).0;
        self.foreign = Some((g, id));
        self
    }
    pub fn node_id(&self, r: R) -> NodeId {
        match r {
            R::N(i) => self.nodes[i as usize].id,
            R::Foreign => self.foreign.as_ref().unwrap().1,
            R::G => NodeId::invalid(),
        }
    }
    fn nog(&self, r: R) -> NodeOrGraph {
        match r {
            R::G => NodeOrGraph::Graph,
            r => NodeOrGraph::Node(self.node_id(r)),
        }
    }
    /// Problems of using `r` as a source of channel `ch` / sink / parameter target.
    fn src_problem(&self, r: R, ch: u16, e: &mut Vec<EK>) {
        match r {
            R::G => {
                if ch as usize >= self.cfg.nin {
                    e.push(EK::GIn)
                }
            }
            R::Foreign => e.push(EK::WrongGraph),
            R::N(i) => {
                if !self.pend.live[i as usize] {
                    e.push(EK::NotFound)
                } else if ch >= self.m.kinds[i as usize].o as u16 {
                    e.push(EK::Out)
                }
            }
        }
    }
    fn sink_problem(&self, r: R, ch: u16, e: &mut Vec<EK>) {
        match r {
            R::G => {
                if ch as usize >= self.cfg.nout {
                    e.push(EK::GOut)
                }
            }
            R::Foreign => e.push(EK::WrongGraph),
            R::N(i) => {
                if !self.pend.live[i as usize] {
                    e.push(EK::NotFound)
                } else if ch >= self.m.kinds[i as usize].i as u16 {
                    e.push(EK::In)
                }
            }
        }
    }
    fn node_problem(&self, r: R, e: &mut Vec<EK>) {
        match r {
            R::Foreign => e.push(EK::WrongGraph),
            R::N(i) if self.pend.live[i as usize] => {}
            _ => e.push(EK::NotFound),
        }
    }
    fn prm_problem(&self, p: Prm, e: &mut Vec<EK>) -> usize {
        match p {
            Prm::I(i) => {
                if i >= 2 {
                    e.push(EK::ParIdx)
                }
                i as usize
            }
            Prm::D("alpha") => 0,
            Prm::D("beta") => 1,
            Prm::D(_) => {
                e.push(EK::ParDesc);
                9
            }
        }
    }
    /// Does the op name only nodes that exist in this run?
    /// Apply an edit of connections to the model only; returns why it must be refused.
    pub fn model_only(&mut self, op: &Op) -> Vec<EK> {
        let mut e: Vec<EK> = vec![];
        match *op {
            Op::Conn(src, ch, sink, sch, mode) => {
                let fb = matches!(mode, Mode::Fb | Mode::FbRep) && src != R::G && sink != R::G;
                self.src_problem(src, ch, &mut e);
                self.sink_problem(sink, sch, &mut e);
                if let (true, false, R::N(a), R::N(b)) = (e.is_empty(), fb, src, sink) {
                    if self.pend.path(b as usize, a as usize) {
                        e.push(EK::Circ)
                    }
                }
                if e.is_empty() {
                    let c = Conn { src: if let R::N(n) = src { Src::N(n as usize) } else { Src::G }, ch: ch as usize, fb, id: self.next_conn };
                    self.next_conn += 1;
                    let l = match sink {
                        R::N(n) => &mut self.pend.ins[n as usize][sch as usize],
                        _ => &mut self.pend.outs[sch as usize],
                    };
                    if matches!(mode, Mode::Rep | Mode::FbRep) {
                        l.clear()
                    }
                    l.push(c);
                }
            }
            Op::DiscIn(sink, ch) => {
                self.sink_problem(sink, ch, &mut e);
                if e.is_empty() {
                    match sink {
                        R::N(n) => self.pend.ins[n as usize][ch as usize].clear(),
                        _ => self.pend.outs[ch as usize].clear(),
                    }
                }
            }
            Op::DiscOut(src, ch) => {
                self.src_problem(src, ch, &mut e);
                if e.is_empty() {
                    let s = if let R::N(n) = src { Src::N(n as usize) } else { Src::G };
                    self.pend.drop_conns(|c| c.src == s && c.ch == ch as usize);
                }
            }
            Op::Par(src, ch, sink, p, rep) => {
                self.node_problem(src, &mut e);
                if e.is_empty() {
                    self.src_problem(src, ch, &mut e);
                }
                self.node_problem(sink, &mut e);
                let pi = self.prm_problem(p, &mut e);
                if let (true, R::N(a), R::N(b)) = (e.is_empty(), src, sink) {
                    if self.pend.path(b as usize, a as usize) {
                        e.push(EK::Circ)
                    } else {
                        let c = Conn { src: Src::N(a as usize), ch: ch as usize, fb: false, id: self.next_conn };
                        self.next_conn += 1;
                        let l = &mut self.pend.par[b as usize][pi];
                        if rep {
                            l.clear()
                        }
                        l.push(c);
                    }
                }
            }
            _ => panic!("not an edit of connections"),
        }
        e
    }
    /// Would any of these be refused?
    pub fn any_refused(&mut self, ops: &[Op]) -> bool {
        let p = self.pend.clone();
        let r = ops.iter().any(|op| !self.model_only(op).is_empty());
        self.pend = p;
        r
    }
    /// The model of a push
    pub fn model_push(&mut self, kind: Kind) {
        self.m.kinds.push(kind);
        self.m.st.push((0, [0.0; 2]));
        self.pend.live.push(true);
        self.pend.ins.push(vec![vec![]; kind.i as usize]);
        self.pend.par.push([vec![], vec![]]);
    }
    /// The node of a `model_push`
    pub fn adopt(&mut self, id: NodeId, obs: Arc<Obs>) {
        let kind = self.m.kinds[self.nodes.len()];
        self.nodes.push(NodeRec { id, kind, obs, mortal: true });
    }
    pub fn applicable(&self, op: &Op) -> bool {
        let ok = |r: &R| !matches!(r, R::N(i) if *i as usize >= self.nodes.len());
        match op {
            Op::Conn(a, _, b, _, _) | Op::Par(a, _, b, _, _) => ok(a) && ok(b),
            Op::DiscIn(a, _) | Op::DiscOut(a, _) | Op::Free(a) | Op::Set(a, ..) | Op::Mortal(a, _) => ok(a),
            _ => true,
        }
    }
    pub fn apply(&mut self, op: &Op) -> Result<(), Fail> {
        if !self.applicable(op) {
            return Ok(());
        }
        let prm = |p: Prm| match p {
            Prm::I(i) => Param::Index(i as usize),
            Prm::D(d) => Param::Desc(d),
        };
        let mut e: Vec<EK> = vec![];
        let before = if self.cfg.check_refusal { Some(self.fingerprint()) } else { None };
        let res: Result<(), GraphError> = match *op {
            Op::Push(kind) => {
                let uid = self.nodes.len() as u32 + 1;
                let (id, obs) = push_any(&mut self.graph, kind, uid);
                self.model_push(kind);
                self.adopt(id, obs);
                self.dirty = true;
                return Ok(());
            }
            Op::Commit => {
                self.commit();
                return Ok(());
            }
            Op::Run => return self.run(),
            Op::Conn(src, ch, sink, sch, mode) => {
                e = self.model_only(op);
                let (a, b) = (self.nog(src), self.nog(sink));
                match mode {
                    Mode::Add => self.graph.connect2(a, ch, sch, b),
                    Mode::Rep => self.graph.connect2_replace(a, ch, sch, b),
                    Mode::Fb => self.graph.connect2_feedback(a, ch, sch, b),
                    Mode::FbRep => self.graph.connect2_feedback_replace(a, ch, sch, b),
                }
            }
            Op::DiscIn(sink, ch) => {
                e = self.model_only(op);
                { let x = self.nog(sink); self.graph.disconnect_input_to_sink(ch, x) }
            }
            Op::DiscOut(src, ch) => {
                e = self.model_only(op);
                { let x = self.nog(src); self.graph.disconnect_output_from_source(x, ch) }
            }
            Op::Free(r) => {
                self.node_problem(r, &mut e);
                if let (true, R::N(n)) = (e.is_empty(), r) {
                    if !self.nodes[n as usize].mortal {
                        e.push(EK::Immortal)
                    } else {
                        self.model_free(n as usize);
                    }
                }
                let id = self.node_id(r);
                let ge = GraphEdit::new(&mut self.graph);
                let r = ge.free_node(id);
                std::mem::forget(ge); // no commit
                if let (Ok(()), [EK::NotFound]) = (&r, e.as_slice()) {
                    // freeing a node again while its removal is pending is a no-op
                    e.clear();
                }
                r
            }
            Op::Mortal(r, m) => {
                self.node_problem(r, &mut e);
                if let (true, R::N(n)) = (e.is_empty(), r) {
                    self.nodes[n as usize].mortal = m;
                }
                { let x = self.node_id(r); self.graph.set_mortality(x, m) }
            }
            Op::Par(src, ch, sink, p, rep) => {
                e = self.model_only(op);
                let (a, b) = (self.node_id(src), self.node_id(sink));
                if rep { self.graph.connect_replace_to_parameter(a, ch, prm(p), b) } else { self.graph.connect_to_parameter(a, ch, prm(p), b) }
            }
            Op::Set(r, p, v) => {
                self.node_problem(r, &mut e);
                let pi = self.prm_problem(p, &mut e);
                if let (true, R::N(n)) = (e.is_empty(), r) {
                    self.sets.push((n as usize, pi, v as f64));
                }
                self.graph.set(self.node_id(r), prm(p), v as f64, Time::asap())
            }
        };
        match (&res, e.is_empty()) {
            (Ok(()), true) => {
                if !matches!(op, Op::Set(..) | Op::Mortal(..)) {
                    self.dirty = true
                }
                Ok(())
            }
            (Err(x), false) if e.contains(&ek(x)) => {
                self.refused += 1;
                if let Some(b) = before {
                    let a = self.fingerprint();
                    check!(a == b, "refused-edit-changed-graph", "{op:?} was refused with {x} but changed the graph:\nbefore {b}\nafter  {a}");
                }
                Ok(())
            }
            (Err(x), false) => fail("wrong-error", format!("{op:?} must be refused because of {e:?}, but the error was {x:?}")),
            (Ok(()), false) => fail("not-refused", format!("{op:?} must be refused ({e:?}) but was accepted")),
            (Err(x), true) => fail("refused-valid", format!("{op:?} is valid but was refused with {x:?}")),
        }
    }
    fn model_free(&mut self, n: usize) {
        self.pend.live[n] = false;
        for v in self.pend.ins[n].iter_mut().chain(self.pend.par[n].iter_mut()) {
            v.clear()
        }
        self.pend.drop_conns(|c| c.src == Src::N(n));
    }
    /// Everything observable about the structure, as text.
    pub fn fingerprint(&self) -> String {
        let i = self.graph.inspection();
        let mut s = String::new();
        for n in &i.nodes {
            s += &format!("{:?}{}/{}[", n.key, n.inputs, n.outputs);
            let mut v: Vec<_> = n.input_edges.iter().map(|e| format!("{:?}:{}>{}{}", e.source, e.from_index, e.to_index, e.is_feedback)).collect();
            v.sort();
            s += &v.join(" ");
            s += "] ";
        }
        s += "out[";
        for e in &i.graph_output_edges {
            s += &format!("{:?}:{}>{} ", e.source, e.from_index, e.to_index);
        }
        s + "]"
    }
    /// The number of nodes is what the connections in force need.
    pub fn check_count(&mut self) -> Result<(), Fail> {
        let n = self.graph.inspection().nodes.len();
        let (lo, hi) = (self.pend.user_nodes(), self.pend.max_nodes());
        check!(n >= lo && n <= hi, "node-count", "the graph holds {n} nodes; its {lo} user nodes and connections need at most {hi}: {:?}", self.pend);
        Ok(())
    }
    /// The inspection describes the committed structure.
    pub fn check_inspection(&mut self) -> Result<(), Fail> {
        use knaster_graph::inspection::{EdgeInspection, EdgeSource};
        let ins = self.graph.inspection();
        check!(ins.num_inputs as usize == self.cfg.nin && ins.num_outputs as usize == self.cfg.nout, "insp-io", "graph channels {} {}", ins.num_inputs, ins.num_outputs);
        check!(ins.graph_id == self.graph.graph_id(), "insp-id", "graph id");
        let mut pos = HashMap::new();
        for (i, n) in ins.nodes.iter().enumerate() {
            check!(pos.insert(n.key, i).is_none(), "insp-dup", "node {:?} is listed twice", n.key);
        }
        let user: HashMap<_, usize> = self.nodes.iter().enumerate().filter(|(i, _)| self.com.live[*i]).map(|(i, n)| (n.id.key(), i)).collect();
        for (i, n) in self.nodes.iter().enumerate() {
            if !self.com.live[i] {
                // the key may have been reused by a node created for summing or feedback, but not with this name
                let named = self.names.get(&i);
                check!(!ins.nodes.iter().any(|x| Some(&x.name) == named), "insp-dead", "freed node {i} is listed");
                check!(self.graph.node_data(n.id).is_none(), "lookup-dead", "freed node {i} is found by id");
                if let Some(nm) = named {
                    check!(self.graph.node_id_with_name(nm).is_none() && self.graph.node_data_from_name(nm.as_str()).is_none(), "lookup-dead", "freed node {i} is found by name");
                }
                continue;
            }
            let Some(p) = pos.get(&n.id.key()) else { return fail("insp-missing", format!("live node {i} is not listed")) };
            let x = &ins.nodes[*p];
            let mut want: Vec<&str> = vec!["alpha", "beta"];
            if wrapped_done(n.kind, i as u32 + 1) {
                want.push("done_action");
            }
            check!(
                x.inputs == n.kind.i as u16 && x.outputs == n.kind.o as u16 && x.parameter_descriptions == want && x.parameter_hints.len() == want.len(),
                "insp-meta",
                "node {i} is described as {x:?}"
            );
            match self.names.get(&i) {
                Some(nm) => {
                    check!(&x.name == nm, "insp-name", "node {i} is named {nm} but listed as {}", x.name);
                    check!(self.graph.node_id_with_name(nm) == Some(n.id), "lookup-name", "node {i} is not found by its name");
                    check!(self.graph.node_data_from_name(nm.as_str()).map(|d| d.0) == Some(n.id), "lookup-name", "node {i} is not found by its name");
                }
                None => check!(x.name.contains("TU"), "insp-name", "node {i} is named {}", x.name),
            }
            check!(self.graph.node_data(n.id).is_some(), "lookup-id", "node {i} is not found by its id");
            check!(x.is_graph.is_none(), "insp-is-graph", "node {i} is described as a graph");
            // order
            for f in self.com.feeds(i) {
                let fp = pos.get(&self.nodes[f].id.key());
                check!(fp.is_some_and(|fp| fp < p), "insp-order", "node {i} is listed at {p}, its source {f} at {fp:?}");
            }
            let connected = self.com.ins[i].iter().any(|c| !c.is_empty()) || self.com.outs.iter().flatten().any(|c| c.src == Src::N(i)) || (0..self.com.live.len()).any(|o| self.com.live[o] && self.com.uses(o, i));
            let to_out = self.com.outs.iter().flatten().any(|c| c.src == Src::N(i));
            if !connected {
                check!(x.unconnected, "insp-unconnected", "node {i} has no connections but isn't described as unconnected");
            }
            if to_out {
                check!(!x.unconnected, "insp-unconnected", "node {i} feeds an output but is described as unconnected");
            }
        }
        // connections, expanding the helper nodes
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
        enum T {
            N(usize, u16),
            G(u16),
            Fb,
        }
        struct X<'a> {
            ins: &'a knaster_graph::inspection::GraphInspection,
            pos: &'a HashMap<knaster_graph::graph::NodeKey, usize>,
            user: &'a HashMap<knaster_graph::graph::NodeKey, usize>,
        }
        impl X<'_> {
            fn expand(&self, e: &EdgeInspection, out: &mut Vec<T>, d: usize) -> Result<(), Fail> {
                check!(d < 200, "insp-loop", "the listed edges form a cycle");
                match e.source {
                    EdgeSource::Graph => out.push(T::G(e.from_index)),
                    EdgeSource::Node(k) => {
                        if let Some(u) = self.user.get(&k) {
                            out.push(T::N(*u, e.from_index));
                            return Ok(());
                        }
                        let Some(p) = self.pos.get(&k) else { return fail("insp-edge", format!("edge from unlisted node {k:?}")) };
                        let n = &self.ins.nodes[*p];
                        check!(e.from_index < n.outputs, "insp-edge", "edge from channel {} of {}", e.from_index, n.name);
                        if n.inputs == 0 {
                            out.push(T::Fb)
                        } else {
                            for e in &n.input_edges {
                                self.expand(e, out, d + 1)?;
                            }
                        }
                    }
                }
                Ok(())
            }
        }
        let x = X { ins: &ins, pos: &pos, user: &user };
        let tok = |c: &Conn| match (c.fb, c.src) {
            (true, _) => T::Fb,
            (_, Src::G) => T::G(c.ch as u16),
            (_, Src::N(n)) => T::N(n, c.ch as u16),
        };
        let cmp = |what: String, edges: Vec<&EdgeInspection>, conns: &[Conn]| -> Result<(), Fail> {
            let mut got = vec![];
            for e in edges {
                x.expand(e, &mut got, 0)?;
            }
            let mut want: Vec<T> = conns.iter().map(tok).collect();
            got.sort();
            want.sort();
            check!(got == want, "insp-edges", "{what} is listed as fed by {got:?}, in force are {want:?}");
            Ok(())
        };
        for (i, _) in self.nodes.iter().enumerate().filter(|(i, _)| self.com.live[*i]) {
            let n = &ins.nodes[pos[&self.nodes[i].id.key()]];
            for (ch, conns) in self.com.ins[i].iter().enumerate() {
                cmp(format!("input {ch} of node {i}"), n.input_edges.iter().filter(|e| e.to_index as usize == ch).collect(), conns)?;
            }
        }
        for (ch, conns) in self.com.outs.iter().enumerate() {
            cmp(format!("graph output {ch}"), ins.graph_output_edges.iter().filter(|e| e.to_index as usize == ch).collect(), conns)?;
        }
        // the dot description has the same nodes and edges
        let dot = ins.to_dot_string();
        let (mut got, mut n) = (vec![], 0);
        for l in dot.lines() {
            if let Some((a, b)) = l.split_once(" -> ") {
                let side = |s: &str| {
                    let (name, port) = s.trim().rsplit_once(':')?;
                    let port = port.split(' ').next()?;
                    Some((name.trim_matches('"').to_string(), port.to_string()))
                };
                got.push((side(a), side(b)));
            } else if l.trim().ends_with('[') && l.trim().starts_with('"') {
                check!(ins.nodes.get(n).is_some_and(|x| l.trim() == format!("\"{n}_{}\" [", x.name)), "dot-nodes", "node {n} in dot is {l}");
                n += 1;
            }
        }
        check!(n == ins.nodes.len(), "dot-nodes", "{n} of {} nodes are in dot", ins.nodes.len());
        let name = |p: usize| format!("{p}_{}", ins.nodes[p].name);
        let end = |e: &EdgeInspection, to: String| {
            let from = match e.source {
                EdgeSource::Graph => "graph_in".to_string(),
                EdgeSource::Node(k) => name(pos[&k]),
            };
            (Some((from, format!("o{}", e.from_index))), Some((to, format!("i{}", e.to_index))))
        };
        let mut want: Vec<_> = ins.nodes.iter().enumerate().flat_map(|(p, n)| n.input_edges.iter().map(move |e| (e, p))).map(|(e, p)| end(e, name(p))).collect();
        want.extend(ins.graph_output_edges.iter().map(|e| end(e, "graph_out".into())));
        got.sort();
        want.sort();
        check!(got == want, "dot-edges", "the edges in dot are {got:?}, those in force {want:?}");
        // feedback: the nodes that take a signal without passing one on directly
        let mut got = vec![];
        for n in ins.nodes.iter().filter(|n| !user.contains_key(&n.key)) {
            check!(n.is_graph.is_none(), "insp-is-graph", "{} is described as a graph", n.name);
            if n.outputs == 0 {
                for e in &n.input_edges {
                    check!(e.is_feedback, "insp-feedback", "the feedback edge into {} isn't marked as feedback", n.name);
                    x.expand(e, &mut got, 0)?;
                }
            } else {
                for e in &n.input_edges {
                    check!(!e.is_feedback, "insp-feedback", "an edge into {} is marked as feedback", n.name);
                }
            }
            for e in &n.input_edges {
                if let EdgeSource::Node(k) = e.source {
                    check!(pos.get(&k).is_some_and(|p| *p < pos[&n.key]), "insp-order", "{} is listed before its source", n.name);
                }
            }
        }
        let mut want: Vec<T> =
            self.com.ins.iter().flatten().flatten().filter(|c| c.fb).map(|c| if let Src::N(n) = c.src { T::N(n, c.ch as u16) } else { T::G(c.ch as u16) }).collect();
        got.sort();
        want.sort();
        check!(got == want, "insp-feedback", "feedback sources are listed as {got:?}, in force are {want:?}");
        check!(ins.to_dot_string().matches("-> graph_out").count() == ins.graph_output_edges.len(), "insp-dot", "dot output lacks graph output edges");
        Ok(())
    }
    pub fn pend_live(&self, i: usize) -> bool {
        self.pend.live.get(i).copied().unwrap_or(false)
    }
    pub fn set_name(&mut self, i: usize, name: &str) {
        self.graph.set_name(self.nodes[i].id, name.into());
        self.names.insert(i, name.into());
    }
    /// Drop the record of the last node (freed and dropped).
    pub fn forget_last(&mut self) {
        self.nodes.pop();
        self.m.kinds.pop();
        self.m.st.pop();
        for s in [&mut self.pend, &mut self.com] {
            let n = self.nodes.len();
            s.live.truncate(n);
            s.ins.truncate(n);
            s.par.truncate(n);
        }
    }
    /// Give back the reference model's spare memory.
    pub fn shrink(&mut self) {
        self.m.fbhist.shrink_to_fit();
        for s in [&mut self.pend, &mut self.com] {
            for v in s.ins.iter_mut().flatten().chain(s.par.iter_mut().flatten()).chain(s.outs.iter_mut()) {
                v.shrink_to_fit();
            }
        }
    }
    /// An edit that makes the next commit a real one.
    pub fn touch(&mut self) {
        let _ = self.apply(&Op::Push(k(0, 0)));
    }
    pub fn commit(&mut self) {
        self.graph.edit(|_| {});
        self.com = self.pend.clone();
        self.dirty = false;
    }
    pub fn run(&mut self) -> Result<(), Fail> {
        let input = self.m.input();
        // the real thing
        {
            let ins: Vec<&[S]> = input.iter().map(|v| v.as_slice()).collect();
            let p = self.proc.as_mut().unwrap();
            let before = crate::alloc::audio_counts();
            on_audio(|| p.run(&ins));
            if self.cfg.check_alloc {
                let after = crate::alloc::audio_counts();
                check!(before == after, "audio-alloc", "block {}: {} allocations, {} frees and {} locks on the audio thread", self.m.blocks, after.0 - before.0, after.1 - before.1, after.2 - before.2);
            }
        }
        // the model
        let com = self.com.clone();
        let mut kept = vec![];
        for (n, pi, v) in std::mem::take(&mut self.sets) {
            if !com.live.get(n).copied().unwrap_or(false) {
                if self.pend.live[n] {
                    kept.push((n, pi, v));
                }
                continue;
            }
            if self.nodes[n].kind.ar && !com.par[n][pi].is_empty() {
                continue;
            }
            self.m.st[n].1[pi] = v;
        }
        self.sets = kept;
        let outs = self.m.block(&com)?;
        let ob = self.proc.as_mut().unwrap().output_block();
        for o in 0..self.cfg.nout {
            let got = ob.channel_as_slice(o);
            if self.cfg.check_output && got != outs[o].as_slice() {
                return fail("output", format!("block {}: graph output {o} is {:?}, the connection diagram computes {:?}\nstructure {:?}", self.m.blocks, got, outs[o], com));
            }
            self.last_out[o].copy_from_slice(got);
        }
        if self.cfg.check_nodes {
            self.check_nodes()?;
        }
        Ok(())
    }
    pub fn check_nodes(&self) -> Result<(), Fail> {
        for (i, n) in self.nodes.iter().enumerate() {
            let o = &n.obs;
            let fr = o.frames.load(SeqCst);
            check!(
                fr == self.m.st[i].0,
                "node-frames",
                "block {}: node {i} has processed {fr} frames, expected {} (live in committed graph: {:?})",
                self.m.blocks,
                self.m.st[i].0,
                self.com.live.get(i)
            );
            check!(o.inits.load(SeqCst) == 1, "node-init", "node {i} was initialised {} times", o.inits.load(SeqCst));
            check!(
                o.sr.load(SeqCst) == self.cfg.sr && o.bs.load(SeqCst) == self.cfg.bs,
                "node-init-values",
                "node {i} was initialised with {} Hz / {}",
                o.sr.load(SeqCst),
                o.bs.load(SeqCst)
            );
            let live = self.com.live.get(i).copied().unwrap_or(false) || self.pend.live[i];
            let d = o.drops.load(SeqCst);
            check!(d <= 1 && !(live && d > 0), "node-drop", "node {i} (live: {live}) was dropped {d} times");
            check!(!o.dropped_on_audio.load(SeqCst), "drop-on-audio", "node {i} was dropped on the audio thread");
            check!(!o.processed_off_audio.load(SeqCst), "off-audio", "node {i} was processed off the audio thread");
        }
        Ok(())
    }
}
impl Model {
    /// The graph input of the next block.
    pub fn input(&self) -> Vec<Vec<S>> {
        (0..self.nin).map(|c| (0..self.bs).map(|f| ((self.blocks * self.bs as u64 + f as u64) * 31 + c as u64 * 5003 + 11).rem_euclid(65521) as S).collect()).collect()
    }
    /// Evaluate the connection diagram for one block.
    pub fn block(&mut self, com: &Structure) -> Result<Vec<Vec<S>>, Fail> {
        let input = self.input();
        let mut vals: Vec<Option<Vec<Vec<S>>>> = vec![None; com.live.len()];
        for n in 0..com.live.len() {
            if com.live[n] {
                self.eval(com, &input, n, &mut vals, 0)?;
            }
        }
        let mut outs = vec![vec![0.0 as S; self.bs]; self.nout];
        for (o, conns) in com.outs.iter().enumerate() {
            for c in conns {
                for f in 0..self.bs {
                    outs[o][f] += self.sig(c, &input, &vals, f);
                }
            }
        }
        // feedback history
        let mut h = HashMap::new();
        for c in com.ins.iter().flatten().flatten().filter(|c| c.fb) {
            let Src::N(n) = c.src else { continue };
            h.insert(c.id, vals[n].as_ref().unwrap()[c.ch].clone());
        }
        self.fbhist = h;
        self.blocks += 1;
        Ok(outs)
    }
    fn sig(&self, c: &Conn, input: &[Vec<S>], vals: &[Option<Vec<Vec<S>>>], f: usize) -> S {
        if c.fb {
            return self.fbhist.get(&c.id).map(|h| h[f]).unwrap_or(0.0);
        }
        match c.src {
            Src::G => input[c.ch][f],
            Src::N(n) => vals[n].as_ref().unwrap()[c.ch][f],
        }
    }
    fn eval(&mut self, com: &Structure, input: &[Vec<S>], n: usize, vals: &mut Vec<Option<Vec<Vec<S>>>>, depth: usize) -> Result<(), Fail> {
        if vals[n].is_some() {
            return Ok(());
        }
        check!(depth <= com.live.len(), "cycle", "the committed direct connections contain a cycle: {com:?}");
        for m in com.feeds(n) {
            self.eval(com, input, m, vals, depth + 1)?;
        }
        let bs = self.bs;
        let kind = self.kinds[n];
        let mut out = vec![vec![0.0; bs]; kind.o as usize];
        for f in 0..bs {
            if kind.ar {
                for pi in 0..2 {
                    if !com.par[n][pi].is_empty() {
                        let mut v: S = 0.0;
                        for c in &com.par[n][pi] {
                            v += self.sig(c, input, vals, f);
                        }
                        self.st[n].1[pi] = v as f64;
                    }
                }
            }
            let ins: Vec<f64> = com.ins[n]
                .iter()
                .map(|l| {
                    let mut v: S = 0.0;
                    for c in l {
                        v += self.sig(c, input, vals, f);
                    }
                    v as f64
                })
                .collect();
            let (frames, p) = self.st[n];
            for (o, ch) in out.iter_mut().enumerate() {
                ch[f] = unit_value(n as u32 + 1, frames, &p, o, ins.iter().copied());
            }
            self.st[n].0 += 1;
        }
        vals[n] = Some(out);
        Ok(())
    }
}

/// When commits and blocks happen while a sequence of edits is applied.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    /// commit and run a block after every edit
    EachRun,
    /// commit after every edit, run at the end
    EachCommit,
    /// one commit at the end
    Single,
    /// commits and blocks are part of the alphabet
    Explicit,
}
pub struct OpSpace {
    pub name: String,
    pub cfg: Cfg,
    pub setup: Vec<Op>,
    /// the alphabet of each position of the sequence
    pub alphabets: Vec<Vec<Op>>,
    pub policies: Vec<Policy>,
    /// called after every commit that follows an edit, and during the wind-down
    pub after: fn(&mut World) -> Result<(), Fail>,
    pub foreign: bool,
}
pub fn seq(a: &[Op], depth: usize) -> Vec<Vec<Op>> {
    vec![a.to_vec(); depth]
}
impl OpSpace {
    fn ops(&self, case: &[u16]) -> Vec<Op> {
        case[1..].iter().zip(&self.alphabets).map(|(i, a)| a[*i as usize]).collect()
    }
}
impl Space for OpSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.is_empty() {
            self.policies.len()
        } else if p.len() <= self.alphabets.len() {
            self.alphabets[p.len() - 1].len()
        } else {
            0
        }
    }
    fn describe(&self, case: &[u16]) -> String {
        format!("setup {:?}; {:?}: {:?}", self.setup, case.first().map(|p| self.policies[*p as usize]), self.ops(case))
    }
    fn run(&self, case: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let pol = self.policies[case[0] as usize];
        let mut w = World::new(&self.cfg);
        if self.foreign {
            w = w.with_foreign();
        }
        for op in &self.setup {
            w.apply(op)?;
        }
        w.commit();
        w.run()?;
        let ops = self.ops(case);
        for op in &ops {
            w.apply(op)?;
            rec.step();
            if rec.verbose {
                println!("  {op:?} -> {}", w.fingerprint());
            }
            match pol {
                Policy::EachRun => {
                    w.commit();
                    (self.after)(&mut w)?;
                    w.run()?;
                }
                Policy::EachCommit => {
                    w.commit();
                    (self.after)(&mut w)?;
                }
                Policy::Explicit if *op == Op::Commit => (self.after)(&mut w)?,
                Policy::Single | Policy::Explicit => {}
            }
            rec.state(&(&w.pend, &w.com));
        }
        // wind down: two blocks, an idle commit and another block
        w.commit();
        (self.after)(&mut w)?;
        w.run()?;
        w.run()?;
        w.commit();
        (self.after)(&mut w)?;
        w.run()?;
        w.commit();
        (self.after)(&mut w)?;
        rec.count("refused edits", w.refused);
        rec.count("blocks", w.m.blocks);
        rec.transitions += w.m.blocks;
        let World { graph, proc, nodes, around, .. } = w;
        if case.iter().map(|x| *x as u32).sum::<u32>() % 2 == 0 {
            drop(graph.0);
            drop(proc);
            drop(around);
        } else {
            drop(around);
            drop(proc);
            drop(graph.0);
        }
        for (i, n) in nodes.iter().enumerate() {
            check!(n.obs.drops.load(SeqCst) == 1, "final-drop", "node {i} was dropped {} times after everything was dropped", n.obs.drops.load(SeqCst));
        }
        Ok(())
    }
}
pub fn nothing(_: &mut World) -> Result<(), Fail> {
    Ok(())
}
