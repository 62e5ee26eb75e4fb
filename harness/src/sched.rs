//! G08/G09: parameter changes sent from every entry point at every kind of time, against a model of when
//! each must reach its node.
use crate::alloc;
use crate::common::*;
use crate::tu::*;
use crate::world::{Cfg, make_nested, make_proc};
use knaster_core::log::ArLogReceiver;
use knaster_core::typenum::*;
use knaster_core::numeric_array::NumericArray;
use knaster_core::{AudioCtx, Block, BlockRead, Frame, Param, ParameterHint, ParameterSmoothing, ParameterValue, Rate, Seconds, UGen, UGenFlags};
use knaster_core_dsp::wrappers_core::WrPreciseTiming;
use knaster_graph::graph::{Graph, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::{GraphEdit, Parameter};
use knaster_graph::handle::{AnyHandle, HandleTrait};
use knaster_graph::processor::AudioProcessor;
use knaster_graph::{SchedulingToken, Time};
use mcsched::Outcome;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Now,
    /// absolute, in frames relative to the end of the last block
    At(i64),
    /// relative, in frames
    After(u64),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum L {
    /// node, parameter, time, token
    Send(u8, u8, T, Option<u8>),
    /// the same, with an explicit entry point and kind of value
    SendVia(u8, u8, T, Option<u8>, u8, u8),
    Block,
    Push,
    Commit,
    Free(u8),
    Activate(u8),
}
struct Nd {
    id: NodeId,
    any: AnyHandle,
    params: Option<[Parameter; 8]>,
    obs: Arc<Obs>,
    precise: bool,
    seen: usize,
    frames: u64,
    /// in the graph as last edited / as last committed
    pend: bool,
    live: bool,
}
#[derive(Debug, Clone)]
struct Ev {
    seq: usize,
    node: usize,
    idx: usize,
    vals: Vec<PV>,
    time: T,
    /// frame the time refers to, set when received
    moment: Option<u64>,
    sent_at: u64,
    tok: Option<usize>,
    applied: bool,
}
pub struct Rig {
    sr: u32,
    bs: usize,
    around: Vec<Graph<S>>,
    graph: Graph<S>,
    proc: Option<AudioProcessor<S>>,
    _log: ArLogReceiver<U1>,
    nd: Vec<Nd>,
    evs: Vec<Ev>,
    clock: u64,
    count: usize,
    toks: Vec<SchedulingToken>,
    active: [bool; 2],
    alloc: bool,
    /// the waiting list is too small: the moment of reception isn't known
    loose: bool,
    cap: usize,
    out_of_domain: bool,
}
const CFGS: [(u32, usize); 3] = [(48000, 4), (11, 3), (44100, 1)];
impl Rig {
    pub fn new(sr: u32, bs: usize, ring: usize, alloc: bool) -> Rig {
        Self::nested(sr, bs, ring, alloc, 0)
    }
    /// in a graph that is so deep inside others
    pub fn nested(sr: u32, bs: usize, ring: usize, alloc: bool, nest: usize) -> Rig {
        let mut c = Cfg::new(bs, 0, 2);
        c.sr = sr;
        c.ring = ring;
        c.nest = nest;
        let (around, graph, proc, _log) = make_nested(&c);
        let mut r = Rig {
            around,
            sr,
            bs,
            graph,
            proc: Some(proc),
            _log,
            nd: vec![],
            evs: vec![],
            clock: 0,
            count: 0,
            toks: vec![SchedulingToken::new(), SchedulingToken::new()],
            active: [false; 2],
            alloc,
            loose: false,
            cap: ring,
            out_of_domain: false,
        };
        r.push(false);
        r.push(true);
        r.commit();
        r
    }
    fn push(&mut self, precise: bool) {
        let (t, obs) = TU::<U0, U1, U8>::with_params(self.nd.len() as u32 + 1);
        obs.record.store(true, SeqCst);
        obs.params.lock().unwrap().reserve(64);
        // Some of them also have the wrapper that only graphs can make
        let u = WrPreciseTiming::<80, _>::new;
        #[allow(deprecated)]
        let any = match precise {
            true if self.nd.len() < 2 && self.cap > 3 && (self.sr != 48000 || !self.around.is_empty()) => {
                let id = GraphEdit::new(&mut self.graph).push_with_done_action(u(t), knaster_core::Done::FreeSelf).id();
                self.graph.inspection().node_handles().into_iter().find(|h| h.node_id() == id).unwrap()
            }
            true => self.graph.push(u(t)).into_any(),
            false => self.graph.push(t).into_any(),
        };
        let id = any.node_id();
        self.graph.connect2(NodeOrGraph::Node(id), 0, (self.nd.len() % 2) as u16, NodeOrGraph::Graph).unwrap();
        self.nd.push(Nd { id, any, params: None, obs, precise, seen: 0, frames: 0, pend: true, live: false });
    }
    fn commit(&mut self) {
        let nd = &mut self.nd;
        self.graph.edit(|e: GraphEdit<S>| {
            for n in nd.iter_mut().filter(|n| n.pend) {
                let h = e.handle(n.id).unwrap();
                n.params = Some(std::array::from_fn(|i| if i % 2 == 0 { h.param(i) } else { h.param(NAMES[i]) }));
                drop(h);
            }
        });
        for n in nd.iter_mut() {
            n.live = n.pend;
        }
    }
    fn secs(&self, frames: u64) -> Seconds {
        Seconds::from_samples(frames, self.sr as u64)
    }
    fn send(&mut self, node: usize, prm: usize, time: T, tok: Option<usize>, via: u8, kind: u8) -> Result<(), Fail> {
        self.count += 1;
        let seq = self.count;
        // smoothing is for floats only
        let kind = if (via % 7 == 3 && tok.is_none() && time == T::Now) || (via % 2 == 1 && tok.is_some()) { 0 } else { kind };
        let prm = prm + if kind < 4 { 2 * kind as usize } else { 0 };
        let (v, pv): (ParameterValue, PV) = match kind {
            0 => (ParameterValue::Float(seq as f64), PV::F(seq as f64)),
            1 => (ParameterValue::Trigger, PV::T),
            2 => (ParameterValue::Bool(seq % 2 == 0), PV::B(seq % 2 == 0)),
            3 => (ParameterValue::Integer(seq.into()), PV::I(seq as i64)),
            _ => (ParameterValue::Float(seq as f64), PV::F(seq as f64)),
        };
        let frame = match time {
            T::At(k) => (self.clock as i64 + k).max(0) as u64,
            T::After(k) => k,
            T::Now => 0,
        };
        let s = self.secs(frame);
        let t = match time {
            T::Now => Time::asap(),
            T::At(_) if seq % 3 == 1 => Time::after(s).to_absolute(),
            T::At(_) => Time::at(s),
            T::After(_) if seq % 3 == 1 => Time::at(s).to_relative(),
            T::After(_) => Time::after(s),
        };
        let mut vals = vec![pv];
        let smooth = ParameterSmoothing::Linear(0.5);
        let mut many = false;
        let n = &mut self.nd[node];
        let param = if seq % 2 == 0 { Param::Index(prm) } else { Param::Desc(NAMES[prm]) };
        let r = if let Some(tok) = tok {
            let tok = self.toks[tok].clone();
            match via % 2 {
                0 => n.any.set((param, v, tok)),
                _ => {
                    vals = vec![PV::Smooth, pv];
                    n.any.set((param, v, smooth, tok))
                }
            }
        } else {
            let has_param = n.params.is_some();
            match (via % 7, time, kind) {
                (0, T::Now, 1) if has_param => n.params.as_mut().unwrap()[prm].trig(),
                (0, T::At(_), 1) if has_param => n.params.as_mut().unwrap()[prm].trig_at(s),
                (0, T::After(_), 1) if has_param => n.params.as_mut().unwrap()[prm].trig_after(s),
                (0, T::Now, 4) if has_param => {
                    vals = vec![PV::Smooth];
                    n.params.as_mut().unwrap()[prm].smooth(smooth)
                }
                (0, T::At(_), 4) if has_param => {
                    vals = vec![PV::Smooth];
                    n.params.as_mut().unwrap()[prm].smooth_at(smooth, s)
                }
                (0, T::After(_), 4) if has_param => {
                    vals = vec![PV::Smooth];
                    n.params.as_mut().unwrap()[prm].smooth_after(smooth, s)
                }
                (0, T::Now, _) if has_param => n.params.as_mut().unwrap()[prm].set(v),
                (0, T::At(_), _) if has_param => n.params.as_mut().unwrap()[prm].set_at(v, s),
                (0, T::After(_), _) if has_param => n.params.as_mut().unwrap()[prm].set_after(v, s),
                (1, _, 1) if has_param => n.params.as_mut().unwrap()[prm].trig_time(t),
                (1, _, 4) if has_param => {
                    vals = vec![PV::Smooth];
                    n.params.as_mut().unwrap()[prm].smooth_time(smooth, t)
                }
                (1, _, _) if has_param => n.params.as_mut().unwrap()[prm].set_time(v, t),
                (2, T::Now, _) => n.any.set((param, v)),
                (3, T::Now, _) => {
                    vals = vec![PV::Smooth, pv];
                    n.any.set((param, v, smooth))
                }
                (4, ..) if n.pend => {
                    many = true;
                    self.graph.set_many(&[(n.id, param, v)], t);
                    Ok(())
                }
                (5, T::Now, _) if n.pend && n.params.is_some() => {
                    // an edit that changes nothing but sets
                    self.graph.edit(|e| e.set(n.id, param, v, t))
                }
                _ => self.graph.set(n.id, param, v, t),
            }
        };
        let waiting = self.evs.iter().filter(|e| !e.applied).count();
        let n = &self.nd[node];
        match r {
            Ok(()) => {
                // set_many reports errors to the log only
                check!(!many || waiting < self.cap, "", "out of domain");
                self.evs.push(Ev { seq, node, idx: prm, vals, time, moment: None, sent_at: self.clock, tok, applied: false })
            }
            Err(e) => {
                let refused_freed = !n.pend;
                check!(waiting >= self.cap || refused_freed, "send-refused", "sending change {seq} failed with {e:?} though only {waiting} of {} changes are outstanding", self.cap);
            }
        }
        Ok(())
    }
    fn activate(&mut self, t: usize) {
        if self.active[t] {
            return;
        }
        self.active[t] = true;
        if self.alloc {
            // no copy is left here, as when a token is made, used and activated in one go
            std::mem::replace(&mut self.toks[t], SchedulingToken::new()).activate_inner();
        }
        let tok = self.toks[t].clone();
        assert!(self.alloc || !tok.is_activated(), "a token is active before it was activated");
        self.toks[t].clone().activate_inner();
        assert!(tok.is_activated(), "an activated token says it is not");
    }
    pub fn block(&mut self) -> Result<(), Fail> {
        let s = self.clock;
        let end = s + self.bs as u64;
        let p = self.proc.as_mut().unwrap();
        let before = alloc::audio_counts();
        on_audio(|| p.run_without_inputs());
        let after = alloc::audio_counts();
        if self.alloc {
            check!(before == after, "audio-alloc", "the block at frame {s}: {} allocations, {} frees, {} locks on the audio thread", after.0 - before.0, after.1 - before.1, after.2 - before.2);
        }
        let mut due: Vec<Vec<usize>> = vec![vec![]; self.nd.len()];
        for (i, e) in self.evs.iter_mut().enumerate().filter(|(_, e)| !e.applied) {
            if e.moment.is_none() {
                e.moment = Some(match e.time {
                    T::Now => s,
                    T::At(k) => (e.sent_at as i64 + k).max(s as i64) as u64,
                    T::After(k) => s + k,
                });
            }
            if e.tok.is_some_and(|t| !self.active[t]) || !self.nd[e.node].live {
                continue;
            }
            if e.moment.unwrap() < end {
                due[e.node].push(i);
            }
        }
        for (ni, n) in self.nd.iter_mut().enumerate() {
            let log = n.obs.params.lock().unwrap();
            let got: Vec<(u64, usize, PV)> = log[n.seen..].to_vec();
            n.seen = log.len();
            drop(log);
            let base = n.frames;
            if n.live {
                n.frames += self.bs as u64;
            }
            check!(n.live || got.is_empty(), "not-in-graph", "node {ni}, which isn't in the running graph, received {got:?}");
            let at = |e: &Ev| e.moment.unwrap().max(s);
            if self.loose {
                // only: what arrives was sent, hasn't arrived before, isn't early, and is in order
                let mut last = 0;
                let mut k = 0;
                while k < got.len() {
                    let (_, idx, v) = got[k];
                    let Some(e) = self.evs.iter_mut().find(|e| e.node == ni && !e.applied && e.idx == idx && e.vals.iter().enumerate().all(|(j, v)| got.get(k + j).is_some_and(|g| g.1 == idx && g.2 == *v))) else {
                        return fail("unsent", format!("block at {s}: node {ni} received {v:?} for parameter {idx}, which is not an outstanding change ({:?})", self.evs));
                    };
                    k += e.vals.len();
                    let earliest = match e.time {
                        T::Now => 0,
                        T::At(k) => (e.sent_at as i64 + k).max(0) as u64,
                        T::After(k) => e.sent_at + k,
                    };
                    check!(earliest < end && e.tok.is_none_or(|t| self.active[t]), "early", "block at {s}: change {} due at frame {earliest} (token {:?}) was applied", e.seq, e.tok);
                    if e.time == T::Now && e.tok.is_none() {
                        check!(e.seq > last, "order", "block at {s}: node {ni}: change {} was applied after {last}", e.seq);
                        last = e.seq;
                    }
                    e.applied = true;
                }
                continue;
            }
            let d = &due[ni];
            if n.precise {
                // changes must be scheduled in time order (documented)
                let later: Vec<u64> = d.iter().map(|i| at(&self.evs[*i])).filter(|m| *m > s).collect();
                if later.windows(2).any(|w| w[0] > w[1]) {
                    self.out_of_domain = true;
                    return Ok(());
                }
                let mut ord = d.clone();
                ord.sort_by_key(|i| at(&self.evs[*i]));
                let want: Vec<(u64, usize, PV)> =
                    ord.iter().flat_map(|i| { let e = &self.evs[*i]; e.vals.iter().map(move |v| (base + at(e) - s, e.idx, *v)) }).collect();
                check!(got == want, "precise", "block at frame {s}: node {ni} received (frame, parameter, value) {got:?}, expected {want:?}; changes {:?}", self.evs);
            } else {
                let want: Vec<(usize, PV, u64)> = d.iter().flat_map(|i| { let e = &self.evs[*i]; e.vals.iter().map(move |v| (e.idx, *v, at(e))) }).collect();
                check!(got.iter().all(|g| g.0 == base), "frame", "block at frame {s}: node {ni} received {got:?} while at frame {base}");
                let key = |x: &(usize, PV)| format!("{x:?}");
                let mut a: Vec<_> = got.iter().map(|g| key(&(g.1, g.2))).collect();
                let mut b: Vec<_> = want.iter().map(|g| key(&(g.0, g.1))).collect();
                a.sort();
                b.sort();
                check!(a == b, "applied", "block at frame {s}: node {ni} received {got:?}, due are {want:?}; changes {:?}", self.evs);
                // the same moment: order of sending
                let mut moments: Vec<u64> = want.iter().map(|w| w.2).collect();
                moments.dedup();
                for m in moments {
                    let w: Vec<_> = want.iter().filter(|w| w.2 == m).map(|w| key(&(w.0, w.1))).collect();
                    let g: Vec<_> = got.iter().map(|g| key(&(g.1, g.2))).filter(|g| w.contains(g)).collect();
                    if w.iter().collect::<std::collections::HashSet<_>>().len() == w.len() && g.len() == w.len() {
                        check!(g == w, "order", "block at frame {s}: node {ni} received {g:?}, sent were {w:?}");
                    }
                }
            }
            for i in d {
                self.evs[*i].applied = true;
            }
        }
        self.clock = end;
        Ok(())
    }
    pub fn apply(&mut self, l: L) -> Result<bool, Fail> {
        match l {
            L::Send(n, p, t, tok) => {
                if n as usize >= self.nd.len() {
                    return Ok(false);
                }
                let via = (self.count + n as usize) as u8;
                self.send(n as usize, p as usize, t, tok.map(|t| t as usize), via, 0)?
            }
            L::SendVia(n, p, t, tok, via, kind) => self.send(n as usize, p as usize, t, tok.map(|t| t as usize), via, kind)?,
            L::Block => self.block()?,
            L::Push => {
                if self.nd.len() > 3 {
                    return Ok(false);
                }
                self.push(self.nd.len() == 3)
            }
            L::Commit => self.commit(),
            L::Free(n) => {
                if !self.nd.get(n as usize).is_some_and(|n| n.pend) {
                    return Ok(false);
                }
                let ge = GraphEdit::new(&mut self.graph);
                ge.free_node(self.nd[n as usize].id).unwrap();
                std::mem::forget(ge); // no commit
                self.nd[n as usize].pend = false;
            }
            L::Activate(t) => self.activate(t as usize),
        }
        Ok(true)
    }
    /// Run until everything must have arrived, then drop the audio side.
    fn finish(&mut self, blocks: usize) -> Result<(), Fail> {
        for t in 0..2 {
            self.activate(t);
        }
        for _ in 0..blocks {
            self.block()?;
            if self.out_of_domain {
                return Ok(());
            }
        }
        for e in &self.evs {
            check!(e.applied || !self.nd[e.node].live, "lost", "change {} to node {} ({:?}, sent at {}) was never applied", e.seq, e.node, e.time, e.sent_at);
        }
        for n in &self.nd {
            check!(n.any.can_send(), "can-send", "a handle says it can't send to a graph that is still there");
        }
        self.proc = None;
        self.around.clear();
        for n in &mut self.nd {
            check!(n.any.set((0usize, 1.0)).is_err() && !n.any.can_send(), "freed-graph", "a change sent to a graph that was dropped on the audio side is accepted");
            if let Some(p) = &mut n.params {
                check!(p[0].set(1.0).is_err() && p[1].set_at(1.0, Seconds::ZERO).is_err() && p[0].smooth(ParameterSmoothing::None).is_err(), "freed-graph", "a change sent to a graph that was dropped on the audio side is accepted");
            }
            check!(!n.pend || self.graph.set(n.id, 0usize, 1.0, Time::asap()).is_err(), "freed-graph", "a change sent to a graph that was dropped on the audio side is accepted");
        }
        Ok(())
    }
}
pub struct SchedSpace {
    pub name: String,
    pub cfgs: Vec<(u32, usize)>,
    pub letters: Vec<L>,
    pub depth: usize,
    pub ring: usize,
    pub loose: bool,
    pub alloc: bool,
    pub drain: usize,
    /// in a graph this deep inside others
    pub nest: usize,
}
impl SchedSpace {
    fn at(&self, c: &[u16]) -> Vec<L> {
        c[1..].iter().map(|i| self.letters[*i as usize]).collect()
    }
}
impl Space for SchedSpace {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.is_empty() {
            self.cfgs.len()
        } else if p.len() <= self.depth {
            self.letters.len()
        } else {
            0
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("sample rate {} block size {}, channel capacity {}; node 0 plain, node 1 with precise timing; {:?}", self.cfgs[c[0] as usize].0, self.cfgs[c[0] as usize].1, self.ring, self.at(c))
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let (sr, bs) = self.cfgs[c[0] as usize];
        let mut r = Rig::nested(sr, bs, self.ring, self.alloc, self.nest);
        r.loose = self.loose;
        r.block()?;
        for l in self.at(c) {
            match r.apply(l) {
                Ok(true) => {}
                Ok(false) => {
                    rec.count("pruned", 1);
                    return Ok(());
                }
                Err(f) if f.key.is_empty() => {
                    rec.count("pruned", 1);
                    return Ok(());
                }
                Err(f) => return Err(f),
            }
            rec.step();
            if r.out_of_domain {
                rec.count("changes not scheduled in time order (precise timing)", 1);
                return Ok(());
            }
        }
        r.finish(self.drain)?;
        rec.state(&c);
        rec.count("changes sent", r.evs.len() as u64);
        Ok(())
    }
}
fn times(bs: usize) -> Vec<T> {
    let b = bs as i64;
    let mut v = vec![T::Now];
    for k in [-1, 0, 1, b - 1, b, b + 1, 2 * b + 1] {
        v.push(T::At(k))
    }
    for k in [0, 1, b - 1, b, b + 1, 2 * b + 1] {
        v.push(T::After(k as u64))
    }
    let mut w = vec![];
    for t in v {
        if !w.contains(&t) {
            w.push(t)
        }
    }
    w
}
fn timing(cfg: (u32, usize), depth: usize, both: bool, alloc: bool) -> SchedSpace {
    let mut letters = vec![L::Block];
    for t in times(cfg.1) {
        for n in 0..2 {
            letters.push(L::Send(n, 0, t, None));
            if both {
                letters.push(L::Send(n, 1, t, None));
            }
        }
    }
    SchedSpace { name: format!("timing-{}-{}-d{depth}{}", cfg.0, cfg.1, if both { "-2p" } else { "" }), cfgs: vec![cfg], letters, depth, ring: 24, loose: false, alloc, drain: 6, nest: 0 }
}
fn entries(depth: usize, alloc: bool) -> SchedSpace {
    let mut letters = vec![L::Block];
    for n in 0..2 {
        for t in [T::Now, T::At(5), T::After(2)] {
            for via in 0..7 {
                for kind in 0..5 {
                    letters.push(L::SendVia(n, (via + kind + n) % 2, t, None, via, kind));
                }
            }
        }
        for via in 0..2 {
            letters.push(L::SendVia(n, 1, T::Now, Some(0), via, 0));
        }
    }
    SchedSpace { name: format!("entry-points-d{depth}"), cfgs: vec![CFGS[0]], letters, depth, ring: 24, loose: false, alloc, drain: 4, nest: 0 }
}
fn lifecycle(depth: usize, alloc: bool) -> SchedSpace {
    let mut letters = vec![L::Block, L::Push, L::Commit, L::Free(0), L::Free(1)];
    for n in 0..3 {
        for t in [T::Now, T::At(5), T::After(3)] {
            letters.push(L::Send(n, 0, t, None));
        }
    }
    SchedSpace { name: format!("lifecycle-d{depth}"), cfgs: vec![CFGS[0]], letters, depth, ring: 24, loose: false, alloc, drain: 4, nest: 0 }
}
fn capacity(ring: usize, depth: usize, alloc: bool) -> SchedSpace {
    let letters = vec![L::Block, L::Send(0, 0, T::Now, None), L::Send(1, 0, T::Now, None), L::Send(0, 1, T::After(9), None), L::Send(1, 0, T::At(6), None), L::Send(0, 0, T::Now, Some(0)), L::Activate(0)];
    SchedSpace { name: format!("capacity-{ring}-d{depth}"), cfgs: vec![CFGS[0]], letters, depth, ring, loose: true, alloc, drain: 12, nest: 0 }
}
fn tokens(depth: usize, alloc: bool, small: bool) -> SchedSpace {
    let mut letters = vec![L::Block, L::Activate(0), L::Activate(1)];
    for n in 0..2 {
        for tok in [None, Some(0), Some(1)] {
            letters.push(L::Send(n, 0, T::Now, tok));
            if !small {
                letters.push(L::Send(n, 1, T::Now, tok));
            }
        }
        letters.push(L::Send(n, 0, T::After(5), None));
        if !small {
            letters.push(L::Send(n, 0, T::At(1), None));
        }
    }
    if !small {
        letters.push(L::Commit);
        letters.push(L::Push);
        letters.push(L::Free(0));
        letters.push(L::Send(2, 0, T::Now, Some(0)));
    }
    SchedSpace { name: format!("tokens-d{depth}{}", if small { "" } else { "-edits" }), cfgs: vec![CFGS[0]], letters, depth, ring: 24, loose: false, alloc, drain: 4, nest: 0 }
}

/// Many changes: counts and regular patterns of times, nodes, tokens and entry points.
struct Bulk {
    name: String,
    counts: Vec<usize>,
    /// patterns with tokens / without
    tokens: bool,
}
const PATTERNS: [&str; 9] = ["as soon as possible", "all at one frame", "ascending", "descending", "now and later by turns", "relative, equal", "relative, ascending", "one far away, the others now", "the last now, the others later"];
fn pattern(p: u16, i: usize, n: usize) -> T {
    match p {
        0 => T::Now,
        1 => T::At(9),
        2 => T::At(i as i64),
        3 => T::At((n - i) as i64),
        4 => if i % 2 == 0 { T::Now } else { T::At(6) },
        5 => T::After(5),
        6 => T::After(i as u64 / 2),
        7 => if i == 0 { T::At(100) } else { T::Now },
        _ => if i + 1 == n { T::Now } else { T::After(7) },
    }
}
const TARGETS: [&str; 4] = ["one node", "one node with precise timing", "both by turns", "many nodes by turns"];
const TOKENS: [&str; 5] = ["none", "one token", "two tokens by turns", "every other with a token", "the first with a token"];
const FLOWS: [&str; 4] = ["all before a block", "a block after every third", "the nodes committed afterwards", "a block after each"];
impl Space for Bulk {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        match p.len() {
            0 => self.counts.len(),
            1 => PATTERNS.len(),
            2 => TARGETS.len(),
            3 => if self.tokens { TOKENS.len() } else { 1 },
            4 => FLOWS.len(),
            // entry points: each one, by turns, set_many
            5 => if p[3] == 0 { 9 } else { 2 },
            // capacity: as many as needed, more
            6 => 2,
            7 => 2,
            _ => 0,
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("{} changes, times: {}, to: {}, tokens: {}, {}, entry point {}, capacity {}, block size {}", self.counts[c[0] as usize], PATTERNS[c[1] as usize], TARGETS[c[2] as usize], TOKENS[c[3] as usize], FLOWS[c[4] as usize], match c[5] { 7 => "by turns".into(), 8 => "one set_many".into(), n => n.to_string() }, if c[6] == 0 { "exact" } else { "ample" }, [4, 65][c[7] as usize])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let n = self.counts[c[0] as usize];
        // setting in an edit commits
        if c[4] == 2 && (c[5] == 5 || c[5] == 7) {
            return Ok(());
        }
        let ring = if c[6] == 0 { n.max(4) } else { 96 };
        let mut r = Rig::new(48000, [4, 65][c[7] as usize], ring, false);
        let extra = if c[2] == 3 { 6 } else { 0 };
        for i in 0..extra {
            r.push(i % 3 == 2);
        }
        r.block()?;
        if c[4] != 2 {
            r.commit();
            r.block()?;
        }
        let nodes = r.nd.len();
        let node = |i: usize| match c[2] {
            0 => 0,
            1 => 1,
            2 => i % 2,
            _ => (i * 5) % nodes,
        };
        let tok = |i: usize| match c[3] {
            0 => None,
            1 => Some(0),
            2 => Some(i % 2),
            3 => (i % 2 == 0).then_some(0),
            _ => (i == 0).then_some(0),
        };
        let out = |r: Result<(), Fail>| match r {
            Err(f) if f.key.is_empty() => Ok(false),
            Err(f) => Err(f),
            Ok(()) => Ok(true),
        };
        if c[5] == 8 {
            if c[1] != 0 && c[1] != 1 && c[1] != 5 {
                return Ok(());
            }
            // some can't be sent: the others are all the same
            let t = pattern(c[1], 0, n);
            let s = r.secs(match t {
                T::At(k) => (r.clock as i64 + k) as u64,
                T::After(k) => k,
                T::Now => 0,
            });
            let mut list = vec![];
            for i in 0..n {
                r.count += 1;
                let seq = r.count;
                let nd = &r.nd[node(i)];
                if i % 3 == 1 {
                    list.push((nd.id, Param::Desc("no such parameter"), ParameterValue::Float(0.0)));
                    list.push((NodeId::invalid(), Param::Index(0), ParameterValue::Float(0.0)));
                }
                let idx = i % 2;
                list.push((nd.id, if i % 4 < 2 { Param::Index(idx) } else { Param::Desc(NAMES[idx]) }, ParameterValue::Float(seq as f64)));
                r.evs.push(Ev { seq, node: node(i), idx, vals: vec![PV::F(seq as f64)], time: t, moment: None, sent_at: r.clock, tok: None, applied: false });
            }
            r.graph.set_many(&list, match t {
                T::Now => Time::asap(),
                T::At(_) => Time::at(s),
                T::After(_) => Time::after(s),
            });
        } else {
            for i in 0..n {
                let via = if c[5] == 7 { i as u8 } else { c[5] as u8 };
                // tokens can't be timed
                let time = if tok(i).is_some() { T::Now } else { pattern(c[1], i, n) };
                if !out(r.send(node(i), (i / 3) % 2, time, tok(i), via, if c[5] == 7 { (i % 5) as u8 } else { 0 }))? {
                    rec.count("pruned", 1);
                    return Ok(());
                }
                rec.step();
                if c[4] == 3 || (c[4] == 1 && i % 3 == 2) {
                    r.block()?;
                }
                if r.out_of_domain {
                    rec.count("changes not scheduled in time order (precise timing)", 1);
                    return Ok(());
                }
            }
        }
        let mut settle = |r: &mut Rig| -> Result<(), Fail> {
            if c[4] == 2 {
                r.block()?;
                if r.out_of_domain {
                    return Ok(());
                }
                r.commit();
            }
            r.block()?;
            if c[3] == 2 && !r.out_of_domain {
                r.activate(1);
                r.block()?;
            }
            Ok(())
        };
        settle(&mut r)?;
        if r.out_of_domain {
            rec.count("changes not scheduled in time order (precise timing)", 1);
            return Ok(());
        }
        r.activate(0);
        r.finish(110usize.div_ceil(r.bs) + 4)?;
        rec.state(&c);
        rec.count("changes sent", r.evs.len() as u64);
        Ok(())
    }
}
/// Two sender threads against the audio thread.
#[derive(Clone, Copy, Debug, PartialEq)]
enum CL {
    Set(u8),
    At(u8, i64),
    Tok(u8),
    Activate,
}
struct Senders {
    name: &'static str,
    bound: usize,
    blocks: usize,
    per: usize,
    letters: Vec<CL>,
    ring: usize,
}
#[derive(Default)]
struct CS {
    /// thread, index, node, value, time, tokened, blocks completed before the send began, result, blocks started when it had returned
    sent: Vec<(usize, usize, f64, Option<u64>, bool, usize, bool, usize)>,
    begun: usize,
    done: usize,
    /// blocks begun when activation began / finished
    act_begin: Option<usize>,
    act_end: Option<usize>,
    log: Vec<(usize, usize, PV)>,
    err: Option<Fail>,
}
impl Space for Senders {
    fn name(&self) -> String {
        self.name.into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.len() < 2 * self.per { self.letters.len() } else { 0 }
    }
    fn describe(&self, c: &[u16]) -> String {
        let f = |c: &[u16]| c.iter().map(|i| self.letters[*i as usize]).collect::<Vec<_>>();
        format!("sender 1 {:?}, sender 2 {:?}, audio thread {} blocks; ≤{} preemptions, channel capacity {}", f(&c[..self.per]), f(&c[self.per..]), self.blocks, self.bound, self.ring)
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let result: RefCell<Option<Fail>> = RefCell::new(None);
        let scripts: Vec<Vec<CL>> = (0..2).map(|t| c[t * self.per..(t + 1) * self.per].iter().map(|i| self.letters[*i as usize]).collect()).collect();
        let hist: RefCell<std::collections::HashSet<String>> = Default::default();
        let (n, steps) = mcsched::explore(self.bound, || {
            let mut rig = Rig::new(48000, 4, self.ring, true);
            let _ = rig.block();
            let proc = Rc::new(RefCell::new(rig.proc.take().unwrap()));
            let handles: Vec<AnyHandle> = rig.nd.iter().map(|n| n.any.clone()).collect();
            let obs: Vec<Arc<Obs>> = rig.nd.iter().map(|n| n.obs.clone()).collect();
            let params: Vec<[Parameter; 8]> = rig.nd.iter().map(|n| n.params.clone().unwrap()).collect();
            let tok = rig.toks[0].clone();
            let sh = Rc::new(RefCell::new(CS::default()));
            let rig = Rc::new(RefCell::new(Some(rig)));
            let mut threads: Vec<Box<dyn FnOnce()>> = vec![];
            for t in 0..2 {
                let (handles, mut params, sh, script, tok) = (handles.clone(), params.clone(), sh.clone(), &scripts[t], tok.clone());
                threads.push(Box::new(move || {
                    for (i, l) in script.iter().enumerate() {
                        let v = (100 * (t + 1) + i) as f64;
                        let begun = sh.borrow().done;
                        let (node, time, tk, r) = match *l {
                            CL::Set(n) => (n as usize, None, false, if t == 0 { handles[n as usize].set((0usize, v)) } else { params[n as usize][0].set(v) }),
                            CL::At(n, k) => (n as usize, Some((4 + k) as u64), false, params[n as usize][0].set_at(v, Seconds::from_samples((4 + k) as u64, 48000))),
                            CL::Tok(n) => (n as usize, None, true, handles[n as usize].set((0usize, v, tok.clone()))),
                            CL::Activate => {
                                let b = sh.borrow().begun;
                                {
                                    let mut s = sh.borrow_mut();
                                    s.act_begin.get_or_insert(b);
                                }
                                tok.clone().activate_inner();
                                let b = sh.borrow().begun;
                                let mut s = sh.borrow_mut();
                                s.act_end = Some(s.act_end.unwrap_or(b).min(b));
                                continue;
                            }
                        };
                        let mut s = sh.borrow_mut();
                        let after = s.begun;
                        s.sent.push((t, node, v, time, tk, begun, r.is_ok(), after));
                    }
                }));
            }
            let audio = {
                let (sh, proc, obs) = (sh.clone(), proc.clone(), obs.clone());
                move || {
                    let mut p = proc.borrow_mut();
                    let mut seen = [0usize; 2];
                    for b in 0..self.blocks {
                        sh.borrow_mut().begun += 1;
                        let before = alloc::audio_counts();
                        on_audio(|| p.run_without_inputs());
                        let after = alloc::audio_counts();
                        let mut s = sh.borrow_mut();
                        s.done += 1;
                        if before != after {
                            s.err = Some(Fail { key: "audio-alloc".into(), msg: format!("{} allocations, {} frees, {} locks on the audio thread", after.0 - before.0, after.1 - before.1, after.2 - before.2) });
                        }
                        for (n, o) in obs.iter().enumerate() {
                            let l = o.params.lock().unwrap();
                            for e in &l[seen[n]..] {
                                s.log.push((b, n, e.2));
                            }
                            seen[n] = l.len();
                        }
                    }
                }
            };
            threads.push(Box::new(audio));
            let (result, hist) = (&result, &hist);
            let check = move |o: &Outcome| {
                let r = (|| -> Result<(), Fail> {
                    let sched = format!("schedule {:?}", o.order);
                    check!(!o.deadlock, "deadlock", "threads wait forever; {sched}");
                    check!(o.panicked.is_empty(), "panic", "thread {:?}: {}; {sched}", o.panicked, last_panic());
                    let mut s = sh.borrow_mut();
                    if let Some(f) = s.err.take() {
                        return fail(f.key, format!("{}; {sched}", f.msg));
                    }
                    // settle: everything sent must have arrived
                    tok.clone().activate_inner();
                    {
                        let mut p = proc.borrow_mut();
                        let mut seen: Vec<usize> = (0..2).map(|n| s.log.iter().filter(|l| l.1 == n).count()).collect();
                        for b in self.blocks..self.blocks + 4 {
                            on_audio(|| p.run_without_inputs());
                            for (n, o) in obs.iter().enumerate() {
                                let l = o.params.lock().unwrap();
                                for e in &l[seen[n]..] {
                                    s.log.push((b, n, e.2));
                                }
                                seen[n] = l.len();
                            }
                        }
                    }
                    for (t, node, v, time, tk, begun, ok, after) in &s.sent {
                        let hits: Vec<usize> = s.log.iter().filter(|l| l.1 == *node && l.2 == PV::F(*v)).map(|l| l.0).collect();
                        if !ok {
                            let others = s.sent.iter().filter(|x| x.6).count();
                            check!(hits.is_empty(), "refused-applied", "change {v} was refused but applied; {sched}");
                            check!(others >= self.ring, "send-refused", "change {v} of sender {t} was refused with only {others} changes sent; {sched}");
                            continue;
                        }
                        check!(hits.len() == 1, "times", "change {v} of sender {t} was applied {} times; {sched}", hits.len());
                        let b = hits[0];
                        // the block (0 based) that starts after the send returned must see it
                        let mut latest = *after;
                        let mut earliest = *begun;
                        if let Some(f) = time {
                            let fb = (*f as usize).saturating_sub(4) / 4;
                            latest = latest.max(fb);
                            earliest = earliest.max(fb);
                        }
                        if *tk {
                            earliest = earliest.max(s.act_begin.unwrap_or(self.blocks + 1).saturating_sub(1));
                            latest = latest.max(s.act_end.unwrap_or(self.blocks));
                        }
                        check!(b >= earliest, "early", "change {v} of sender {t} was applied in block {b}, not before {earliest} is allowed; {sched}");
                        check!(self.ring < 8 || b <= latest, "late", "change {v} of sender {t} (token {tk}) was applied in block {b}, it must be by {latest}; {sched}");
                    }
                    // order per sender and node
                    for t in 0..2 {
                        for node in 0..2 {
                            let plain: Vec<f64> = s.sent.iter().filter(|x| x.0 == t && x.1 == node && x.3.is_none() && !x.4 && x.6).map(|x| x.2).collect();
                            let got: Vec<f64> = s.log.iter().filter(|l| l.1 == node).filter_map(|l| if let PV::F(v) = l.2 { Some(v) } else { None }).filter(|v| plain.contains(v)).collect();
                            check!(got == plain, "order", "node {node} received {got:?} of sender {t}, sent were {plain:?}; {sched}");
                            let tk: Vec<f64> = s.sent.iter().filter(|x| x.0 == t && x.1 == node && x.4 && x.6).map(|x| x.2).collect();
                            let got: Vec<f64> = s.log.iter().filter(|l| l.1 == node).filter_map(|l| if let PV::F(v) = l.2 { Some(v) } else { None }).filter(|v| tk.contains(v)).collect();
                            // activation while a block is processed may split them
                            check!(s.act_begin.is_some() || got == tk, "order", "node {node} received {got:?} of sender {t} (tokened), sent were {tk:?}; {sched}");
                        }
                    }
                    hist.borrow_mut().insert(format!("{:?}", s.log));
                    Ok(())
                })();
                *rig.borrow_mut() = None;
                match r {
                    Ok(()) => true,
                    Err(f) => {
                        *result.borrow_mut() = Some(f);
                        false
                    }
                }
            };
            (threads, Box::new(check))
        });
        rec.transitions += steps;
        rec.count("schedules", n);
        rec.count("distinct outcomes", hist.borrow().len() as u64);
        rec.state(&(c, self.name));
        match result.into_inner() {
            None => Ok(()),
            Some(f) => Err(f),
        }
    }
}
/// A node that only notes from which frame each value of its parameter applies
struct Mark {
    value: f64,
    seen: Rc<RefCell<Vec<(u64, f64)>>>,
    clock: Rc<Cell<(u64, u64)>>,
}
impl UGen for Mark {
    type Sample = S;
    type Inputs = U0;
    type Outputs = U0;
    type Parameters = U1;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<Self::Sample, U0>) -> Frame<Self::Sample, U0> {
        Frame::default()
    }
    fn process_block<A, B>(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: &A, _: &mut B)
    where
        A: BlockRead<Sample = Self::Sample> + ?Sized,
        B: Block<Sample = Self::Sample> + ?Sized,
    {
        let (next, wrong) = self.clock.get();
        let c = ctx.frame_clock();
        self.clock.set((c + ctx.frames_to_process() as u64, wrong + (c != next) as u64));
        let mut s = self.seen.borrow_mut();
        if s.last().map(|l| l.1) != Some(self.value) {
            s.push((c, self.value));
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, U1> {
        ["value"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U1> {
        [ParameterHint::new_float(|h| h)].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, v: ParameterValue) {
        self.value = v.float().unwrap();
    }
}
/// Changes that wait for billions of frames
struct Far {
    srs: Vec<u32>,
}
const FAR_BS: u64 = 65536;
/// frames at which changes are due
const FAR: [u64; 12] = [5, 65_535, 65_536, 65_541, 48_000 * 3600, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 65_535, (1 << 32) + 65_536, (1 << 32) + 5 * 65_536 + 77];
impl Space for Far {
    fn name(&self) -> String {
        "far-ahead".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        [self.srs.len(), 2, 2].get(p.len()).copied().unwrap_or(0)
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("changes at {FAR:?}, {} Hz, blocks of {FAR_BS} frames, {}, {}", self.srs[c[0] as usize], ["all sent at the start", "each sent two blocks ahead"][c[1] as usize], ["in the graph", "in a subgraph"][c[2] as usize])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let sr = self.srs[c[0] as usize];
        let mut cfg = Cfg::new(FAR_BS as usize, 0, 1);
        cfg.sr = sr;
        cfg.ring = 64;
        cfg.nest = c[2] as usize;
        let (_around, mut graph, mut proc, _log) = make_nested(&cfg);
        let mut nodes = vec![];
        let token = SchedulingToken::new();
        for _ in 0..3 {
            let (seen, clock) = (Rc::new(RefCell::new(vec![])), Rc::new(Cell::new((0, 0))));
            let m = Mark { value: 0.0, seen: seen.clone(), clock: clock.clone() };
            #[allow(deprecated)]
            let h = graph.push(WrPreciseTiming::<4, _>::new(m)).into_any();
            nodes.push((h, seen, clock));
        }
        graph.edit(|_: GraphEdit<S>| {});
        nodes[2].0.set(("value", 99.0, token.clone())).unwrap();
        let lead = |f: u64| if c[1] == 0 { 0 } else { (f / FAR_BS).saturating_sub(2) };
        let blocks = FAR[FAR.len() - 1] / FAR_BS + 3;
        for b in 0..blocks {
            for (i, f) in FAR.iter().enumerate() {
                if lead(*f) == b {
                    let (v, t) = (i as f64 + 1.0, |f: u64| Seconds::from_samples(f, sr as u64));
                    graph.set(nodes[0].0.node_id(), 0usize, v, Time::at(t(*f))).unwrap();
                    graph.set(nodes[1].0.node_id(), 0usize, v, Time::after(t(*f - b * FAR_BS))).unwrap();
                }
            }
            if b == blocks - 2 {
                token.clone().activate_inner();
            }
            proc.run_without_inputs();
            rec.step();
        }
        let mut want = vec![(0, 0.0)];
        want.extend(FAR.iter().enumerate().map(|(i, f)| (*f, i as f64 + 1.0)));
        for (i, (_, seen, clock)) in nodes.iter().enumerate() {
            let s = seen.borrow();
            let want = if i < 2 { want.clone() } else { vec![(0, 0.0), ((blocks - 2) * FAR_BS, 99.0)] };
            check!(*s == want, ["absolute", "relative", "token"][i], "the values apply from the frames {s:?}, expected {want:?}");
            check!(clock.get() == (blocks * FAR_BS, 0), "clock", "the frame clock is wrong in {} parts of blocks", clock.get().1);
        }
        rec.state(&c);
        Ok(())
    }
}
/// Blocks so long that not every frame of them is within reach of a 16 bit number
struct LongBlocks;
const LONG_BS: u64 = 100_000;
const LONG_AT: [u64; 12] = [0, 1, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000, 99_999, 100_000, 165_535, 165_536];
impl Space for LongBlocks {
    fn name(&self) -> String {
        "blocks-of-100000-frames".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        [LONG_AT.len(), 2, 2].get(p.len()).copied().unwrap_or(0)
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("a change at frame {}, blocks of {LONG_BS} frames, {}, {}", LONG_AT[c[0] as usize], ["absolute", "relative"][c[1] as usize], ["in the graph", "in a subgraph"][c[2] as usize])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let mut cfg = Cfg::new(LONG_BS as usize, 0, 1);
        cfg.nest = c[2] as usize;
        let (_around, mut graph, mut proc, _log) = make_nested(&cfg);
        let (seen, clock) = (Rc::new(RefCell::new(vec![])), Rc::new(Cell::new((0, 0))));
        #[allow(deprecated)]
        let h = graph.push(WrPreciseTiming::<4, _>::new(Mark { value: 0.0, seen: seen.clone(), clock }));
        graph.edit(|_: GraphEdit<S>| {});
        let f = LONG_AT[c[0] as usize];
        let t = Seconds::from_samples(f, cfg.sr as u64);
        let sent = graph.set(h.node_id(), 0usize, 5.0, if c[1] == 0 { Time::at(t) } else { Time::after(t) });
        check!(sent.is_ok(), "send-refused", "{sent:?}");
        for _ in 0..3 {
            proc.run_without_inputs();
            rec.step();
        }
        let s: Vec<(u64, f64)> = seen.borrow().iter().filter(|s| s.1 != 0.0).copied().collect();
        let cut = f / LONG_BS * LONG_BS + f % LONG_BS % 65_536;
        check!(f % LONG_BS < 65_536 || s != [(cut, 5.0)], "delay-of-65536-frames-or-more", "the change at frame {f} applies from frame {cut}");
        check!(s == [(f, 5.0)], "value", "the change at frame {f} applies from the frames {s:?}");
        rec.state(&c);
        Ok(())
    }
}
fn bulk(run: &Run) -> Vec<usize> {
    if run.thorough() { (1..=80).collect() } else { vec![3, 5, 7, 8, 9, 15, 16, 17, 18, 33, 65] }
}
/// Changes to nodes of a graph inside others
pub fn nested(run: &Run) {
    for nest in [1, 2] {
        let mut l = vec![timing(CFGS[0], run.pick(3, 4), false, false), timing(CFGS[2], 2, true, false), entries(1, false), lifecycle(run.pick(4, 5), false)];
        l.extend((1..3).map(|ring| capacity(ring, run.pick(4, 6), false)));
        l.push(tokens(run.pick(4, 5), false, true));
        for mut s in l {
            s.nest = nest;
            s.name = format!("{} in a graph {nest} deep", s.name);
            run.explore(&s);
        }
    }
}
pub fn g08(run: &Run) {
    run.assume("sequentially consistent memory in the concurrent spaces");
    run.assume("with precise timing, changes to one node are sent in the order of their times (documented requirement); other sequences are pruned and counted");
    run.explore(&timing(CFGS[0], run.pick(4, 5), false, false));
    run.explore(&timing(CFGS[0], run.pick(2, 3), true, false));
    run.explore(&timing(CFGS[1], run.pick(3, 4), false, false));
    run.explore(&timing(CFGS[2], run.pick(3, 4), false, false));
    run.explore(&entries(2, false));
    run.explore(&lifecycle(run.pick(5, 6), false));
    for ring in [1, 2, 3] {
        run.explore(&capacity(ring, run.pick(6, 7), false));
    }
    nested(run);
    run.explore(&Bulk { name: "many changes".into(), counts: bulk(run), tokens: false });
    run.explore(&LongBlocks);
    run.explore(&Far { srs: run.pick(vec![44100, 48000], vec![11, 8000, 22050, 44100, 48000, 96000, 192000]) });
    let l = vec![CL::Set(0), CL::Set(1), CL::At(0, 2), CL::At(1, 5)];
    run.explore(&Senders { name: "two-senders", bound: run.pick(3, 4), blocks: 2, per: 2, letters: l.clone(), ring: 24 });
    run.explore(&Senders { name: "two-senders-full", bound: run.pick(2, 4), blocks: 2, per: 2, letters: vec![CL::Set(0), CL::Set(1), CL::At(0, 5)], ring: 2 });
}
pub fn g09(run: &Run) {
    run.assume("sequentially consistent memory in the concurrent spaces");
    run.assume("tokens are activated with activate_inner; SchedulingToken::activate is not implemented");
    run.explore(&tokens(run.pick(5, 6), false, true));
    run.explore(&tokens(run.pick(4, 5), false, false));
    let mut low = tokens(run.pick(5, 6), false, true);
    low.cfgs = vec![CFGS[1]];
    low.name = format!("{}-11Hz", low.name);
    run.explore(&low);
    run.explore(&Bulk { name: "many changes with tokens".into(), counts: bulk(run), tokens: true });
    let l = vec![CL::Tok(0), CL::Tok(1), CL::Set(0), CL::Activate];
    run.explore(&Senders { name: "token-senders", bound: run.pick(2, 4), blocks: 2, per: 2, letters: l, ring: 24 });
}
/// The same spaces, counting what the audio thread allocates.
pub fn g07_spaces(run: &Run) {
    run.explore(&timing(CFGS[0], run.pick(2, 3), false, true));
    run.explore(&entries(run.pick(1, 2), true));
    run.explore(&lifecycle(run.pick(4, 5), true));
    run.explore(&capacity(2, run.pick(5, 6), true));
    run.explore(&tokens(run.pick(4, 5), true, false));
}
#[allow(unused)]
fn unused() -> (Rate, Cell<u8>) {
    (Rate::AudioRate, Cell::new(0))
}
