//! G13: the processor's inputs, block sequence and clock.
use crate::common::*;
use crate::tu::*;
use crate::world::*;
use knaster_core::typenum::*;
use knaster_core::{BlockRead, Seconds};
use knaster_graph::handle::{AnyHandle, HandleTrait};
use knaster_graph::graph::{Graph, NodeOrGraph};
use knaster_graph::graph_edit::GraphEdit;
use mcsched::Outcome;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

const SUB: u128 = 282_240_000;
const SRS: [u32; 14] = [1, 2, 3, 7, 11, 8000, 22050, 44100, 44101, 48000, 48001, 96000, 192000, u32::MAX];
const BSS: [usize; 7] = [1, 2, 3, 7, 16, 64, 300];
/// numbers of inputs and outputs
const IOS: [(usize, usize); 17] = [(0, 1), (1, 1), (2, 1), (3, 1), (0, 2), (1, 2), (2, 2), (3, 2), (0, 3), (1, 3), (2, 3), (3, 3), (9, 9), (17, 5), (40, 1), (0, 17), (2, 40)];
/// Is `t` the time of `frames` at `sr`?
fn exact(t: Seconds, frames: u64, sr: u32) -> Result<(), Fail> {
    let tes = t.to_subsample_tesimals_u64() as u128;
    // |tes/SUB - frames/sr| < 1 tesimal, and exact where possible
    let (a, b) = (tes * sr as u128, frames as u128 * SUB);
    let d = a.abs_diff(b);
    check!(d < sr as u128 && (b % sr as u128 != 0 || d == 0), "clock", "the clock shows {t:?} after {frames} frames at {sr} Hz");
    check!(sr as u128 > SUB || t.to_samples(sr as u64) == frames, "clock-frames", "the clock {t:?} converts to {} frames after {frames} frames at {sr} Hz", t.to_samples(sr as u64));
    Ok(())
}
pub struct Runs {
    pub blocks: usize,
}
impl Space for Runs {
    fn name(&self) -> String {
        "runs".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        [SRS.len(), BSS.len(), IOS.len(), 4, 2].get(p.len()).copied().unwrap_or(0)
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("sample rate {}, block size {}, {} inputs, {} outputs, {}, {}", SRS[c[0] as usize], BSS[c[1] as usize], IOS[c[2] as usize].0, IOS[c[2] as usize].1, ["run", "run_raw_ptr_inputs", "alternating", "run with longer slices"][c[3] as usize], ["units in the graph", "units in a subgraph"][c[4] as usize])
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let (sr, bs, (nin, nout)) = (SRS[c[0] as usize], BSS[c[1] as usize], IOS[c[2] as usize]);
        let mut cfg = Cfg::new(bs, nin, nout);
        cfg.sr = sr;
        let (mut graph, mut proc, _log) = make_proc(&cfg);
        check!(proc.block_size() == bs && proc.inputs() as usize == nin && proc.outputs() as usize == nout, "shape", "the processor reports block size {} inputs {} outputs {}", proc.block_size(), proc.inputs(), proc.outputs());
        let mut sub: Option<Graph<S>> = None;
        let mut obs: Vec<Arc<Obs>> = vec![];
        // per input a unit and a direct connection; a source
        let nested = c[4] == 1;
        let mut handle: Option<AnyHandle> = None;
        {
            let mut fill = |g: &mut Graph<S>| {
                for ch in 0..nin {
                    let (t, o) = TU::<U1, U1>::new(ch as u32 + 1);
                    obs.push(o);
                    #[allow(deprecated)]
                    let h = g.push(t);
                    g.connect2(NodeOrGraph::Graph, ch as u16, 0, NodeOrGraph::Node(h.node_id())).unwrap();
                    g.connect2(NodeOrGraph::Node(h.node_id()), 0, (ch % nout) as u16, NodeOrGraph::Graph).unwrap();
                    g.connect2(NodeOrGraph::Graph, ch as u16, ((ch + 1) % nout) as u16, NodeOrGraph::Graph).unwrap();
                }
                let (t, o) = TU::<U0, U1>::new(77);
                obs.push(o);
                #[allow(deprecated)]
                let h = g.push(t);
                g.connect2(NodeOrGraph::Node(h.node_id()), 0, 0, NodeOrGraph::Graph).unwrap();
                handle = Some(h.into_any());
                g.edit(|_: GraphEdit<S>| {});
            };
            if nested {
                macro_rules! sg { ($($i:literal $o:literal $it:ty, $ot:ty;)*) => { match (nin, nout) { $(($i,$o) => {
                    #[allow(deprecated)]
                    graph.subgraph::<$it,$ot>(knaster_graph::graph::GraphOptions { name: "sub".into(), ring_buffer_size: 24 }) })* _ => panic!() } } }
                let mut s = sg!(0 1 U0,U1; 1 1 U1,U1; 2 1 U2,U1; 3 1 U3,U1; 0 2 U0,U2; 1 2 U1,U2; 2 2 U2,U2; 3 2 U3,U2; 0 3 U0,U3; 1 3 U1,U3; 2 3 U2,U3; 3 3 U3,U3; 9 9 U9,U9; 17 5 U17,U5; 40 1 U40,U1; 0 17 U0,U17; 2 40 U2,U40;);
                fill(&mut s);
                let id = s.id();
                for ch in 0..nin {
                    graph.connect2(NodeOrGraph::Graph, ch as u16, ch as u16, NodeOrGraph::Node(id)).unwrap();
                }
                for ch in 0..nout {
                    graph.connect2(NodeOrGraph::Node(id), ch as u16, ch as u16, NodeOrGraph::Graph).unwrap();
                }
                graph.edit(|_: GraphEdit<S>| {});
                sub = Some(s);
            } else {
                fill(&mut graph);
            }
        }
        let handle = handle.unwrap();
        let clocks = |frames: u64| -> Result<(), Fail> {
            let mut all = vec![graph.shared_frame_clock().get(), handle.current_frame_time(), graph.inspection().shared_frame_clock.get()];
            if let Some(s) = &sub {
                all.push(s.shared_frame_clock().get());
                all.push(s.inspection().shared_frame_clock.get());
            }
            for t in &all {
                check!(t == &all[0], "clocks-differ", "graph, handle and inspection show different times: {all:?}");
                exact(*t, frames, sr)?;
            }
            Ok(())
        };
        clocks(0)?;
        for b in 0..self.blocks {
            let extra = if c[3] == 3 { 1 + b } else { 0 };
            let start = (b * bs) as u64;
            let input: Vec<Vec<S>> = (0..nin).map(|ch| (0..bs + extra).map(|f| if f < bs { (((start + f as u64) * 29 + 4001 * ch as u64 + 3) % 65521) as S } else { -1e9 }).collect()).collect();
            let raw = c[3] == 1 || (c[3] == 2 && b % 2 == 1);
            let p: Vec<*const S> = input.iter().map(|i| i.as_ptr()).collect();
            let s: Vec<&[S]> = input.iter().map(|i| i.as_slice()).collect();
            on_audio_checked(|| {
                if raw && nin == 0 {
                    proc.run_without_inputs()
                } else if raw {
                    unsafe { proc.run_raw_ptr_inputs(&p) }
                } else {
                    proc.run(&s)
                }
            })?;
            rec.step();
            let mut want = vec![vec![0.0 as S; bs]; nout];
            for f in 0..bs {
                for ch in 0..nin {
                    want[ch % nout][f] += unit_value(ch as u32 + 1, start + f as u64, &[0.0; 2], 0, std::iter::once(input[ch][f] as f64));
                    want[(ch + 1) % nout][f] += input[ch][f];
                }
                want[0][f] += unit_value(77, start + f as u64, &[0.0; 2], 0, std::iter::empty());
            }
            drop(input);
            for o in 0..nout {
                let got = proc.output_block().channel_as_slice(o);
                check!(got == want[o].as_slice(), "output", "block {b}: output {o} is {got:?}, expected {:?}", want[o]);
            }
            for (i, o) in obs.iter().enumerate() {
                let seen = (o.blocks.load(SeqCst), o.ctx_clock.load(SeqCst), o.ctx_bs.load(SeqCst), o.ctx_sr.load(SeqCst), o.ctx_frames.load(SeqCst), o.sr.load(SeqCst), o.bs.load(SeqCst), o.inits.load(SeqCst));
                let want = (b as u32 + 1, start, bs, sr, bs, sr, bs, 1);
                check!(seen == want, "context", "block {b}: unit {i} saw (blocks, clock, block size, sample rate, frames, init rate, init block size, inits) {seen:?}, expected {want:?}");
            }
            clocks(start + bs as u64)?;
        }
        if nin > 0 && bs > 1 {
            let short = vec![0.0 as S; bs - 1];
            let full = vec![0.0 as S; bs];
            for bad in 0..nin {
                let s: Vec<&[S]> = (0..nin).map(|i| if i == bad { short.as_slice() } else { full.as_slice() }).collect();
                check!(no_panic(|| on_audio(|| proc.run(&s))).is_err(), "short-input", "an input shorter than a block is read past its end");
            }
            let s: Vec<&[S]> = (0..nin - 1).map(|_| full.as_slice()).collect();
            check!(no_panic(|| on_audio(|| proc.run(&s))).is_err(), "missing-input", "a missing input is accepted");
            clocks((self.blocks * bs) as u64)?;
        }
        rec.state(&c);
        Ok(())
    }
}
/// The clock over many frames.
struct Long {
    blocks: u64,
    bs: usize,
    srs: Vec<u32>,
}
impl Space for Long {
    fn name(&self) -> String {
        format!("clock-{}-frames", self.blocks * self.bs as u64)
    }
    fn arity(&self, p: &[u16]) -> usize {
        if p.is_empty() { self.srs.len() } else { 0 }
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("sample rate {}, {} blocks of {}", self.srs[c[0] as usize], self.blocks, self.bs)
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let sr = self.srs[c[0] as usize];
        let mut cfg = Cfg::new(self.bs, 0, 1);
        cfg.sr = sr;
        let (graph, mut proc, _log) = make_proc(&cfg);
        let clock = graph.shared_frame_clock();
        let mut last = clock.get();
        for b in 1..=self.blocks {
            proc.run_without_inputs();
            let t = clock.get();
            check!(t >= last, "decreasing", "the clock goes from {last:?} to {t:?}");
            last = t;
            exact(t, b * self.bs as u64, sr)?;
            rec.step();
        }
        rec.state(&c);
        Ok(())
    }
}
/// Reading the clock while blocks are processed.
struct Readers {
    bound: usize,
    slices: usize,
}
impl Space for Readers {
    fn name(&self) -> String {
        "clock-readers".into()
    }
    fn arity(&self, p: &[u16]) -> usize {
        [3, 2, self.slices].get(p.len()).copied().unwrap_or(0)
    }
    fn describe(&self, c: &[u16]) -> String {
        format!("two readers of the clock against 3 blocks at {} Hz, block size {}; ≤{} preemptions", [48000, 11, 1][c[0] as usize], [4, 64][c[1] as usize], self.bound)
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        let sr = [48000u32, 11, 1][c[0] as usize];
        let bs = [4usize, 64][c[1] as usize];
        let result: RefCell<Option<Fail>> = RefCell::new(None);
        let (n, steps) = mcsched::explore_slice(self.bound, c[2] as usize, self.slices, || {
            let mut cfg = Cfg::new(bs, 0, 1);
            cfg.sr = sr;
            let (graph, proc, _log) = make_proc(&cfg);
            let st: Rc<RefCell<(u64, u64, Vec<(u64, Seconds, u64)>)>> = Rc::new(RefCell::new((0, 0, vec![])));
            let mut threads: Vec<Box<dyn FnOnce()>> = vec![];
            for _ in 0..2 {
                let (clock, st) = (graph.shared_frame_clock(), st.clone());
                threads.push(Box::new(move || {
                    let mut last = Seconds::ZERO;
                    for _ in 0..3 {
                        let lo = st.borrow().1;
                        let t = clock.get();
                        let mut s = st.borrow_mut();
                        let hi = s.0;
                        s.2.push((if t < last { u64::MAX } else { lo }, t, hi));
                        last = t;
                    }
                }));
            }
            {
                let (mut proc, st) = (proc, st.clone());
                threads.push(Box::new(move || {
                    for _ in 0..3 {
                        st.borrow_mut().0 += 1;
                        on_audio(|| proc.run_without_inputs());
                        st.borrow_mut().1 += 1;
                    }
                }));
            }
            let result = &result;
            let check = move |o: &Outcome| {
                let r = (|| -> Result<(), Fail> {
                    check!(!o.deadlock && o.panicked.is_empty(), "panic", "{:?} {}", o.panicked, last_panic());
                    for (lo, t, hi) in &st.borrow().2 {
                        check!(*lo != u64::MAX, "decreasing", "a reader saw the clock go back to {t:?}; schedule {:?}", o.order);
                        let ok = (*lo..=*hi).any(|b| exact(*t, b * bs as u64, sr).is_ok());
                        check!(ok, "clock", "a reader saw {t:?} while {lo}..={hi} blocks were complete; schedule {:?}", o.order);
                    }
                    Ok(())
                })();
                let _ = &graph;
                match r {
                    Ok(()) => true,
                    Err(f) => {
                        *result.borrow_mut() = Some(f);
                        false
                    }
                }
            };
            (threads, Box::new(check))
        });
        rec.transitions += steps;
        rec.count("schedules", n);
        rec.state(&c);
        match result.into_inner() {
            None => Ok(()),
            Some(f) => Err(f),
        }
    }
}
pub fn g13(run: &Run) {
    run.assume("Seconds has 2^32 seconds of range: clocks past that are not explored");
    run.assume("sequentially consistent memory in the concurrent space");
    run.explore(&Runs { blocks: run.pick(4, 12) });
    run.explore(&Long { blocks: run.pick(3000, 30000), bs: 64, srs: SRS.to_vec() });
    run.explore(&Long { blocks: run.pick(66_000, 200_000), bs: 65536, srs: run.pick(vec![11, 44100, 48000, 48001], SRS[4..].to_vec()) });
    run.explore(&Readers { bound: run.pick(4, 6), slices: run.pick(1, 16) });
}
