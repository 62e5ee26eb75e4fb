//! Drives single unit generators, type erased: whole blocks, partial blocks, or single frames.
use crate::common::*;
use crate::tu::on_audio_checked;
use knaster_core::log::ArLogSender;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Block, BlockMetadata, BlockRead, Float, Frame, ParameterHint, ParameterValue, PartialBlock, Size, UGen, UGenFlags, VecBlock};
use std::marker::PhantomData;

/// Written to every frame before processing. Different inside and outside the requested part so
/// that both missing and stray writes show.
const INSIDE: f64 = 1.5e30;
const OUTSIDE: f64 = -2.5e30;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Marks {
    pub done: Option<u32>,
    pub remove_parent: Option<u32>,
    pub remove_self: bool,
}
impl Marks {
    fn of(f: &UGenFlags) -> Marks {
        Marks { done: f.done(), remove_parent: f.remove_graph(), remove_self: f.remove_self() }
    }
}
fn flags() -> UGenFlags {
    let mut f = UGenFlags::new();
    f.mark_remove_self_supported();
    f
}

pub trait Unit {
    fn ins(&self) -> usize;
    fn outs(&self) -> usize;
    fn nparams(&self) -> usize;
    fn init(&mut self, sr: u32, bs: usize);
    fn frame(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, i: &[f64], o: &mut [f64]);
    /// Process `len` frames of a block starting at `off`, `ctx` being set up for it.
    fn part(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, input: &[Vec<f64>], out: &mut [Vec<f64>], off: usize, len: usize, bs: usize) -> Result<(), Fail>;
    fn apply(&mut self, ctx: &mut AudioCtx, idx: usize, v: ParameterValue);
    fn delay(&mut self, ctx: &mut AudioCtx, idx: usize, d: u16);
    /// Control a parameter with a buffer of at least the block size, or stop doing so.
    fn ar(&mut self, ctx: &mut AudioCtx, idx: usize, b: Option<&[f64]>);
    fn names(&self) -> Vec<String>;
    fn hints(&self) -> Vec<ParameterHint>;
}

pub struct Rig<T: UGen> {
    pub u: T,
    bufs: Vec<Option<Box<[T::Sample]>>>,
    blocks: Option<(VecBlock<T::Sample>, VecBlock<T::Sample>)>,
}
impl<T: UGen> Rig<T> {
    pub fn new(u: T) -> Self {
        Rig { u, bufs: (0..T::Parameters::USIZE).map(|_| None).collect(), blocks: None }
    }
}
pub fn rig<T: UGen + 'static>(u: T) -> Box<dyn Unit> {
    Box::new(Rig::new(u))
}
impl<T: UGen> Unit for Rig<T> {
    fn ins(&self) -> usize {
        T::Inputs::USIZE
    }
    fn outs(&self) -> usize {
        T::Outputs::USIZE
    }
    fn nparams(&self) -> usize {
        T::Parameters::USIZE
    }
    fn init(&mut self, sr: u32, bs: usize) {
        self.u.init(sr, bs)
    }
    fn frame(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, i: &[f64], o: &mut [f64]) {
        let mut f: Frame<T::Sample, T::Inputs> = Frame::default();
        for (a, b) in f.iter_mut().zip(i) {
            *a = T::Sample::new(*b);
        }
        let r = on_audio_checked(|| self.u.process(ctx, fl, f)).unwrap_or_else(|e| panic!("{}", e.msg));
        for (a, b) in o.iter_mut().zip(r.iter()) {
            *a = b.to_f64();
        }
    }
    fn part(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, input: &[Vec<f64>], out: &mut [Vec<f64>], off: usize, len: usize, bs: usize) -> Result<(), Fail> {
        if self.blocks.as_ref().is_none_or(|b| Block::block_size(&b.0) != bs) {
            self.blocks = Some((VecBlock::new(T::Inputs::USIZE, bs), VecBlock::new(T::Outputs::USIZE, bs)));
        }
        let (inb, outb) = self.blocks.as_mut().unwrap();
        for c in 0..T::Inputs::USIZE {
            for f in 0..bs {
                inb.write(T::Sample::new(input[c][f]), c, f);
            }
        }
        for c in 0..T::Outputs::USIZE {
            for f in 0..bs {
                let inside = f >= off && f < off + len;
                outb.write(T::Sample::new(if inside { INSIDE } else { OUTSIDE }), c, f);
            }
        }
        if off == 0 && len == bs {
            on_audio_checked(|| self.u.process_block(ctx, fl, inb, outb))?;
        } else {
            let i = PartialBlock::from_block(inb, off, len);
            let mut o = outb.partial_mut(off, len);
            on_audio_checked(|| self.u.process_block(ctx, fl, &i, &mut o))?;
        }
        for c in 0..T::Outputs::USIZE {
            for f in 0..bs {
                let v = Block::read(outb, c, f);
                if f >= off && f < off + len {
                    check!(v != T::Sample::new(INSIDE), "frame-not-written", "frame {f} of channel {c} was not written, processing {len} frames from {off} of {bs}");
                    out[c][f] = v.to_f64();
                } else {
                    check!(v == T::Sample::new(OUTSIDE), "wrote-outside", "frame {f} of channel {c} was written, processing only {len} frames from {off} of {bs}");
                }
            }
        }
        Ok(())
    }
    fn apply(&mut self, ctx: &mut AudioCtx, idx: usize, v: ParameterValue) {
        on_audio_checked(|| self.u.param_apply(ctx, idx, v)).unwrap_or_else(|e| panic!("{}", e.msg))
    }
    fn delay(&mut self, ctx: &mut AudioCtx, idx: usize, d: u16) {
        on_audio_checked(|| self.u.set_delay_within_block_for_param(ctx, idx, d)).unwrap_or_else(|e| panic!("{}", e.msg))
    }
    fn ar(&mut self, ctx: &mut AudioCtx, idx: usize, b: Option<&[f64]>) {
        let new: Option<Box<[T::Sample]>> = b.map(|b| b.iter().map(|v| T::Sample::new(*v)).collect());
        let p = new.as_ref().map_or(std::ptr::null(), |b| b.as_ptr());
        unsafe { self.u.set_ar_param_buffer(ctx, idx, p) };
        self.bufs[idx] = new;
    }
    fn names(&self) -> Vec<String> {
        T::param_descriptions().iter().map(|s| s.to_string()).collect()
    }
    fn hints(&self) -> Vec<ParameterHint> {
        T::param_hints().into_iter().collect()
    }
}

/// A `Unit` as a UGen with given channel and parameter counts, so that wrappers can be put around
/// units chosen at run time. Samples are f64.
pub struct Er<I, O, P> {
    pub u: Box<dyn Unit>,
    _p: PhantomData<(I, O, P)>,
}
impl<I: Size, O: Size, P: Size> Er<I, O, P> {
    pub fn new(u: Box<dyn Unit>) -> Self {
        assert_eq!((u.ins(), u.outs(), u.nparams()), (I::USIZE, O::USIZE, P::USIZE));
        Er { u, _p: PhantomData }
    }
}
impl<I: Size, O: Size, P: Size> UGen for Er<I, O, P> {
    type Sample = f64;
    type Inputs = I;
    type Outputs = O;
    type Parameters = P;
    fn init(&mut self, sr: u32, bs: usize) {
        self.u.init(sr, bs)
    }
    fn process(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, i: Frame<f64, I>) -> Frame<f64, O> {
        let mut o = Frame::default();
        self.u.frame(ctx, fl, &i, &mut o);
        o
    }
    fn process_block<A, B>(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, input: &A, output: &mut B)
    where
        A: BlockRead<Sample = f64> + ?Sized,
        B: Block<Sample = f64> + ?Sized,
    {
        let n = ctx.frames_to_process();
        assert_eq!((output.block_size(), I::USIZE == 0 || input.block_size() == n), (n, true), "the blocks given don't have the number of frames to process");
        let i: Vec<Vec<f64>> = (0..I::USIZE).map(|c| (0..n).map(|f| input.read(c, f)).collect()).collect();
        let mut o = vec![vec![0.0; n]; O::USIZE];
        if let Err(e) = self.u.part(ctx, fl, &i, &mut o, 0, n, n) {
            panic!("{}", e.msg);
        }
        for (c, ch) in o.iter().enumerate() {
            for (f, v) in ch.iter().enumerate() {
                output.write(*v, c, f);
            }
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, P> {
        ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"].into_iter().take(P::USIZE).collect()
    }
    fn param_hints() -> NumericArray<ParameterHint, P> {
        (0..P::USIZE).map(|_| ParameterHint::new_float(|h| h)).collect()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, idx: usize, v: ParameterValue) {
        self.u.apply(ctx, idx, v)
    }
    unsafe fn set_ar_param_buffer(&mut self, ctx: &mut AudioCtx, idx: usize, b: *const f64) {
        let bs = ctx.block_size();
        self.u.ar(ctx, idx, (!b.is_null()).then(|| unsafe { std::slice::from_raw_parts(b, bs) }))
    }
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, idx: usize, d: u16) {
        self.u.delay(ctx, idx, d)
    }
}

/// How the frames of a block are processed.
#[derive(Clone, Debug, PartialEq)]
pub enum Layout {
    Frames,
    Whole,
    Parts(Vec<usize>),
}
/// All ways to cut `n` frames in parts, as a list of lengths: index 0 is one part.
pub fn composition(n: usize, k: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut cur = 1;
    for i in 0..n.saturating_sub(1) {
        if k >> i & 1 == 1 {
            v.push(cur);
            cur = 1;
        } else {
            cur += 1;
        }
    }
    if n > 0 {
        v.push(cur);
    }
    v
}
pub fn layout(n: usize, k: usize) -> Layout {
    match k {
        0 => Layout::Whole,
        k if k < 1 << (n - 1) => Layout::Parts(composition(n, k)),
        _ => Layout::Frames,
    }
}
/// Number of layouts of `n` frames, frame by frame being the last one
pub fn layouts(n: usize) -> usize {
    (1 << (n - 1)) + 1
}

/// A unit with the context it's run in.
pub struct Machine {
    pub u: Box<dyn Unit>,
    pub ctx: AudioCtx,
    pub bs: usize,
    pub clock: u64,
}
/// What one block produced. Marks are relative to the block, in the order of the calls that
/// reported them.
pub struct Out {
    pub y: Vec<Vec<f64>>,
    pub marks: Vec<(usize, usize, Marks)>,
}
impl Out {
    /// earliest frame, over all calls
    pub fn done(&self) -> Option<u32> {
        self.marks.iter().filter_map(|m| m.2.done.map(|d| d + m.0 as u32)).min()
    }
    pub fn remove_parent(&self) -> Option<u32> {
        self.marks.iter().filter_map(|m| m.2.remove_parent.map(|d| d + m.0 as u32)).min()
    }
    pub fn remove_self(&self) -> bool {
        self.marks.iter().any(|m| m.2.remove_self)
    }
}
impl Machine {
    pub fn new(u: Box<dyn Unit>, sr: u32, bs: usize) -> Machine {
        Machine::with_logger(u, sr, bs, ArLogSender::non_rt())
    }
    pub fn with_logger(mut u: Box<dyn Unit>, sr: u32, bs: usize, l: ArLogSender) -> Machine {
        u.init(sr, bs);
        Machine { u, ctx: AudioCtx::new(sr, bs, l), bs, clock: 0 }
    }
    pub fn set(&mut self, idx: usize, v: ParameterValue) {
        self.u.apply(&mut self.ctx, idx, v)
    }
    pub fn setf(&mut self, idx: usize, v: f64) {
        self.set(idx, ParameterValue::Float(v as _))
    }
    pub fn trig(&mut self, idx: usize) {
        self.set(idx, ParameterValue::Trigger)
    }
    pub fn delay(&mut self, idx: usize, d: u16) {
        self.u.delay(&mut self.ctx, idx, d)
    }
    pub fn ar(&mut self, idx: usize, b: Option<&[f64]>) {
        self.u.ar(&mut self.ctx, idx, b)
    }
    /// Process the frames `from..to` of the current block.
    pub fn some(&mut self, input: &[Vec<f64>], from: usize, to: usize, l: &Layout, out: &mut Out) -> Result<(), Fail> {
        let mut meta = BlockMetadata::new(self.bs);
        meta.set_frame_clock(self.clock);
        match l {
            Layout::Frames => {
                let (mut i, mut o) = (vec![0.0; self.u.ins()], vec![0.0; self.u.outs()]);
                for f in from..to {
                    for (c, v) in i.iter_mut().enumerate() {
                        *v = input[c][f];
                    }
                    let mut fl = flags();
                    self.ctx.block = meta;
                    self.u.frame(&mut self.ctx, &mut fl, &i, &mut o);
                    for (c, v) in o.iter().enumerate() {
                        out.y[c][f] = *v;
                    }
                    out.marks.push((f, 1, Marks::of(&fl)));
                }
            }
            _ => {
                let whole = [to - from];
                let parts: &[usize] = if let Layout::Parts(p) = l { p } else { &whole };
                let mut off = from;
                for len in parts {
                    let mut fl = flags();
                    self.ctx.block = meta.make_partial(off, *len);
                    self.u.part(&mut self.ctx, &mut fl, input, &mut out.y, off, *len, self.bs)?;
                    let m = Marks::of(&fl);
                    check!(m.done.is_none_or(|d| d <= *len as u32) && m.remove_parent.is_none_or(|d| d <= *len as u32), "mark-outside", "reported {m:?} when {len} frames were processed");
                    let now = (self.ctx.block.block_start_offset(), self.ctx.block.frames_to_process(), self.ctx.frame_clock());
                    check!(now == (off, *len, self.clock + off as u64), "ctx-changed", "after processing {len} frames from {off} the context is left at {now:?}");
                    out.marks.push((off, *len, m));
                    off += len;
                }
                assert_eq!(off, to);
            }
        }
        Ok(())
    }
    pub fn out(&self) -> Out {
        Out { y: vec![vec![f64::NAN; self.bs]; self.u.outs()], marks: vec![] }
    }
    pub fn next(&mut self) {
        self.clock += self.bs as u64;
    }
    /// Process one block.
    pub fn block(&mut self, input: &[Vec<f64>], l: &Layout) -> Result<Out, Fail> {
        let mut o = self.out();
        self.some(input, 0, self.bs, l, &mut o)?;
        self.next();
        Ok(o)
    }
}
/// Equal up to rounding
pub fn near(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs()))
}
#[allow(unused)]
pub type Pf = U0;
