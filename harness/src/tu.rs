//! Instrumented unit generators with an exactly predictable, stateful, order-sensitive output.
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{PInteger, AudioCtx, Block, BlockRead, Frame, PFloat, ParameterHint, ParameterValue, Size, UGen, UGenFlags};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const M: f64 = 65521.0;
pub type S = f32;

/// Mark the current (logical) thread as being inside audio processing while `f` runs.
pub fn on_audio<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(u64);
    impl Drop for Reset {
        fn drop(&mut self) {
            mcsched::CTX.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(mcsched::CTX.with(|c| c.replace(c.get() | 1)));
    f()
}
/// Whether what happens on the audio thread is checked for allocations and locks (G07)
pub static CHECK_ALLOC: AtomicBool = AtomicBool::new(false);
/// `on_audio`, with that check
pub fn on_audio_checked<T>(f: impl FnOnce() -> T) -> Result<T, crate::common::Fail> {
    let a = crate::alloc::audio_counts();
    let r = on_audio(f);
    let b = crate::alloc::audio_counts();
    if CHECK_ALLOC.load(SeqCst) {
        check!(a == b, "audio-alloc", "{} allocations, {} frees, {} locks on the audio thread", b.0 - a.0, b.1 - a.1, b.2 - a.2);
    }
    Ok(r)
}
pub fn is_on_audio() -> bool {
    mcsched::CTX.with(|c| c.get() & 1 != 0)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PV {
    F(f64),
    T,
    I(i64),
    B(bool),
    Smooth,
}
impl PV {
    pub fn of(v: &ParameterValue) -> PV {
        match v {
            ParameterValue::Float(f) => PV::F(*f as f64),
            ParameterValue::Trigger => PV::T,
            ParameterValue::Integer(i) => PV::I(i.0 as i64),
            ParameterValue::Bool(b) => PV::B(*b),
            ParameterValue::Smoothing(..) => PV::Smooth,
        }
    }
}

/// What happened to one instrumented unit.
#[derive(Default)]
pub struct Obs {
    pub blocks: AtomicU32,
    pub frames: AtomicU64,
    pub inits: AtomicU32,
    pub sr: AtomicU32,
    pub bs: AtomicUsize,
    pub drops: AtomicU32,
    pub dropped_on_audio: AtomicBool,
    pub used_after_drop: AtomicBool,
    pub processed_off_audio: AtomicBool,
    pub ctx_clock: AtomicU64,
    pub ctx_bs: AtomicUsize,
    pub ctx_sr: AtomicU32,
    pub ctx_frames: AtomicUsize,
    pub record: AtomicBool,
    /// (frame counter of the unit, index, value)
    pub params: Mutex<Vec<(u64, usize, PV)>>,
    pub p: [AtomicU64; 2],
    /// what to report in the next block: bit 0 done, bit 1 remove self, bit 2 remove parent
    pub rep_kind: AtomicU32,
    pub rep_frame: AtomicU32,
}

pub struct TU<I: Size, O: Size, P: Size = U2> {
    pub uid: u32,
    pub frames: u64,
    pub p: [f64; 2],
    pub obs: Arc<Obs>,
    /// hook called at the start and end of processing a block
    pub hook: Option<Arc<dyn Fn(&str) + Send + Sync>>,
    _ch: std::marker::PhantomData<(NumericArray<(), I>, NumericArray<(), O>, NumericArray<(), P>)>,
}
unsafe impl<I: Size, O: Size, P: Size> Send for TU<I, O, P> {}
impl<I: Size, O: Size> TU<I, O, U2> {
    pub fn new(uid: u32) -> (Self, Arc<Obs>) {
        Self::with_params(uid)
    }
}
/// Names of the parameters: two floats, which set `p`, and then two of each other kind.
pub const NAMES: [&str; 8] = ["alpha", "beta", "trig a", "trig b", "bool a", "bool b", "int a", "int b"];
impl<I: Size, O: Size, P: Size> TU<I, O, P> {
    pub fn with_params(uid: u32) -> (Self, Arc<Obs>) {
        let obs = Arc::new(Obs::default());
        (TU { uid, frames: 0, p: [0.0; 2], obs: obs.clone(), hook: None, _ch: std::marker::PhantomData }, obs)
    }
}
/// Output `o` of unit `uid` having processed `frames` frames before, given its inputs.
pub fn unit_value(uid: u32, frames: u64, p: &[f64; 2], o: usize, ins: impl Iterator<Item = f64>) -> S {
    let mut v = (uid as f64) * 97.0 + (o as f64) * 3001.0 + 7.0 + ((frames % 65521) as f64) * 13.0 + 257.0 * p[0] + 499.0 * p[1];
    for (i, x) in ins.enumerate() {
        v += ((2 * i + 3 + 5 * o) as f64) * x;
    }
    v.rem_euclid(M) as S
}
impl<I: Size, O: Size, P: Size> Drop for TU<I, O, P> {
    fn drop(&mut self) {
        if let Some(h) = &self.hook {
            h("drop");
        }
        if is_on_audio() {
            self.obs.dropped_on_audio.store(true, SeqCst);
        }
        self.obs.drops.fetch_add(1, SeqCst);
    }
}
impl<I: Size, O: Size, P: Size> UGen for TU<I, O, P> {
    type Sample = S;
    type Inputs = I;
    type Outputs = O;
    type Parameters = P;
    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.obs.inits.fetch_add(1, SeqCst);
        self.obs.sr.store(sample_rate, SeqCst);
        self.obs.bs.store(block_size, SeqCst);
    }
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, input: Frame<S, I>) -> Frame<S, O> {
        self.enter(_ctx);
        let mut out = Frame::default();
        for o in 0..O::USIZE {
            out[o] = unit_value(self.uid, self.frames, &self.p, o, input.iter().map(|v| *v as f64));
        }
        self.frames += 1;
        self.obs.frames.fetch_add(1, SeqCst);
        out
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where
        InBlock: BlockRead<Sample = S> + ?Sized,
        OutBlock: Block<Sample = S> + ?Sized,
    {
        if let Some(h) = &self.hook {
            h("begin");
        }
        self.enter(ctx);
        self.obs.blocks.fetch_add(1, SeqCst);
        let n = ctx.frames_to_process();
        // Poison the whole output first and compute channel by channel re-reading the inputs: any
        // overlap of this unit's outputs with its inputs becomes visible in the values.
        for o in 0..O::USIZE {
            for f in 0..n {
                output.write(-1.0, o, f);
            }
        }
        for o in 0..O::USIZE {
            for f in 0..n {
                let v = unit_value(self.uid, self.frames + f as u64, &self.p, o, (0..I::USIZE).map(|i| input.read(i, f) as f64));
                output.write(v, o, f);
            }
        }
        self.frames += n as u64;
        self.obs.frames.fetch_add(n as u64, SeqCst);
        let k = self.obs.rep_kind.load(SeqCst);
        if k != 0 {
            let f = self.obs.rep_frame.load(SeqCst);
            if k & 1 != 0 {
                flags.mark_done(f);
            }
            if k & 2 != 0 {
                flags.mark_remove_self(ctx);
            }
            if k & 4 != 0 {
                flags.mark_remove_parent(f);
            }
        }
        if let Some(h) = &self.hook {
            h("end");
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, P> {
        NAMES.iter().copied().take(P::USIZE).collect()
    }
    fn param_hints() -> NumericArray<ParameterHint, P> {
        (0..P::USIZE)
            .map(|i| match i / 2 {
                0 => ParameterHint::new_float(|h| h),
                1 => ParameterHint::Trigger,
                2 => ParameterHint::Bool,
                _ => ParameterHint::new_integer((PInteger::MIN, PInteger::MAX), |h| h),
            })
            .collect()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        if self.obs.record.load(SeqCst) {
            // preallocated by the user of `record`
            self.obs.params.lock().unwrap().push((self.frames, index, PV::of(&value)));
        }
        if let ParameterValue::Float(f) = value {
            let f: PFloat = f;
            self.p[index] = f as f64;
        }
    }
}
impl<I: Size, O: Size, P: Size> TU<I, O, P> {
    fn enter(&mut self, ctx: &mut AudioCtx) {
        let o = &self.obs;
        if o.drops.load(SeqCst) > 0 {
            o.used_after_drop.store(true, SeqCst);
        }
        if !is_on_audio() {
            o.processed_off_audio.store(true, SeqCst);
        }
        o.ctx_clock.store(ctx.frame_clock(), SeqCst);
        o.ctx_bs.store(ctx.block_size(), SeqCst);
        o.ctx_sr.store(ctx.sample_rate(), SeqCst);
        o.ctx_frames.store(ctx.frames_to_process(), SeqCst);
    }
}
