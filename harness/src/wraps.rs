//! U01: wrappers are transparent. U02: precise timing. U03: smoothing.
//! Every stack of wrappers around an instrumented unit is compared with a frame by frame model.
use crate::common::*;
use crate::tu::PV;
use crate::units::*;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Block, BlockRead, Frame, PFloat, PInteger, ParameterHint, ParameterType, ParameterSmoothing, ParameterValue, Rate, UGen, UGenFlags};
use knaster_core_dsp::wrappers_core::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const NP: usize = 4;
/// What the probe saw: (frames processed before, parameter, value)
#[derive(Default)]
pub struct Seen {
    pub init: Vec<(u32, usize)>,
    pub frames: u64,
    /// everything but floats
    pub params: Vec<(u64, usize, PV)>,
    pub floats: Vec<(u64, usize, f64)>,
    pub bad: Option<String>,
    /// frames left out in the blocks before, and in the one to come
    pub skipped: u64,
    pub skip: u64,
}
/// Two inputs and outputs, two float parameters, an integer and a trigger.
pub struct Probe {
    pub s: Rc<RefCell<Seen>>,
    pub core: Core,
    /// absolute frame: 0 done, 1 remove parent, 2 remove self
    pub marks: Vec<(u64, u8)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Core {
    pub n: u64,
    pub p: [f64; 2],
    pub int: i64,
    pub trigs: u64,
}
impl Core {
    pub fn new() -> Core {
        Core { n: 0, p: [1.0, 2.0], int: 0, trigs: 0 }
    }
    pub fn frame(&mut self, i: [f64; 2]) -> [f64; 2] {
        let v = 1.0 + self.p[0] * 10.0 + self.p[1] * 3.0 + self.int as f64 * 0.25 + self.trigs as f64 * 100.0 + (self.n % 7) as f64 * 0.125;
        self.n += 1;
        [v + 0.5 * i[0] + 0.25 * i[1], 2.0 * v + 0.5 * i[1]]
    }
    pub fn apply(&mut self, idx: usize, v: PV) {
        match (idx, v) {
            (0 | 1, PV::F(f)) => self.p[idx] = f,
            (2, PV::I(i)) => self.int = i,
            (3, PV::T) => self.trigs += 1,
            _ => (),
        }
    }
}
impl Probe {
    pub fn new(marks: Vec<(u64, u8)>) -> (Probe, Rc<RefCell<Seen>>) {
        let s = Rc::new(RefCell::new(Seen::default()));
        (Probe { s: s.clone(), core: Core::new(), marks }, s)
    }
    fn report(&self, ctx: &mut AudioCtx, fl: &mut UGenFlags, from: u64, n: u64) {
        for (f, k) in &self.marks {
            if *f >= from && *f < from + n {
                let d = (*f - from) as u32;
                match k {
                    0 => fl.mark_done(d),
                    1 => fl.mark_remove_parent(d),
                    _ => fl.mark_remove_self(ctx),
                }
            }
        }
    }
}
impl UGen for Probe {
    type Sample = f64;
    type Inputs = U2;
    type Outputs = U2;
    type Parameters = U4;
    fn init(&mut self, sr: u32, bs: usize) {
        self.s.borrow_mut().init.push((sr, bs));
    }
    fn process(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, i: Frame<f64, U2>) -> Frame<f64, U2> {
        self.report(ctx, fl, self.core.n, 1);
        let o = self.core.frame([i[0], i[1]]);
        self.s.borrow_mut().frames = self.core.n;
        [o[0], o[1]].into()
    }
    fn process_block<A, B>(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, input: &A, output: &mut B)
    where
        A: BlockRead<Sample = f64> + ?Sized,
        B: Block<Sample = f64> + ?Sized,
    {
        let n = ctx.frames_to_process();
        let at = (ctx.block_start_offset(), ctx.frame_clock());
        let t = {
            let s = self.s.borrow();
            self.core.n + s.skipped + s.skip
        };
        let want = (t as usize % ctx.block_size(), t);
        if at != want {
            self.s.borrow_mut().bad = Some(format!("a part of the block is processed with offset and clock {at:?} rather than {want:?}"));
        }
        self.report(ctx, fl, self.core.n, n as u64);
        for f in 0..n {
            let o = self.core.frame([input.read(0, f), input.read(1, f)]);
            output.write(o[0], 0, f);
            output.write(o[1], 1, f);
        }
        self.s.borrow_mut().frames = self.core.n;
    }
    fn param_descriptions() -> NumericArray<&'static str, U4> {
        ["alpha", "beta", "count", "go"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U4> {
        [ParameterHint::new_float(|h| h.minmax(0.0, 9.0).default(1.0)), ParameterHint::new_float(|h| h.logarithmic(true)), ParameterHint::new_integer((PInteger(0), PInteger(7)), |h| h), ParameterHint::Trigger].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, idx: usize, v: ParameterValue) {
        let v = PV::of(&v);
        if idx >= NP {
            self.s.borrow_mut().bad = Some(format!("parameter {idx} doesn't exist"));
            return;
        }
        self.core.apply(idx, v);
        let n = self.core.n;
        let mut s = self.s.borrow_mut();
        match v {
            PV::F(f) => s.floats.push((n, idx, f)),
            _ => s.params.push((n, idx, v)),
        }
    }
    unsafe fn set_ar_param_buffer(&mut self, _ctx: &mut AudioCtx, idx: usize, _b: *const f64) {
        if idx >= NP {
            self.s.borrow_mut().bad = Some(format!("audio rate buffer for parameter {idx}, which doesn't exist"));
        }
    }
    fn set_delay_within_block_for_param(&mut self, _ctx: &mut AudioCtx, idx: usize, _d: u16) {
        if idx >= NP {
            self.s.borrow_mut().bad = Some(format!("delay for parameter {idx}, which doesn't exist"));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum W {
    Ar,
    Sm,
    Pt,
    Cl,
    Mul,
    Add,
    Sub,
    VSub,
    Div,
    VDiv,
    Powf,
    Powi,
}
pub const WS: [W; 12] = [W::Mul, W::Sm, W::Ar, W::Pt, W::Cl, W::Add, W::Sub, W::VSub, W::Div, W::VDiv, W::Powf, W::Powi];
fn wrap_p<P>(w: W, cap: usize, u: Box<dyn Unit>) -> Box<dyn Unit>
where
    P: knaster_core::Size + std::ops::Add<B1> + 'static,
    Add1<P>: knaster_core::Size,
{
    let u: Er<U2, U2, P> = Er::new(u);
    match w {
        W::Ar => rig(u.ar_params()),
        W::Sm => rig(u.smooth_params()),
        W::Pt => match cap {
            1 => rig(u.precise_timing::<1>()),
            2 => rig(u.precise_timing::<2>()),
            3 => rig(u.precise_timing::<3>()),
            9 => rig(u.precise_timing::<9>()),
            40 => rig(u.precise_timing::<40>()),
            _ => rig(u.precise_timing::<4>()),
        },
        W::Cl => rig(u.wr(|x| x * 2.0 + 1.0)),
        W::Mul => rig(u.wr_mul(3.0)),
        W::Add => rig(u.wr_add(0.5)),
        W::Sub => rig(u.wr_sub(0.25)),
        W::VSub => rig(u.wr_v_sub_gen(1000.0)),
        W::Div => rig(u.wr_div(4.0)),
        W::VDiv => rig(u.wr_v_div_gen(5.0)),
        W::Powf => rig(u.wr_powf(2.0)),
        W::Powi => rig(u.wr_powi(2)),
    }
}
fn wrap(w: W, cap: usize, u: Box<dyn Unit>) -> Box<dyn Unit> {
    match u.nparams() {
        4 => wrap_p::<U4>(w, cap, u),
        5 => wrap_p::<U5>(w, cap, u),
        6 => wrap_p::<U6>(w, cap, u),
        _ => panic!(),
    }
}
/// `stack[0]` is outermost
pub fn build(stack: &[W], cap: usize, probe: Probe) -> Box<dyn Unit> {
    let mut u = rig(probe);
    for w in stack.iter().rev() {
        u = wrap(*w, cap, u);
    }
    u
}

// ---- model
#[derive(Clone, Debug)]
struct Glide {
    from: f64,
    to: f64,
    dur: u64,
    k: u64,
}
#[derive(Clone, Debug, Default)]
struct Smooth {
    cur: Option<f64>,
    dur: u64,
    block_rate: bool,
    glide: Option<Glide>,
}
#[derive(Clone, Debug)]
enum L {
    Ar(Vec<Option<Vec<f64>>>),
    Sm(Vec<Smooth>),
    Pt { waiting: Vec<(usize, usize, PV2)>, delay: Vec<usize> },
    Op(W),
    Mul(f64, usize),
}
/// A value, including the details of smoothing in frames
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PV2 {
    V(PV),
    S(u64, bool),
}
pub struct Model {
    ls: Vec<L>,
    cap: usize,
    pub core: Core,
    pub params: Vec<(u64, usize, PV)>,
    pub dropped: usize,
    /// frames are processed one by one, so that there are no blocks
    framewise: bool,
}
impl Model {
    pub fn new(stack: &[W], cap: usize, framewise: bool) -> Model {
        let mut np = NP;
        let mut ls = vec![];
        for w in stack.iter().rev() {
            ls.insert(
                0,
                match w {
                    W::Ar => L::Ar(vec![None; np]),
                    W::Sm => L::Sm(vec![Smooth::default(); np]),
                    W::Pt => L::Pt { waiting: vec![], delay: vec![0; np] },
                    W::Mul => L::Mul(3.0, np),
                    w => L::Op(*w),
                },
            );
            if *w == W::Mul {
                np += 1;
            }
        }
        Model { ls, cap, core: Core::new(), params: vec![], dropped: 0, framewise }
    }
    pub fn apply(&mut self, lvl: usize, idx: usize, v: PV2) {
        if lvl == self.ls.len() {
            let v = match v {
                PV2::V(v) => v,
                PV2::S(..) => PV::Smooth,
            };
            if !matches!(v, PV::F(_)) {
                self.params.push((self.core.n, idx, v));
            }
            self.core.apply(idx, v);
            return;
        }
        match &mut self.ls[lvl] {
            L::Ar(b) if b[idx].is_some() => return,
            L::Mul(val, i) if *i == idx => {
                if let PV2::V(PV::F(f)) = v {
                    *val = f;
                }
                return;
            }
            L::Pt { waiting, delay } => {
                let d = std::mem::take(&mut delay[idx]);
                if d > 0 {
                    if waiting.len() < self.cap {
                        waiting.push((d, idx, v));
                    } else {
                        self.dropped += 1;
                    }
                    return;
                }
            }
            L::Sm(s) => match v {
                PV2::S(dur, block_rate) => {
                    let s = &mut s[idx];
                    s.dur = dur;
                    s.block_rate = block_rate;
                    if let (Some(g), Some(cur)) = (&s.glide, s.cur) {
                        s.glide = Some(Glide { from: cur, to: g.to, dur, k: 0 });
                    }
                    return;
                }
                PV2::V(PV::F(f)) => {
                    let s = &mut s[idx];
                    match s.cur {
                        Some(cur) if s.dur > 0 => {
                            s.glide = Some(Glide { from: cur, to: f, dur: s.dur, k: 0 });
                            return;
                        }
                        _ => {
                            s.cur = Some(f);
                            s.glide = None;
                        }
                    }
                }
                _ => (),
            },
            _ => (),
        }
        self.apply(lvl + 1, idx, v)
    }
    pub fn delay(&mut self, lvl: usize, idx: usize, d: usize) {
        match self.ls.get_mut(lvl) {
            None => (),
            Some(L::Pt { delay, .. }) => delay[idx] = d,
            Some(L::Mul(_, i)) if *i == idx => (),
            _ => self.delay(lvl + 1, idx, d),
        }
    }
    pub fn ar(&mut self, lvl: usize, idx: usize, b: Option<Vec<f64>>) {
        match self.ls.get_mut(lvl) {
            None => (),
            Some(L::Ar(bs)) => bs[idx] = b,
            Some(L::Mul(_, i)) if *i == idx => (),
            _ => self.ar(lvl + 1, idx, b),
        }
    }
    /// Frame `k` of a block
    pub fn frame(&mut self, lvl: usize, k: usize, i: [f64; 2]) -> [f64; 2] {
        if lvl == self.ls.len() {
            return self.core.frame(i);
        }
        let mut due = vec![];
        let mut post: Option<W> = None;
        match &mut self.ls[lvl] {
            L::Ar(bs) => {
                for (idx, b) in bs.iter().enumerate() {
                    if let Some(b) = b {
                        due.push((idx, PV2::V(PV::F(b[k]))));
                    }
                }
            }
            L::Sm(ss) => {
                for (idx, s) in ss.iter_mut().enumerate() {
                    let Some(g) = &mut s.glide else { continue };
                    if !s.block_rate || k == 0 || self.framewise || g.dur == 0 {
                        let v = if g.k >= g.dur { g.to } else { g.from + (g.to - g.from) * (g.k as f64 / g.dur as f64) };
                        due.push((idx, PV2::V(PV::F(v))));
                        s.cur = Some(v);
                        if g.k >= g.dur {
                            s.glide = None;
                        }
                    }
                    if let Some(g) = &mut s.glide {
                        g.k += 1;
                    }
                }
            }
            L::Pt { waiting, .. } => {
                while waiting.first().is_some_and(|w| w.0 <= k) {
                    let (_, idx, v) = waiting.remove(0);
                    due.push((idx, v));
                }
            }
            L::Op(w) => post = Some(*w),
            L::Mul(..) => (),
        }
        for (idx, v) in due {
            self.apply(lvl + 1, idx, v);
        }
        let o = self.frame(lvl + 1, k, i);
        if let L::Mul(v, _) = &self.ls[lvl] {
            return o.map(|x| x * v);
        }
        o.map(|x| match post {
            None => x,
            Some(W::Cl) => x * 2.0 + 1.0,
            Some(W::Add) => x + 0.5,
            Some(W::Sub) => x - 0.25,
            Some(W::VSub) => 1000.0 - x,
            Some(W::Div) => x / 4.0,
            Some(W::VDiv) => 5.0 / x,
            Some(W::Powf) | Some(W::Powi) => x * x,
            _ => unreachable!(),
        })
    }
}

pub const SR: u32 = 1024;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    F(usize, f64),
    Int(i64),
    Trig,
    /// a trigger, an integer and a bool for any parameter
    Kinds(usize),
    /// smoothing over so many frames, at block rate
    Smooth(usize, u64, bool),
    Delay(usize, u16),
    Ar(usize, bool),
}
fn ar_buf(bs: usize, block: usize) -> Vec<f64> {
    (0..bs).map(|f| 3.0 + f as f64 * 0.25 + block as f64 * 0.5).collect()
}
/// The real stack and the model, side by side.
pub struct Pair {
    pub m: Machine,
    pub model: Model,
    pub seen: Rc<RefCell<Seen>>,
    marks: Vec<(u64, u8)>,
    ars: Vec<usize>,
    tol: f64,
    n: u64,
    skipped: u64,
}
impl Pair {
    pub fn new(stack: &[W], cap: usize, bs: usize, marks: Vec<(u64, u8)>, framewise: bool, log: Option<knaster_core::log::ArLogSender>) -> Pair {
        let (p, seen) = Probe::new(marks.clone());
        let u = build(stack, cap, p);
        let m = Machine::with_logger(u, SR, bs, log.unwrap_or(knaster_core::log::ArLogSender::non_rt()));
        let tol = if stack.contains(&W::Powf) || stack.contains(&W::Powi) { 1e-5 } else { 1e-9 };
        Pair { m, model: Model::new(stack, cap, framewise), seen, marks, ars: vec![], tol, n: 0, skipped: 0 }
    }
    pub fn ev(&mut self, e: Ev) {
        match e {
            Ev::F(i, v) => {
                self.m.setf(i, v);
                self.model.apply(0, i, PV2::V(PV::F(v)));
            }
            Ev::Int(v) => {
                self.m.set(2, ParameterValue::Integer(PInteger(v as _)));
                self.model.apply(0, 2, PV2::V(PV::I(v)));
            }
            Ev::Trig => {
                self.m.trig(3);
                self.model.apply(0, 3, PV2::V(PV::T));
            }
            Ev::Kinds(i) => {
                for v in [ParameterValue::Trigger, ParameterValue::Integer(PInteger(4)), ParameterValue::Bool(true)] {
                    self.model.apply(0, i, PV2::V(PV::of(&v)));
                    self.m.set(i, v);
                }
            }
            Ev::Smooth(i, d, block) => {
                let s = if d == 0 { ParameterSmoothing::None } else { ParameterSmoothing::Linear(d as f32 / SR as f32) };
                self.m.set(i, ParameterValue::Smoothing(s, if block { Rate::BlockRate } else { Rate::AudioRate }));
                self.model.apply(0, i, PV2::S(d, block));
            }
            Ev::Delay(i, d) => {
                self.m.delay(i, d);
                self.model.delay(0, i, d as usize);
            }
            Ev::Ar(i, on) => {
                if on {
                    if !self.ars.contains(&i) {
                        self.ars.push(i);
                    }
                } else {
                    self.ars.retain(|x| *x != i);
                    self.m.ar(i, None);
                    self.model.ar(0, i, None);
                }
            }
        }
    }
    pub fn block(&mut self, l: &Layout, rec: &mut Rec) -> Result<(), Fail> {
        self.part_of_block(0, self.m.bs, l, rec)
    }
    /// Only the frames `from..to` of a block are processed
    pub fn part_of_block(&mut self, from: usize, to: usize, l: &Layout, rec: &mut Rec) -> Result<(), Fail> {
        let bs = self.m.bs;
        let b = (self.n / bs as u64) as usize;
        for i in self.ars.clone() {
            let buf = ar_buf(bs, b);
            self.m.ar(i, Some(&buf));
            self.model.ar(0, i, Some(buf));
        }
        let input: Vec<Vec<f64>> = (0..2).map(|c| (0..bs).map(|f| (1 + c) as f64 + (self.n + f as u64) as f64 * 0.5).collect()).collect();
        let mut got = self.m.out();
        self.seen.borrow_mut().skip = from as u64;
        self.m.some(&input, from, to, l, &mut got)?;
        self.m.next();
        for k in from..to {
            let w = self.model.frame(0, k, [input[0][k], input[1][k]]);
            for c in 0..2 {
                check!(near(got.y[c][k], w[c], self.tol), "output", "block {b}, frame {k}, channel {c}: {} rather than {}", got.y[c][k], w[c]);
            }
        }
        // Marks are given by the number of frames processed
        let (first, skipped) = (self.n - self.skipped, from as u64);
        let n = (to - from) as u64;
        let at = |kind: u8| self.marks.iter().filter(|m| m.1 == kind && m.0 >= first && m.0 < first + n).map(|m| (m.0 - first + skipped) as u32).min();
        let (d, r) = (got.done(), got.remove_parent());
        check!(d == at(0), "done", "block {b}: done at frame {d:?} rather than {:?}", at(0));
        check!(r == at(1), "remove-parent", "block {b}: removal of the parent from frame {r:?} rather than {:?}", at(1));
        check!(got.remove_self() == at(2).is_some(), "remove-self", "block {b}: removal of itself {}", got.remove_self());
        self.n += bs as u64;
        self.skipped += bs as u64 - n;
        let mut s = self.seen.borrow_mut();
        check!(s.frames == self.n - self.skipped, "frames", "after {} frames the unit has processed {}", self.n - self.skipped, s.frames);
        s.skipped = self.skipped;
        if let Some(b) = &s.bad {
            return fail("inner", b.clone());
        }
        // Smoothing settings are consumed by, or passed on as far as, the wrapper that uses them
        let (a, w): (Vec<_>, Vec<_>) = (s.params.iter().filter(|p| p.2 != PV::Smooth).collect(), self.model.params.iter().filter(|p| p.2 != PV::Smooth).collect());
        check!(a == w, "changes", "the unit received {a:?} rather than {w:?}");
        check!(s.init == [(SR, bs)], "init", "the unit was initialised with {:?}", s.init);
        rec.state(&(format!("{:?}", self.model.core), b));
        rec.transitions += bs as u64;
        Ok(())
    }
}
/// Wrappers which cut blocks into parts belong inside of precise timing, as documented.
fn legal(s: &[W]) -> bool {
    let first = s.iter().position(|w| matches!(w, W::Sm | W::Ar));
    let last = s.iter().rposition(|w| *w == W::Pt);
    match (first, last) {
        (Some(f), Some(l)) => l < f,
        _ => true,
    }
}

// ---- U01: static descriptions
fn static_of<T: UGen>() -> (usize, usize, Vec<String>, Vec<String>, Vec<String>) {
    (
        T::Inputs::USIZE,
        T::Outputs::USIZE,
        T::param_descriptions().iter().map(|s| s.to_string()).collect(),
        T::param_hints().into_iter().map(|h| format!("{h:?}")).collect(),
        T::param_types()
            .into_iter()
            .map(|t| {
                match t {
                    ParameterType::Float => "float",
                    ParameterType::Trigger => "trigger",
                    ParameterType::Integer => "integer",
                    ParameterType::Bool => "bool",
                }
                .to_string()
            })
            .collect(),
    )
}
type St = (usize, usize, Vec<String>, Vec<String>, Vec<String>);
fn statics() -> Vec<(Vec<W>, St)> {
    type FnT = fn(f64) -> f64;
    let mut v = vec![(vec![], static_of::<Probe>())];
    macro_rules! one {
        ($ws:expr, $t:ty) => {{
            let ws: Vec<W> = $ws;
            v.push((ws.clone(), static_of::<$t>()));
        }};
    }
    macro_rules! outer {
        ($ws:expr, $t:ty, $next:ident) => {{
            let p: Vec<W> = $ws;
            $next!([&[W::Ar][..], &p].concat(), WrArParams<$t>);
            $next!([&[W::Sm][..], &p].concat(), WrSmoothParams<$t>);
            $next!([&[W::Pt][..], &p].concat(), WrPreciseTiming<3, $t>);
            $next!([&[W::Cl][..], &p].concat(), WrClosure<$t, FnT>);
            $next!([&[W::Mul][..], &p].concat(), WrMul<$t>);
            $next!([&[W::Add][..], &p].concat(), WrAdd<$t>);
            $next!([&[W::Sub][..], &p].concat(), WrSub<$t>);
            $next!([&[W::VSub][..], &p].concat(), WrVSub<$t>);
            $next!([&[W::Div][..], &p].concat(), WrDiv<$t>);
            $next!([&[W::VDiv][..], &p].concat(), WrVDiv<$t>);
            $next!([&[W::Powf][..], &p].concat(), WrPowf<$t>);
            $next!([&[W::Powi][..], &p].concat(), WrPowi<$t>);
        }};
    }
    macro_rules! two {
        ($ws:expr, $t:ty) => {{
            one!($ws, $t);
            outer!($ws, $t, one);
        }};
    }
    outer!(vec![], Probe, two);
    v
}

const BS: usize = 4;
/// Changes of a block; the parameter a `Mul` adds is the last one
fn u01_events(np: usize) -> Vec<Vec<Ev>> {
    let last = np - 1;
    let mut v = vec![
        vec![],
        vec![Ev::F(0, 2.0)],
        vec![Ev::Int(3), Ev::F(1, 7.0)],
        vec![Ev::Trig],
        vec![Ev::Ar(0, true)],
        vec![Ev::Ar(0, false), Ev::Ar(last, false)],
        vec![Ev::Delay(0, 2), Ev::F(0, 5.0), Ev::Delay(3, 3), Ev::Trig],
        vec![Ev::Smooth(0, 3, false), Ev::F(0, 6.0)],
        vec![Ev::Smooth(0, 0, false), Ev::F(0, 4.0)],
        vec![Ev::F(1, 3.0), Ev::Smooth(1, 5, false), Ev::F(1, 6.0), Ev::Ar(0, true)],
    ];
    if np > NP {
        v.push(vec![Ev::F(last, 0.5)]);
        v.push(vec![Ev::Ar(last, true)]);
        v.push(vec![Ev::Delay(last, 1), Ev::F(last, 1.5), Ev::Delay(1, 3), Ev::F(1, 8.0)]);
        v.push(vec![Ev::F(last, 2.0), Ev::Smooth(last, 6, false), Ev::F(last, 1.0)]);
    } else {
        v.push(vec![Ev::Ar(1, true), Ev::F(1, 9.0)]);
        v.push(vec![Ev::Ar(1, false), Ev::F(1, 9.0)]);
        v.push(vec![Ev::Delay(2, 1), Ev::Int(5), Ev::Delay(1, 3), Ev::F(1, 8.0)]);
        v.push(vec![Ev::Smooth(2, 4, false), Ev::Int(2), Ev::Smooth(3, 4, true), Ev::Trig]);
    }
    v
}
const NEV: usize = 14;
fn stacks(depth: usize, from: &[W]) -> Vec<Vec<W>> {
    let mut v: Vec<Vec<W>> = vec![vec![]];
    let mut out = vec![];
    for _ in 0..depth {
        v = v.iter().flat_map(|s| from.iter().map(|w| [&s[..], &[*w]].concat())).collect();
        out.extend(v.iter().filter(|s| legal(s) && s.iter().filter(|w| **w == W::Mul).count() <= 2).cloned());
    }
    out
}
fn u01_run(stack: &[W], c: &[u16], l: usize, rec: &mut Rec) -> Result<(), Fail> {
    let np = NP + stack.iter().filter(|w| **w == W::Mul).count();
    let evs = u01_events(np);
    let lay = layout(BS, l);
    let scripts: Vec<&Vec<Ev>> = c.iter().map(|i| &evs[*i as usize]).collect();
    // A single frame is a block of its own: there is nothing to delay a change to
    if lay == Layout::Frames && stack.contains(&W::Pt) && scripts.iter().any(|s| s.iter().any(|e| matches!(e, Ev::Delay(..)))) {
        return Ok(());
    }
    let marks = vec![(5, 0), (9, 0), (6, 1), (10, 2)];
    let mut p = Pair::new(stack, 4, BS, marks, lay == Layout::Frames || stack.contains(&W::Ar), None);
    check!(p.m.u.nparams() == np && p.m.u.ins() == 2 && p.m.u.outs() == 2, "counts", "{stack:?} has {} parameters", p.m.u.nparams());
    for b in 0..3 {
        if let Some(s) = scripts.get(b) {
            for e in s.iter() {
                p.ev(*e);
            }
        }
        p.block(&lay, rec)?;
    }
    Ok(())
}
pub fn u01(run: &Run) {
    run.assume("precise timing is outside of wrappers that process parts of blocks, as its documentation requires");
    let st = statics();
    let n = st.len();
    run.explore(&Product {
        name: "descriptions".into(),
        dims: vec![n],
        f: move |c: &[u16], rec: &mut Rec| {
            let (ws, s) = &st[c[0] as usize];
            let p = &st[0].1;
            let muls = ws.iter().filter(|w| **w == W::Mul).count();
            check!((s.0, s.1) == (p.0, p.1), "channels", "{ws:?} has {} inputs and {} outputs", s.0, s.1);
            check!(s.2.len() == NP + muls && s.2[..NP] == p.2[..] && s.2[NP..].iter().all(|x| !x.is_empty()), "names", "{ws:?} has parameters {:?}", s.2);
            check!(s.3.len() == NP + muls && s.3[..NP] == p.3[..] && s.3[NP..].iter().all(|x| x.starts_with("Float")), "hints", "{ws:?} has hints {:?}", s.3);
            check!(s.4.len() == NP + muls && s.4[..NP] == p.4[..], "types", "{ws:?} has types {:?}", s.4);
            rec.state(&ws.len());
            rec.step();
            Ok(())
        },
        d: |c| format!("stack {}", c[0]),
    });
    let s2 = stacks(2, &WS);
    let nb = run.pick(3, 4);
    {
        let s = s2.clone();
        run.explore(&Product {
            name: format!("stacks of up to 2 wrappers x changes before {nb} blocks x layouts"),
            dims: [vec![s.len(), layouts(BS)], vec![NEV; nb]].concat(),
            f: move |c: &[u16], rec: &mut Rec| u01_run(&s[c[0] as usize], &c[2..], c[1] as usize, rec),
            d: |c| format!("{:?}, layout {:?}, changes {:?} of {:?}", stacks(2, &WS)[c[0] as usize], layout(BS, c[1] as usize), &c[2..], u01_events(NP + stacks(2, &WS)[c[0] as usize].iter().filter(|w| **w == W::Mul).count())),
        });
    }
    {
        let s = stacks(2, &WS);
        let n = s.len();
        let nb = run.pick(3, 4);
        run.explore(&Product {
            name: format!("stacks x which frames of {nb} blocks are processed x layouts"),
            dims: [vec![n], vec![10; nb], vec![3]].concat(),
            f: move |c: &[u16], rec: &mut Rec| u01_gaps(&s[c[0] as usize], &c[1..nb + 1], c[nb + 1] as usize, rec),
            d: |c| format!("{:?}, {c:?}", stacks(2, &WS)[c[0] as usize]),
        });
    }
    const KEY: [W; 6] = [W::Mul, W::Sm, W::Ar, W::Pt, W::Cl, W::VSub];
    let depth = run.pick(3, 4);
    let s3: Vec<Vec<W>> = stacks(depth, &KEY).into_iter().filter(|s| s.len() >= 3).collect();
    run.explore(&Product {
        name: format!("stacks of up to {depth} wrappers x changes before 2 blocks x layouts"),
        dims: [vec![s3.len()], vec![NEV; 2], vec![3]].concat(),
        f: move |c: &[u16], rec: &mut Rec| u01_run(&s3[c[0] as usize], &c[1..3], [0, 5, 8][c[3] as usize], rec),
        d: |c| format!("{c:?}"),
    });
}

/// Parts of blocks are left out, as when a unit runs from or up to the middle of a block
fn u01_gaps(stack: &[W], gaps: &[u16], l: usize, rec: &mut Rec) -> Result<(), Fail> {
    const RANGES: [(usize, usize); 10] = [(0, 4), (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (1, 4), (2, 3), (2, 4), (3, 4)];
    let mut p = Pair::new(stack, 4, BS, vec![(1, 0), (4, 1), (5, 0)], true, None);
    p.ev(Ev::F(0, 1.5));
    p.ev(Ev::Ar(0, true));
    p.ev(Ev::Smooth(1, 5, false));
    for (b, g) in gaps.iter().enumerate() {
        let (from, to) = RANGES[*g as usize];
        p.ev(Ev::F(1, 2.0 + b as f64));
        let n = to - from;
        let l = match l {
            0 => Layout::Whole,
            1 => Layout::Parts(vec![1; n]),
            _ if n > 1 => Layout::Parts(vec![n - 1, 1]),
            _ => Layout::Whole,
        };
        p.part_of_block(from, to, &l, rec)?;
    }
    Ok(())
}

// ---- U02
/// nondecreasing delays
fn u02_changes(bs: usize, max: usize) -> Vec<Vec<(usize, u16)>> {
    // (parameter, delay); parameter: 0, 1 float, 2 int, 3 trigger
    let mut out: Vec<Vec<(usize, u16)>> = vec![vec![]];
    let mut level: Vec<Vec<(usize, u16)>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &level {
            let from = s.last().map_or(0, |l| l.1);
            for d in from..bs as u16 {
                for p in 0..4 {
                    if max > 2 && p > 1 && s.len() > 1 {
                        continue;
                    }
                    next.push([&s[..], &[(p, d)]].concat());
                }
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    out
}
const U02_STACKS: [&[W]; 8] = [&[W::Pt], &[W::Pt, W::Sm], &[W::Pt, W::Ar], &[W::Mul, W::Pt], &[W::Pt, W::Mul, W::Sm], &[W::Pt, W::Sm, W::Ar], &[W::Pt, W::Pt], &[W::Cl, W::Pt, W::Sm]];
fn count_warnings(rx: &mut knaster_core::log::ArLogReceiver<U1>) -> usize {
    let mut n = 0;
    rx.recv(|ms| {
        for m in ms {
            if let knaster_core::log::ArLogMessage::End = m {
                n += 1;
            }
        }
    });
    n
}
fn u02_run(stack: &[W], cap: usize, bs: usize, blocks: &[&Vec<(usize, u16)>], smooth: usize, l: usize, rec: &mut Rec) -> Result<(), Fail> {
    u02_lay(stack, cap, bs, blocks, smooth, &layout(bs, l), rec)
}
fn u02_lay(stack: &[W], cap: usize, bs: usize, blocks: &[&Vec<(usize, u16)>], smooth: usize, l: &Layout, rec: &mut Rec) -> Result<(), Fail> {
    let (tx, mut rx) = knaster_core::log::ArLogReceiver::new().sender(512);
    let mut p = Pair::new(stack, cap, bs, vec![(bs as u64 + 1, 0), (bs as u64, 1)], stack.contains(&W::Ar), Some(tx));
    let mut v = 2.0;
    if smooth > 0 && stack.contains(&W::Sm) {
        p.ev(Ev::F(0, 1.0));
        p.ev(Ev::Smooth(0, [0, 3, 5][smooth], false));
    }
    if smooth > 0 && stack.contains(&W::Ar) && !stack.contains(&W::Sm) {
        p.ev(Ev::Ar(1, true));
    }
    for (b, ch) in blocks.iter().enumerate() {
        for (param, d) in ch.iter() {
            v += 1.25;
            if *d > 0 {
                p.ev(Ev::Delay(*param, *d));
            }
            match param {
                0 | 1 => p.ev(Ev::F(*param, v)),
                2 => p.ev(Ev::Int(v as i64)),
                _ => p.ev(Ev::Trig),
            }
        }
        let before = p.model.dropped;
        let logged = count_warnings(&mut rx);
        check!(p.model.dropped == 0 || logged > 0 || before == 0, "not-reported", "{before} changes in block {b} were beyond the capacity of {cap}, none was reported");
        p.model.dropped = 0;
        p.block(l, rec)?;
    }
    // nothing may be left
    p.block(l, rec)?;
    Ok(())
}
pub fn u02(run: &Run) {
    run.assume("changes are given in the order of their frames, as documented");
    let bs = 4;
    {
        let max = run.pick(3, 4);
        let ch = u02_changes(bs, max);
        let n = ch.len();
        run.explore(&Product {
            name: "one block of up to 3 changes x stack x capacity x smoothing".into(),
            dims: vec![n, U02_STACKS.len(), 3, 3],
            f: move |c: &[u16], rec: &mut Rec| u02_run(U02_STACKS[c[1] as usize], c[2] as usize + 1, bs, &[&ch[c[0] as usize]], c[3] as usize, 0, rec),
            d: |c| format!("{:?} in {:?}, capacity {}, smoothing {}", u02_changes(4, 3)[c[0] as usize], U02_STACKS[c[1] as usize], c[2] + 1, c[3]),
        });
    }
    {
        let ch = u02_changes(bs, 2);
        let n = ch.len();
        let k = U02_STACKS.len();
        run.explore(&Product {
            name: "two blocks of up to 2 changes x stack x layout".into(),
            dims: vec![n, n, k, 2],
            f: move |c: &[u16], rec: &mut Rec| u02_run(U02_STACKS[c[2] as usize], 2, bs, &[&ch[c[0] as usize], &ch[c[1] as usize]], 1, 5 * c[3] as usize, rec),
            d: |c| format!("{:?} then {:?} in {:?}, layout {:?}", u02_changes(4, 2)[c[0] as usize], u02_changes(4, 2)[c[1] as usize], U02_STACKS[c[2] as usize], layout(4, 5 * c[3] as usize)),
        });
    }
    {
        // all layouts
        let ch = u02_changes(bs, 2);
        let n = ch.len();
        run.explore(&Product {
            name: "one block of up to 2 changes x stack x layout x capacity".into(),
            dims: vec![n, U02_STACKS.len(), layouts(bs) - 1, 2],
            f: move |c: &[u16], rec: &mut Rec| u02_run(U02_STACKS[c[1] as usize], c[3] as usize + 1, bs, &[&ch[c[0] as usize]], 2, c[2] as usize, rec),
            d: |c| format!("{:?} in {:?}, layout {:?}", u02_changes(4, 2)[c[0] as usize], U02_STACKS[c[1] as usize], layout(4, c[2] as usize)),
        });
    }
    {
        // larger blocks: two changes at any frame, the block in one part or two
        const BS: usize = 70;
        let step = run.pick(3, 1);
        let n = BS.div_ceil(step);
        run.explore(&Product {
            name: "two changes at any frame of a block of 70 frames x stack x layout".into(),
            dims: vec![n, n, 3, U02_STACKS.len(), 6],
            f: move |c: &[u16], rec: &mut Rec| {
                let (a, b) = (c[0] as usize * step, c[1] as usize * step);
                if a > b {
                    return Ok(());
                }
                let params = [(0, 0), (0, 3), (1, 0)][c[2] as usize];
                let lay = match c[4] {
                    0 => Layout::Whole,
                    k => {
                        let at = [1, 32, 35, 64, 69][k as usize - 1];
                        Layout::Parts(vec![at, BS - at])
                    }
                };
                let ch = vec![(params.0, a as u16), (params.1, b as u16)];
                u02_lay(U02_STACKS[c[3] as usize], 2, BS, &[&ch, &ch], 1, &lay, rec)
            },
            d: |c| format!("{c:?}"),
        });
    }
    {
        // many changes in a block, at regular distances
        const BS: usize = 70;
        const COUNT: [usize; 7] = [4, 8, 9, 10, 39, 40, 44];
        const PARAMS: [&[usize]; 5] = [&[0], &[0, 1], &[3], &[0, 3, 1], &[0, 1, 2, 3]];
        run.explore(&Product {
            name: "many changes: count x first frame x distance x parameters x capacity x stack x layout".into(),
            dims: vec![COUNT.len(), 3, 4, PARAMS.len(), 3, U02_STACKS.len(), 4],
            f: move |c: &[u16], rec: &mut Rec| {
                let (from, by) = ([0, 1, 29][c[1] as usize], [0, 1, 2, 7][c[2] as usize]);
                let ps = PARAMS[c[3] as usize];
                let lay = match c[6] {
                    0 => Layout::Whole,
                    1 => Layout::Parts(vec![64, 6]),
                    2 => Layout::Parts(vec![3; 23].into_iter().chain([1]).collect()),
                    _ => Layout::Parts(vec![1, 30, 39]),
                };
                let ch: Vec<(usize, u16)> = (0..COUNT[c[0] as usize]).map(|i| (ps[i % ps.len()], (from + i * by).min(BS - 1) as u16)).collect();
                let few = vec![(0, 3), (1, 69)];
                let cap = [4, 9, 40][c[4] as usize];
                u02_lay(U02_STACKS[c[5] as usize], cap, BS, &[&ch, &few, &ch], 1, &lay, rec)
            },
            d: |c| format!("{} changes, {c:?}", COUNT[c[0] as usize]),
        });
    }
    {
        let bs = 2;
        let ch = u02_changes(bs, run.pick(1, 2));
        let n = ch.len();
        let nb = run.pick(4, 3);
        run.explore(&Product {
            name: format!("{nb} blocks of changes"),
            dims: [vec![n; nb], vec![run.pick(4, 8)]].concat(),
            f: move |c: &[u16], rec: &mut Rec| {
                let b: Vec<&Vec<(usize, u16)>> = c[..nb].iter().map(|i| &ch[*i as usize]).collect();
                u02_run(U02_STACKS[c[nb] as usize], 2, bs, &b, 1, 0, rec)
            },
            d: |c| format!("{c:?}"),
        });
    }
}

// ---- U03
#[derive(Clone, Copy, Debug)]
enum Sv {
    Nothing,
    To(f64),
    /// smoothing then target
    SmoothTo(u64, bool, f64),
    Smooth(u64, bool),
    /// on the other parameter
    Other(u64, f64),
    Int,
    /// other kinds of values for the same parameter
    Kinds,
}
const SVS: [Sv; 16] = [
    Sv::Nothing,
    Sv::To(5.0),
    Sv::To(-3.0),
    Sv::Smooth(0, true),
    Sv::Smooth(3, false),
    Sv::Smooth(5, true),
    Sv::SmoothTo(4, false, 9.0),
    Sv::SmoothTo(6, true, 2.0),
    Sv::Other(3, 4.0),
    Sv::Int,
    Sv::Kinds,
    Sv::SmoothTo(1, false, 7.0),
    Sv::SmoothTo(2, true, -1.0),
    Sv::SmoothTo(0, false, 3.0),
    Sv::Smooth(12, true),
    Sv::Smooth(0, false),
];
fn u03_run(stack: &[W], bs: usize, evs: &[u16], first: bool, l: usize, blocks: usize, rec: &mut Rec) -> Result<(), Fail> {
    let lay = layout(bs, l);
    let framewise = lay == Layout::Frames;
    let mut p = Pair::new(stack, 2, bs, vec![(3, 0)], framewise || stack.first() == Some(&W::Ar), None);
    if first {
        p.ev(Ev::F(0, 1.0));
        p.ev(Ev::F(1, 1.0));
    }
    // the independent part of the oracle: (target, value when it was set, deadline)
    let mut cur = if first { Some(1.0) } else { None };
    let mut target = cur;
    let mut lo_hi: Option<(f64, f64)> = None;
    let mut dur = 0u64;
    let mut block_rate = false;
    let mut deadline = 0u64;
    let mut n = 0u64;
    for b in 0..blocks {
        let mut e: Vec<Ev> = vec![];
        if let Some(i) = evs.get(b) {
            match SVS[*i as usize] {
                Sv::Nothing => (),
                Sv::To(v) => e.push(Ev::F(0, v)),
                Sv::Smooth(d, r) => e.push(Ev::Smooth(0, d, r)),
                Sv::SmoothTo(d, r, v) => {
                    e.push(Ev::Smooth(0, d, r));
                    e.push(Ev::F(0, v));
                }
                Sv::Other(d, v) => {
                    e.push(Ev::Smooth(1, d, false));
                    e.push(Ev::F(1, v));
                }
                Sv::Kinds => e.push(Ev::Kinds(0)),
                Sv::Int => {
                    e.push(Ev::Int(b as i64 + 1));
                    e.push(Ev::Trig);
                }
            }
        }
        let nf = p.seen.borrow().floats.len();
        for x in e {
            p.ev(x);
            match x {
                Ev::Smooth(0, d, r) => {
                    dur = d;
                    block_rate = r;
                    deadline = n + d;
                }
                Ev::F(0, v) => {
                    target = Some(v);
                    deadline = if cur.is_none() { n } else { n + dur };
                    let c = cur.unwrap_or(v);
                    lo_hi = Some((c.min(v), c.max(v)));
                    if cur.is_none() || dur == 0 {
                        cur = Some(v);
                    }
                }
                _ => (),
            }
            if let (Some(c), Some(t)) = (cur, target) {
                lo_hi = Some((c.min(t), c.max(t)));
            }
        }
        p.block(&lay, rec)?;
        // The values the unit received, directly against the statement
        let s = p.seen.borrow();
        let mut last = cur;
        for (at, _, v) in s.floats[nf.min(s.floats.len())..].iter().filter(|x| x.1 == 0) {
            let (lo, hi) = lo_hi.unwrap_or((*v, *v));
            check!(*v >= lo - 1e-9 && *v <= hi + 1e-9, "range", "{v} at frame {at} is not between {lo} and {hi}");
            if let (Some(l), Some(t)) = (last, target) {
                check!((t - l) * (v - l) >= -1e-9, "monotonic", "from {l} to {v} on the way to {t}, frame {at}");
            }
            last = Some(*v);
        }
        if let Some(l) = last {
            cur = Some(l);
        }
        n += bs as u64;
        let slack = if block_rate && !framewise { bs as u64 } else { 1 };
        // value in force for the last frame of the block
        if let Some(t) = target
            && n - 1 >= deadline + slack - 1
        {
            check!(cur == Some(t), "arrival", "target {t} should be reached at frame {deadline}, but in frame {} the value is {cur:?}", n - 1);
        }
    }
    Ok(())
}
fn u03_seconds(dur: f32, sr: u32, block: bool, bs: usize, rec: &mut Rec) -> Result<(), Fail> {
            
            
            
            
            let (p, seen) = Probe::new(vec![]);
            let mut m = Machine::new(rig(p.smooth_params()), sr, bs);
            m.setf(0, 1.0);
            m.set(0, ParameterValue::Smoothing(ParameterSmoothing::Linear(dur), if block { Rate::BlockRate } else { Rate::AudioRate }));
            m.setf(0, 2.0);
            let input = vec![vec![0.0; bs]; 2];
            let frames = dur as f64 * sr as f64;
            let mut n = 0;
            while (n as f64) < frames + 3.0 * bs as f64 {
                m.block(&input, &Layout::Whole)?;
                n += bs;
                rec.transitions += bs as u64;
            }
            let s = seen.borrow();
            let vs: Vec<(u64, f64)> = s.floats.iter().filter(|x| x.1 == 0).map(|x| (x.0, x.2)).skip(1).collect();
            check!(vs.last().map(|v| v.1) == Some(2.0), "arrival", "ends with {:?}", vs.last());
            let first = vs.iter().find(|v| v.1 == 2.0).unwrap().0 as f64;
            let step = if block { bs as f64 } else { 1.0 };
            check!(first <= frames + step && first >= frames - step, "arrival", "{dur} s at {sr} Hz: arrives at frame {first} rather than {frames}");
            // equal steps on the line
            for (at, v) in &vs {
                let want = if frames <= 0.0 { 2.0 } else { (1.0 + *at as f64 / frames).min(2.0) };
                check!((v - want).abs() <= 1.5 / frames.max(1.0) + 1e-6, "line", "{dur} s at {sr} Hz: {v} at frame {at} rather than {want}");
            }
            check!(frames < 2.0 || block || vs.len() as f64 >= frames - 1.0, "steps", "only {} values for {frames} frames", vs.len());
            rec.state(&(dur.to_bits(), sr, block, bs));
    Ok(())
}
pub fn u03(run: &Run) {
    run.assume("smoothing durations are whole numbers of frames in most cases (sample rate 1024)");
    let stacks: [&[W]; 4] = [&[W::Sm], &[W::Pt, W::Sm], &[W::Mul, W::Sm], &[W::Sm, W::Mul]];
    let depth = run.pick(3, 4);
    {
        let bs = 4;
        run.explore(&Product {
            name: format!("{depth} blocks of 4 frames, all layouts"),
            dims: [vec![SVS.len(); depth], vec![layouts(bs), 2]].concat(),
            f: move |c: &[u16], rec: &mut Rec| u03_run(stacks[0], bs, &c[..depth], c[depth + 1] == 0, c[depth] as usize, depth + 3, rec),
            d: |c| format!("{:?}, layout {:?}, value known {}", c[..c.len() - 2].iter().map(|i| SVS[*i as usize]).collect::<Vec<_>>(), layout(4, c[c.len() - 2] as usize), c[c.len() - 1] == 0),
        });
    }
    {
        run.explore(&Product {
            name: "other block sizes and wrappers around".into(),
            dims: vec![SVS.len(), SVS.len(), SVS.len(), 4, 4],
            f: move |c: &[u16], rec: &mut Rec| {
                let bs = [1, 2, 3, 5][c[3] as usize];
                u03_run(stacks[c[4] as usize], bs, &c[..3], true, 0, 3 + 14 / bs, rec)
            },
            d: |c| format!("{:?}, block size {}, stack {}", c[..3].iter().map(|i| SVS[*i as usize]).collect::<Vec<_>>(), [1, 2, 3, 5][c[3] as usize], c[4]),
        });
    }
    // durations that aren't whole numbers of frames, at common sample rates
    run.explore(&Product {
        name: "durations in seconds x sample rate x rate".into(),
        dims: vec![9, 5, 2, 3],
        f: |c: &[u16], rec: &mut Rec| {
            let dur = [0.0, 1e-6, 1e-4, 0.001, 0.0015, 0.005, 0.0101, 0.02, 1.0 / 3.0][c[0] as usize] as f32;
            u03_seconds(dur, [44100, 48000, 96000, 8000, 22050][c[1] as usize], c[2] == 1, [1, 16, 64][c[3] as usize], rec)
        },
        d: |c| format!("{c:?}"),
    });
    run.explore(&Product {
        name: "many seconds x sample rate x rate".into(),
        dims: vec![3, 2, 2, 2],
        f: |c: &[u16], rec: &mut Rec| u03_seconds([1.5, 7.0, 12.0][c[0] as usize], [48000, 192000][c[1] as usize], c[2] == 1, [16, 64][c[3] as usize], rec),
        d: |c| format!("{c:?}"),
    });
    let _ = PFloat::MAX;
}
