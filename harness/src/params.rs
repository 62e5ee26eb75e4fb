//! P03: declared parameters are addressable by index and name, and only those.
use crate::common::*;
use crate::world::{Cfg, make_proc};
use knaster_core::typenum::*;
use knaster_core::log::ArLogSender;
use knaster_core::{
    AudioCtx, Done, Float, FloatParameterRange, KnasterIntegerParameter, PFloat, PInteger, PIntegerConvertible, PTrigger, Param, ParameterHint, ParameterSmoothing, ParameterValue, Rate, Seconds, UGen,
    UGenFlags,
    num_derive::{FromPrimitive, ToPrimitive},
    num_traits,
};
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::graph::Graph;
use knaster_graph::graph_edit::{GraphEdit, Parameter};
use knaster_graph::handle::HandleTrait;
use knaster_graph::{SchedulingToken, Time};
use std::cell::RefCell;

thread_local! {
    /// setter calls: name and argument
    static LOG: RefCell<Vec<(&'static str, V)>> = const { RefCell::new(Vec::new()) };
}
fn log(n: &'static str, v: V) {
    LOG.with(|l| l.borrow_mut().push((n, v)));
}
fn take() -> Vec<(&'static str, V)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// A value as a setter receives it
#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    F64(u64),
    F32(u32),
    I(usize),
    B(bool),
    T,
}
#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, FromPrimitive, ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Sparse {
    Three = 3,
    #[default]
    Four,
    Nine = 9,
    One = 1,
}
#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, FromPrimitive, ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Dense {
    #[default]
    Zero,
    One,
    Two,
}
#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, FromPrimitive, ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Single {
    #[default]
    Only = 7,
}

pub struct Every<F> {
    x: F,
}
#[knaster_macros::impl_ugen]
impl<F: Float> Every<F> {
    pub fn new() -> Self {
        Self { x: F::ZERO }
    }
    #[param(default = 0.25)]
    pub fn gain(&mut self, v: PFloat) {
        log("gain", V::F64(v.to_bits()));
    }
    #[param(default = 100.0, range = 0.5..=1000.0, kind = Frequency)]
    pub fn freq(&mut self, v: f32) {
        log("freq", V::F32(v.to_bits()));
    }
    #[param(kind = Q, logarithmic = true)]
    pub fn freq2(&mut self, v: f64) {
        log("freq2", V::F64(v.to_bits()));
    }
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags) -> [F; 1] {
        [self.x]
    }
    #[param]
    pub fn fre(&mut self) {
        log("fre", V::T);
    }
    #[param(range = 2..=5, default = 3)]
    pub fn count(&mut self, v: PInteger) {
        log("count", V::I(v.0));
    }
    #[param(from = Sparse)]
    pub fn mode(&mut self, v: PInteger) {
        log("mode", V::I(v.0));
    }
    pub fn not_a_param(&mut self, _v: f32) {
        log("not_a_param", V::T);
    }
    #[param]
    pub fn on(&mut self, v: bool) {
        log("on", V::B(v));
    }
    #[param]
    pub fn ctx_before(&mut self, ctx: &mut AudioCtx, v: f32) {
        if ctx.sample_rate() == 48000 {
            log("ctx_before", V::F32(v.to_bits()));
        }
    }
    #[param(range = PInteger(1)..=PInteger(2))]
    pub fn ctx_after(&mut self, v: PInteger, ctx: &AudioCtx) {
        if ctx.block_size() == 4 {
            log("ctx_after", V::I(v.0));
        }
    }
    #[param]
    pub fn ctx_only(&mut self, _c: &mut AudioCtx) {
        log("ctx_only", V::T);
    }
    #[param(from = Single)]
    pub fn single(&mut self, v: PInteger) {
        log("single", V::I(v.0));
    }
    #[param(default = PInteger(11))]
    pub fn any_int(&mut self, v: PInteger) {
        log("any_int", V::I(v.0));
    }
    #[param]
    pub fn flag_ctx(&mut self, ctx: &mut AudioCtx, v: bool) {
        let _ = ctx;
        log("flag_ctx", V::B(v));
    }
}
pub struct Empty<F> {
    x: F,
}
#[knaster_macros::impl_ugen]
impl<F: Float> Empty<F> {
    pub fn new() -> Self {
        Self { x: F::ZERO }
    }
    fn process(&mut self) -> [F; 1] {
        [self.x]
    }
}
pub struct OneInt<F> {
    x: F,
}
#[knaster_macros::impl_ugen]
impl<F: Float> OneInt<F> {
    pub fn new() -> Self {
        Self { x: F::ZERO }
    }
    #[param(from = Dense, default = 1)]
    pub fn d(&mut self, v: PInteger) {
        log("d", V::I(v.0));
    }
    fn process(&mut self, _c: &mut AudioCtx, i: [F; 2]) -> [F; 1] {
        [self.x + i[0] + i[1]]
    }
}
pub struct TwoTrig<F> {
    x: F,
}
#[knaster_macros::impl_ugen]
impl<F: Float> TwoTrig<F> {
    pub fn new() -> Self {
        Self { x: F::ZERO }
    }
    #[param]
    pub fn t_a(&mut self) {
        log("t_a", V::T);
    }
    #[param]
    pub fn t_b(&mut self) {
        log("t_b", V::T);
    }
    #[param]
    pub fn lvl(&mut self, v: f64) {
        log("lvl", V::F64(v.to_bits()));
    }
    fn process(&mut self, _flags: &mut UGenFlags, i: [F; 1]) -> [F; 1] {
        [self.x + i[0]]
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    /// float, passed as f32 or f64
    F32,
    F64,
    T,
    I,
    B,
    /// handled by a wrapper, not visible as a setter call: float, integer
    HiddenF,
    HiddenI,
}
impl K {
    fn accepts(self, v: &ParameterValue) -> bool {
        match v {
            ParameterValue::Float(_) | ParameterValue::Smoothing(..) => matches!(self, K::F32 | K::F64 | K::HiddenF),
            ParameterValue::Trigger => self == K::T,
            ParameterValue::Integer(_) => matches!(self, K::I | K::HiddenI),
            ParameterValue::Bool(_) => self == K::B,
        }
    }
}
const EVERY: &[(&str, K)] = &[
    ("gain", K::F64),
    ("freq", K::F32),
    ("freq2", K::F64),
    ("fre", K::T),
    ("count", K::I),
    ("mode", K::I),
    ("on", K::B),
    ("ctx_before", K::F32),
    ("ctx_after", K::I),
    ("ctx_only", K::T),
    ("single", K::I),
    ("any_int", K::I),
    ("flag_ctx", K::B),
];
const ONEINT: &[(&str, K)] = &[("d", K::I)];
const TWOTRIG: &[(&str, K)] = &[("t_a", K::T), ("t_b", K::T), ("lvl", K::F64)];

fn values() -> Vec<ParameterValue> {
    let mut v: Vec<ParameterValue> = [1.5, 0.0, -0.0, 0.1, 16_777_217.0, -3e38, f64::MAX, 1e-310, f64::INFINITY, f64::NAN].iter().map(|f| ParameterValue::from(*f)).collect();
    v.push(0.1f32.into());
    v.extend([0usize, 1, 2, 3, 5, 7, 9, 10, usize::MAX].iter().map(|i| ParameterValue::from(*i)));
    v.push(Sparse::Nine.into());
    v.push(Dense::Two.into());
    v.push(Done::FreeSelf.into());
    v.push(true.into());
    v.push(false.into());
    v.push(PTrigger.into());
    v.push(ParameterSmoothing::None.into());
    v.push((ParameterSmoothing::None, Rate::AudioRate).into());
    v
}
const N_UNITS: usize = 13;
const UNIT_NAMES: [&str; N_UNITS] =
    ["every", "empty", "one int", "two trig", "every ar_params", "every smooth_params", "every precise_timing", "every wr_mul", "every done action", "every smooth ar", "two trig add-sub-div-pow", "empty wr_mul", "every closure precise mul"];
const PATHS: [&str; 19] = [
    "UGen::param", "param_apply", "Graph::set", "GraphEdit::set", "Graph::set_many", "Handle::set", "AnyHandle::set", "Handle::set with smoothing", "AnyHandle::set with token", "SH::try_param set", "SH::try_param set_at",
    "DH::try_param set", "DH::try_param set_after", "DH::try_param set_time", "SH::try_param trig", "DH::try_param smooth", "handle from name", "Handle::set with smoothing and token", "set_many after a refused change",
];
fn expected(p: &(&'static str, K), v: &ParameterValue) -> Vec<(&'static str, V)> {
    let r = match (p.1, v) {
        (K::F32, ParameterValue::Float(f)) => V::F32((*f as f32).to_bits()),
        (K::F64, ParameterValue::Float(f)) => V::F64(f.to_bits()),
        (K::I, ParameterValue::Integer(i)) => V::I(i.0),
        (K::B, ParameterValue::Bool(b)) => V::B(*b),
        (K::T, ParameterValue::Trigger) => V::T,
        _ => return vec![],
    };
    vec![(p.0, r)]
}
struct Sel {
    param: Param,
    /// parameter it selects
    at: Option<usize>,
}
fn selectors(ps: &[(&'static str, K)]) -> Vec<Sel> {
    let n = ps.len();
    let mut s = vec![];
    for i in 0..n {
        s.push(Sel { param: Param::Index(i), at: Some(i) });
        s.push(Sel { param: Param::Desc(ps[i].0), at: Some(i) });
    }
    for i in [n, n + 1, 255, 256, 65535, 65536, 65537, 65536 + n, 1 << 32, usize::MAX] {
        s.push(Sel { param: Param::Index(i), at: None });
    }
    for d in ["", "gai", "gain2", "Gain", "x", "not_a_param", "process", "fre2"] {
        s.push(Sel { param: Param::Desc(d), at: None });
    }
    s
}
fn err_ok(e: &str, sel: &Sel) -> bool {
    match (sel.at, sel.param) {
        (Some(_), _) => e.contains("WrongParameterType"),
        (None, Param::Index(_)) => e.contains("ParameterIndexOutOfBounds"),
        (None, Param::Desc(d)) => e.contains("DescriptionNotFound") && e.contains(d),
    }
}
fn drive<T: UGen<Sample = f32> + 'static>(mut t: T, done: Option<Done>, ps: &[(&'static str, K)], path: usize, sel: &Sel, v: ParameterValue) -> Result<bool, Fail>
where
    T::Parameters: std::ops::Add<B1>,
    <T::Parameters as std::ops::Add<B1>>::Output: knaster_core::Size,
{
    take();
    if path < 2 {
        if done.is_some() {
            return Ok(false);
        }
        let mut ctx = AudioCtx::new(48000, 4, ArLogSender::non_rt());
        t.init(48000, 4);
        take();
        let ok = sel.at.is_some_and(|i| ps[i].1.accepts(&v));
        if path == 0 {
            let r = t.param(&mut ctx, sel.param, v);
            return finish(r.map_err(|e| format!("{e:?}")), true, ok, ps, sel, v).map(|_| true);
        }
        let Param::Index(i) = sel.param else { return Ok(false) };
        // the raw dispatch: nothing happens to wrong values, nothing panics
        t.param_apply(&mut ctx, i, v);
        if !ok {
            // kinds are not checked here: at most this parameter is affected
            let l = take();
            check!(l.is_empty() || sel.at.is_some_and(|i| l.len() == 1 && l[0].0 == ps[i].0), "dispatch", "{i} set to {v:?}: setters called {l:?}");
            return Ok(true);
        }
        return finish(Ok(()), false, ok, ps, sel, v).map(|_| true);
    }
    let (mut graph, mut proc, _log) = make_proc(&Cfg::new(4, 0, 1));
    let mut h = None;
    let id;
    let mut sh_param: Option<Option<Parameter>> = None;
    if let Some(d) = done {
        if matches!(path, 5..=8 | 17) {
            return Ok(false);
        }
        let mut i = None;
        graph.edit(|e: GraphEdit<f32>| {
            let sh = e.push_with_done_action(t, d);
            i = Some(sh.id());
            sh.name("the node");
            if matches!(path, 9 | 10 | 14) {
                sh_param = Some(sh.try_param(sel.param));
            }
        });
        id = i.unwrap();
    } else if matches!(path, 5 | 6 | 7 | 8 | 17) {
        #[allow(deprecated)]
        let handle = graph.push(t);
        id = handle.node_id();
        h = Some(handle);
    } else {
        let mut i = None;
        graph.edit(|e: GraphEdit<f32>| {
            let sh = e.push(t);
            i = Some(sh.id());
            sh.name("the node");
            if matches!(path, 9 | 10 | 14) {
                sh_param = Some(sh.try_param(sel.param));
            }
        });
        id = i.unwrap();
    }
    graph.connect2(id, 0, 0, knaster_graph::graph::NodeOrGraph::Graph).map_err(|e| Fail { key: "setup".into(), msg: format!("{e:?}") })?;
    graph.edit(|_| {});
    proc.run_without_inputs();
    take();
    let some = |r: Result<(), knaster_graph::graph::GraphError>| Some(r.map_err(|e| format!("{e:?}")));
    let zero = Seconds::ZERO;
    let ok = sel.at.is_some_and(|i| ps[i].1.accepts(&v));
    let mut r = Some(Ok(()));
    let mut value = Some(v);
    let mut set_param = |p: Option<Parameter>, value: &mut Option<ParameterValue>| -> Option<Result<(), String>> {
        let mut p = p?;
        some(match path {
            9 | 11 | 16 => p.set(v),
            10 => p.set_at(v, zero),
            12 => p.set_after(v, zero),
            13 => p.set_time(v, Time::asap()),
            14 => {
                *value = Some(ParameterValue::Trigger);
                p.trig()
            }
            _ => {
                *value = Some(ParameterSmoothing::None.into());
                p.smooth(ParameterSmoothing::None)
            }
        })
    };
    let mut reports = true;
    match path {
        2 => r = some(graph.set(id, sel.param, v, Time::asap())),
        3 => graph.edit(|e: GraphEdit<f32>| r = some(e.set(id, sel.param, v, Time::asap()))),
        4 => {
            graph.set_many(&[(id, sel.param, v)], Time::asap());
            reports = false;
        }
        5 => r = some(h.unwrap().set((sel.param, v))),
        6 => r = some(h.unwrap().into_any().set((sel.param, v))),
        7 => r = some(h.unwrap().set((sel.param, v, ParameterSmoothing::None))),
        8 | 17 => {
            let t = SchedulingToken::new();
            r = if path == 8 { some(h.unwrap().into_any().set((sel.param, v, t.clone()))) } else { some(h.unwrap().set((sel.param, v, ParameterSmoothing::None, t.clone()))) };
            proc.run_without_inputs();
            let l = take();
            check!(l.is_empty(), "early", "a change with an inactive token reached {l:?}");
            t.activate_inner();
        }
        9 | 10 | 14 => r = set_param(sh_param.unwrap(), &mut value),
        11 | 12 | 13 | 15 => graph.edit(|e: GraphEdit<f32>| {
            let p = e.handle(id).unwrap().try_param(sel.param);
            r = set_param(p, &mut value);
        }),
        16 => {
            if done.is_none() && h.is_some() {
                return Ok(false);
            }
            graph.edit(|e: GraphEdit<f32>| {
                let p = e.handle_from_name("the node").unwrap().try_param(sel.param);
                r = set_param(p, &mut value);
            })
        }
        _ => {
            // changes around a refused one are still applied
            let mut ch = vec![(id, sel.param, v), (id, Param::Index(usize::MAX), v), (id, Param::Desc("nothing"), v)];
            ch.push((id, sel.param, v));
            graph.set_many(&ch, Time::asap());
            proc.run_without_inputs();
            let l = take();
            let want: Vec<_> = if ok { (0..2).flat_map(|_| expected(&ps[sel.at.unwrap()], &v)).collect() } else { vec![] };
            check!(l == want, "set-many", "{:?} set to {v:?} twice, with refused changes in between: setters called {l:?}", sel.param);
            return Ok(true);
        }
    }
    proc.run_without_inputs();
    proc.run_without_inputs();
    let v2 = value.unwrap();
    let smoothing_too = matches!(path, 7 | 17);
    let ok = sel.at.is_some_and(|i| ps[i].1.accepts(&v2) && (!smoothing_too || ps[i].1.accepts(&ParameterSmoothing::None.into())));
    match r {
        None => {
            // try_param
            check!(sel.at.is_none(), "try-param", "no parameter found for {:?}", sel.param);
            let l = take();
            check!(l.is_empty(), "dispatch", "{l:?} called");
            Ok(true)
        }
        Some(r) => {
            if matches!(path, 9..=16) {
                check!(sel.at.is_some(), "try-param", "a parameter was found for {:?}", sel.param);
            }
            finish(r, reports, ok, ps, sel, v2).map(|_| true)
        }
    }
}
fn finish(r: Result<(), String>, reports: bool, ok: bool, ps: &[(&'static str, K)], sel: &Sel, v: ParameterValue) -> Result<(), Fail> {
    let l = take();
    let want = if ok { expected(&ps[sel.at.unwrap()], &v) } else { vec![] };
    check!(l == want, "dispatch", "{:?} set to {v:?}: setters called {l:?}, expected {want:?}", sel.param);
    if reports {
        match r {
            Ok(()) => check!(ok, "accepted", "{:?} set to {v:?} was accepted", sel.param),
            Err(e) => {
                check!(!ok, "refused", "{:?} set to {v:?} was refused: {e}", sel.param);
                check!(err_ok(&e, sel), "error-kind", "{:?} set to {v:?} was refused with {e}", sel.param);
            }
        }
    }
    Ok(())
}
fn case(unit: usize, path: usize, si: usize, vi: usize) -> Result<Option<bool>, Fail> {
    let mut ps: Vec<(&'static str, K)> = match unit {
        1 | 11 => vec![],
        2 => ONEINT.to_vec(),
        3 | 10 => TWOTRIG.to_vec(),
        _ => EVERY.to_vec(),
    };
    if matches!(unit, 7 | 11 | 12) {
        ps.push(("wr_mul", K::HiddenF));
    }
    let done = if unit == 8 {
        ps.push(("done_action", K::HiddenI));
        Some(Done::None)
    } else {
        None
    };
    let sels = selectors(&ps);
    let Some(sel) = sels.get(si) else { return Ok(None) };
    let v = values()[vi];
    macro_rules! go { ($t:expr) => { drive($t, done, &ps, path, sel, v).map(Some) } }
    match unit {
        0 | 8 => go!(Every::new()),
        1 => go!(Empty::new()),
        2 => go!(OneInt::new()),
        3 => go!(TwoTrig::new()),
        4 => go!(Every::new().ar_params()),
        5 => go!(Every::new().smooth_params()),
        6 => go!(Every::new().precise_timing::<4>()),
        7 => go!(Every::new().wr_mul(2.0)),
        9 => go!(Every::new().ar_params().smooth_params()),
        10 => go!(TwoTrig::new().wr_add(1.0).wr_sub(1.0).wr_div(2.0).wr_powi(2).wr_powf(1.0).wr_v_sub_gen(1.0).wr_v_div_gen(1.0)),
        11 => go!(Empty::new().wr_mul(1.0)),
        _ => go!(Every::new().wr(|x| x).precise_timing::<4>().wr_mul(2.0)),
    }
}

// ---- metadata
struct Meta {
    name: &'static str,
    n: usize,
    desc: Vec<&'static str>,
    hints: Vec<ParameterHint>,
}
fn meta<T: UGen>(name: &'static str) -> Meta {
    Meta { name, n: T::Parameters::USIZE, desc: T::param_descriptions().to_vec(), hints: T::param_hints().to_vec() }
}
fn library() -> Vec<Meta> {
    use knaster_core_dsp::{delay::*, dsp::*, dynamics::*, envelopes::*, math::*, noise::*, onepole::*, osc::*, pan::*, polyblep::*, svf::*, util::*};
    type C = fn(&mut AudioCtx, f32) -> f32;
    let _: Option<C> = None;
    vec![
        meta::<OnePoleLpf<f32>>("OnePoleLpf"),
        meta::<OnePoleHpf<f32>>("OnePoleHpf"),
        meta::<PolyBlep<f32>>("PolyBlep"),
        meta::<DoneOnTrig<f32>>("DoneOnTrig"),
        meta::<Constant<f32>>("Constant"),
        meta::<EnvAsr<f32>>("EnvAsr"),
        meta::<EnvAr<f32>>("EnvAr"),
        meta::<Envelope<f32>>("Envelope"),
        meta::<SafetyLimiter<f32>>("SafetyLimiter"),
        meta::<SampleDelay<f32>>("SampleDelay"),
        meta::<AllpassDelay<f32>>("AllpassDelay"),
        meta::<AllpassFeedbackDelay<f32>>("AllpassFeedbackDelay"),
        meta::<SinWt<f32>>("SinWt"),
        meta::<Phasor<f32>>("Phasor"),
        meta::<SinNumeric<f32>>("SinNumeric"),
        meta::<SvfFilter<f32>>("SvfFilter"),
        meta::<Pan2<f32>>("Pan2"),
        meta::<WhiteNoise<f32>>("WhiteNoise"),
        meta::<PinkNoise<f32>>("PinkNoise"),
        meta::<BrownNoise<f32>>("BrownNoise"),
        meta::<RandomLin<f32>>("RandomLin"),
        meta::<MathUGen<f32, U1, Add>>("MathUGen"),
        meta::<knaster_airwindows::galactic::Galactic<f32>>("Galactic"),
        meta::<Every<f32>>("Every"),
        meta::<OneInt<f32>>("OneInt"),
        meta::<WrMul<Every<f32>>>("WrMul<Every>"),
    ]
}
fn meta_case(m: &Meta, rec: &mut Rec) -> Result<(), Fail> {
    check!(m.desc.len() == m.n && m.hints.len() == m.n, "lengths", "{}: {} parameters, {} names, {} hints", m.name, m.n, m.desc.len(), m.hints.len());
    for (i, d) in m.desc.iter().enumerate() {
        check!(!d.is_empty() && m.desc.iter().position(|x| x == d) == Some(i), "names", "{}: parameter {i} is called {d:?}, names are {:?}", m.name, m.desc);
        rec.step();
    }
    for (d, h) in m.desc.iter().zip(&m.hints) {
        if let Some(h) = h.integer_hint() {
            check!(h.range.0.0 <= h.range.1.0, "range", "{} {d}: range {:?}", m.name, h.range);
            if let Some(x) = h.default {
                check!(h.range.0.0 <= x.0 && x.0 <= h.range.1.0, "default", "{} {d}: default {x:?}, range {:?}", m.name, h.range);
            }
            if h.range.1.0 - h.range.0.0 < 1000 {
                if let Some(all) = h.descriptions() {
                    let ids: Vec<usize> = all.iter().map(|x| x.0.0).collect();
                    check!(ids == (h.range.0.0..=h.range.1.0).collect::<Vec<_>>(), "descriptions", "{} {d}: descriptions for {ids:?}, range {:?}", m.name, h.range);
                    for (v, s) in &all {
                        let one = h.description(*v).map(|s| s.to_string()).unwrap_or(v.0.to_string());
                        check!(*s == one, "description", "{} {d}: value {v:?} is described as {s} and {one}", m.name);
                    }
                    check!(h.description(h.range.0).is_some() && h.description(h.range.1).is_some(), "description", "{} {d}: an end of the range has no description", m.name);
                    check!(h.description(PInteger(h.range.1.0 + 1)).is_none(), "description", "{} {d}: a value beyond the range has a description", m.name);
                }
            }
        }
        if let Some(h) = h.float_hint() {
            if let (Some(x), Some(FloatParameterRange::Range(a, b))) = (h.default, h.range) {
                check!(a <= x && x <= b, "default", "{} {d}: default {x}, range {a} to {b}", m.name);
            }
        }
    }
    rec.state(&m.name);
    Ok(())
}
fn every_meta(k: usize) -> Result<(), Fail> {
    let (d, h) = match k {
        0 => (Every::<f32>::param_descriptions().to_vec(), Every::<f32>::param_hints().to_vec()),
        _ => {
            let mut g: Graph<f32>;
            let (gr, _p, _l) = make_proc(&Cfg::new(4, 0, 1));
            g = gr;
            #[allow(deprecated)]
            let h = g.push(Every::new());
            if k == 1 { (h.parameters(), h.hints()) } else { (h.clone().into_any().parameters(), h.into_any().hints()) }
        }
    };
    let names: Vec<_> = EVERY.iter().map(|p| p.0).collect();
    check!(d == names, "names", "declared are {names:?}, reported {d:?}");
    for (p, h) in EVERY.iter().zip(&h) {
        let ok = match p.1 {
            K::F32 | K::F64 => h.float_hint().is_some(),
            K::I => h.integer_hint().is_some(),
            K::T => matches!(h, ParameterHint::Trigger),
            _ => matches!(h, ParameterHint::Bool),
        };
        check!(ok, "hint-kind", "the hint of {} is {h:?}", p.0);
    }
    let f = |i: usize| *h[i].float_hint().unwrap();
    check!(f(0).default == Some(0.25) && f(0).range.is_none(), "hint", "gain: {:?}", f(0));
    check!(f(1).default == Some(100.0) && f(1).range == Some(FloatParameterRange::Range(0.5, 1000.0)) && f(1).kind == Some(knaster_core::FloatParameterKind::Frequency), "hint", "freq: {:?}", f(1));
    check!(f(2).is_logarithmic == Some(true) && f(2).kind == Some(knaster_core::FloatParameterKind::Q) && f(2).default.is_none(), "hint", "freq2: {:?}", f(2));
    let i = |k: usize| *h[k].integer_hint().unwrap();
    let r = |k: usize| (i(k).range.0.0, i(k).range.1.0);
    check!(r(4) == (2, 5) && i(4).default.map(|d| d.0) == Some(3), "hint", "count: {:?}", i(4));
    check!(r(5) == (1, 9) && i(5).default.map(|d| d.0) == Some(4), "hint", "mode: {:?}", i(5));
    check!(r(8) == (1, 2), "hint", "ctx_after: {:?}", i(8));
    check!(r(10) == (7, 7) && i(10).default.map(|d| d.0) == Some(7), "hint", "single: {:?}", i(10));
    check!(r(11) == (0, usize::MAX) && i(11).default.map(|d| d.0) == Some(11), "hint", "any_int: {:?}", i(11));
    let n = |k: usize, v: usize| i(k).description(PInteger(v));
    for v in 0..20 {
        let w = match v {
            1 => Some("One"),
            3 => Some("Three"),
            4 => Some("Four"),
            9 => Some("Nine"),
            _ => None,
        };
        check!(n(5, v) == w, "description", "mode: value {v} is described as {:?}", n(5, v));
        check!(n(10, v) == (v == 7).then_some("Only"), "description", "single: value {v} is described as {:?}", n(10, v));
    }
    Ok(())
}
fn enums(k: usize) -> Result<(), Fail> {
    let v = if k < 300 { k } else { [usize::MAX, 1 << 32, (1 << 32) + 3, 65536 + 9, 256 + 1][k - 300] };
    let s = match v {
        1 => Sparse::One,
        3 => Sparse::Three,
        9 => Sparse::Nine,
        _ => Sparse::Four,
    };
    check!(Sparse::from(PInteger(v)) == s, "enum", "{v} converts to {:?}", Sparse::from(PInteger(v)));
    let p: PInteger = s.into();
    check!(p.0 == s as usize, "enum", "{s:?} converts to {p:?}");
    let d = [Dense::Zero, Dense::One, Dense::Two].get(v).copied().unwrap_or(Dense::Zero);
    check!(Dense::from(PInteger(v)) == d, "enum", "{v} converts to {:?}", Dense::from(PInteger(v)));
    let p: PInteger = d.into();
    check!(p.0 == d as usize, "enum", "{d:?} converts to {p:?}");
    check!(Single::from(PInteger(v)) == Single::Only, "enum", "{v} converts to {:?}", Single::from(PInteger(v)));
    let d = [Done::None, Done::FreeSelf, Done::FreeParent].get(v).copied().unwrap_or_default();
    check!(Done::from(PInteger(v)) == d, "enum", "{v} converts to {:?}", Done::from(PInteger(v)));
    check!(Dense::pinteger_range().0.0 == 0 && Dense::pinteger_range().1.0 == 2 && Sparse::pinteger_range().0.0 == 1 && Sparse::pinteger_range().1.0 == 9, "enum-range", "{:?} {:?}", Dense::pinteger_range(), Sparse::pinteger_range());
    Ok(())
}
const HINT_OPS: [&str; 16] = [
    "-", "default(0.5)", "default(-2)", "range(1..=2)", "range(3..)", "range(..4)", "range(..=5)", "range(Nyquist)", "kind(Q)", "minmax(-1, 1)", "infinite", "unipolar", "positive_infinite", "negative_infinite",
    "nyquist", "logarithmic(false)",
];
/// The builder of float hints: every call changes its field and nothing else
fn hint_case(c: &[u16]) -> Result<(), Fail> {
    use knaster_core::{FloatParameterKind as Kind, FloatParameterRange as R, ParameterType, PFloatHint};
    let apply = |mut h: PFloatHint, op: u16| {
        h = match op {
            0 => h,
            1 => h.default(0.5),
            2 => h.default(-2.0),
            3 => h.range(1.0..=2.0),
            4 => h.range(3.0..),
            5 => h.range(..4.0),
            6 => h.range(..=5.0),
            7 => h.range(R::Nyquist),
            8 => h.kind(Kind::Q),
            9 => h.minmax(-1.0, 1.0),
            10 => h.infinite(),
            11 => h.unipolar(),
            12 => h.positive_infinite(),
            13 => h.negative_infinite(),
            14 => h.nyquist(),
            _ => h.logarithmic(false),
        };
        h
    };
    let (mut default, mut range, mut kind, mut log) = (None, None, None, None);
    for op in c {
        match op {
            0 => (),
            1 => default = Some(0.5),
            2 => default = Some(-2.0),
            3 => range = Some(R::Range(1.0, 2.0)),
            4 => range = Some(R::Range(3.0, f64::MAX)),
            5 => range = Some(R::Range(f64::MIN, 4.0)),
            6 => range = Some(R::Range(f64::MIN, 5.0)),
            7 | 14 => range = Some(R::Nyquist),
            8 => kind = Some(Kind::Q),
            9 => range = Some(R::Range(-1.0, 1.0)),
            10 => range = Some(R::Infinite),
            11 => range = Some(R::Range(0.0, 1.0)),
            12 => range = Some(R::PositiveInfinite),
            13 => range = Some(R::NegativeInfinite),
            _ => log = Some(false),
        }
    }
    let h = ParameterHint::new_float(|h| c.iter().fold(h, |h, op| apply(h, *op)));
    let f = *h.float_hint().ok_or_else(|| Fail { key: "hint-kind".into(), msg: format!("{h:?}") })?;
    check!(f.default == default && f.range == range && f.kind == kind && f.is_logarithmic == log, "hint-builder", "built {f:?}");
    check!(h.integer_hint().is_none() && matches!(h.ty(), ParameterType::Float), "hint-kind", "{h:?}");
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    Float,
    Trigger,
    Integer,
    Bool,
}
impl Ty {
    fn of(t: knaster_core::ParameterType) -> Ty {
        use knaster_core::ParameterType as P;
        match t {
            P::Float => Ty::Float,
            P::Trigger => Ty::Trigger,
            P::Integer => Ty::Integer,
            P::Bool => Ty::Bool,
        }
    }
}
fn hint_short(k: usize) -> Result<(), Fail> {
    use knaster_core::FloatParameterRange as R;
    use Ty as T;
    #[allow(deprecated)]
    let all = [
        (ParameterHint::nyquist(), T::Float, Some(R::Nyquist)),
        (ParameterHint::infinite_float(), T::Float, Some(R::Infinite)),
        (ParameterHint::positive_infinite_float(), T::Float, Some(R::PositiveInfinite)),
        (ParameterHint::negative_infinite_float(), T::Float, Some(R::NegativeInfinite)),
        (ParameterHint::one(), T::Float, Some(R::Range(0.0, 1.0))),
        (ParameterHint::default(), T::Float, None),
        (ParameterHint::boolean(), T::Bool, None),
        (ParameterHint::Trigger, T::Trigger, None),
        (ParameterHint::new_integer((PInteger(3), PInteger(8)), |h| h), T::Integer, None),
        (ParameterHint::from_pinteger_enum::<Sparse>(), T::Integer, None),
    ];
    let (h, ty, range) = all[k];
    check!(Ty::of(h.ty()) == ty, "hint-kind", "{h:?} is of type {:?}", Ty::of(h.ty()));
    check!(h.float_hint().is_some() == (ty == T::Float) && h.integer_hint().is_some() == (ty == T::Integer), "hint-kind", "{h:?}");
    if let Some(f) = h.float_hint() {
        check!(f.range == range && f.default.is_none() && f.kind.is_none() && f.is_logarithmic.is_none(), "hint-builder", "{h:?}");
    }
    if let Some(i) = h.integer_hint() {
        let want = if k == 8 { (3, 8, None) } else { (1, 9, Some(4)) };
        check!((i.range.0.0, i.range.1.0, i.default.map(|d| d.0)) == want, "hint-builder", "{h:?}");
        check!(i.description(PInteger(3)) == (k == 9).then_some("Three") && i.descriptions().is_some() == (k == 9), "description", "{h:?}");
    }
    for v in values() {
        let want = match v {
            ParameterValue::Float(_) | ParameterValue::Smoothing(..) => ty == T::Float,
            ParameterValue::Trigger => ty == T::Trigger,
            ParameterValue::Integer(_) => ty == T::Integer,
            ParameterValue::Bool(_) => ty == T::Bool,
        };
        check!(h.accepts(&v) == want, "accepts", "{h:?} accepts {v:?}: {}", h.accepts(&v));
        // reading a value as what it is, and not as anything else
        check!(v.float().is_some() == matches!(v, ParameterValue::Float(_)) && v.integer().is_some() == matches!(v, ParameterValue::Integer(_)) && v.bool().is_some() == matches!(v, ParameterValue::Bool(_)), "value", "{v:?}");
    }
    Ok(())
}
pub fn p03(run: &Run) {
    run.explore(&Product {
        name: "hints".into(),
        dims: vec![HINT_OPS.len(); 4],
        f: |c: &[u16], rec: &mut Rec| {
            rec.state(&(c, 3));
            rec.step();
            hint_case(c)
        },
        d: |c| c.iter().map(|c| HINT_OPS[*c as usize]).collect::<Vec<_>>().join("."),
    });
    run.explore(&Product {
        name: "hint shorthands".into(),
        dims: vec![10],
        f: |c: &[u16], rec: &mut Rec| {
            rec.state(&(c, 4));
            rec.step();
            hint_short(c[0] as usize)
        },
        d: |c| format!("shorthand number {}", c[0]),
    });
    // all units, paths, selectors, values; the largest unit has 14 parameters
    let nsel = 2 * 14 + 18;
    run.explore(&Product {
        name: "set".into(),
        dims: vec![N_UNITS, PATHS.len(), nsel, values().len()],
        f: |c: &[u16], rec: &mut Rec| {
            match case(c[0] as usize, c[1] as usize, c[2] as usize, c[3] as usize)? {
                Some(true) => {
                    rec.state(&(c[0], c[1], c[2], c[3]));
                    rec.step();
                }
                _ => rec.count("combinations that don't exist", 1),
            }
            Ok(())
        },
        d: |c| format!("{} through {}, selector number {}, value {:?}", UNIT_NAMES[c[0] as usize], PATHS[c[1] as usize], c[2], values()[c[3] as usize]),
    });
    run.explore(&Product {
        name: "metadata".into(),
        dims: vec![library().len()],
        f: |c: &[u16], rec: &mut Rec| meta_case(&library()[c[0] as usize], rec),
        d: |c| library()[c[0] as usize].name.to_string(),
    });
    run.explore(&Product {
        name: "declared".into(),
        dims: vec![3],
        f: |c: &[u16], rec: &mut Rec| {
            rec.state(&(c[0], 1));
            rec.step();
            every_meta(c[0] as usize)
        },
        d: |c| ["from the type", "from its handle", "from its AnyHandle"][c[0] as usize].to_string(),
    });
    run.explore(&Product {
        name: "enums".into(),
        dims: vec![305],
        f: |c: &[u16], rec: &mut Rec| {
            rec.state(&(c[0], 2));
            rec.step();
            enums(c[0] as usize)
        },
        d: |c| format!("integer value number {}", c[0]),
    });
}
