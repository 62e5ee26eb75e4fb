//! U04: how processing is cut into blocks never changes the samples.
//! Every unit of the library, in many settings, through every way to cut a stretch of frames.
use crate::common::*;
use crate::units::*;
use knaster_airwindows::galactic::Galactic;
use knaster_core::log::{ArLogReceiver, ArLogSender};
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, PInteger, ParameterSmoothing, ParameterValue, Rate, Seconds, UGen, UGenFlags};
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::closure::ugen;
use knaster_core_dsp::delay::*;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_core_dsp::dynamics::*;
use knaster_core_dsp::envelopes::*;
use knaster_core_dsp::math;
use knaster_core_dsp::noise::*;
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::pan::*;
use knaster_core_dsp::polyblep::*;
use knaster_core_dsp::svf::*;
use knaster_core_dsp::util::*;
use knaster_core_dsp::wrappers_core::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
    F(f64),
    I(usize),
    B(bool),
    T,
    /// smoothing at audio rate over seconds
    S(f64),
}
impl V {
    pub fn value(self) -> ParameterValue {
        match self {
            V::F(f) => ParameterValue::Float(f as _),
            V::I(i) => ParameterValue::Integer(PInteger(i as _)),
            V::B(b) => ParameterValue::Bool(b),
            V::T => ParameterValue::Trigger,
            V::S(s) => ParameterValue::Smoothing(ParameterSmoothing::Linear(s as f32), Rate::AudioRate),
        }
    }
}
type Make = Box<dyn Fn() -> Box<dyn Unit> + Sync + Send>;
pub struct Spec {
    pub name: String,
    pub make: Make,
    /// What may change: each entry is one change
    pub evs: Vec<Vec<(usize, V)>>,
    pub log: bool,
}
/// The same randomness for every instance
pub fn seeded<T>(f: impl FnOnce() -> T) -> T {
    mcsched::with_counter(11, f)
}
/// Whether the seeds the units take are those of the substituted counter
pub fn seeds_controlled() -> bool {
    let [a, b] = [0, 1].map(|_| seeded(|| (next_randomness_seed(), next_randomness_seed())));
    a == b
}
pub const SR: u32 = 1024;
fn frames(n: f64) -> f64 {
    n / SR as f64
}
pub fn specs<F: Float>(ty: &'static str, small: bool) -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    macro_rules! add {
        ($name:expr, $evs:expr, $make:expr) => {{
            // the first entry of each parameter's values must be accepted whatever the others are
            let evs: Vec<(usize, Vec<V>)> = $evs;
            let mut all: Vec<Vec<(usize, V)>> = vec![vec![]];
            for (p, vs) in evs {
                for x in vs {
                    all.push(vec![(p, x)]);
                }
            }
            v.push(Spec { name: format!("{}<{ty}>", $name), make: Box::new(move || seeded(|| rig($make))), evs: all, log: false });
        }};
    }
    let f = |x: f64| F::new(x);
    for c in [20.0, 300.0] {
        add!(format!("OnePoleLpf({c})"), vec![(0, vec![V::F(5.0), V::F(400.0)])], OnePoleLpf::new(f(c)));
    }
    add!("OnePoleHpf", vec![(0, vec![V::F(5.0), V::F(400.0)])], OnePoleHpf::<F>::new());
    for i in 0..14u8 {
        let w = Waveform::from(PInteger(i as _));
        add!(format!("PolyBlep({w:?})"), vec![(0, vec![V::F(50.0), V::F(333.3)]), (1, vec![V::F(0.2), V::F(0.7)]), (2, vec![V::I((i as usize + 1) % 14)])], PolyBlep::new(Waveform::from(PInteger(i as _)), f(90.0)));
    }
    add!("DoneOnTrig", vec![(0, vec![V::T])], DoneOnTrig::<F>::new());
    add!("Constant", vec![(0, vec![V::F(1.5), V::F(-2.0)])], Constant::new(f(0.25)));
    for (a, r) in [(0.0, 0.0), (2.0, 3.0), (4.0, 1.0), (16.0, 0.0)] {
        add!(format!("EnvAsr({a}, {r} frames)"), vec![(0, vec![V::F(frames(8.0))]), (1, vec![V::F(frames(2.0))]), (2, vec![V::T]), (3, vec![V::T])], {
            EnvAsr::new(f(frames(a)), f(frames(r)))
        });
        add!(format!("EnvAr({a}, {r} frames)"), vec![(0, vec![V::F(frames(8.0))]), (1, vec![V::F(frames(2.0))]), (2, vec![V::T])], EnvAr::new(f(frames(a)), f(frames(r))));
    }
    for (k, looping) in [(0, false), (1, false), (2, false), (2, true), (3, true)] {
        add!(
            format!("Envelope({k}, looping {looping})"),
            vec![(0, vec![V::F(2.0), V::F(0.5)]), (1, vec![V::I(1), V::I(9)]), (2, vec![V::T]), (3, vec![V::T])],
            Envelope::<F>::new(0.5, (0..k).map(|i| EnvelopeSegment::new(frames([2.0, 0.0, 3.5][i]), [1.0, -2.0, 4.0][i])).collect()).looping(looping)
        );
    }
    add!("closure 0-1", vec![], {
        let mut n = 0.0;
        ugen(move |_: &mut AudioCtx, _: &mut UGenFlags| {
            n += 0.5;
            F::new(n)
        })
    });
    add!("closure 1-0", vec![], ugen(|_: &mut AudioCtx, fl: &mut UGenFlags, x: F| if x.to_f64() > 0.6 { fl.mark_done(0) }));
    add!("closure 2-3", vec![], {
        let mut s = 0.0;
        ugen(move |_: &mut AudioCtx, _: &mut UGenFlags, x: [F; 2]| {
            s = s * 0.5 + x[0].to_f64();
            [F::new(s), x[1], F::new(s) - x[1]]
        })
    });
    add!("SafetyLimiter", vec![], SafetyLimiter::<F>::new());
    for d in [4.0, 16.0] {
        let t = move || Seconds::from_secs_f64(frames(d));
        let evs = vec![(0, vec![V::F(frames(1.0)), V::F(frames(3.0)), V::F(frames(d)), V::F(frames(2.25)), V::F(9.0)])];
        add!(format!("SampleDelay({d})"), evs.clone(), SampleDelay::<F>::new(t()));
        add!(format!("AllpassDelay({d})"), evs.clone(), AllpassDelay::<F>::new(t()));
        add!(format!("AllpassFeedbackDelay({d})"), [evs.clone(), vec![(1, vec![V::F(0.5), V::F(-0.7)])]].concat(), AllpassFeedbackDelay::<F>::new(t()));
    }
    for fr in [0.0, 100.0, -33.3] {
        add!(format!("SinWt({fr})"), vec![(0, vec![V::F(7.0), V::F(-500.0)]), (1, vec![V::F(0.25), V::F(-0.6)]), (2, vec![V::T])], SinWt::new(f(fr)));
        add!(format!("SinNumeric({fr})"), vec![(0, vec![V::F(7.0), V::F(-500.0)]), (1, vec![V::F(0.25), V::F(-0.6)]), (2, vec![V::T])], SinNumeric::new(f(fr)));
        add!(format!("Phasor({fr})"), vec![(0, vec![V::F(7.0), V::F(-500.0)])], Phasor::<F>::new(fr));
    }
    for i in 0..9usize {
        add!(
            format!("SvfFilter({i})"),
            vec![(0, vec![V::F(20.0), V::F(500.0)]), (1, vec![V::F(0.5), V::F(10.0)]), (2, vec![V::F(-12.0), V::F(6.0)]), (3, vec![V::I((i + 4) % 9)]), (4, vec![V::T])],
            SvfFilter::new(SvfFilterType::from(PInteger(i as _)), f(200.0), f(1.0), f(3.0))
        );
    }
    add!("Pan2", vec![(0, vec![V::F(-1.0), V::F(0.3), V::F(1.0)])], Pan2::<F>::new(0.0));
    add!("WhiteNoise", vec![], WhiteNoise::<F>::new());
    add!("PinkNoise", vec![], PinkNoise::<F>::new());
    add!("BrownNoise", vec![], BrownNoise::<F>::new());
    for fr in [0.0, 150.0, 1024.0] {
        add!(format!("RandomLin({fr})"), vec![(0, vec![V::F(300.0), V::F(0.0), V::F(2500.0)])], RandomLin::new(f(fr)));
    }
    add!("Add", vec![], math::MathUGen::<F, U1, math::Add>::new());
    add!("Sub", vec![], math::MathUGen::<F, U2, math::Sub>::new());
    add!("Mul", vec![], math::MathUGen::<F, U3, math::Mul>::new());
    add!("Div", vec![], math::MathUGen::<F, U2, math::Div>::new());
    add!("Pow", vec![], math::MathUGen::<F, U1, math::Pow>::new());
    add!("Ceil", vec![], math::Math1UGen::<F, math::Ceil>::new());
    add!("Sqrt", vec![], math::Math1UGen::<F, math::Sqrt>::new());
    add!("Floor", vec![], math::Math1UGen::<F, math::Floor>::new());
    add!("Trunc", vec![], math::Math1UGen::<F, math::Trunc>::new());
    add!("Fract", vec![], math::Math1UGen::<F, math::Fract>::new());
    add!("Exp", vec![], math::Math1UGen::<F, math::Exp>::new());
    for (ch, len, rate, looping) in [(1usize, 5usize, 1.0, false), (1, 4, 1.0, true), (2, 7, 0.5, true), (2, 6, 1.75, false), (3, 3, 1.0, true), (1, 0, 1.0, false), (1, 1, 0.25, true)] {
        let evs = vec![
            (0, vec![V::F(0.5), V::F(2.0), V::F(0.0)]),
            (1, vec![V::B(!looping)]),
            (2, vec![V::F(frames(2.0)), V::F(frames(30.0))]),
            (3, vec![V::F(frames(3.0)), V::F(-1.0)]),
            (4, vec![V::F(frames(4.0))]),
            (5, vec![V::T]),
        ];
        add!(format!("BufferReader({len} frames of {ch}, rate {rate}, looping {looping})"), evs, {
            let b: Vec<F> = (0..len * ch).map(|i| F::new(1.0 + i as f64 * 0.25)).collect();
            BufferReader::<F, U2>::new(Buffer::from_vec_interleaved(b, ch, SR as f64), rate, looping)
        });
    }
    if !small {
        for d in [0.0, 1.0] {
            add!(
                format!("Galactic(detune {d})"),
                vec![(0, vec![V::F(0.9)]), (1, vec![V::F(0.5)]), (2, vec![V::F(0.2)]), (3, vec![V::F(0.0), V::F(1.0)]), (4, vec![V::F(1.0), V::F(0.3)])],
                Galactic::<F>::new(f(0.5), f(d), f(0.5), f(0.1), f(0.8))
            );
        }
    }
    // wrapped
    add!("SinWt.wr_mul.wr_add", vec![(0, vec![V::F(7.0)]), (3, vec![V::F(2.0)])], SinWt::new(f(100.0)).wr_mul(f(0.5)).wr_add(f(1.0)));
    add!("Svf.smooth", vec![(0, vec![V::S(frames(6.0)), V::F(300.0), V::F(90.0)]), (3, vec![V::I(2)])], SvfFilter::new(SvfFilterType::Low, f(200.0), f(1.0), f(3.0)).smooth_params());
    add!("EnvAsr.smooth.ar", vec![(0, vec![V::S(frames(6.0)), V::F(frames(6.0))]), (2, vec![V::T]), (3, vec![V::T])], EnvAsr::new(f(frames(3.0)), f(frames(2.0))).smooth_params().ar_params());
    add!("EnvAr.precise_timing.wr", vec![(0, vec![V::F(frames(6.0))]), (2, vec![V::T])], {
        EnvAr::new(f(frames(3.0)), f(frames(2.0))).precise_timing::<3>().wr(|x| x * F::new(2.0) - F::ONE)
    });
    add!("Constant.wr_powf.wr_sub.wr_div", vec![(0, vec![V::F(3.0)])], Constant::new(f(0.25)).wr_powf(f(2.0)).wr_sub(f(0.5)).wr_div(f(4.0)));
    add!("Constant.wr_powi.wr_v_sub.wr_v_div", vec![(0, vec![V::F(3.0)])], Constant::new(f(0.25)).wr_powi(2).wr_v_sub_gen(f(4.5)).wr_v_div_gen(f(4.0)));
    let mut log = |name: &str, every: u32| {
        v.push(Spec {
            name: format!("LogProbe every {every}{name}<{ty}>"),
            make: Box::new(move || {
                let mut u = LogProbe::<F>::new("p");
                u.init(every, 4);
                // The interval is the sample rate it's initialised with
                Box::new(Interval(rig(u), every))
            }),
            evs: vec![vec![]],
            log: true,
        })
    };
    log("", 1);
    log("", 3);
    log("", 5);
    v
}
/// Initialises what it contains with its own sample rate
struct Interval(Box<dyn Unit>, u32);
impl Unit for Interval {
    fn ins(&self) -> usize {
        self.0.ins()
    }
    fn outs(&self) -> usize {
        self.0.outs()
    }
    fn nparams(&self) -> usize {
        self.0.nparams()
    }
    fn init(&mut self, _sr: u32, bs: usize) {
        self.0.init(self.1, bs)
    }
    fn frame(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, i: &[f64], o: &mut [f64]) {
        self.0.frame(ctx, fl, i, o)
    }
    fn part(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, input: &[Vec<f64>], out: &mut [Vec<f64>], off: usize, len: usize, bs: usize) -> Result<(), Fail> {
        self.0.part(ctx, fl, input, out, off, len, bs)
    }
    fn apply(&mut self, ctx: &mut AudioCtx, idx: usize, v: ParameterValue) {
        self.0.apply(ctx, idx, v)
    }
    fn delay(&mut self, ctx: &mut AudioCtx, idx: usize, d: u16) {
        self.0.delay(ctx, idx, d)
    }
    fn ar(&mut self, ctx: &mut AudioCtx, idx: usize, b: Option<&[f64]>) {
        self.0.ar(ctx, idx, b)
    }
    fn names(&self) -> Vec<String> {
        self.0.names()
    }
    fn hints(&self) -> Vec<knaster_core::ParameterHint> {
        self.0.hints()
    }
}

/// The input at frame `t`
fn input(ins: usize, t: usize) -> Vec<f64> {
    (0..ins).map(|c| if c % 2 == 0 { 0.25 + ((t * 37 + c * 11) % 16) as f64 * 0.0625 } else { 0.5 + ((t * 5 + c) % 8) as f64 * 0.125 }).collect()
}
/// What a run of a unit amounts to
#[derive(PartialEq, Debug)]
pub struct Trace {
    pub y: Vec<Vec<f64>>,
    /// (first frame, number of frames, marks) of each call
    pub marks: Vec<(usize, usize, Marks)>,
    pub log: Vec<f64>,
}
/// Sections of frames, each with changes before and a layout. Sections end at or before the borders
/// of blocks of `bs` frames.
fn run_unit(s: &Spec, bs: usize, sections: &[(usize, &[(usize, V)], &Layout)]) -> Result<Trace, Fail> {
    let total: usize = sections.iter().map(|s| s.0).sum();
    let mut rx = None;
    let tx = if s.log {
        let (tx, r) = ArLogReceiver::new().sender(16 + total * 4);
        rx = Some(r);
        tx
    } else {
        ArLogSender::non_rt()
    };
    let mut m = Machine::with_logger((s.make)(), SR, bs, tx);
    let mut tr = Trace { y: vec![vec![]; m.u.outs()], marks: vec![], log: vec![] };
    let mut t = 0;
    let mut out = m.out();
    let mut data = vec![vec![0.0; bs]; m.u.ins()];
    for (n, evs, l) in sections {
        for (p, v) in evs.iter() {
            m.set(*p, v.value());
        }
        let mut left = *n;
        while left > 0 {
            let off = t % bs;
            let len = left.min(bs - off);
            for k in 0..len {
                for (c, x) in input(m.u.ins(), t + k).into_iter().enumerate() {
                    data[c][off + k] = x;
                }
            }
            m.some(&data, off, off + len, l, &mut out)?;
            for (c, y) in tr.y.iter_mut().enumerate() {
                y.extend_from_slice(&out.y[c][off..off + len]);
            }
            tr.marks.extend(out.marks.drain(..).map(|(o, n, k)| (t - off + o, n, k)));
            t += len;
            left -= len;
            if t % bs == 0 {
                m.next();
            }
        }
    }
    if let Some(mut rx) = rx {
        rx.recv(|ms| {
            for m in ms {
                if let knaster_core::log::ArLogMessage::Float(f) = m {
                    tr.log.push(*f);
                }
            }
        });
    }
    Ok(tr)
}
fn compare(s: &Spec, want: &Trace, got: &Trace) -> Result<(), Fail> {
    for (c, (w, g)) in want.y.iter().zip(&got.y).enumerate() {
        for (t, (w, g)) in w.iter().zip(g).enumerate() {
            check!(w.is_finite(), "not-finite", "{}: {w} at frame {t} of channel {c}", s.name);
            check!(w == g || (w - g).abs() < 1e-12 * w.abs(), "samples", "{}: {g} at frame {t} of channel {c} rather than {w}, when processing single frames", s.name);
        }
    }
    for (from, n, m) in &got.marks {
        let first = want.marks.iter().filter(|w| w.2.done.is_some() && w.0 >= *from && w.0 < from + n).map(|w| (w.0 - from) as u32).min();
        check!(m.done == first, "done", "{}: processing {n} frames from {from} reports done at {:?} rather than {first:?}, when processing single frames", s.name, m.done);
        check!(m.remove_parent.is_none() && !m.remove_self, "marks", "{}: reports {m:?}", s.name);
    }
    check!(want.log == got.log, "log", "{}: logs {:?} rather than {:?}", s.name, got.log, want.log);
    Ok(())
}
pub fn all_specs(small: bool) -> Vec<Spec> {
    let mut v: Vec<Spec> = [specs::<f32>("f32", small), specs::<f64>("f64", small)].into_iter().flatten().collect();
    if !seeds_controlled() {
        // instances can't be made alike: nothing to compare
        v.retain(|s| !["Noise", "RandomLin", "Galactic"].iter().any(|n| s.name.contains(n)));
    }
    v
}
pub fn u04(run: &Run) {
    if !seeds_controlled() {
        run.assume("the seeds of random units could not be controlled: these units were left out");
    }
    run.assume("samples are compared with a tolerance of 1e-12, relative");
    let specs = all_specs(false);
    // (spec, first changes, second changes): all of the units' pairs
    let cases: Vec<(u16, u16, u16)> = specs.iter().enumerate().flat_map(|(i, s)| (0..s.evs.len()).flat_map(move |a| (0..s.evs.len()).map(move |b| (i as u16, a as u16, b as u16)))).collect();
    let (a, b) = run.pick((4, 7), (6, 8));
    let specs = &*Box::leak(Box::new(specs));
    let cases = &*Box::leak(Box::new(cases));
    run.explore(&Product {
        name: format!("units and changes x layouts of {a} and {b} frames of a block, then another block"),
        dims: vec![cases.len(), layouts(a), layouts(b)],
        f: move |c: &[u16], rec: &mut Rec| {
            let (s, e0, e1) = cases[c[0] as usize];
            let s = &specs[s as usize];
            let (e0, e1) = (&s.evs[e0 as usize], &s.evs[e1 as usize]);
            let bs = a + b;
            let (l0, l1) = (layout(a, c[1] as usize), layout(b, c[2] as usize));
            let got = run_unit(s, bs, &[(a, e0, &l0), (b, e1, &l1), (bs, &[], &Layout::Whole)])?;
            let want = run_unit(s, bs, &[(a, e0, &Layout::Frames), (b, e1, &Layout::Frames), (bs, &[], &Layout::Frames)])?;
            rec.state(&(c[0], format!("{:?}", got.marks)));
            rec.transitions += got.marks.len() as u64;
            compare(s, &want, &got)
        },
        d: |c| {
            let s = all_specs(false);
            let (mut k, mut i) = (c[0] as usize, 0);
            while k >= s[i].evs.len() * s[i].evs.len() {
                k -= s[i].evs.len() * s[i].evs.len();
                i += 1;
            }
            format!("{}, changes {:?} then {:?}, layouts {} and {}", s[i].name, s[i].evs[k / s[i].evs.len()], s[i].evs[k % s[i].evs.len()], c[1], c[2])
        },
    });
    const BS: [usize; 7] = [1, 2, 3, 4, 6, 8, 12];
    run.explore(&Product {
        name: "units and changes x block size, 48 frames".into(),
        dims: vec![cases.len(), BS.len()],
        f: move |c: &[u16], rec: &mut Rec| {
            let (s, e0, e1) = cases[c[0] as usize];
            let s = &specs[s as usize];
            let (e0, e1) = (&s.evs[e0 as usize], &s.evs[e1 as usize]);
            let got = run_unit(s, BS[c[1] as usize], &[(24, e0, &Layout::Whole), (24, e1, &Layout::Whole)])?;
            let want = run_unit(s, 48, &[(24, e0, &Layout::Frames), (24, e1, &Layout::Frames)])?;
            rec.state(&(c[0], format!("{:?}", got.marks)));
            rec.transitions += got.marks.len() as u64;
            compare(s, &want, &got)
        },
        d: |c| format!("{c:?}"),
    });
    // larger blocks, cut anywhere
    run.explore(&Product {
        name: "units and changes x cut of a block of 67 frames, then another block".into(),
        dims: vec![cases.len(), 66],
        f: move |c: &[u16], rec: &mut Rec| {
            let (s, e0, e1) = cases[c[0] as usize];
            let s = &specs[s as usize];
            let (e0, e1) = (&s.evs[e0 as usize], &s.evs[e1 as usize]);
            let at = c[1] as usize + 1;
            let got = run_unit(s, 67, &[(at, e0, &Layout::Whole), (67 - at, e1, &Layout::Whole), (67, &[], &Layout::Whole)])?;
            let want = run_unit(s, 67, &[(at, e0, &Layout::Frames), (67 - at, e1, &Layout::Frames), (67, &[], &Layout::Frames)])?;
            rec.state(&(c[0], format!("{:?}", got.marks)));
            rec.transitions += got.marks.len() as u64;
            compare(s, &want, &got)
        },
        d: |c| format!("{c:?}"),
    });
    // long runs
    let n = run.pick(3000, 50000);
    run.explore(&Product {
        name: format!("units and changes x block size, {} frames", 2 * n),
        dims: vec![cases.len(), 2],
        f: move |c: &[u16], rec: &mut Rec| {
            let (s, e0, e1) = cases[c[0] as usize];
            if e0 != e1 {
                return Ok(());
            }
            let s = &specs[s as usize];
            let (e0, e1) = (&s.evs[e0 as usize], &s.evs[e1 as usize]);
            let got = run_unit(s, [64, 1000][c[1] as usize], &[(n, e0, &Layout::Whole), (n, e1, &Layout::Whole)])?;
            let want = run_unit(s, 2 * n, &[(n, e0, &Layout::Frames), (n, e1, &Layout::Frames)])?;
            rec.state(&(c[0], c[1]));
            rec.transitions += got.marks.len() as u64;
            compare(s, &want, &got)
        },
        d: |c| format!("{c:?}"),
    });
}

/// Every unit of the library and its changes; the calls of units check that they don't allocate or
/// lock (G07).
pub fn g07_spaces(run: &Run) {
    let specs = &*Box::leak(Box::new(all_specs(false)));
    let cases: Vec<(u16, u16, u16)> = specs.iter().enumerate().flat_map(|(i, s)| (0..s.evs.len()).flat_map(move |a| (0..s.evs.len()).map(move |b| (i as u16, a as u16, b as u16)))).collect();
    let cases = &*Box::leak(Box::new(cases));
    run.explore(&Product {
        name: "units of the library and changes x layouts".into(),
        dims: vec![cases.len(), 4],
        f: move |c: &[u16], rec: &mut Rec| {
            let (s, e0, e1) = cases[c[0] as usize];
            let s = &specs[s as usize];
            let l = |n: usize| match c[1] {
                0 => Layout::Whole,
                1 => Layout::Frames,
                2 => Layout::Parts(vec![1, n - 1]),
                _ => Layout::Parts(vec![n - 3, 1, 2]),
            };
            let bs = if c[1] == 0 { 64 } else { 16 };
            let tr = run_unit(s, bs, &[(bs, &s.evs[e0 as usize], &l(bs)), (bs, &s.evs[e1 as usize], &l(bs)), (bs, &[], &l(bs))])?;
            rec.transitions += tr.marks.len() as u64;
            rec.state(&(c[0], c[1]));
            Ok(())
        },
        d: |c| {
            let s = all_specs(false);
            let mut k = c[0] as usize;
            for s in &s {
                let n = s.evs.len();
                if k < n * n {
                    return format!("{}, changes {:?} then {:?}, layout {}", s.name, s.evs[k / n], s.evs[k % n], c[1]);
                }
                k -= n * n;
            }
            String::new()
        },
    });
}
