//! U05, D01-D05: units compute what they say, compared with independent references.
use crate::chunks::{V, seeded};
use crate::common::*;
use crate::units::*;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, PInteger, Seconds, UGen, UGenFlags};
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::closure::ugen;
use knaster_core_dsp::delay::*;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_core_dsp::dynamics::*;
use knaster_core_dsp::envelopes::*;
use knaster_core_dsp::math;
use knaster_core_dsp::noise::*;
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::pan::*;
use knaster_core_dsp::polyblep::*;
use knaster_core_dsp::svf::*;
use knaster_core_dsp::util::*;
use knaster_core_dsp::wrappers_core::*;
use std::f64::consts::{PI, TAU};

pub const SR: u32 = 1024;
fn frames(n: f64) -> f64 {
    n / SR as f64
}
/// A machine that runs single frames (or blocks of one frame)
struct One {
    m: Machine,
    l: Layout,
    x: Vec<Vec<f64>>,
    t: usize,
}
impl One {
    fn new(u: Box<dyn Unit>, sr: u32, blocks: bool) -> One {
        let x = vec![vec![0.0; 1]; u.ins()];
        One { m: Machine::new(u, sr, if blocks { 1 } else { 4 }), l: if blocks { Layout::Whole } else { Layout::Frames }, x, t: 0 }
    }
    /// Next frame: output and whether it's done
    fn next(&mut self, x: &[f64]) -> Result<(Vec<f64>, bool), Fail> {
        let (bs, off) = (self.m.bs, self.t % self.m.bs);
        for (c, v) in x.iter().enumerate() {
            self.x[c].resize(bs, 0.0);
            self.x[c][off] = *v;
        }
        let mut o = self.m.out();
        self.m.some(&self.x, off, off + 1, &self.l, &mut o)?;
        self.t += 1;
        if self.t % bs == 0 {
            self.m.next();
        }
        Ok((o.y.iter().map(|y| y[off]).collect(), o.done().is_some()))
    }
    fn set(&mut self, p: usize, v: V) {
        self.m.set(p, v.value())
    }
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn same_type<F: Float>() -> bool {
    std::mem::size_of::<F>() == 8
}
/// Rounding in `F`
fn eps<F: Float>() -> f64 {
    if same_type::<F>() { 1e-12 } else { 1e-6 }
}
fn r<F: Float>(x: f64) -> f64 {
    F::new(x).to_f64()
}

// ---------------------------------------------------------------- U05
const GRID: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 3.0, 1e-30, -1e-30, 1e30, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, -7.75, 2.0];
type Op2 = (&'static str, fn(usize, bool) -> Box<dyn Unit>, fn(f64, f64, bool) -> f64);
macro_rules! op2 {
    ($name:literal, $t:ty, $f:expr) => {{
        fn make(ch: usize, wide: bool) -> Box<dyn Unit> {
            match (ch, wide) {
                (1, false) => rig(math::MathUGen::<f32, U1, $t>::new()),
                (2, false) => rig(math::MathUGen::<f32, U2, $t>::new()),
                (3, false) => rig(math::MathUGen::<f32, U3, $t>::new()),
                (1, true) => rig(math::MathUGen::<f64, U1, $t>::new()),
                (2, true) => rig(math::MathUGen::<f64, U2, $t>::new()),
                _ => rig(math::MathUGen::<f64, U3, $t>::new()),
            }
        }
        fn calc(a: f64, b: f64, wide: bool) -> f64 {
            if wide {
                let f: fn(f64, f64) -> f64 = $f;
                f(a, b)
            } else {
                // exact in f64, rounded once; powers are close enough
                let f: fn(f64, f64) -> f64 = $f;
                f(a as f32 as f64, b as f32 as f64) as f32 as f64
            }
        }
        ($name, make as fn(usize, bool) -> Box<dyn Unit>, calc as fn(f64, f64, bool) -> f64)
    }};
}
type Op1 = (&'static str, fn(bool) -> Box<dyn Unit>, fn(f64) -> f64);
macro_rules! op1 {
    ($name:literal, $t:ty, $f:expr) => {{
        fn make(wide: bool) -> Box<dyn Unit> {
            if wide { rig(math::Math1UGen::<f64, $t>::new()) } else { rig(math::Math1UGen::<f32, $t>::new()) }
        }
        ($name, make as fn(bool) -> Box<dyn Unit>, $f as fn(f64) -> f64)
    }};
}
fn wrappers<F: Float>(k: usize, c: f64) -> (Box<dyn Unit>, f64, fn(f64, f64) -> f64) {
    let u = || pass::<F>();
    let w = F::new(c);
    let c = w.to_f64();
    match k {
        0 => (rig(u().wr_mul(w)), c, |x, c| x * c),
        1 => (rig(u().wr_add(w)), c, |x, c| x + c),
        2 => (rig(u().wr_sub(w)), c, |x, c| x - c),
        3 => (rig(u().wr_v_sub_gen(w)), c, |x, c| c - x),
        4 => (rig(u().wr_div(w)), c, |x, c| x / c),
        5 => (rig(u().wr_v_div_gen(w)), c, |x, c| c / x),
        6 => (rig(u().wr_powf(w)), c, |x, c| x.powf(c)),
        7 => (rig(u().wr_powi(c as i32)), c.trunc(), |x, c| x.powi(c as i32)),
        _ => (rig(u().wr(move |x| x * w - x)), c, |x, c| x * c - x),
    }
}
const NWRAP: usize = 9;
fn pass<F: Float>() -> impl UGen<Sample = F, Inputs = U2, Outputs = U2, Parameters = U0> {
    ugen(|_: &mut AudioCtx, _: &mut UGenFlags, x: [F; 2]| x)
}
/// Block sizes and layouts
const NLAY: usize = 6;
fn lay(l: u16) -> (usize, Layout) {
    match l {
        0 => (16, Layout::Whole),
        1 => (16, Layout::Frames),
        2 => (16, Layout::Parts(vec![1, 5, 10])),
        3 => (67, Layout::Whole),
        4 => (130, Layout::Whole),
        _ => (130, Layout::Parts(vec![33, 64, 33])),
    }
}
fn grid(n: usize, off: usize) -> Vec<f64> {
    (0..n).map(|t| GRID[(t + off) % 16]).collect()
}
fn u05_ops(op: &Op2, ch: usize, wide: bool, l: usize, k: usize, rec: &mut Rec) -> Result<(), Fail> {
    let (bs, lay) = lay(l as u16);
    let mut m = Machine::new((op.1)(ch, wide), SR, bs);
    check!(m.u.ins() == 2 * ch && m.u.outs() == ch, "channels", "{}: {} inputs, {} outputs", op.0, m.u.ins(), m.u.outs());
    let a = |c: usize, f: usize| GRID[(f + c) % 16];
    let b = |c: usize, f: usize| GRID[(f + k + 5 * c) % 16];
    let input: Vec<Vec<f64>> = (0..2 * ch).map(|c| (0..bs).map(|f| if c < ch { a(c, f) } else { b(c - ch, f) }).collect()).collect();
    let o = m.block(&input, &lay)?;
    for c in 0..ch {
        for f in 0..bs {
            let want = (op.2)(a(c, f), b(c, f), wide);
            let got = o.y[c][f];
            let exact = op.0 != "Pow";
            check!(same(got, want) || (!exact && (got - want).abs() <= 1e-6 * want.abs()), "value", "{} of {} and {} (channel {c}, f64 {wide}): {got} rather than {want}", op.0, a(c, f), b(c, f));
            rec.transitions += 1;
        }
    }
    rec.state(&(op.0, ch, wide, k));
    check!(o.done().is_none(), "done", "{}", op.0);
    Ok(())
}
macro_rules! closures {
    ($v:ident, $i:literal, $ui:ty, $o:literal, $uo:ty) => {{
        fn make<F: Float>() -> Box<dyn Unit> {
            rig(ugen(|_: &mut AudioCtx, _: &mut UGenFlags, x: [F; $i]| -> [F; $o] { std::array::from_fn(|k| x[(k + 1) % $i] * F::new(2.0) + F::new(k as f64)) }))
        }
        let _: Option<(knaster_core_dsp::closure::UGenClosure<f32, $ui, $uo>,)> = None;
        $v.push(($i, $o, [make::<f32> as fn() -> Box<dyn Unit>, make::<f64>]));
    }};
}
pub fn u05(run: &Run) {
    run.assume("powers are compared with a relative tolerance of 1e-6, panning gains with 2e-3 (they are approximated by design)");
    let ops: [Op2; 5] = [
        op2!("Add", math::Add, |a, b| a + b),
        op2!("Sub", math::Sub, |a, b| a - b),
        op2!("Mul", math::Mul, |a, b| a * b),
        op2!("Div", math::Div, |a, b| a / b),
        op2!("Pow", math::Pow, |a, b| a.powf(b)),
    ];
    run.explore(&Product {
        name: "binary operations x channels x type x layout x pairs of values".into(),
        dims: vec![5, 3, 2, NLAY, 16],
        f: move |c: &[u16], rec: &mut Rec| u05_ops(&ops[c[0] as usize], c[1] as usize + 1, c[2] == 1, c[3] as usize, c[4] as usize, rec),
        d: |c| format!("{c:?}"),
    });
    // the functions which make one channel of an operation
    macro_rules! short2 {
        ($f:ident, $e:expr) => {{
            fn make(_: usize, wide: bool) -> Box<dyn Unit> {
                if wide { rig(knaster::math_ugens::$f::<f64>()) } else { rig(knaster::math_ugens::$f::<f32>()) }
            }
            (if stringify!($f) == "pow" { "Pow" } else { stringify!($f) }, make as fn(usize, bool) -> Box<dyn Unit>, $e as fn(f64, f64, bool) -> f64)
        }};
    }
    fn rounded(a: f64, b: f64, wide: bool, f: fn(f64, f64) -> f64) -> f64 {
        if wide { f(a, b) } else { f(a as f32 as f64, b as f32 as f64) as f32 as f64 }
    }
    let short: [Op2; 5] = [
        short2!(add, |a, b, w| rounded(a, b, w, |a, b| a + b)),
        short2!(sub, |a, b, w| rounded(a, b, w, |a, b| a - b)),
        short2!(mul, |a, b, w| rounded(a, b, w, |a, b| a * b)),
        short2!(div, |a, b, w| rounded(a, b, w, |a, b| a / b)),
        short2!(pow, |a, b, w| rounded(a, b, w, |a, b| a.powf(b))),
    ];
    run.explore(&Product {
        name: "binary operations made by functions x type x layout x pairs of values".into(),
        dims: vec![5, 2, NLAY, 16],
        f: move |c: &[u16], rec: &mut Rec| u05_ops(&short[c[0] as usize], 1, c[1] == 1, c[2] as usize, c[3] as usize, rec),
        d: |c| format!("{c:?}"),
    });
    macro_rules! short1 {
        ($name:literal, $f:ident, $e:expr) => {{
            fn make(wide: bool) -> Box<dyn Unit> {
                if wide { rig(knaster::math_ugens::$f::<f64>()) } else { rig(knaster::math_ugens::$f::<f32>()) }
            }
            ($name, make as fn(bool) -> Box<dyn Unit>, $e as fn(f64) -> f64)
        }};
    }
    let ops1: [Op1; 12] = [
        short1!("Ceil", ceil, f64::ceil),
        short1!("Floor", floor, f64::floor),
        short1!("Trunc", trunc, f64::trunc),
        short1!("Fract", fract, f64::fract),
        short1!("Sqrt", sqrt, f64::sqrt),
        short1!("Exp", exp, f64::exp),
        op1!("Ceil", math::Ceil, f64::ceil),
        op1!("Floor", math::Floor, f64::floor),
        op1!("Trunc", math::Trunc, f64::trunc),
        op1!("Fract", math::Fract, f64::fract),
        op1!("Sqrt", math::Sqrt, f64::sqrt),
        op1!("Exp", math::Exp, f64::exp),
    ];
    run.explore(&Product {
        name: "unary operations x type x layout".into(),
        dims: vec![12, 2, NLAY],
        f: move |c: &[u16], rec: &mut Rec| {
            let op = &ops1[c[0] as usize];
            let wide = c[1] == 1;
            let (bs, lay) = lay(c[2]);
            let mut m = Machine::new((op.1)(wide), SR, bs);
            let x = grid(bs, 0);
            let o = m.block(&[x.clone()], &lay)?;
            for (f, x) in x.iter().enumerate() {
                let x = if wide { *x } else { *x as f32 as f64 };
                let want = if wide { (op.2)(x) } else { (op.2)(x) as f32 as f64 };
                let got = o.y[0][f];
                let tol = if op.0 == "Exp" { 1e-6 * want.abs() } else { 0.0 };
                check!(same(got, want) || (got - want).abs() <= tol, "value", "{} of {x}: {got} rather than {want}", op.0);
                rec.transitions += 1;
            }
            rec.state(&(c[0], c[1]));
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    const C: [f64; 9] = [2.0, -0.5, 0.0, 1.0, 3.0, -2.0, 0.1, 1e10, -1.0];
    run.explore(&Product {
        name: "output operations x constants x type x layout, and changes of their parameter".into(),
        dims: vec![NWRAP, C.len(), 2, NLAY, C.len()],
        f: |c: &[u16], rec: &mut Rec| {
            let (k, v, wide, v2) = (c[0] as usize, C[c[1] as usize], c[2] == 1, C[c[4] as usize]);
            let (u, cv, f) = if wide { wrappers::<f64>(k, v) } else { wrappers::<f32>(k, v) };
            let np = u.nparams();
            check!(np == (k == 0) as usize, "parameters", "{np} parameters");
            let (bs, l) = lay(c[3]);
            let mut m = Machine::new(u, SR, bs);
            let input = vec![grid(bs, 0), grid(bs, 7)];
            let mut cur = cv;
            for round in 0..2 {
                let o = m.block(&input, &l)?;
                for ch in 0..2 {
                    for t in 0..bs {
                        let x = if wide { input[ch][t] } else { input[ch][t] as f32 as f64 };
                        let want = f(x, cur);
                        let want = if wide { want } else { want as f32 as f64 };
                        let got = o.y[ch][t];
                        check!(same(got, want) || (got - want).abs() <= 1e-5 * want.abs(), "value", "wrapper {k} with {cur}: {got} from {x} rather than {want} (round {round}, channel {ch})");
                        rec.transitions += 1;
                    }
                }
                if np == 0 {
                    break;
                }
                m.setf(0, v2);
                cur = if wide { v2 } else { v2 as f32 as f64 };
            }
            rec.state(&(c[0], c[1], c[2]));
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    let mut cl: Vec<(usize, usize, [fn() -> Box<dyn Unit>; 2])> = vec![];
    closures!(cl, 1, U1, 1, U1);
    closures!(cl, 2, U2, 1, U1);
    closures!(cl, 1, U1, 2, U2);
    closures!(cl, 3, U3, 5, U5);
    closures!(cl, 4, U4, 4, U4);
    closures!(cl, 7, U7, 2, U2);
    closures!(cl, 8, U8, 8, U8);
    closures!(cl, 5, U5, 6, U6);
    closures!(cl, 6, U6, 7, U7);
    closures!(cl, 8, U8, 3, U3);
    let n = cl.len();
    run.explore(&Product {
        name: "closures x type x layout".into(),
        dims: vec![n, 2, NLAY],
        f: move |c: &[u16], rec: &mut Rec| {
            let (i, o, make) = &cl[c[0] as usize];
            let (bs, lay) = lay(c[2]);
            let mut m = Machine::new(make[c[1] as usize](), SR, bs);
            check!((m.u.ins(), m.u.outs(), m.u.nparams()) == (*i, *o, 0), "channels", "{} {}", m.u.ins(), m.u.outs());
            let x: Vec<Vec<f64>> = (0..*i).map(|c| (0..bs).map(|f| (c * bs + f) as f64 * 0.5).collect()).collect();
            let out = m.block(&x, &lay)?;
            for k in 0..*o {
                for f in 0..bs {
                    let want = x[(k + 1) % i][f] * 2.0 + k as f64;
                    check!(out.y[k][f] == want, "value", "closure with {i} inputs, output {k}: {} rather than {want}", out.y[k][f]);
                    rec.transitions += 1;
                }
            }
            rec.state(&(c[0], c[1]));
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    run.explore(&Product {
        name: "constant, limiter x type x values".into(),
        dims: vec![2, 16, 16],
        f: |c: &[u16], rec: &mut Rec| {
            let wide = c[0] == 1;
            let (a, b) = (GRID[c[1] as usize], GRID[c[2] as usize]);
            let q = |x: f64| if wide { x } else { x as f32 as f64 };
            let mut m = Machine::new(if wide { rig(Constant::new(a)) } else { rig(Constant::new(a as f32)) }, SR, 4);
            for l in [Layout::Whole, Layout::Frames, Layout::Parts(vec![1, 3])] {
                let o = m.block(&[], &l)?;
                check!(o.y[0].iter().all(|x| same(*x, q(a))), "constant", "{:?} rather than {a}", o.y[0]);
            }
            m.setf(0, b);
            for l in [Layout::Whole, Layout::Frames] {
                let o = m.block(&[], &l)?;
                check!(o.y[0].iter().all(|x| same(*x, q(b))), "constant", "{:?} rather than {b} after {a}", o.y[0]);
            }
            let mut m = Machine::new(if wide { rig(SafetyLimiter::<f64>::new()) } else { rig(SafetyLimiter::<f32>::new()) }, SR, 4);
            for l in [Layout::Whole, Layout::Frames] {
                let x = vec![a, b, b, a];
                let o = m.block(&[x.clone()], &l)?;
                for (x, y) in x.iter().zip(&o.y[0]) {
                    let want = if x.is_nan() { 0.0 } else { q(*x).clamp(-1.0, 1.0) };
                    check!(*y == want, "limiter", "{x} is limited to {y}");
                }
            }
            rec.state(&(c[0], c[1], c[2]));
            rec.transitions += 28;
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    run.explore(&Product {
        name: "panning: positions by constructor and parameter x type x layout".into(),
        dims: vec![257, 2, 2, NLAY],
        f: |c: &[u16], rec: &mut Rec| {
            let pos = -1.0 + c[0] as f64 / 128.0;
            let by_param = c[1] == 1;
            let p0 = if by_param { 0.37 } else { pos } as f32;
            let (bs, lay) = lay(c[3]);
            let mut m = Machine::new(if c[2] == 1 { rig(Pan2::<f64>::new(p0)) } else { rig(Pan2::<f32>::new(p0)) }, SR, bs);
            if by_param {
                m.setf(0, pos);
            }
            let (l, rr) = (((pos + 1.0) * PI / 4.0).cos(), ((pos + 1.0) * PI / 4.0).sin());
            {
                let x: Vec<f64> = (0..bs).map(|t| [1.0, -0.5, 0.0, 2.0][t % 4]).collect();
                let o = m.block(&[x.clone()], &lay)?;
                for t in 0..bs {
                    let (a, b) = (o.y[0][t], o.y[1][t]);
                    check!((a - x[t] * l).abs() <= 2e-3 * x[t].abs() && (b - x[t] * rr).abs() <= 2e-3 * x[t].abs(), "gains", "position {pos}: {a}, {b} from {} rather than {}, {}", x[t], x[t] * l, x[t] * rr);
                    let p = a * a + b * b;
                    check!((p - x[t] * x[t]).abs() <= 4e-3 * x[t] * x[t], "power", "position {pos}: power {p}");
                    rec.transitions += 1;
                }
            }
            rec.state(&c[0]);
            Ok(())
        },
        d: |c| format!("position {}, parameter {}, f64 {}", -1.0 + c[0] as f64 / 128.0, c[1], c[2]),
    });
}

// ---------------------------------------------------------------- D01
#[derive(Clone, Copy, Debug)]
enum Env {
    Off,
    Up(f64),
    Hold,
    /// from this level, how far
    Down(f64, f64),
}
/// Reference for `EnvAsr` and `EnvAr`
struct EnvModel {
    s: Env,
    up: f64,
    down: f64,
    hold: bool,
}
impl EnvModel {
    fn rate(frames: f64) -> f64 {
        if frames == 0.0 { 1.0 } else { 1.0 / frames }
    }
    fn level(&self) -> f64 {
        match self.s {
            Env::Off => 0.0,
            Env::Up(v) => v,
            Env::Hold => 1.0,
            Env::Down(v, p) => v * (1.0 - p).powi(3),
        }
    }
    fn restart(&mut self) {
        self.s = Env::Up(self.level())
    }
    fn release(&mut self) {
        match self.s {
            Env::Up(v) => self.s = Env::Down(v, 0.0),
            Env::Hold => self.s = Env::Down(1.0, 0.0),
            _ => (),
        }
    }
    fn next(&mut self) -> (f64, bool) {
        let y = self.level();
        match &mut self.s {
            Env::Up(v) => {
                *v += self.up;
                if *v >= 1.0 {
                    self.s = if self.hold { Env::Hold } else { Env::Down(1.0, 0.0) };
                }
            }
            Env::Down(_, p) => {
                *p += self.down;
                if *p >= 1.0 {
                    self.s = Env::Off;
                    return (y, true);
                }
            }
            _ => (),
        }
        (y, false)
    }
}
const ENV_TIMES: [f64; 5] = [0.0, 1.0, 2.0, 4.0, 8.0];
fn env_unit(asr: bool, wide: bool, a: f64, rel: f64) -> Box<dyn Unit> {
    match (asr, wide) {
        (true, true) => rig(EnvAsr::new(a, rel)),
        (true, false) => rig(EnvAsr::new(a as f32, rel as f32)),
        (false, true) => rig(EnvAr::new(a, rel)),
        (false, false) => rig(EnvAr::new(a as f32, rel as f32)),
    }
}
fn d01_env(asr: bool, wide: bool, blocks: bool, a: f64, rel: f64, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let mut o = One::new(env_unit(asr, wide, frames(a), frames(rel)), SR, blocks);
    let mut m = EnvModel { s: Env::Off, up: EnvModel::rate(a), down: EnvModel::rate(rel), hold: asr };
    let trig = if asr { 3 } else { 2 };
    let tol = if wide { 1e-9 } else { 1e-5 };
    let (mut prev, mut up) = (0.0, false);
    for t in 0..evs.len() * every + 20 {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            match e {
                0 => (),
                1 => {
                    o.set(trig, V::T);
                    m.restart();
                }
                2 => {
                    if asr {
                        o.set(2, V::T);
                        m.release();
                    } else {
                        o.set(trig, V::T);
                        o.set(trig, V::T);
                        m.restart();
                    }
                }
                3 | 4 => {
                    let n = [8.0, 0.0][*e as usize - 3];
                    o.set(0, V::F(frames(n)));
                    m.up = EnvModel::rate(n);
                }
                _ => {
                    let n = [0.0, 4.0][*e as usize - 5];
                    o.set(1, V::F(frames(n)));
                    m.down = EnvModel::rate(n);
                }
            }
        }
        let before = m.s;
        let (w, wd) = m.next();
        let (y, d) = o.next(&[])?;
        let y = y[0];
        if !matches!(before, Env::Up(_)) {
            up = false;
        }
        check!((y - w).abs() <= tol, "value", "frame {t}: {y} rather than {w} ({before:?})");
        check!(d == wd, "done", "frame {t}: done {d} rather than {wd} ({before:?})");
        check!((0.0..=1.0).contains(&y), "range", "frame {t}: {y}");
        // directly against the statement
        match before {
            Env::Up(_) => {
                check!(!up || y >= prev - tol, "monotonic", "frame {t}: from {prev} to {y} in the attack");
                up = true;
            }
            Env::Down(..) => check!(y <= prev.max(w) + tol, "monotonic", "frame {t}: from {prev} to {y} in the release"),
            Env::Hold => check!(y == 1.0, "sustain", "frame {t}: {y}"),
            Env::Off => check!(y == 0.0, "stopped", "frame {t}: {y}"),
        }
        prev = y;
        rec.state(&format!("{:?}{}", m.s, m.up));
        rec.transitions += 1;
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct BpModel {
    segs: Vec<(f64, f64)>,
    start: f64,
    looping: bool,
    /// segment and time in it
    at: Option<(usize, f64)>,
    from: f64,
    scale: f64,
}
impl BpModel {
    fn level(&self) -> f64 {
        match self.at {
            Some((k, t)) if k < self.segs.len() => {
                let (d, v) = self.segs[k];
                if t < d { self.from + (v - self.from) * t / d } else { v }
            }
            _ => self.from,
        }
    }
    fn next(&mut self) -> (f64, bool) {
        let y = self.level();
        let Some((k, t)) = self.at else { return (y, false) };
        if k >= self.segs.len() {
            self.at = None;
            return (y, true);
        }
        let d = self.segs[k].0;
        if t < d {
            self.at = Some((k, t + self.scale));
            return (y, false);
        }
        self.from = y;
        if k + 1 < self.segs.len() {
            self.at = Some((k + 1, t - d + self.scale));
        } else if self.looping {
            self.at = Some((0, 0.0));
        } else {
            self.at = None;
            return (y, true);
        }
        (y, false)
    }
}
const SHAPES: [(f64, &[(f64, f64)]); 9] = [
    (0.5, &[]),
    (0.0, &[(4.0, 1.0)]),
    (0.0, &[(0.0, 1.0)]),
    (1.0, &[(2.0, 3.0), (3.0, -1.0)]),
    (-1.0, &[(0.0, 1.0), (4.0, 0.0)]),
    (0.0, &[(1.0, 1.0), (0.0, -1.0), (2.0, 0.5)]),
    (2.0, &[(2.5, 1.0), (1.25, 4.0)]),
    (0.0, &[(2.0, 1.0), (0.0, 0.0)]),
    (0.0, &[(0.25, 1.0), (0.5, 2.0), (6.0, 0.0)]),
];
fn d01_bp(shape: usize, looping: bool, scale: f64, wide: bool, blocks: bool, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let (start, segs) = SHAPES[shape];
    let real = segs.iter().map(|(d, v)| EnvelopeSegment::new(frames(*d), *v)).collect::<Vec<_>>();
    let u = if wide { rig(Envelope::<f64>::new(start, real).time_scale(scale).looping(looping)) } else { rig(Envelope::<f32>::new(start, real).time_scale(scale).looping(looping)) };
    let mut o = One::new(u, SR, blocks);
    let mut m = BpModel { segs: segs.to_vec(), start, looping, at: None, from: start, scale };
    let (lo, hi) = segs.iter().fold((start, start), |(l, h), s| (l.min(s.1), h.max(s.1)));
    for t in 0..evs.len() * every + 16 {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            match e {
                0 => (),
                1 => {
                    o.set(2, V::T);
                    m.at = Some((0, 0.0));
                    m.from = m.start;
                }
                2 => {
                    o.set(3, V::T);
                    m.from = m.level();
                    m.at = None;
                }
                3..=5 => {
                    let k = [0, 1, 7][*e as usize - 3];
                    o.set(1, V::I(k));
                    m.from = m.level();
                    m.at = Some((k.min(m.segs.len().saturating_sub(1)), 0.0));
                }
                _ => {
                    let s = [2.0, 0.5][*e as usize - 6];
                    o.set(0, V::F(s));
                    m.scale = s;
                }
            }
        }
        let before = m.at;
        let (w, wd) = m.next();
        let (y, d) = o.next(&[])?;
        let y = y[0];
        let tol = if wide { 1e-9 } else { 1e-5 };
        check!((y - w).abs() <= tol, "value", "frame {t}: {y} rather than {w} (at {before:?})");
        check!(d == wd, "done", "frame {t}: done {d} rather than {wd} (at {before:?})");
        check!(y >= lo - 1e-9 && y <= hi + 1e-9, "range", "frame {t}: {y} is not between {lo} and {hi}");
        rec.state(&format!("{:?}{}{}", m.at, m.from, m.scale));
        rec.transitions += 1;
    }
    Ok(())
}
/// Any times and sample rates, with a tolerance of one frame
fn d01_times(a: f64, rel: f64, sr: u32, asr: bool, wide: bool, early: f64, rec: &mut Rec) -> Result<(), Fail> {
    let mut o = One::new(env_unit(asr, wide, a, rel), sr, false);
    let (na, nr) = (a * sr as f64, rel * sr as f64);
    o.set(if asr { 3 } else { 2 }, V::T);
    let mut t = 0usize;
    let mut prev = 0.0;
    // released (ASR), before the attack is over if early < 1
    let release_at = (na * early).floor() as usize + if early >= 1.0 { 5 } else { 0 };
    let mut peak = None;
    let mut down: Option<(usize, f64)> = None;
    loop {
        if asr && t == release_at {
            o.set(2, V::T);
        }
        let (y, d) = o.next(&[])?;
        let y = y[0];
        check!((0.0..=1.0).contains(&y), "range", "frame {t}: {y}");
        if y == 1.0 && peak.is_none() {
            peak = Some(t);
            check!((t as f64) >= na - 1.5 && (t as f64) <= na + 2.5, "attack", "reaches 1 at frame {t} with an attack of {na} frames");
        }
        let falling = if asr { t >= release_at } else { peak.is_some() };
        if falling {
            let (t0, v0) = *down.get_or_insert((t, y));
            check!(y <= prev + 1e-9 || t == t0, "monotonic", "frame {t}: from {prev} to {y} in the release");
            let p = if nr == 0.0 { 1.0 } else { (t - t0) as f64 / nr };
            let w = if t == t0 { v0 } else { v0 * (1.0 - p).max(0.0).powi(3) };
            check!((y - w).abs() <= 6.0 / nr.max(1.0) + 1e-4, "release", "frame {t}: {y} rather than {w}");
            if d {
                let n = (t + 1 - t0) as f64;
                check!(n >= nr - 1.5 && n <= nr + 1.5 || (nr < 1.0 && n <= 2.0), "done", "done after {n} frames of release rather than {nr}");
                break;
            }
            check!((t - t0) as f64 <= nr + 2.0, "done", "not done {} frames after the start of the release of {nr}", t - t0);
        } else {
            check!(!d, "done", "done at frame {t}");
            check!(y >= prev - 1e-9, "monotonic", "frame {t}: from {prev} to {y} in the attack");
            let w = if na == 0.0 { if t == 0 { 0.0 } else { 1.0 } } else { (t as f64 / na).min(1.0) };
            check!((y - w).abs() <= 1.5 / na.max(1.0) + 1e-4, "attack", "frame {t}: {y} rather than {w}");
        }
        prev = y;
        t += 1;
        rec.transitions += 1;
    }
    for _ in 0..3 {
        let (y, d) = o.next(&[])?;
        check!(y[0] == 0.0 && !d, "stopped", "{} {d} after the end", y[0]);
    }
    rec.state(&(t, sr, asr));
    Ok(())
}
pub fn d01(run: &Run) {
    run.assume("done is reported in the frame in which the release reaches its end, which is the last one that may sound");
    {
        let n = run.pick(5, 6);
        run.explore(&Product {
            name: format!("attack-release envelopes: times x sequences of {n} triggers and time changes at successive frames"),
            dims: [vec![2, 2, 5, 5], vec![7; n]].concat(),
            f: move |c: &[u16], rec: &mut Rec| d01_env(c[0] == 0, c[1] == 0, (c[2] + c[3]) % 2 == 0, ENV_TIMES[c[2] as usize], ENV_TIMES[c[3] as usize], &c[4..], 1, rec),
            d: |c| format!("asr {}, f64 {}, attack {} release {} frames, events {:?}", c[0] == 0, c[1] == 0, ENV_TIMES[c[2] as usize], ENV_TIMES[c[3] as usize], &c[4..]),
        });
        let n = run.pick(4, 5);
        run.explore(&Product {
            name: format!("attack-release envelopes: {n} triggers and time changes with frames between them"),
            dims: [vec![2, 2, 5, 5, 4], vec![7; n]].concat(),
            f: move |c: &[u16], rec: &mut Rec| d01_env(c[0] == 0, c[1] == 0, (c[2] + c[3]) % 2 == 1, ENV_TIMES[c[2] as usize], ENV_TIMES[c[3] as usize], &c[5..], c[4] as usize + 2, rec),
            d: |c| format!("asr {}, f64 {}, attack {} release {} frames, every {}, events {:?}", c[0] == 0, c[1] == 0, ENV_TIMES[c[2] as usize], ENV_TIMES[c[3] as usize], c[4] + 2, &c[5..]),
        });
    }
    {
        let n = run.pick(4, 5);
        run.explore(&Product {
            name: format!("breakpoint envelopes: shapes x looping x time scale x {n} triggers, jumps and time scales"),
            dims: [vec![SHAPES.len(), 2, 4, 2, 3], vec![8; n]].concat(),
            f: move |c: &[u16], rec: &mut Rec| d01_bp(c[0] as usize, c[1] == 1, [1.0, 0.5, 2.0, 0.0][c[2] as usize], c[3] == 0, (c[0] + c[4]) % 2 == 0, &c[5..], c[4] as usize + 1, rec),
            d: |c| format!("shape {:?}, looping {}, scale {}, every {}, events {:?}", SHAPES[c[0] as usize], c[1] == 1, c[2], c[4] + 1, &c[5..]),
        });
    }
    const TS: [f64; 9] = [0.0, 1e-5, 1.0 / 44100.0, 0.0003, 0.001, 0.0033, 0.01, 0.02, 0.1];
    const SRS: [u32; 4] = [44100, 48000, 8000, 96000];
    run.explore(&Product {
        name: "attack-release envelopes: times in seconds x sample rates x early release".into(),
        dims: vec![TS.len(), TS.len(), SRS.len(), 2, 2, 3],
        f: |c: &[u16], rec: &mut Rec| d01_times(TS[c[0] as usize], TS[c[1] as usize], SRS[c[2] as usize], c[3] == 0, c[4] == 0, [1.0, 0.5, 0.01][c[5] as usize], rec),
        d: |c| format!("attack {} release {} at {}, asr {}, f64 {}, early {}", TS[c[0] as usize], TS[c[1] as usize], SRS[c[2] as usize], c[3] == 0, c[4] == 0, c[5]),
    });
    const LONG: [f64; 4] = [0.0, 0.7, 1.4, 4.0];
    run.explore(&Product {
        name: "attack-release envelopes of seconds: times x sample rates x early release".into(),
        dims: vec![LONG.len(), LONG.len(), 2, 2, 2],
        f: |c: &[u16], rec: &mut Rec| d01_times(LONG[c[0] as usize], LONG[c[1] as usize], [44100, 96000][c[2] as usize], c[3] == 0, true, [1.0, 0.5][c[4] as usize], rec),
        d: |c| format!("attack {} release {}, rest {:?}", LONG[c[0] as usize], LONG[c[1] as usize], &c[2..]),
    });
}

// ---------------------------------------------------------------- D02
fn sig(t: usize) -> f64 {
    1.0 + (t % 211) as f64
}
fn at(h: &[f64], t: usize, d: usize) -> f64 {
    if d > t { 0.0 } else { h[t - d] }
}
fn d02_sample(max: usize, wide: bool, blocks: bool, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let t0 = Seconds::from_secs_f64(frames(max as f64));
    let mut o = One::new(if wide { rig(SampleDelay::<f64>::new(t0)) } else { rig(SampleDelay::<f32>::new(t0)) }, SR, blocks);
    // (requested frames, expected)
    let vals: [(f64, usize); 10] = [(0.0, 0), (1.0, 1.min(max)), (2.0, 2.min(max)), (max as f64, max), (max as f64 + 1.0, max), (1e9, max), (-3.0, 0), (1.4, 1.min(max)), (max as f64 - 1.0, max.saturating_sub(1)), (max as f64 / 2.0, (max as f64 / 2.0).round() as usize)];
    let mut d: Option<usize> = None;
    let mut h = vec![];
    let sig = |t: usize| 1.0 + (t % 100_003) as f64;
    for t in 0..evs.len() * every + 2 * max + 3 {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            let (v, n) = vals[*e as usize];
            o.set(0, V::F(frames(v)));
            d = Some(n);
        }
        h.push(sig(t));
        let (y, _) = o.next(&[sig(t)])?;
        if let Some(d) = d {
            let w = at(&h, t, d);
            check!(y[0] == w, "value", "frame {t}, delay {d} of at most {max}: {} rather than {w}", y[0]);
        } else {
            check!(h.contains(&y[0]) || y[0] == 0.0, "value", "frame {t}: {}", y[0]);
        }
        rec.state(&(max, d, t % (max + 1)));
        rec.transitions += 1;
    }
    Ok(())
}
/// Reference of the allpass delay: everything written so far, and the interpolator
struct ApModel {
    h: Vec<f64>,
    cleared: usize,
    max: usize,
    n: usize,
    c: f64,
    x1: f64,
    y1: f64,
    /// Frames since the delay has been changed
    settled: usize,
    d: f64,
}
impl ApModel {
    fn new(max: usize) -> ApModel {
        let max = max.max(1);
        ApModel { h: vec![], cleared: 0, max, n: max, c: 1.0, x1: 0.0, y1: 0.0, settled: 0, d: max as f64 }
    }
    fn set(&mut self, d: f64) {
        let d = d.max(1.0).min(self.max as f64);
        let mut n = d.floor() as usize;
        let mut delta = d - n as f64;
        if n > 1 && delta < 0.5 {
            delta += 1.0;
            n -= 1;
        }
        self.n = n;
        self.c = (1.0 - delta) / (1.0 + delta);
        self.settled = 0;
        self.d = d;
    }
    fn clear(&mut self) {
        self.cleared = self.h.len();
        self.x1 = 0.0;
        self.y1 = 0.0;
    }
    fn read(&mut self) -> f64 {
        let t = self.h.len();
        let x = if t < self.n || t - self.n < self.cleared { 0.0 } else { self.h[t - self.n] };
        let y = if self.c == 1.0 { x } else { self.c * (x - self.y1) + self.x1 };
        self.x1 = x;
        self.y1 = y;
        self.settled += 1;
        y
    }
}
fn d02_allpass(max: usize, wide: bool, blocks: bool, fb: bool, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let t0 = Seconds::from_secs_f64(frames(max as f64));
    let u = match (fb, wide) {
        (false, true) => rig(AllpassDelay::<f64>::new(t0)),
        (false, false) => rig(AllpassDelay::<f32>::new(t0)),
        (true, true) => rig(AllpassFeedbackDelay::<f64>::new(t0)),
        (true, false) => rig(AllpassFeedbackDelay::<f32>::new(t0)),
    };
    let mut o = One::new(u, SR, blocks);
    let mut m = ApModel::new(max);
    let vals = [1.0, 2.0, max as f64, max as f64 + 2.0, 0.0, 1.75, 2.25, max as f64 - 0.5, -1.0, 2.5, max as f64 / 2.0, max as f64 - 1.25];
    let mut g = 0.0;
    for t in 0..evs.len() * every + 2 * max + 3 {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            o.set(0, V::F(frames(vals[*e as usize])));
            m.set(vals[*e as usize]);
            if fb {
                g = [0.5, -0.25, 0.0][t / every % 3];
                o.set(1, V::F(g));
            }
        }
        let x = sig(t);
        let (y, _) = o.next(&[x])?;
        let d = m.read();
        let w = x + g * d;
        m.h.push(w);
        let want = if fb { d - g * w } else { d };
        let tol = (if wide { 1e-9 } else { 1e-4 }) * (1.0 + want.abs());
        check!((y[0] - want).abs() <= tol, "value", "frame {t}, delay {} of at most {max}: {} rather than {want}", m.d, y[0]);
        if !fb && m.d.fract() == 0.0 && m.settled > 1 {
            let want = at(&m.h, t, m.d as usize);
            check!((y[0] - want).abs() <= tol, "delay", "frame {t}, delay {} of at most {max}: {} rather than {want}", m.d, y[0]);
        }
        rec.state(&(max, format!("{}", m.d), t % max.max(1)));
        rec.transitions += 1;
    }
    Ok(())
}
/// The allpass delay by its methods, with clearing
fn d02_methods<F: Float>(max: usize, ops: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let mut u = AllpassDelay::<F>::new(Seconds::from_secs_f64(frames(max as f64)));
    u.init(SR, 4);
    let mut m = ApModel::new(max);
    let mut t = 0;
    for op in ops.iter().chain(&[0; 5]) {
        match op {
            0 => (),
            1..=4 => {
                let d = [1.0, 2.0, max as f64, 1.5][*op as usize - 1];
                u.set_delay_in_frames(F::new(d));
                m.set(d);
            }
            5 => {
                u.clear();
                m.clear();
            }
            _ => {
                let d = [2.0, max as f64][*op as usize - 6];
                u.set_delay_in_frames_and_clear(F::new(d));
                m.set(d);
                m.clear();
            }
        }
        for _ in 0..2 {
            let y = tof(u.read());
            let want = m.read();
            check!((y - want).abs() <= 1e-4 * (1.0 + want.abs()), "value", "frame {t} after {op}, delay {} of at most {max}: {y} rather than {want}", m.d);
            u.write_and_advance(F::new(sig(t)));
            m.h.push(sig(t));
            t += 1;
            rec.transitions += 1;
        }
        rec.state(&(max, format!("{}", m.d), m.h.len() - m.cleared));
    }
    Ok(())
}
/// The allpass feedback delay and the interpolator by their methods
fn d02_feedback_methods<F: Float>(max: usize, ops: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let mut u = AllpassFeedbackDelay::<F>::new(Seconds::from_secs_f64(frames(max as f64)));
    u.init(SR, 4);
    let mut m = ApModel::new(max);
    let (mut i, mut c, mut i1, mut o1) = (AllpassInterpolator::<F>::new(), 1.0, 0.0, 0.0);
    let (mut t, mut g) = (0, 0.0);
    for op in ops.iter().chain(&[0; 5]) {
        match op {
            0 => (),
            1..=4 => {
                let d = [1.0, 2.0, max as f64, 1.5][*op as usize - 1];
                u.set_delay_in_frames(F::new(d));
                m.set(d);
                let delta = [0.0, 0.25, 1.0, 0.5][*op as usize - 1];
                i.set_delta(F::new(delta));
                c = (1.0 - delta) / (1.0 + delta);
            }
            5 => {
                u.clear();
                m.clear();
                i.clear();
                (i1, o1) = (0.0, 0.0);
            }
            _ => {
                g = [0.5, -0.25, 0.0][*op as usize - 6];
                u.feedback(g);
            }
        }
        for _ in 0..2 {
            let x = sig(t);
            let y = tof(u.process_sample(F::new(x)));
            let d = m.read();
            let w = x + g * d;
            m.h.push(w);
            let want = d - g * w;
            check!((y - want).abs() <= 1e-4 * (1.0 + want.abs()), "value", "frame {t} after {op}, delay {} of at most {max}: {y} rather than {want}", m.d);
            let y = tof(i.process_sample(F::new(x)));
            let want = if c == 1.0 { x } else { c * (x - o1) + i1 };
            (i1, o1) = (x, want);
            check!((y - want).abs() <= 1e-4 * (1.0 + want.abs()), "interpolator", "frame {t} after {op}, coefficient {c}: {y} rather than {want}");
            t += 1;
            rec.transitions += 1;
        }
        rec.state(&(max, format!("{}{g}", m.d), m.h.len() - m.cleared));
    }
    Ok(())
}
fn tof<F: Float>(x: F) -> f64 {
    Float::to_f64(x)
}
fn d02_static<F: Float>(max: usize, ops: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let mut u = StaticSampleDelay::<F>::new(max);
    let mut d = max;
    let mut h: Vec<f64> = vec![];
    for op in ops.iter().chain(&[0, 0, 1, 0]) {
        match op {
            0 => {
                let y = tof(u.read());
                let w = at(&h, h.len(), d);
                check!(y == w, "read", "frame {}, delay {d} of at most {max}: {y} rather than {w}", h.len());
                u.write_and_advance(F::new(sig(h.len())));
                h.push(sig(h.len()));
            }
            1 | 2 => {
                // blocks of 2 or 3 frames (or many)
                let n = if max > 16 { [max / 4, max / 2 + 7][*op as usize - 1] } else { *op as usize + 1 };
                if n > max {
                    continue;
                }
                let x: Vec<F> = (0..n).map(|k| F::new(sig(h.len() + k))).collect();
                let mut y = vec![F::ZERO; n];
                u.process(&x, &mut y, n);
                let t = h.len();
                h.extend(x.iter().map(|x| tof(*x)));
                for (k, y) in y.iter().enumerate() {
                    let w = at(&h, t + k, d);
                    check!(tof(*y) == w, "block", "frame {k} of {n} from {t}, delay {d} of at most {max}: {} rather than {w}", tof(*y));
                }
            }
            3 => {
                // reading and writing blocks separately
                let n = d.min(if max > 16 { max / 3 } else { 2 });
                let mut y = vec![F::ZERO; n];
                u.read_block(&mut y);
                let t = h.len();
                let x: Vec<F> = (0..n).map(|k| F::new(sig(t + k))).collect();
                u.write_block_and_advance(&x);
                h.extend(x.iter().map(|x| tof(*x)));
                for (k, y) in y.iter().enumerate() {
                    let w = at(&h, t + k, d);
                    check!(tof(*y) == w, "block", "frame {k} of {n} from {t}, delay {d} of at most {max}: {} rather than {w}", tof(*y));
                }
            }
            4..=7 => {
                let n = [1, max, max + 3, 2][*op as usize - 4];
                u.set_delay_length(n);
                d = n.min(max);
            }
            8 => {
                u.set_delay_length_fraction(F::new(0.5));
                d = (max / 2).max(1);
            }
            _ => {
                let f = [0.0, 1.0, 1.5][*op as usize - 9];
                u.set_delay_length_fraction(F::new(f));
                d = ((max as f64 * f) as usize).clamp(1, max);
            }
        }
        // the buffer by position, from the oldest sample to the newest
        let p = u.position;
        for k in (0..max).step_by(max.div_ceil(16)) {
            let i = (p + k) % max;
            let a = at(&h, h.len(), max - k);
            let y = tof(u.read_at(i));
            check!(y == a, "position", "sample {i} of {max} (next is {p}): {y} rather than {a}");
            // the sample at the next position
            let z = at(&h, h.len(), max - (k + 1) % max);
            for (j, f) in [(i, 0.0), (i, 0.5), (i, 0.25), (i + max, 0.5)] {
                let y = tof(u.read_at_lin(F::new(j as f64 + f)));
                check!((y - (a + (z - a) * f)).abs() < 1e-3, "interpolated position", "position {} of {max}: {y} rather than between {a} and {z}", j as f64 + f);
            }
        }
        rec.state(&(max, d, h.len() % max));
        rec.transitions += 1;
    }
    Ok(())
}
pub fn d02(run: &Run) {
    run.assume("delay times are rounded to the closest frame where they are whole; the shortest delay of the interpolated delays is one frame");
    const MAX: [usize; 5] = [1, 2, 3, 5, 8];
    let n = run.pick(4, 5);
    run.explore(&Product {
        name: format!("sample delay: maximum x type x {n} changes"),
        dims: [vec![6, 2, 3], vec![10; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| d02_sample([0, 1, 2, 3, 5, 8][c[0] as usize], c[1] == 0, c[3] % 2 == 0, &c[3..], [1, 2, 5][c[2] as usize], rec),
        d: |c| format!("maximum {}, f64 {}, every {}, changes {:?}", [0, 1, 2, 3, 5, 8][c[0] as usize], c[1] == 0, [1, 2, 5][c[2] as usize], &c[3..]),
    });
    run.explore(&Product {
        name: format!("allpass delays: maximum x type x feedback x {n} changes"),
        dims: [vec![5, 2, 2, 3], vec![12; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| d02_allpass(MAX[c[0] as usize], c[1] == 0, c[4] % 2 == 0, c[2] == 1, &c[4..], [1, 2, 5][c[3] as usize], rec),
        d: |c| format!("maximum {}, f64 {}, feedback {}, every {}, changes {:?}", MAX[c[0] as usize], c[1] == 0, c[2], [1, 2, 5][c[3] as usize], &c[4..]),
    });
    let n = run.pick(5, 6);
    run.explore(&Product {
        name: format!("allpass delay: maximum x type x {n} operations"),
        dims: [vec![5, 2], vec![8; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| if c[1] == 0 { d02_methods::<f64>(MAX[c[0] as usize], &c[2..], rec) } else { d02_methods::<f32>(MAX[c[0] as usize], &c[2..], rec) },
        d: |c| format!("maximum {}, operations {:?}", MAX[c[0] as usize], &c[2..]),
    });
    let n = run.pick(4, 6);
    run.explore(&Product {
        name: format!("allpass feedback delay and interpolator: maximum x type x {n} operations"),
        dims: [vec![5, 2], vec![9; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| if c[1] == 0 { d02_feedback_methods::<f64>(MAX[c[0] as usize], &c[2..], rec) } else { d02_feedback_methods::<f32>(MAX[c[0] as usize], &c[2..], rec) },
        d: |c| format!("maximum {}, operations {:?}", MAX[c[0] as usize], &c[2..]),
    });
    let n = run.pick(5, 6);
    run.explore(&Product {
        name: format!("static delay: maximum x type x {n} operations"),
        dims: [vec![5, 2], vec![12; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| if c[1] == 0 { d02_static::<f64>(MAX[c[0] as usize], &c[2..], rec) } else { d02_static::<f32>(MAX[c[0] as usize], &c[2..], rec) },
        d: |c| format!("maximum {}, operations {:?}", MAX[c[0] as usize], &c[2..]),
    });
    run.explore(&Product {
        name: "sample delay of a minute: maximum x type x change".into(),
        dims: vec![3, 2, 10],
        f: |c: &[u16], rec: &mut Rec| {
            let max = [30_000, 65_536, 70_001][c[0] as usize];
            d02_sample(max, c[1] == 0, c[2] % 2 == 0, &[c[2]], 1, rec)
        },
        d: |c| format!("{c:?}"),
    });
    // longer ones
    const BIG: [usize; 3] = [64, 100, 150];
    const EVERY: [usize; 4] = [1, 37, 64, 170];
    let n = run.pick(2, 3);
    run.explore(&Product {
        name: format!("long sample delay: maximum x type x spacing x {n} changes"),
        dims: [vec![3, 2, 4], vec![10; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| d02_sample(BIG[c[0] as usize], c[1] == 0, c[3] % 2 == 0, &c[3..], EVERY[c[2] as usize], rec),
        d: |c| format!("maximum {}, f64 {}, every {}, changes {:?}", BIG[c[0] as usize], c[1] == 0, EVERY[c[2] as usize], &c[3..]),
    });
    run.explore(&Product {
        name: format!("long allpass delays: maximum x type x feedback x spacing x {n} changes"),
        dims: [vec![3, 2, 2, 4], vec![12; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| d02_allpass(BIG[c[0] as usize], c[1] == 0, c[4] % 2 == 0, c[2] == 1, &c[4..], EVERY[c[3] as usize], rec),
        d: |c| format!("maximum {}, f64 {}, feedback {}, every {}, changes {:?}", BIG[c[0] as usize], c[1] == 0, c[2], EVERY[c[3] as usize], &c[4..]),
    });
    let n = run.pick(4, 5);
    run.explore(&Product {
        name: format!("long static delay: maximum x type x {n} operations"),
        dims: [vec![4, 2], vec![12; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| {
            let max = [17, 64, 100, 150][c[0] as usize];
            if c[1] == 0 { d02_static::<f64>(max, &c[2..], rec) } else { d02_static::<f32>(max, &c[2..], rec) }
        },
        d: |c| format!("maximum {}, operations {:?}", [17, 64, 100, 150][c[0] as usize], &c[2..]),
    });
}

// ---------------------------------------------------------------- D03
#[derive(Clone, Debug)]
struct PlayModel {
    len: usize,
    ch: usize,
    pos: f64,
    step: f64,
    rate: f64,
    finished: bool,
    looping: bool,
    start: f64,
    dur: f64,
    end: f64,
}
impl PlayModel {
    fn sample(len: usize, ch: usize, f: usize, c: usize) -> f64 {
        if f >= len || c >= ch { 0.0 } else { 1.0 + (f * ch + c) as f64 }
    }
    fn next(&mut self) -> ([f64; 3], bool) {
        let mut done = false;
        if !self.finished && self.pos >= self.end {
            if self.looping {
                self.pos = self.start;
            } else {
                self.finished = true;
                done = true;
            }
        }
        if self.finished {
            return ([0.0; 3], done);
        }
        let (f, m) = (self.pos.floor() as usize, self.pos.fract());
        let y = std::array::from_fn(|c| if f >= self.len { 0.0 } else { Self::sample(self.len, self.ch, f, c) * (1.0 - m) + Self::sample(self.len, self.ch, (f + 1) % self.len, c) * m });
        self.pos += self.step * self.rate;
        (y, done)
    }
}
/// what may change
const PLAY_EVS: usize = 16;
fn d03_run<F: Float>(ch: usize, len: usize, rate: f64, looping: bool, bsr: f64, start_at: usize, blocks: usize, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let data: Vec<F> = (0..len * ch).map(|i| F::new(1.0 + i as f64)).collect();
    let b = Buffer::from_vec_interleaved(data, ch, bsr);
    let mut u = BufferReader::<F, U3>::new(b, rate, looping);
    let mut m = PlayModel { len, ch, pos: 0.0, step: bsr / SR as f64, rate, finished: false, looping, start: 0.0, dur: len as f64, end: len as f64 };
    if start_at > 0 {
        // the time has a resolution
        let at = Seconds::from_secs_f64(start_at as f64 / bsr);
        u = u.start_at(at);
        m.start = at.to_secs_f64() * bsr;
        m.end = m.start + m.dur;
        m.pos = m.start;
    }
    let mut o = One::new(rig(u), SR, blocks == 1);
    let s = |n: f64| n / bsr;
    let tol = eps::<F>() * 100.0;
    // positions are scaled with the buffer
    let k = if len >= 50 { (len / 5) as f64 + 0.5 } else { 1.0 };
    for t in 0..evs.len() * every + 12 + if k > 1.0 { len } else { 0 } {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            match e {
                0 => (),
                1..=4 => {
                    let v = [0.5, 2.0, 0.0, 1.25][*e as usize - 1];
                    o.set(0, V::F(v));
                    m.rate = v;
                }
                5 | 6 => {
                    o.set(1, V::B(*e == 5));
                    m.looping = *e == 5;
                }
                7..=9 => {
                    let v = k * [1.0, 3.0, -2.0][*e as usize - 7];
                    o.set(2, V::F(s(v)));
                    m.start = f64::max(v, 0.0);
                    m.end = m.start + m.dur;
                }
                10..=12 => {
                    let v = k * [2.0, 0.0, -1.0][*e as usize - 10];
                    o.set(3, V::F(s(v)));
                    m.dur = if v < 0.0 { len as f64 } else { v };
                    m.end = m.start + m.dur;
                }
                13 | 14 => {
                    let v = k * [2.0, 30.0][*e as usize - 13];
                    o.set(4, V::F(s(v)));
                    m.end = v;
                }
                _ => {
                    o.set(5, V::T);
                    m.pos = m.start;
                    m.finished = false;
                }
            }
        }
        let before = m.clone();
        let (w, wd) = m.next();
        let (y, d) = o.next(&[])?;
        for c in 0..3 {
            check!((y[c] - w[c]).abs() <= tol * (1.0 + w[c]), "value", "frame {t}, channel {c}: {} rather than {} ({before:?})", y[c], w[c]);
        }
        check!(d == wd, "done", "frame {t}: done {d} rather than {wd} ({before:?})");
        rec.state(&(format!("{}", m.pos), m.finished, m.looping, format!("{}", m.end)));
        rec.transitions += 1;
    }
    Ok(())
}
pub fn d03(run: &Run) {
    run.assume("the frame after the last one of the buffer is its first one when interpolating; negative rates are not supported (noted in the source)");
    const LEN: [usize; 6] = [4, 1, 2, 3, 7, 0];
    let n = run.pick(3, 4);
    run.explore(&Product {
        name: format!("length x channels x rate x looping x spacing x {n} changes"),
        dims: [vec![LEN.len(), 3, 3, 2, 4, 2], vec![PLAY_EVS; n]].concat(),
        f: move |c: &[u16], rec: &mut Rec| {
            let (len, ch, rate, looping, every) = (LEN[c[0] as usize], c[1] as usize + 1, [1.0, 0.5, 1.75][c[2] as usize], c[3] == 1, c[4] as usize + 1);
            if c[5] == 0 { d03_run::<f64>(ch, len, rate, looping, SR as f64, 0, c[6] as usize % 2, &c[6..], every, rec) } else { d03_run::<f32>(ch, len, rate, looping, SR as f64, 0, c[6] as usize % 2, &c[6..], every, rec) }
        },
        d: |c| format!("{} frames of {} channels, rate {}, looping {}, changes {:?} every {}, type {}", LEN[c[0] as usize], c[1] + 1, c[2], c[3], &c[6..], c[4] + 1, c[5]),
    });
    run.explore(&Product {
        name: "start x buffer sample rate x length x rate x looping x two changes".into(),
        dims: vec![6, 4, LEN.len(), 3, 2, 3, PLAY_EVS, PLAY_EVS],
        f: |c: &[u16], rec: &mut Rec| {
            let bsr = [512.0, 1024.0, 2048.0, 1536.0][c[1] as usize];
            d03_run::<f64>(2, LEN[c[2] as usize], [1.0, 0.5, 3.0][c[3] as usize], c[4] == 1, bsr, [0, 1, 2, 4, 5, 100][c[0] as usize], 1, &[c[6], c[7]], [1, 3, 6][c[5] as usize], rec)
        },
        d: |c| format!("{c:?}"),
    });
    const LONG: [usize; 3] = [50, 127, 300];
    let n = run.pick(2, 3);
    run.explore(&Product {
        name: format!("long buffers: length x channels x rate x buffer sample rate x looping x start x spacing x {n} changes"),
        dims: [vec![3, 2, 4, 3, 2, 2, 4], vec![PLAY_EVS; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| {
            let (len, ch, rate) = (LONG[c[0] as usize], [1, 3][c[1] as usize], [1.0, 0.5, 1.75, 11.3][c[2] as usize]);
            let (bsr, every) = ([1024.0, 512.0, 1536.0][c[3] as usize], [1, 7, 40, 111][c[6] as usize]);
            let start = if c[5] == 1 { len / 3 } else { 0 };
            let go = if (c[0] + c[2] + c[6]) % 2 == 0 { d03_run::<f64> } else { d03_run::<f32> };
            go(ch, len, rate, c[4] == 1, bsr, start, c[7] as usize % 2, &c[7..], every, rec)
        },
        d: |c| format!("{} frames of {} channels, rest {:?}", LONG[c[0] as usize], [1, 3][c[1] as usize], &c[2..]),
    });
    run.explore(&Product {
        name: "buffers of a minute: length x channels x rate x looping x change".into(),
        dims: vec![2, 2, 2, 2, PLAY_EVS],
        f: |c: &[u16], rec: &mut Rec| {
            let (len, ch, rate) = ([65_537, 80_000][c[0] as usize], c[1] as usize + 1, [1.0, 1.75][c[2] as usize]);
            let go = if c[0] == c[2] { d03_run::<f64> } else { d03_run::<f32> };
            go(ch, len, rate, c[3] == 1, SR as f64, 0, c[4] as usize % 2, &c[4..], 1, rec)
        },
        d: |c| format!("{c:?}"),
    });
    // buffers and other sample rates, over their whole length
    run.explore(&Product {
        name: "whole playback x sample rates x length".into(),
        dims: vec![5, 5, 4, 2],
        f: |c: &[u16], rec: &mut Rec| {
            const R: [f64; 5] = [44100.0, 48000.0, 22050.0, 96000.0, 8000.0];
            let (b, s, len) = (R[c[0] as usize], R[c[1] as usize], [10usize, 441, 4800, 1][c[2] as usize]);
            let data: Vec<f64> = (0..len).map(|i| i as f64 + 1.0).collect();
            let mut o = One::new(rig(BufferReader::<f64, U1>::new(Buffer::from_vec(data, b), 1.0, c[3] == 1)), s as u32, false);
            let n = (len as f64 * s / b).ceil() as usize;
            for t in 0..n + 4 {
                let (y, d) = o.next(&[])?;
                let p = t as f64 * b / s;
                if p < len as f64 - 1.0 - 1e-6 {
                    check!((y[0] - 1.0 - p).abs() < 1e-6 && !d, "value", "frame {t}: {} rather than {}", y[0], 1.0 + p);
                } else if t + 1 < n {
                    check!(!d, "done", "done at frame {t} rather than {n}");
                } else if t > n + 1 {
                    // (the position is a sum, which rounding may move by a frame)
                    check!(c[3] == 1 || y[0] == 0.0 && !d, "silence", "frame {t}: {} after the end", y[0]);
                }
                rec.transitions += 1;
            }
            rec.state(&(c[0], c[1], c[2], c[3]));
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    // nothing is read outside of the buffer, wherever it's read
    run.explore(&Product {
        name: "reading a buffer at any position".into(),
        dims: vec![5, 4, 40, 2],
        f: |c: &[u16], rec: &mut Rec| {
            let (len, ch) = (c[0] as usize, c[1] as usize + 1);
            let idx = match c[2] {
                0..=31 => -2.0 + c[2] as f64 * 0.25,
                k => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e18, -1e18, f64::MAX, 4294967295.0, -0.0][k as usize - 32],
            };
            let b = Buffer::<f64>::from_vec_interleaved((0..len * ch).map(|i| 1.0 + i as f64).collect(), ch, 100.0);
            check!(b.num_frames() == len as f64 && b.num_channels() == ch, "size", "{} {}", b.num_frames(), b.num_channels());
            let e = Buffer::<f32>::new(len, ch, 100.0);
            check!(e.num_frames() == len as f64, "size", "{}", e.num_frames());
            for c in 0..ch + 2 {
                let y = if c == 0 { b.get_linear_interp(idx, c) } else { b.get_linear_interp_f64(idx, c) };
                let want = if idx >= 0.0 && idx < len as f64 {
                    let (f, m) = (idx.floor() as usize, idx.fract());
                    PlayModel::sample(len, ch, f, c) * (1.0 - m) + PlayModel::sample(len, ch, (f + 1) % len, c) * m
                } else {
                    0.0
                };
                check!((y - want).abs() < 1e-9, "value", "position {idx} of {len} frames, channel {c} of {ch}: {y} rather than {want}");
                check!(e.get_linear_interp_f64(idx, c) == 0.0, "silence", "position {idx} of an empty buffer");
                rec.transitions += 1;
            }
            rec.state(&(c[0], c[1], c[2]));
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    d03_files(run);
}

/// A wave file of the samples (interleaved), as PCM with so many bits or as 32 bit floats
fn wav(ch: usize, rate: u32, bits: usize, float: bool, v: &[f64]) -> Vec<u8> {
    let mut d = vec![];
    for x in v {
        if float {
            d.extend((*x as f32).to_le_bytes());
        } else if bits == 8 {
            d.push((x * 128.0 + 128.0) as u8);
        } else {
            d.extend(&((x * 2f64.powi(bits as i32 - 1)) as i64).to_le_bytes()[..bits / 8]);
        }
    }
    let mut o = vec![];
    o.extend(b"RIFF");
    o.extend((36 + d.len() as u32).to_le_bytes());
    o.extend(b"WAVEfmt ");
    o.extend(16u32.to_le_bytes());
    o.extend((if float { 3u16 } else { 1 }).to_le_bytes());
    o.extend((ch as u16).to_le_bytes());
    o.extend(rate.to_le_bytes());
    o.extend((rate * (ch * bits / 8) as u32).to_le_bytes());
    o.extend(((ch * bits / 8) as u16).to_le_bytes());
    o.extend((bits as u16).to_le_bytes());
    o.extend(b"data");
    o.extend((d.len() as u32).to_le_bytes());
    o.extend(d);
    o
}
fn buffer_is<F: Float>(b: &Buffer<F>, ch: usize, sr: f64, want: &[f64], tol: f64) -> Result<(), Fail> {
    let n = want.len() / ch;
    check!(b.num_channels() == ch && b.num_frames() == n as f64 && b.sample_rate() == sr, "size", "{} channels, {} frames at {} Hz rather than {ch}, {n}, {sr}", b.num_channels(), b.num_frames(), b.sample_rate());
    check!((b.length_seconds() - n as f64 / sr).abs() < 1e-9 && (b.buf_rate_scale(48000) - sr / 48000.0).abs() < 1e-9, "size", "{} s, rate scale {}", b.length_seconds(), b.buf_rate_scale(48000));
    for f in 0..n {
        let y = b.get_interleaved(f);
        check!(y.len() == ch, "channels", "{} samples in a frame", y.len());
        for c in 0..ch {
            let w = want[f * ch + c];
            check!((y[c].to_f64() - w).abs() <= tol && b.get_linear_interp_f64(f as f64, c) == y[c], "sample", "frame {f} of {n}, channel {c}: {} rather than {w}", y[c].to_f64());
        }
    }
    Ok(())
}
fn files_run<F: Float>(ch: usize, n: usize, sr: u32, fmt: usize, dir: &std::path::Path, rec: &mut Rec) -> Result<(), Fail> {
    // every channel by itself, on the grid of 8 bits
    let mut v: Vec<f64> = (0..n * ch).map(|i| ((i * 37 + i / ch) % 255) as f64 / 128.0 - 127.0 / 128.0).collect();
    let path = dir.join(format!("{ch}-{n}-{sr}-{fmt}-{}.wav", std::any::type_name::<F>()));
    let mut tol = 1e-7;
    match fmt {
        0..=4 => {
            let (bits, float) = [(8, false), (16, false), (24, false), (32, false), (32, true)][fmt];
            std::fs::write(&path, wav(ch, sr, bits, float, &v)).unwrap();
        }
        _ => {
            // written by the library itself, beyond the range too
            if fmt == 6 {
                v.iter_mut().for_each(|x| *x *= 2.0);
            }
            let b = Buffer::<F>::from_vec_interleaved(v.iter().map(|x| F::new(*x)).collect(), ch, sr as f64);
            check!(b.save_to_disk(&path).is_ok(), "save", "can't save {n} frames of {ch} channels");
            v.iter_mut().for_each(|x| *x = x.clamp(-1.0, 1.0));
            tol = 2.1 / 32768.0;
        }
    }
    let b = Buffer::<F>::from_sound_file(&path);
    let _ = std::fs::remove_file(&path);
    check!(b.is_ok(), "load", "{}", b.err().unwrap());
    buffer_is(&b.unwrap(), ch, sr as f64, &v, tol)?;
    rec.transitions += n as u64;
    rec.state(&(ch, n, sr, fmt));
    Ok(())
}
fn d03_files(run: &Run) {
    let dir = std::env::temp_dir().join(format!("mc-sound-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let d = dir.clone();
    run.explore(&Product {
        name: "sound files: channels x frames x sample rate x format".into(),
        dims: vec![3, 10, 3, 7, 2],
        f: move |c: &[u16], rec: &mut Rec| {
            let (ch, n, sr, fmt) = (c[0] as usize + 1, [1, 2, 3, 0, 700, 1151, 1152, 1153, 2304, 5000][c[1] as usize], [44100, 48000, 8000][c[2] as usize], c[3] as usize);
            if ch > 2 && fmt < 5 {
                return Ok(());
            }
            if c[4] == 0 { files_run::<f32>(ch, n, sr, fmt, &d, rec) } else { files_run::<f64>(ch, n, sr, fmt, &d, rec) }
        },
        d: |c| format!("{c:?}"),
    });
    let d = dir.clone();
    run.explore(&Product {
        name: "files that aren't sound".into(),
        dims: vec![4],
        f: move |c: &[u16], rec: &mut Rec| {
            let path = d.join(format!("not-{}.wav", c[0]));
            std::fs::write(&path, [&b""[..], b"a", &[b'x'; 5000], b"RIFF\0\0\0\0WAVX"][c[0] as usize]).unwrap();
            let b = Buffer::<f32>::from_sound_file(&path);
            let _ = std::fs::remove_file(&path);
            check!(matches!(b, Err(knaster_core_dsp::dsp::buffer::BufferError::FileFormatNotSupported(_))), "error", "not reported as an unsupported format");
            rec.state(&c[0]);
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    let _ = std::fs::remove_dir(&dir);
    run.explore(&Product {
        name: "making buffers x removing a constant offset".into(),
        dims: vec![4, 9, 5, 2],
        f: |c: &[u16], rec: &mut Rec| {
            let (ch, len, at) = (c[0] as usize + 1, c[1] as usize, c[2] as usize);
            fn go<F: Float>(ch: usize, len: usize, at: usize, rec: &mut Rec) -> Result<(), Fail> {
                let v: Vec<f64> = (0..len * ch).map(|i| 0.5 + i as f64 * 0.25 - (i % 3) as f64).collect();
                let fs = |v: &[f64]| v.iter().map(|x| F::new(*x)).collect::<Vec<F>>();
                let zero = vec![0.0; v.len()];
                buffer_is(&Buffer::<F>::new(len, ch, 100.0), ch, 100.0, &zero, 0.0)?;
                buffer_is(&Buffer::from_vec_interleaved(fs(&v), ch, 100.0), ch, 100.0, &v, 1e-5)?;
                buffer_is(&Buffer::from_vec(fs(&v), 100.0), 1, 100.0, &v, 1e-5)?;
                // by itself an offset fades, an impulse in one channel stays there, and both add up
                for c in 0..ch {
                    let mut x = zero.clone();
                    let mut want = zero.clone();
                    for f in 0..len {
                        x[f * ch + c] += 3.0;
                        want[f * ch + c] += 3.0 * 0.999f64.powi(f as i32);
                    }
                    if at < len {
                        x[at * ch + c] += 1.0;
                        for f in at..len {
                            want[f * ch + c] += if f == at { 1.0 } else { -0.001 * 0.999f64.powi((f - at) as i32 - 1) };
                        }
                    }
                    let mut b = Buffer::from_vec_interleaved(fs(&x), ch, 100.0);
                    b.remove_dc();
                    buffer_is(&b, ch, 100.0, &want, 1e-5)?;
                    rec.transitions += len as u64;
                }
                Ok(())
            }
            rec.state(&(c[0], c[1], c[2]));
            if c[3] == 0 { go::<f32>(ch, len, at, rec) } else { go::<f64>(ch, len, at, rec) }
        },
        d: |c| format!("{c:?}"),
    });
}

// ---------------------------------------------------------------- D04
/// distance of phases, circular
fn circ(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(1.0);
    d.min(1.0 - d)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Osc {
    SinWt,
    SinNumeric,
    Phasor,
}
const OSCS: [Osc; 3] = [Osc::SinWt, Osc::SinNumeric, Osc::Phasor];
const FREQS: [f64; 14] = [0.0, 1.0, 0.3, 440.0, 100.7, 512.0, 511.9, 1024.0, 1500.5, -1.0, -77.7, -1024.0, -5000.0, 1e6];
/// An oscillator with its frequency set by its constructor, or by its setter before or after it's initialised
fn osc_unit<F: Float>(k: Osc, f: f64, early: bool) -> Box<dyn Unit> {
    let f0 = if early { 333.0 } else { f };
    match k {
        Osc::SinWt => {
            let mut o = SinWt::<F>::new(F::new(f0));
            if early {
                o.freq(f);
            }
            rig(o)
        }
        Osc::SinNumeric => {
            // needs the sample rate
            rig(SinNumeric::<F>::new(F::new(f)))
        }
        Osc::Phasor => {
            let mut o = Phasor::<F>::new(f0);
            if early {
                o.freq(f);
            }
            rig(o)
        }
    }
}
fn d04_osc<F: Float>(k: Osc, f0: f64, sr: u32, blocks: bool, evs: &[u16], every: usize, tail: usize, rec: &mut Rec) -> Result<(), Fail> {
    let mut o = One::new(osc_unit::<F>(k, f0, blocks), sr, blocks);
    let (mut phase, mut off) = (0.0f64, 0.0);
    let fq = |x: f64| if k == Osc::Phasor { x } else { r::<F>(x) };
    let mut f = fq(f0);
    // accumulated rounding
    let mut err = 0.0f64;
    for t in 0..evs.len() * every + tail {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            match *e as usize {
                0 => (),
                e @ 1..=14 => {
                    f = fq(FREQS[e - 1]);
                    o.set(0, V::F(FREQS[e - 1]));
                }
                e => {
                    if k != Osc::Phasor {
                        if e == 15 {
                            phase = 0.0;
                            err = 0.0;
                            o.set(2, V::T);
                        } else {
                            off = [0.25, -0.6, 1.5, 0.999][e - 16];
                            o.set(1, V::F(off));
                        }
                    }
                }
            }
        }
        let (y, d) = o.next(&[])?;
        let y = y[0];
        check!(!d && y.is_finite(), "output", "frame {t}: {y}, done {d}");
        let step = f / sr as f64;
        match k {
            Osc::Phasor => {
                check!((0.0..1.0).contains(&y) || (!same_type::<F>() && y == 1.0), "range", "frame {t}: {y}");
                check!(circ(y, phase) <= err + eps::<F>(), "phase", "frame {t}: {y} rather than {phase}");
            }
            _ => {
                check!((-1.0..=1.0).contains(&y), "range", "frame {t}: {y}");
                let want = ((phase + off) * TAU).sin();
                let tol = if k == Osc::SinWt { TAU / 16384.0 * 1.01 + 1e-6 } else { 4.0 * eps::<F>() * (1.0 + off.abs()) * TAU };
                check!((y - want).abs() <= tol + err * TAU, "phase", "frame {t}: {y} rather than {want} (phase {phase}, offset {off}, frequency {f})");
            }
        }
        // The error of a step in the unit
        err += match k {
            Osc::SinWt => 1.1 / (1u64 << 30) as f64,
            Osc::SinNumeric => eps::<F>() * 0.25 * (1.0 + step.abs()),
            Osc::Phasor => 1e-15 * (1.0 + step.abs()),
        };
        phase = (phase + step).rem_euclid(1.0);
        rec.transitions += 1;
    }
    rec.state(&(format!("{k:?}{phase:.3}"), off as i64));
    Ok(())
}
/// The ideal waveform at a phase, and the phases where it, or its slope, jumps
fn naive(w: u8, t: f64, pw: f64) -> (f64, Vec<f64>) {
    let m = |x: f64| x.rem_euclid(1.0);
    let tri = |t: f64| {
        let y = 4.0 * t;
        if y >= 3.0 { y - 4.0 } else if y > 1.0 { 2.0 - y } else { y }
    };
    match w {
        0 => (2.0 * m(t + 0.5) - 1.0, vec![0.5]),
        1 => ((t * TAU).sin(), vec![]),
        2 => ((t * TAU).cos(), vec![]),
        3 => (tri(t), vec![0.25, 0.75]),
        4 => (if t < 0.5 { 1.0 } else { -1.0 }, vec![0.0, 0.5]),
        5 => (if t < pw { 2.0 - 2.0 * pw } else { -2.0 * pw }, vec![0.0, pw]),
        6 => (1.0 - 2.0 * t, vec![0.0]),
        7 => {
            let y = 2.0 * t;
            let v = if y >= 2.0 - pw { (y - 2.0) / pw } else if y >= pw { 1.0 - (y - pw) / (1.0 - pw) } else { y / pw };
            (v, vec![pw / 2.0, 1.0 - pw / 2.0])
        }
        8 => {
            let sh = 0.25 * (pw - 0.5);
            let s = |x: f64| if m(x) < 0.5 { 1.0 } else { -1.0 };
            let a = t + 0.875 + sh;
            let b = a + 0.5 * (1.0 - pw);
            let j: Vec<f64> = [0.875 + sh, 0.875 + sh + 0.5 * (1.0 - pw)].iter().flat_map(|x| [m(-x), m(0.5 - x)]).collect();
            (0.5 * (s(a) + s(b)), j)
        }
        9 => (if t < 0.5 { 2.0 * (t * TAU).sin() } else { 0.0 } - 2.0 / PI, vec![0.0, 0.5]),
        10 => (2.0 * (m(t + 0.25) * PI).sin() - 4.0 / PI, vec![0.75]),
        11 => {
            let u = m(t + 0.75 + 0.5 * pw);
            let v = if u >= pw { -pw } else if 4.0 * u >= 2.0 * pw { 4.0 - 4.0 * u / pw - pw } else { 4.0 * u / pw - pw };
            (v, vec![m(0.25 - 0.5 * pw), 0.25, m(0.25 + 0.5 * pw)])
        }
        12 => ((2.0 * tri(t)).clamp(-1.0, 1.0), vec![0.125, 0.375, 0.625, 0.875]),
        _ => {
            let p = pw.min(0.9999);
            ((tri(t) / (1.0 - p)).clamp(-1.0, 1.0), vec![0.25 * (1.0 - p), 0.5 - 0.25 * (1.0 - p), 0.5 + 0.25 * (1.0 - p), 1.0 - 0.25 * (1.0 - p)])
        }
    }
}
fn d04_blep<F: Float>(w: u8, f: f64, pw: f64, evs: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let mut u = PolyBlep::<F>::new(Waveform::from(PInteger(w as _)), F::new(f));
    let early = w % 2 == 0;
    if early {
        u.pulse_width(pw);
    }
    let mut o = One::new(rig(u), SR, evs.len() % 2 == 0);
    if !early {
        o.set(1, V::F(pw));
    }
    let (mut w, mut f, mut pw) = (w, r::<F>(f), r::<F>(pw));
    let mut t: f64 = 0.0;
    for n in 0..60 {
        if n % 7 == 6
            && let Some(e) = evs.get(n / 7)
        {
            match e {
                0 => (),
                1..=3 => {
                    f = [3.0, 128.0, 260.0][*e as usize - 1];
                    o.set(0, V::F(f));
                }
                4 => {
                    pw = r::<F>(0.8);
                    o.set(1, V::F(0.8));
                }
                _ => {
                    w = (w + 5) % 14;
                    o.set(2, V::I(w as usize));
                }
            }
        }
        let (y, d) = o.next(&[])?;
        let y = y[0];
        check!(!d && y.is_finite() && y.abs() <= 4.0, "output", "frame {n}: {y}, done {d}");
        let dt = f / SR as f64;
        let (want, jumps) = if dt >= 0.25 { ((t * TAU).sin(), vec![]) } else { naive(w, t, pw) };
        if jumps.iter().all(|j| circ(t, *j) > dt * 1.0001 + 1e-5) {
            check!((y - want).abs() <= 200.0 * eps::<F>() + 1e-9, "waveform", "waveform {w}, frame {n}, phase {t}: {y} rather than {want}");
        } else if dt > 0.0 && jumps.iter().all(|j| circ(t, *j) > 1e-5) {
            // the correction of each jump and bend within a frame of it
            let mut c = want;
            for j in &jumps {
                let e = 1e-6;
                let v = |d: f64| naive(w, (j + d).rem_euclid(1.0), pw).0;
                let (a, b) = (2.0 * v(e) - v(2.0 * e) - 2.0 * v(-e) + v(-2.0 * e), ((v(2.0 * e) - v(e)) - (v(-e) - v(-2.0 * e))) / e);
                let a = if a.abs() < 1e-3 { 0.0 } else { a };
                let x = { let x = (t - j).rem_euclid(1.0); if x > 0.5 { x - 1.0 } else { x } } / dt;
                if x.abs() >= 1.0 { continue; }
                let (step, ramp) = if x >= 0.0 { (-(x - 1.0).powi(2), -(x - 1.0).powi(3) / 3.0) } else { ((x + 1.0).powi(2), (x + 1.0).powi(3) / 3.0) };
                c += a / 2.0 * step + b * dt / 2.0 * ramp;
            }
            let tol = eps::<F>() * (200.0 + 20.0 / dt) + 1e-9 + 1e-4 * dt;
            check!((y - c).abs() <= tol, "corrected", "waveform {w}, frame {n}, phase {t} ({dt} per frame): {y} rather than {c}, which is {want} with its jumps and bends at {jumps:?} rounded");
        }
        t = (t + dt).rem_euclid(1.0);
        rec.transitions += 1;
    }
    rec.state(&(w, format!("{t:.3}")));
    Ok(())
}
fn d04_random<F: Float>(f: f64, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let mut o = One::new(
        seeded(|| {
            let early = every % 4 == 3;
            let mut r = RandomLin::<F>::new(F::new(if early { 77.0 } else { f }));
            if early {
                r.freq(f);
            }
            rig(r)
        }),
        SR,
        evs.len() % 2 == 0,
    );
    let mut f = f;
    let mut phase = 0.0;
    // value at the start of the ramp, and phase
    let mut prev: Option<(f64, f64, f64)> = None; // last output, phase, step used
    let mut slope: Option<f64> = None;
    let mut targets = vec![];
    for t in 0..evs.len() * every + 40 {
        if t % every == 0
            && let Some(e) = evs.get(t / every)
        {
            // 0: left as it is
            f = [f, 64.0, 512.0, 0.0, 100.0, 1024.0][*e as usize];
            if *e > 0 {
                o.set(0, V::F(f));
            }
        }
        let (y, d) = o.next(&[])?;
        let y = y[0];
        check!(!d && (-1e-6..=1.0 + 1e-6).contains(&y), "range", "frame {t}: {y}");
        let step = f / SR as f64;
        if let Some((py, pp, ps)) = prev {
            if pp + ps >= 1.0 {
                // A new ramp started at the old one's target
                if let Some(s) = slope {
                    targets.push(py + s * (1.0 - pp));
                }
                slope = None;
                check!((y - py).abs() <= 2.0 * ps + 1e-6, "continuity", "frame {t}: from {py} to {y}");
            } else if ps > 0.0 {
                let s = (y - py) / ps;
                if let Some(s0) = slope {
                    check!((s - s0).abs() <= 20.0 * eps::<F>() / ps + 1e-9, "ramp", "frame {t}: the slope changes from {s0} to {s} at phase {phase}");
                }
                check!(s.abs() <= 1.0 + 20.0 * eps::<F>() / ps, "slope", "frame {t}: {s}");
                slope = Some(s);
            } else {
                check!((y - py).abs() <= 1e-6, "hold", "frame {t}: from {py} to {y} with a frequency of 0");
            }
        }
        prev = Some((y, phase, step));
        phase += step;
        if phase >= 1.0 {
            phase -= phase.floor();
        }
        rec.transitions += 1;
    }
    rec.state(&(targets.len(), format!("{phase}")));
    if f > 0.0 && f <= 256.0 {
        check!(targets.windows(2).all(|w| w[0] != w[1]), "values", "the same value twice: {targets:?}");
    }
    Ok(())
}
pub fn d04(run: &Run) {
    run.assume("frequencies are compared with the tolerance of the phase: 2^-30 periods per frame for the wavetable, rounding of the sample type for others");
    let n = run.pick(2, 3);
    for sr in [SR, 48000] {
        run.explore(&Product {
            name: format!("oscillators x frequency x type x spacing x {n} changes, {sr} Hz"),
            dims: [vec![3, FREQS.len(), 2, 3], vec![20; n]].concat(),
            f: move |c: &[u16], rec: &mut Rec| {
                let (k, f, every) = (OSCS[c[0] as usize], FREQS[c[1] as usize], [1, 3, 8][c[3] as usize]);
                let bl = (c[1] + c[3]) % 2 == 0;
                if c[2] == 0 { d04_osc::<f64>(k, f, sr, bl, &c[4..], every, 10, rec) } else { d04_osc::<f32>(k, f, sr, bl, &c[4..], every, 10, rec) }
            },
            d: |c| format!("{:?} at {}, type {}, changes {:?}, spacing {}", OSCS[c[0] as usize], FREQS[c[1] as usize], c[2], &c[4..], c[3]),
        });
    }
    let long = run.pick(20_000, 1_000_000);
    run.explore(&Product {
        name: format!("oscillators x frequency x sample rate, {long} frames"),
        dims: vec![3, FREQS.len(), 2, 3],
        f: move |c: &[u16], rec: &mut Rec| {
            let (k, f, sr) = (OSCS[c[0] as usize], FREQS[c[1] as usize], [44100, 48000, 1024][c[3] as usize]);
            if c[2] == 0 { d04_osc::<f64>(k, f, sr, true, &[], 1, long, rec) } else { d04_osc::<f32>(k, f, sr, false, &[], 1, long, rec) }
        },
        d: |c| format!("{:?} at {}, type {}", OSCS[c[0] as usize], FREQS[c[1] as usize], c[2]),
    });
    const BF: [f64; 10] = [0.0, 1.0, 10.0, 33.3, 64.0, 100.7, 200.0, 255.9, 256.0, 700.0];
    let n = run.pick(3, 4);
    run.explore(&Product {
        name: format!("band limited oscillator: waveform x frequency x pulse width x {n} changes"),
        dims: [vec![14, BF.len(), 4, 2], vec![6; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| {
            let (w, f, pw) = (c[0] as u8, BF[c[1] as usize], [0.5, 0.25, 0.1, 0.9][c[2] as usize]);
            if c[3] == 0 { d04_blep::<f64>(w, f, pw, &c[4..], rec) } else { d04_blep::<f32>(w, f, pw, &c[4..], rec) }
        },
        d: |c| format!("waveform {}, frequency {}, width {}, type {}, changes {:?}", c[0], BF[c[1] as usize], c[2], c[3], &c[4..]),
    });
    let n = run.pick(3, 5);
    run.explore(&Product {
        name: format!("random ramps: frequency x type x spacing x {n} changes"),
        dims: [vec![6, 2, 4], vec![6; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| {
            let (f, every) = ([64.0, 100.0, 0.0, 333.0, 1024.0, 3000.0][c[0] as usize], [1, 3, 7, 16][c[2] as usize]);
            if c[1] == 0 { d04_random::<f64>(f, &c[3..], every, rec) } else { d04_random::<f32>(f, &c[3..], every, rec) }
        },
        d: |c| format!("{c:?}"),
    });
    let seeds = run.pick(300, 5000);
    run.explore(&Product {
        name: "noise: kind x type x seed".into(),
        dims: vec![3, 2, seeds],
        f: |c: &[u16], rec: &mut Rec| {
            fn two<T: UGen + 'static>(seed: u64, f: fn() -> T) -> [Box<dyn Unit>; 2] {
                mcsched::with_counter(seed, || [rig(f()), rig(f())])
            }
            let s = c[2] as u64 * 1_000_003;
            let us = match (c[0], c[1]) {
                (0, 0) => two(s, WhiteNoise::<f64>::new),
                (0, _) => two(s, WhiteNoise::<f32>::new),
                (1, 0) => two(s, PinkNoise::<f64>::new),
                (1, _) => two(s, PinkNoise::<f32>::new),
                (_, 0) => two(s, BrownNoise::<f64>::new),
                _ => two(s, BrownNoise::<f32>::new),
            };
            let n = 512;
            let mut y = vec![];
            for u in us {
                let mut m = Machine::new(u, SR, n);
                y.push(m.block(&[], &Layout::Whole)?.y[0].clone());
            }
            for y in &y {
                let mut p = 0.0;
                for (t, v) in y.iter().enumerate() {
                    check!((-1.0..=1.0).contains(v), "range", "frame {t}: {v}");
                    if c[0] == 2 {
                        check!((*v - p).abs() <= 0.1 + 1e-6, "step", "frame {t}: from {p} to {v}");
                        p = *v;
                    }
                }
                let distinct: std::collections::HashSet<u64> = y.iter().map(|v| v.to_bits()).collect();
                check!(distinct.len() > n / 4, "random", "only {} values in {n} frames", distinct.len());
                let mean = y.iter().sum::<f64>() / n as f64;
                check!(c[0] != 0 || mean.abs() < 0.2, "random", "the mean is {mean}");
                check!(c[0] != 0 || y.iter().any(|v| *v > 0.8) && y.iter().any(|v| *v < -0.8), "range", "the range isn't used");
            }
            check!(y[0] != y[1], "instances", "two instances make the same noise");
            rec.state(&(c[0], c[1], c[2]));
            rec.transitions += 2 * n as u64;
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    run.explore(&Product {
        name: "wavetable phases".into(),
        dims: vec![16384, 4],
        f: |c: &[u16], rec: &mut Rec| {
            use knaster_core_dsp::dsp::wavetable::*;
            use std::sync::OnceLock;
            static T: OnceLock<(NonAaWavetable<f64>, NonAaWavetable<f32>, Wavetable<f64>)> = OnceLock::new();
            let (a, b, w) = T.get_or_init(|| (NonAaWavetable::sine(), NonAaWavetable::sine(), Wavetable::sine()));
            let p = (c[0] as u32) << 16 | [0, 1, 32768, 65535][c[1] as usize];
            // whole periods don't matter
            for p in [p, p | 1 << 30, p | 3 << 30] {
                let ph = WavetablePhase(p);
                let want = (p as f64 / (1u64 << 30) as f64 * TAU).sin();
                let (x, y, z) = (a.get(ph), b.get(ph) as f64, w.get(ph, [10.0, 500.0, 9000.0, 50000.0][c[1] as usize]));
                check!((x - want).abs() < TAU / 16384.0 * 1.01 && (y - want).abs() < TAU / 16384.0 * 1.02 && (z - want).abs() < TAU / 16384.0 * 1.02, "table", "phase {p}: {x}, {y}, {z} rather than {want}");
                let x = a.get_linear_interp(ph);
                check!((x - want).abs() < 1e-4, "interpolation", "phase {p}: {x} rather than {want}");
                // the phase itself
                check!(ph.integer_component() == (p as usize >> 16) % TABLE_SIZE && ph.fractional_component() == p % FRACTIONAL_PART, "phase", "phase {p} is {} and {}", ph.integer_component(), ph.fractional_component());
                let fr = ph.fractional_component_f32();
                check!((fr - (p % FRACTIONAL_PART) as f32 / FRACTIONAL_PART as f32).abs() < 2e-5, "phase", "the fraction of phase {p} is {fr}");
                for k in [0.0, 1.0, -1.0, 3.0, -5.0] {
                    let q = WavetablePhase::from_periods(k + p as f64 / (1u64 << 30) as f64);
                    check!(q.0 % (1 << 30) == p % (1 << 30), "phase", "{k} periods and phase {p} make {q:?}");
                }
                for q in [0, 1, 65535, 65536, 1 << 29, u32::MAX - 65535, u32::MAX] {
                    let mut inc = ph;
                    inc.increase(q);
                    let (sum, w) = (ph + WavetablePhase(q), (p as u64 + q as u64) % (1 << 30));
                    check!(inc.0 as u64 % (1 << 30) == w && sum.0 as u64 % (1 << 30) == w, "phase", "phases {p} and {q} make {inc:?}, or {sum:?}");
                }
                rec.transitions += 4;
            }
            rec.state(&c[0]);
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    let draws = run.pick(1u32 << 20, 1 << 28);
    run.explore(&Product {
        name: format!("random number generator x seed, {draws} numbers"),
        dims: vec![6],
        f: move |c: &[u16], rec: &mut Rec| {
            use knaster_core_dsp::dsp::xorrng::XOrShift32Rng;
            let seed = [0, 1, 17, 12345, 0x8000_0000, u32::MAX][c[0] as usize];
            let r = XOrShift32Rng::new(seed);
            let [mut a, mut b, mut fs, mut fd] = [r, XOrShift32Rng::new(if seed == 0 { 17 } else { seed }), r, r];
            let mut d = XOrShift32Rng::default();
            let (first, mut sum, mut ones) = (XOrShift32Rng::new(seed).gen_u32(), 0f64, [0u64; 32]);
            for k in 0..draws {
                let x = a.gen_u32();
                let (y, z) = (fs.gen_f32(), fd.gen_f64());
                check!(x == b.gen_u32() && (seed != 17 || x == d.gen_u32()), "repeatable", "seed {seed}: number {k} differs");
                check!(k == 0 || x != first, "period", "seed {seed}: the numbers repeat after {k}");
                check!((y as f64 - x as f64 / u32::MAX as f64).abs() < 1e-6 && (z - x as f64 / u32::MAX as f64).abs() < 1e-9, "range", "seed {seed}: number {k} is {x}, {y} and {z}");
                sum += z;
                (0..32).for_each(|i| ones[i] += (x >> i & 1) as u64);
            }
            let n = draws as f64;
            check!((sum / n - 0.5).abs() < 0.01 && ones.iter().all(|o| (*o as f64 / n - 0.5).abs() < 0.01), "distribution", "seed {seed}: mean {}, share of ones {:?}", sum / n, ones.map(|o| o as f64 / n));
            rec.transitions += draws as u64;
            rec.state(&seed);
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    run.explore(&Product {
        name: "wavetables: constructor x type".into(),
        dims: vec![9, 2],
        f: |c: &[u16], rec: &mut Rec| if c[1] == 0 { d04_shapes::<f32>(c[0] as usize, rec) } else { d04_shapes::<f64>(c[0] as usize, rec) },
        d: |c| format!("{c:?}"),
    });
    let n = run.pick(2, 3);
    run.explore(&Product {
        name: format!("wavetables: type x sequences of {n} operations"),
        dims: [vec![2], vec![TABS.len(); n]].concat(),
        f: |c: &[u16], rec: &mut Rec| {
            let ops: Vec<Tab> = c[1..].iter().map(|i| TABS[*i as usize]).collect();
            if c[0] == 0 { d04_tables::<f32>(&ops, rec) } else { d04_tables::<f64>(&ops, rec) }
        },
        d: |c| format!("type {}, {:?}", c[0], c[1..].iter().map(|i| TABS[*i as usize]).collect::<Vec<_>>()),
    });
    let n = run.pick(5, 6);
    run.explore(&Product {
        name: format!("band limited oscillator: type x sequences of {n} method calls"),
        dims: [vec![2], vec![9; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| if c[0] == 0 { d04_blep_methods::<f32>(&c[1..], rec) } else { d04_blep_methods::<f64>(&c[1..], rec) },
        d: |c| format!("{c:?}"),
    });
}

/// What a wavetable holds, as the operations that made it: partials (number, amplitude, phase) that remain after the
/// last fill, and what they're multiplied with
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tab {
    Fill,
    Sine(f64, f64, f64),
    FillSine(usize, f64),
    Saw(usize, usize),
    NaiveSaw(usize),
    Odd(usize, f64),
    Times,
    Norm,
    Diff,
}
const TABS: [Tab; 15] = [
    Tab::Fill,
    Tab::Sine(1.0, 0.5, 0.0),
    Tab::Sine(2.0, 1.0, 1.0),
    Tab::Sine(0.5, 0.25, 0.0),
    Tab::Sine(40.0, 0.5, -0.5),
    Tab::FillSine(3, 1.0),
    Tab::FillSine(4, 2.0),
    Tab::FillSine(30, 1.0),
    Tab::Saw(0, 3),
    Tab::Saw(2, 20),
    Tab::NaiveSaw(5),
    Tab::Odd(1, 1.0),
    Tab::Times,
    Tab::Norm,
    Tab::Diff,
];
/// The value of a table at the phase if only so many partials fit
fn tab_value(ops: &[Tab], fit: usize, p: f64, norm: &[f64]) -> f64 {
    let sine = |h: f64, ph: f64| (p * h * TAU + ph).sin();
    let mut y = 0.0;
    let mut norms = norm.iter();
    for o in ops {
        match *o {
            Tab::Fill => y = 0.375,
            Tab::Sine(h, a, ph) => {
                if h.ceil() as usize <= fit {
                    y += a * sine(h, ph)
                }
            }
            Tab::FillSine(n, f) => {
                let n = n.min((fit as f64 / f) as usize);
                for i in 0..n {
                    y += sine((i + 1) as f64 * f, 0.0) * if i == 0 { 1.0 } else { (n - i) as f64 / n as f64 * 0.5 };
                }
            }
            Tab::Saw(a, b) => (a..b.min(fit)).for_each(|i| y += sine((i + 1) as f64, 0.0) / ((i + 1) as f64 * PI) * 0.5),
            Tab::NaiveSaw(b) => (0..b.min(fit)).for_each(|i| y += sine((i + 1) as f64, 0.0) / ((i + 1) as f64 * PI) * 2.0),
            Tab::Odd(n, _) => (0..n.min(fit.div_ceil(2))).for_each(|i| y += sine((2 * i + 1) as f64, 0.0)),
            Tab::Times => y *= -0.75,
            Tab::Norm => y *= norms.next().unwrap_or(&1.0),
            Tab::Diff => (),
        }
    }
    y
}
fn d04_tables<F: Float>(ops: &[Tab], rec: &mut Rec) -> Result<(), Fail> {
    use knaster_core_dsp::dsp::wavetable::*;
    let mut w = Wavetable::<F>::new();
    // what each normalisation multiplies by, at the table of the lowest frequencies
    let mut norms = vec![];
    for (i, o) in ops.iter().enumerate() {
        match *o {
            Tab::Fill => w.fill(F::new(0.375)),
            Tab::Sine(h, a, p) => w.add_sine(h, a, p),
            Tab::FillSine(n, f) => w.fill_sine(n, f),
            Tab::Saw(a, b) => w.add_saw(a, b, 0.5),
            Tab::NaiveSaw(b) => w.add_aliasing_saw(b, 2.0),
            Tab::Odd(n, a) => w.add_odd_harmonics(n, a),
            Tab::Times => w.multiply(F::new(-0.75)),
            Tab::Norm => {
                w.normalize();
                let m = (0..TABLE_SIZE).map(|k| tab_value(&ops[..i], 10_000, k as f64 / TABLE_SIZE as f64, &norms).abs()).fold(0.0, f64::max);
                norms.push(if m > 1e-9 { 1.0 / m } else { 1.0 });
            }
            Tab::Diff => w.update_diff_buffer(),
        }
    }
    let amp: f64 = 8.0 * norms.iter().fold(1.0, |a: f64, n| a * n.max(1.0));
    let tol = amp * (if F::new(1e-10f64 as f32) + F::ONE == F::ONE { 2e-6 } else { 1e-9 });
    for f in [1.0f64, 31.0, 33.0, 50.0, 75.0, 110.0, 170.0, 250.0, 370.0, 550.0, 830.0, 1240.0, 1900.0, 2800.0, 4200.0, 6300.0, 9400.0, 14100.0, 19000.0, 30000.0] {
        // every partial up to 20 kHz at the highest frequency (half as much again) this table may be for; none beyond 24 kHz
        let (lo, hi) = ((20_000.0 / (f.max(32.0) * 1.5)) as usize, (24_000.0 / f) as usize);
        let at = |k: usize| (k * 823 + 5) % TABLE_SIZE;
        let y: Vec<f64> = (0..40).map(|k| w.get(WavetablePhase((at(k) as u32) << 16 | 77), F::new(f)).to_f64()).collect();
        let mut ok = false;
        for fit in lo.min(50)..=hi.min(50) {
            ok |= (0..40).all(|k| (y[k] - tab_value(ops, fit, at(k) as f64 / TABLE_SIZE as f64, &norms)).abs() <= tol);
        }
        check!(ok, "contents", "after {ops:?} the table for {f} Hz isn't the sum of the partials that fit below 20 kHz (phase {} holds {}, phase {} holds {})", at(0), y[0], at(1), y[1]);
        for k in 0..TABLE_SIZE / 97 {
            let i = (k * 97 + TABLE_SIZE - 1) % TABLE_SIZE;
            let g = |i: usize, fr: u32| (w.get(WavetablePhase(((i % TABLE_SIZE) as u32) << 16 | fr), F::new(f)).to_f64(), w.get_linear_interp(WavetablePhase(((i % TABLE_SIZE) as u32) << 16 | fr), F::new(f)).to_f64());
            let ((a, a1), (b, _), (c, m)) = (g(i, 0), g(i + 1, 0), g(i, 32768));
            check!(a == a1 && a == c && (m - (a + b) / 2.0).abs() <= tol + (b - a).abs() * 1e-4, "interpolation", "after {ops:?}, at {f} Hz: halfway between {a} and {b} is {m}");
        }
        rec.transitions += 40;
    }
    rec.state(&format!("{ops:?}"));
    Ok(())
}
/// Every way to make a wavetable holds its shape
fn d04_shapes<F: Float>(kind: usize, rec: &mut Rec) -> Result<(), Fail> {
    use knaster_core_dsp::dsp::wavetable::*;
    type N<F> = NonAaWavetable<F>;
    let saw = |p: f64| 2.0 * p - 1.0;
    let user = |p: f64| (p * 10.0).fract() - 0.25;
    let data = || (0..TABLE_SIZE).map(|i| F::new(user(i as f64 / TABLE_SIZE as f64))).collect::<Vec<F>>();
    let hann = |p: f64| 0.5 - 0.5 * (p * TAU).cos();
    let hamming = |p: f64| 0.53836 - 0.46164 * (p * TAU).cos();
    let (n, w, want): (Option<N<F>>, Wavetable<F>, &dyn Fn(f64) -> f64) = match kind {
        0 => (Some(N::sine()), Wavetable::sine(), &|p| (p * TAU).sin()),
        1 => (Some(N::cosine()), Wavetable::cosine(), &|p| (p * TAU).cos()),
        2 => (Some(N::aliasing_saw()), Wavetable::aliasing_saw(), &saw),
        3 => (Some(N::hann_window()), Wavetable::hann_window(), &hann),
        4 => (Some(N::hamming_window()), Wavetable::hamming_window(), &hamming),
        5 => (Some(N::sine_window()), Wavetable::sine_window(), &|p| (p * PI).sin()),
        6 => (Some(N::new()), Wavetable::new(), &|_| 0.0),
        7 => {
            let mut n = N::sine();
            n.set_from_buffer(data());
            (Some(n), Wavetable::from_buffer(data()).unwrap(), &user)
        }
        _ => (
            None,
            Wavetable::from_closure(|b| {
                for (i, x) in b.iter_mut().enumerate() {
                    *x = F::new(user(i as f64 / TABLE_SIZE as f64));
                }
            }),
            &user,
        ),
    };
    for i in 0..TABLE_SIZE {
        let p = WavetablePhase((i as u32) << 16 | (i as u32 & 0xffff));
        let v = want(i as f64 / TABLE_SIZE as f64);
        let mut ys = vec![w.get(p, F::new(10.0)), w.get(p, F::new(440.0)), w.get(p, F::new(5000.0)), w.get(p, F::new(20000.0))];
        ys.extend(n.as_ref().map(|n| n.get(p)));
        for y in ys {
            check!((y.to_f64() - v).abs() < 1e-5, "contents", "kind {kind}, sample {i}: {} rather than {v}", y.to_f64());
        }
        rec.transitions += 1;
    }
    // noise: keeps to the range, stays the same with the same seed, never happens when it's improbable
    if kind < 7 {
        for prob in [0.0, 0.5, 1.0] {
            let mut a = [w.clone(), w.clone()];
            a.iter_mut().for_each(|a| a.add_noise(prob, 7 * kind as u32));
            let mut changed = 0;
            for i in 0..TABLE_SIZE {
                let g = |w: &Wavetable<F>| w.get(WavetablePhase((i as u32) << 16), F::new(440.0)).to_f64();
                let (x, y, z) = (g(&w), g(&a[0]), g(&a[1]));
                check!(y == z && (-1.0..=1.0).contains(&y), "noise", "sample {i}: {y} and {z}");
                changed += (x != y) as usize;
            }
            let want = TABLE_SIZE as f64 * (1.0 - prob);
            check!((changed as f64 - want).abs() < 600.0, "noise", "{changed} samples changed by noise of probability {prob}");
        }
    }
    for len in [0, 1, 2, TABLE_SIZE - 1, TABLE_SIZE + 1] {
        check!(Wavetable::from_buffer(vec![F::ONE; len]).is_err(), "size", "a wavetable of {len} samples");
        // a table that's too short is refused, or can be read anywhere
        let mut n = N::<F>::new();
        if no_panic(|| n.set_from_buffer(vec![F::ONE; len])).is_ok() {
            check!(no_panic(|| n.get_linear_interp(WavetablePhase(u32::MAX))).is_ok(), "size", "a wavetable of {len} samples can be read outside of them");
        }
    }
    rec.state(&kind);
    Ok(())
}
/// The band limited oscillator used as a part of something else: its methods in any order
fn d04_blep_methods<F: Float>(ops: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let mut o = PolyBlep::<F>::new(Waveform::Sine, F::new(50.0));
    o.init(1000, 4);
    let (mut sr, mut dt, mut t) = (1000.0f64, 0.05f64, 0.0f64);
    for op in ops {
        match op {
            0 => {
                o.set_dt(F::new(0.02));
                dt = 0.02;
            }
            1 => {
                // the frequency stays
                o.set_sample_rate(F::new(4000.0));
                (dt, sr) = (dt * sr / 4000.0, 4000.0);
            }
            2 => {
                o.freq(30.0);
                dt = 30.0 / sr;
            }
            3..=6 => {
                let p: f64 = [0.25, 1.75, 7.0, -0.25][*op as usize - 3];
                o.sync(F::new(p));
                t = p.rem_euclid(1.0);
            }
            7 => {
                o.init(2000, 4);
                sr = 2000.0;
                // a unit that's initialised twice: what it does to the frequency is open
                o.freq(30.0);
                dt = 30.0 / sr;
            }
            _ => {
                t = (t + dt).fract();
                o.process();
            }
        }
        check!((o.get_freq_in_hz().to_f64() - dt * sr).abs() < 1e-3, "frequency", "after {ops:?}: {} rather than {}", o.get_freq_in_hz().to_f64(), dt * sr);
        for _ in 0..2 {
            let y = o.next_sample().to_f64();
            check!((y - (t * TAU).sin()).abs() < 1e-5, "phase", "after {ops:?} (up to {op}): {y} rather than the sine of phase {t}");
        }
        rec.transitions += 1;
    }
    rec.state(&format!("{t:.4} {dt:.5} {sr}"));
    Ok(())
}

// ---------------------------------------------------------------- D05
/// Reference trapezoidal state variable filter in f64: (low, band) outputs are combined by type
#[derive(Clone, Debug)]
struct SvfModel {
    sr: f64,
    ty: usize,
    f: f64,
    q: f64,
    gain: f64,
    s1: f64,
    s2: f64,
}
impl SvfModel {
    fn next(&mut self, x: f64) -> f64 {
        let a = 10f64.powf(self.gain / 40.0);
        let t = (PI * self.f / self.sr).tan();
        let (g, k) = match self.ty {
            6 => (t, 1.0 / (self.q * a)),
            7 => (t / a.sqrt(), 1.0 / self.q),
            8 => (t * a.sqrt(), 1.0 / self.q),
            _ => (t, 1.0 / self.q),
        };
        // band = g * high + s1, low = g * band + s2, high = x - k * band - low
        let band = (g * (x - self.s2) + self.s1) / (1.0 + g * (g + k));
        let low = g * band + self.s2;
        self.s1 = 2.0 * band - self.s1;
        self.s2 = 2.0 * low - self.s2;
        let high = x - k * band - low;
        match self.ty {
            0 => low,
            1 => high,
            2 => band,
            3 => low + high,
            4 => high - low,
            5 => low + high - k * band,
            6 => x + k * (a * a - 1.0) * band,
            7 => x + k * (a - 1.0) * band + (a * a - 1.0) * low,
            _ => a * a * x + k * (1.0 - a) * a * band + (1.0 - a * a) * low,
        }
    }
}
fn svf_unit(wide: bool, ty: usize, f: f64, q: f64, gain: f64) -> Box<dyn Unit> {
    let t = SvfFilterType::from(PInteger(ty as _));
    if wide { rig(SvfFilter::<f64>::new(t, f, q, gain)) } else { rig(SvfFilter::<f32>::new(t, f as f32, q as f32, gain as f32)) }
}
fn noise(t: usize) -> f64 {
    ((t * 7919 + 13) % 101) as f64 / 50.0 - 1.0
}
/// Changes of parameters 0 cutoff, 1 Q, 2 gain, 3 type
const SVF_EVS: usize = 15;
fn svf_ev(e: u16, m: &mut SvfModel) -> Option<(usize, V)> {
    Some(match e {
        0 => return None,
        1..=3 => {
            m.f = [20.0, 200.0, 480.0][e as usize - 1];
            (0, V::F(m.f))
        }
        4 | 5 => {
            m.q = [0.5, 8.0][e as usize - 4];
            (1, V::F(m.q))
        }
        6 | 7 => {
            m.gain = [-12.0, 6.0][e as usize - 6];
            (2, V::F(m.gain))
        }
        8..=11 => {
            m.ty = [0, 3, 6, 8][e as usize - 8];
            (3, V::I(m.ty))
        }
        12 => (4, V::T),
        _ => {
            m.q = [0.2, 1.5][e as usize - 13];
            (1, V::F(m.q))
        }
    })
}
fn d05_svf(ty: usize, wide: bool, f: f64, evs: &[u16], every: usize, rec: &mut Rec) -> Result<(), Fail> {
    let mut o = One::new(svf_unit(wide, ty, f, 1.0, 3.0), SR, evs[0] % 2 == 0);
    let mut m = SvfModel { sr: SR as f64, ty, f, q: 1.0, gain: 3.0, s1: 0.0, s2: 0.0 };
    for t in 0..(evs.len() + 1) * every + 4 {
        if t % every == 0
            && t > 0
            && let Some(e) = evs.get(t / every - 1)
            && let Some((p, v)) = svf_ev(*e, &mut m)
        {
            o.set(p, v);
        }
        let x = noise(t);
        let w = m.next(x);
        let (y, _) = o.next(&[x])?;
        check!((y[0] - w).abs() <= (if wide { 1e-9 } else { 2e-4 }) * (1.0 + w.abs()), "value", "frame {t}: {} rather than {w} ({m:?})", y[0]);
        rec.transitions += 1;
    }
    rec.state(&format!("{ty}{}{}{}{}", m.ty, m.f, m.q, m.gain));
    Ok(())
}
/// gain of a filter at zero, Nyquist and its cutoff frequency
fn svf_gains(ty: usize, q: f64, db: f64) -> (f64, f64, f64) {
    let a2 = 10f64.powf(db / 20.0);
    match ty {
        0 => (1.0, 0.0, q),
        1 => (0.0, 1.0, q),
        2 => (0.0, 0.0, q),
        3 => (1.0, 1.0, 0.0),
        4 => (1.0, 1.0, 2.0 * q),
        5 => (1.0, 1.0, 1.0),
        6 => (1.0, 1.0, a2),
        7 => (a2, 1.0, a2.sqrt()),
        _ => (1.0, a2, a2.sqrt()),
    }
}
fn respond(u: Box<dyn Unit>, sr: u32, n: usize, x: impl Fn(usize) -> f64) -> Result<Vec<f64>, Fail> {
    let mut m = Machine::new(u, sr, n);
    let b = vec![(0..n).map(x).collect::<Vec<f64>>()];
    Ok(m.block(&b, &Layout::Whole)?.y[0].clone())
}
/// Amplitude of the response at a frequency, from the impulse response
fn amplitude(h: &[f64], f: f64, sr: f64) -> f64 {
    let (mut re, mut im) = (0.0, 0.0);
    for (t, v) in h.iter().enumerate() {
        re += v * (TAU * f * t as f64 / sr).cos();
        im += v * (TAU * f * t as f64 / sr).sin();
    }
    (re * re + im * im).sqrt()
}
/// The filters by their methods, sample by sample
fn d05_methods<F: Float>(ops: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let tol = if tof(F::new(1e-10f64) + F::ONE) == 1.0 { 1e-4 } else { 1e-9 };
    let mut one = [OnePole::<F>::new(), OnePole::<F>::default()];
    let (mut b, mut last) = ([0.0; 2], [0.0; 2]);
    let mut svf = SvfFilter::<F>::new(SvfFilterType::Low, F::new(50.0), F::ONE, F::ZERO);
    svf.set_coeffs(F::new(50.0), F::ONE, F::ZERO, F::new(1024.0));
    let mut m = SvfModel { sr: 1024.0, ty: 0, f: 50.0, q: 1.0, gain: 0.0, s1: 0.0, s2: 0.0 };
    let (mut high, mut t) = ([false; 2], 0);
    for op in ops {
        let k = t / 3 % 2;
        match op {
            0 => {
                // only the memory is reset
                one[k].reset();
                last[k] = 0.0;
            }
            1..=3 => {
                let (f, sr) = [(0.5, 1024.0), (300.0, 48000.0), (400.0, 1024.0)][*op as usize - 1];
                if op % 2 == 1 { one[k].set_freq_lowpass(F::new(f), F::new(sr)) } else { one[k].set_freq_highpass(F::new(f), F::new(sr)) };
                b[k] = (-TAU * f / sr).exp();
            }
            4 => high[k] = !high[k],
            5 => one[k] = one[1 - k],
            _ => {
                (m.f, m.q, m.gain, m.sr) = [(100.0, 4.0, 0.0, 1024.0), (5000.0, 0.5, 6.0, 48000.0)][*op as usize - 6];
                svf.set_coeffs(F::new(m.f), F::new(m.q), F::new(m.gain), F::new(m.sr));
            }
        }
        if *op == 5 {
            (b[k], last[k]) = (b[1 - k], last[1 - k]);
        }
        for _ in 0..3 {
            for k in 0..2 {
                let x = noise(t + 40 * k);
                last[k] = (1.0 - b[k]) * x + b[k] * last[k];
                let (y, want) = if high[k] { (one[k].process_hp(F::new(x)), x - last[k]) } else { (one[k].process_lp(F::new(x)), last[k]) };
                check!((tof(y) - want).abs() < tol, "one-pole", "instance {k}, frame {t} after {op}: {} rather than {want}", tof(y));
            }
            let (x, y) = (noise(t), svf.process_sample(F::new(noise(t))));
            let want = m.next(x);
            check!((tof(y) - want).abs() < tol * (1.0 + want.abs()), "value", "state variable filter, frame {t} after {op}: {} rather than {want}", tof(y));
            t += 1;
            rec.transitions += 3;
        }
    }
    rec.state(&format!("{b:?}{high:?}{:?}", (m.f, m.s1)));
    Ok(())
}
pub fn d05(run: &Run) {
    run.assume("cutoff frequencies are above 0 and below half the sample rate, Q is positive");
    const F5: [f64; 7] = [1.0, 10.0, 100.0, 256.0, 400.0, 500.0, 511.0];
    const Q5: [f64; 5] = [0.1, 0.5, 0.7071, 2.0, 20.0];
    const G5: [f64; 5] = [0.0, -24.0, 12.0, -3.0, 40.0];
    run.explore(&Product {
        name: "state variable filter: type x cutoff x Q x gain x sample type x sample rate".into(),
        dims: vec![9, 7, 5, 5, 2, 2],
        f: |c: &[u16], rec: &mut Rec| {
            let (ty, q, db, wide, sr) = (c[0] as usize, Q5[c[2] as usize], G5[c[3] as usize], c[4] == 0, [1024, 48000][c[5] as usize]);
            if ty < 6 && c[3] > 0 {
                return Ok(());
            }
            let f = F5[c[1] as usize] * sr as f64 / 1024.0;
            // the slowest pole decides how long it takes
            let a = 10f64.powf(db.abs() / 40.0);
            let w = TAU * F5[c[1] as usize] / 1024.0;
            let near_ny = (PI * F5[c[1] as usize] / 1024.0).tan().max(1.0);
            let slow = (q.max(1.0 / q) * a * 4.0 / w.min(1.0) * near_ny * 8.0).min(3e6) as usize;
            let n = slow.max(64);
            let h = respond(svf_unit(wide, ty, f, q, db), sr, n, |t| (t == 0) as u8 as f64)?;
            check!(h.iter().all(|v| v.is_finite() && v.abs() <= 50.0 + 50.0 * a * a), "stable", "impulse response reaches {:?}", h.iter().fold(0.0, |m: f64, v| m.max(v.abs())));
            let end = h[n - n / 8..].iter().fold(0.0, |m: f64, v| m.max(v.abs()));
            let max = h.iter().fold(0.0, |m: f64, v| m.max(v.abs()));
            check!(end <= 1e-3 * max, "stable", "after {n} frames the impulse response is still {end} of {max}");
            let dc: f64 = h.iter().sum();
            let ny: f64 = h.iter().enumerate().map(|(t, v)| if t % 2 == 0 { *v } else { -*v }).sum();
            let at = amplitude(&h, f, sr as f64);
            let (wd, wn, wc) = svf_gains(ty, q, db);
            let tol = |w: f64| (if wide { 1e-2 } else { 3e-2 }) * (1.0 + w) * if wide { 1.0 } else { 1.0 + 0.02 * near_ny + 0.02 / w.min(1.0) };
            check!((dc.abs() - wd).abs() <= tol(wd), "gain-zero", "gain at frequency zero: {dc} rather than {wd}");
            check!((ny.abs() - wn).abs() <= tol(wn), "gain-nyquist", "gain at the Nyquist frequency: {ny} rather than {wn}");
            check!((at - wc).abs() <= 0.05 * (0.2 + wc), "gain-cutoff", "gain at the cutoff frequency: {at} rather than {wc}");
            let mut m = SvfModel { sr: sr as f64, ty, f, q, gain: db, s1: 0.0, s2: 0.0 };
            for (t, v) in h.iter().enumerate().take(300) {
                let w = m.next((t == 0) as u8 as f64);
                check!((v - w).abs() <= (if wide { 1e-9 } else { 2e-4 * near_ny.min(100.0) }) * (1.0 + max), "value", "frame {t} of the impulse response: {v} rather than {w}");
            }
            rec.state(&(c[0], c[1], c[2], c[3]));
            rec.transitions += n as u64;
            Ok(())
        },
        d: |c| format!("type {}, cutoff {}, Q {}, gain {}, f64 {}", c[0], F5[c[1] as usize], Q5[c[2] as usize], G5[c[3] as usize], c[4] == 0),
    });
    let n = run.pick(3, 4);
    run.explore(&Product {
        name: format!("state variable filter: type x {n} changes while running"),
        dims: [vec![9, 2, 2, 3], vec![SVF_EVS; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| d05_svf(c[0] as usize, c[1] == 0, [100.0, 300.0][c[2] as usize], &c[4..], [1, 2, 6][c[3] as usize], rec),
        d: |c| format!("type {}, f64 {}, changes {:?}", c[0], c[1] == 0, &c[4..]),
    });
    run.explore(&Product {
        name: "one pole filters: cutoff by constructor or parameter x type x sample rate".into(),
        dims: vec![2, 12, 2, 2, 3],
        f: |c: &[u16], rec: &mut Rec| {
            let (high, wide, sr) = (c[0] == 1, c[2] == 0, [1024u32, 44100, 48000][c[4] as usize]);
            let f = [0.5, 1.0, 5.0, 20.0, 100.0, 200.0, 256.0, 300.0, 400.0, 500.0, 511.0, 512.0][c[1] as usize] * sr as f64 / 1024.0;
            let by_param = high || c[3] == 1;
            let f0 = if by_param { f * 0.3 + 1.0 } else { f };
            let mut u = match (high, wide) {
                (false, true) => rig(OnePoleLpf::<f64>::new(f0)),
                (false, false) => rig(OnePoleLpf::<f32>::new(f0 as f32)),
                (true, true) => rig(OnePoleHpf::<f64>::new()),
                _ => rig(OnePoleHpf::<f32>::new()),
            };
            let n = (40.0 / (f / sr as f64).min(0.3)) as usize;
            let mut m = {
                u.init(sr, n);
                Machine::new(u, sr, n)
            };
            if by_param {
                m.setf(0, f);
            }
            let b = (-TAU * f / sr as f64).exp();
            let h = m.block(&[(0..n).map(|t| (t == 0) as u8 as f64).collect()], &Layout::Whole)?.y[0].clone();
            let tol = if wide { 1e-9 } else { 3e-5 };
            for (t, v) in h.iter().enumerate() {
                let lp = (1.0 - b) * b.powi(t as i32);
                let w = if high { (t == 0) as u8 as f64 - lp } else { lp };
                check!((v - w).abs() <= tol, "value", "cutoff {f} of {sr}, frame {t} of the impulse response: {v} rather than {w}");
            }
            let dc: f64 = h.iter().sum();
            check!((dc - if high { 0.0 } else { 1.0 }).abs() < 2e-2, "gain-zero", "gain at frequency zero: {dc}");
            rec.state(&(c[0], c[1], c[4]));
            rec.transitions += n as u64;
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    let n = run.pick(5, 7);
    run.explore(&Product {
        name: format!("one pole filters: {n} changes while running, two channels of instances"),
        dims: [vec![2, 2], vec![6; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| {
            let (high, wide) = (c[0] == 1, c[1] == 0);
            let mk = || match (high, wide) {
                (false, true) => rig(OnePoleLpf::<f64>::new(77.0)),
                (false, false) => rig(OnePoleLpf::<f32>::new(77.0)),
                (true, true) => rig(OnePoleHpf::<f64>::new()),
                _ => rig(OnePoleHpf::<f32>::new()),
            };
            let mut o = [One::new(mk(), SR, true), One::new(mk(), SR, false)];
            let b = |f: f64| (-TAU * f / SR as f64).exp();
            let mut bs = [if high { 1.0 } else { b(77.0) }; 2];
            let mut ys = [0.0; 2];
            for (i, e) in c[2..].iter().enumerate() {
                let w = i % 2;
                if *e > 0 {
                    let f = [1.0, 30.0, 100.0, 333.0, 511.0][*e as usize - 1];
                    o[w].set(0, V::F(f));
                    bs[w] = b(f);
                }
                for t in 0..3 {
                    for k in 0..2 {
                        let x = noise(i * 3 + t + 50 * k);
                        ys[k] = (1.0 - bs[k]) * x + bs[k] * ys[k];
                        let want = if high { x - ys[k] } else { ys[k] };
                        let (y, _) = o[k].next(&[x])?;
                        check!((y[0] - want).abs() < if wide { 1e-9 } else { 1e-4 }, "value", "instance {k}, change {i}, frame {t}: {} rather than {want}", y[0]);
                        rec.transitions += 1;
                    }
                }
            }
            rec.state(&(format!("{bs:?}"), high));
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
    let n = run.pick(5, 6);
    run.explore(&Product {
        name: format!("filters by their methods: sequences of {n}"),
        dims: [vec![2], vec![8; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| if c[0] == 0 { d05_methods::<f64>(&c[1..], rec) } else { d05_methods::<f32>(&c[1..], rec) },
        d: |c| format!("f64 {}, operations {:?}", c[0] == 0, &c[1..]),
    });
    // linearity
    run.explore(&Product {
        name: "linearity: filter x cutoff x scale".into(),
        dims: vec![11, 5, 4],
        f: |c: &[u16], rec: &mut Rec| {
            let f = [5.0, 50.0, 200.0, 400.0, 510.0][c[1] as usize];
            let k = [2.0, -1.0, 1e-6, 1e6][c[2] as usize];
            let mk = || match c[0] {
                9 => rig(OnePoleLpf::<f64>::new(f)),
                10 => {
                    let mut h = OnePoleHpf::<f64>::new();
                    h.op.set_freq_highpass(f, SR as f64);
                    rig(h)
                }
                t => svf_unit(true, t as usize, f, 1.5, 5.0),
            };
            let n = 64;
            let a = respond(mk(), SR, n, noise)?;
            let b = respond(mk(), SR, n, |t| noise(t + 31))?;
            let s = respond(mk(), SR, n, |t| k * (noise(t) + noise(t + 31)))?;
            for t in 0..n {
                let w = k * (a[t] + b[t]);
                check!((s[t] - w).abs() <= 1e-9 * (k.abs() + w.abs()), "linear", "frame {t}: {} rather than {w}", s[t]);
            }
            rec.state(&(c[0], c[1], c[2]));
            rec.transitions += 3 * n as u64;
            Ok(())
        },
        d: |c| format!("{c:?}"),
    });
}
