//! G15: the expressions and routing methods of `GraphEdit` against what they denote.
use crate::common::*;
use crate::tu::*;
use crate::world::*;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, Frame, Param, ParameterHint, ParameterValue, Size, UGen, UGenFlags};
use knaster_core::numeric_array::NumericArray;
use knaster_core_dsp::wrappers_core::WrArParams;
use knaster_graph::graph_edit::*;
use knaster_graph::handle::HandleTrait;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::marker::PhantomData;

// ------------------------------------------------------------ expressions
const TABLE: [f64; 13] = [-2.5, 0.0, 1.0, 3.0, -1.0, 0.5, 2.0, -0.0, 4.0, 7.25, -3.0, 0.1, 1e30];
fn table<F: Float>(k: usize, ch: usize, t: usize) -> F {
    F::new(TABLE[(k * 5 + ch * 4 + t) % TABLE.len()])
}
/// A source of varied values: negative, zero, fractions, large.
struct Sg<F, O: Size> {
    k: usize,
    t: usize,
    _p: PhantomData<(F, NumericArray<(), O>)>,
}
impl<F, O: Size> Sg<F, O> {
    fn new(k: usize) -> Self {
        Sg { k, t: 0, _p: PhantomData }
    }
}
unsafe impl<F, O: Size> Send for Sg<F, O> {}
impl<F: Float, O: Size> UGen for Sg<F, O> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, O> {
        let mut f = Frame::<F, O>::default();
        for c in 0..O::USIZE {
            f[c] = table(self.k, c, self.t);
        }
        self.t += 1;
        f
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Add,
    Sub,
    Mul,
    Div,
    Pow,
}
const OPS: [O; 5] = [O::Add, O::Sub, O::Mul, O::Div, O::Pow];
/// Ways to have a value
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    /// all outputs of a node
    Node,
    /// chosen outputs of a node with three
    Out,
    Inputs,
    Stack,
    Dyn,
    DynOut,
    DynStack,
    /// a static and a dynamic handle stacked
    MixStack,
    DynInputs,
}
const FORMS: [Form; 9] = [Form::Node, Form::Out, Form::Inputs, Form::Stack, Form::Dyn, Form::DynOut, Form::DynStack, Form::MixStack, Form::DynInputs];
#[derive(Clone, Copy, Debug)]
enum K {
    F32(f32),
    F64(f64),
    U(usize),
    I(i32),
}
const KS: [K; 10] = [K::F64(0.1), K::I(-3), K::U(5), K::F32(0.1), K::F64(-0.0), K::I(16777217), K::U(33554433), K::F64(2.0), K::F32(-1.5), K::F64(1e300)];
impl K {
    fn f<F: Float>(self) -> F {
        match self {
            K::F32(x) => F::new(x as f64),
            K::F64(x) => F::new(x),
            K::U(x) => F::new(x as f64),
            K::I(x) => F::new(x as f64),
        }
    }
}
#[derive(Clone, Debug)]
enum E {
    L(Form, usize),
    K(K),
    B(O, Box<E>, Box<E>),
}
fn order(n: usize, which: usize) -> [u16; 3] {
    // of three channels
    match (n, which) {
        (_, 0) => [2, 0, 1],
        _ => [1, 2, 0],
    }
}
fn apply<F: Float>(o: O, a: F, b: F) -> F {
    match o {
        O::Add => a + b,
        O::Sub => a - b,
        O::Mul => a * b,
        O::Div => a / b,
        O::Pow => a.powf(b),
    }
}
/// What the expression denotes on channel `c` of frame `t`
fn eval<F: Float>(e: &E, n: usize, c: usize, t: usize) -> F {
    match e {
        E::L(f, w) => match f {
            Form::Node | Form::Dyn => table(*w, c, t),
            Form::Out | Form::DynOut => table(2 + w, order(n, *w)[c] as usize, t),
            Form::Inputs | Form::DynInputs => table(8, order(n, *w)[c] as usize, t),
            _ => {
                // one channel of the first, and the rest of the second
                if c == 0 { table(4 + w, 0, t) } else { table(6 + w, c - 1, t) }
            }
        },
        E::K(k) => k.f(),
        E::B(o, a, b) => apply(*o, eval(a, n, c, t), eval(b, n, c, t)),
    }
}
macro_rules! width {
    ($name:ident, $n:literal, $N:ty, $Rest:ty) => {
        fn $name<F: Float>(e: &E, route: usize, frames: usize) -> Result<(Vec<Vec<F>>, usize), Fail> {
            type St<F> = Stack<Handle3<Sg<F, U1>>, Handle3<Sg<F, $Rest>>>;
            enum V<'a, 'b, F: Float> {
                H(SH<'a, 'b, F, Handle3<Sg<F, $N>>>),
                C(SH<'a, 'b, F, ChannelsHandle<$N>>),
                S(SH<'a, 'b, F, St<F>>),
                D(DH<'a, 'b, F, DynamicHandle3>),
                E(DH<'a, 'b, F, DynamicChannelsHandle>),
                K(K),
            }
            struct Nodes<'a, 'b, F: Float> {
                n: [SH<'a, 'b, F, Handle3<Sg<F, $N>>>; 2],
                w: [SH<'a, 'b, F, Handle3<Sg<F, U3>>>; 2],
                s1: [SH<'a, 'b, F, Handle3<Sg<F, U1>>>; 2],
                s2: [SH<'a, 'b, F, Handle3<Sg<F, $Rest>>>; 2],
            }
            fn build<'a, 'b, F: Float>(g: &'a GraphEdit<'b, F>, x: &Nodes<'a, 'b, F>, e: &E) -> V<'a, 'b, F> {
                let (o, a, b) = match e {
                    E::K(k) => return V::K(*k),
                    E::L(f, w) => {
                        let ord: [u16; $n] = std::array::from_fn(|i| order($n, *w)[i]);
                        return match f {
                            Form::Node => V::H(x.n[*w]),
                            Form::Dyn => V::D(x.n[*w].dynamic()),
                            Form::Out => V::C(x.w[*w].out(ord)),
                            Form::DynOut => V::E(x.w[*w].dynamic().out::<$N>(ord)),
                            Form::Inputs => V::C(g.from_inputs(ord).unwrap()),
                            Form::DynInputs => V::E(g.from_inputs::<$N>(ord).unwrap().dynamic()),
                            Form::Stack if *w == 0 => V::S(x.s1[0] | x.s2[0]),
                            Form::Stack => V::S(x.s1[*w].stack(x.s2[*w])),
                            Form::DynStack if *w == 0 => V::E(x.s1[0].dynamic() | x.s2[0].dynamic()),
                            Form::DynStack => V::E(x.s1[*w].stack(x.s2[*w]).dynamic()),
                            Form::MixStack if *w == 0 => V::E(x.s1[0] | x.s2[0].dynamic()),
                            Form::MixStack => V::E(x.s1[*w].dynamic() | x.s2[*w]),
                        };
                    }
                    E::B(o, a, b) => (*o, build(g, x, a), build(g, x, b)),
                };
                macro_rules! st { ($a:expr, $b:expr, $op:tt) => { match $b {
                    V::H(b) => V::C($a $op b), V::C(b) => V::C($a $op b), V::S(b) => V::C($a $op b), V::D(b) => V::E($a $op b), V::E(b) => V::E($a $op b),
                    V::K(K::F32(k)) => V::C($a $op k), V::K(K::F64(k)) => V::C($a $op k), V::K(K::U(k)) => V::C($a $op k), V::K(K::I(k)) => V::C($a $op k),
                } } }
                macro_rules! dy { ($a:expr, $b:expr, $op:tt) => { match $b {
                    V::H(b) => V::E($a $op b), V::C(b) => V::E($a $op b), V::S(b) => V::E($a $op b), V::D(b) => V::E($a $op b), V::E(b) => V::E($a $op b),
                    V::K(K::F32(k)) => V::E($a $op k), V::K(K::F64(k)) => V::E($a $op k), V::K(K::U(k)) => V::E($a $op k), V::K(K::I(k)) => V::E($a $op k),
                } } }
                macro_rules! ko { ($a:expr, $b:expr, $op:tt) => { match $b {
                    V::H(b) => V::C($a $op b), V::C(b) => V::C($a $op b), V::S(b) => V::C($a $op b), V::D(b) => V::E($a $op b), V::E(b) => V::E($a $op b),
                    V::K(_) => panic!("two constants"),
                } } }
                macro_rules! bin { ($op:tt) => { match a {
                    V::H(a) => st!(a, b, $op), V::C(a) => st!(a, b, $op), V::S(a) => st!(a, b, $op), V::D(a) => dy!(a, b, $op), V::E(a) => dy!(a, b, $op),
                    V::K(K::F32(k)) => ko!(k, b, $op), V::K(K::F64(k)) => ko!(k, b, $op), V::K(K::U(k)) => ko!(k, b, $op), V::K(K::I(k)) => ko!(k, b, $op),
                } } }
                macro_rules! pow_s { ($a:expr, $b:expr) => { match $b {
                    V::H(b) => V::C($a.pow(b)), V::C(b) => V::C($a.pow(b)), V::S(b) => V::C($a.pow(b)), V::D(b) => V::E($a.dynamic().pow(b)), V::E(b) => V::E($a.dynamic().pow(b)), V::K(_) => panic!("power of constants"),
                } } }
                macro_rules! pow_d { ($a:expr, $b:expr) => { match $b {
                    V::H(b) => V::E($a.pow(b.dynamic())), V::C(b) => V::E($a.pow(b.dynamic())), V::S(b) => V::E($a.pow(b.dynamic())), V::D(b) => V::E($a.pow(b)), V::E(b) => V::E($a.pow(b)), V::K(_) => panic!("power of constants"),
                } } }
                match o {
                    O::Add => bin!(+),
                    O::Sub => bin!(-),
                    O::Mul => bin!(*),
                    O::Div => bin!(/),
                    O::Pow => match a {
                        V::H(a) => pow_s!(a, b), V::C(a) => pow_s!(a, b), V::S(a) => pow_s!(a, b), V::D(a) => pow_d!(a, b), V::E(a) => pow_d!(a, b),
                        V::K(_) => panic!("power of constants"),
                    },
                }
            }
            let (mut graph, mut proc, _log) = AudioProcessor::<F>::new::<U3, U3>(AudioProcessorOptions { block_size: frames, sample_rate: 48000, ring_buffer_size: 16, log_channel_capacity: 4 });
            graph.edit(|g| {
                let x = Nodes {
                    n: [g.push(Sg::new(0)), g.push(Sg::new(1))],
                    w: [g.push(Sg::new(2)), g.push(Sg::new(3))],
                    s1: [g.push(Sg::new(4)), g.push(Sg::new(5))],
                    s2: [g.push(Sg::new(6)), g.push(Sg::new(7))],
                };
                macro_rules! out { ($h:expr) => {{
                    let h = $h;
                    let rev: [u16; $n] = std::array::from_fn(|i| ($n - 1 - i) as u16);
                    match route {
                        0 => h.to_graph_out(),
                        1 => h.to_graph_out_channels::<$N>(rev),
                        2 => {
                            x.n[0].to_graph_out();
                            h.to_graph_out_replace()
                        }
                        _ => {
                            x.n[1].to_graph_out();
                            h.to_graph_out_channels_replace::<$N>(rev)
                        }
                    }
                }} }
                match build(&g, &x, e) {
                    V::H(h) => out!(h),
                    V::C(h) => out!(h),
                    V::S(h) => out!(h),
                    V::D(h) => out!(h),
                    V::E(h) => out!(h),
                    V::K(_) => panic!("constant"),
                }
            });
            let input: Vec<Vec<F>> = (0..3).map(|c| (0..frames).map(|t| table(8, c, t)).collect()).collect();
            proc.run(&input.iter().map(|v| v.as_slice()).collect::<Vec<_>>());
            use knaster_core::BlockRead;
            let ob = proc.output_block();
            Ok(((0..3).map(|c| ob.channel_as_slice(c).to_vec()).collect(), graph.inspection().nodes.len()))
        }
    };
}
width!(width1, 1, U1, U0);
width!(width2, 2, U2, U1);
width!(width3, 3, U3, U2);
fn expr<F: Float>(n: usize, e: &E, route: usize, rec: &mut Rec) -> Result<(), Fail> {
    let frames = 4;
    let (y, _) = match n {
        1 => width1::<F>(e, route, frames)?,
        2 => width2::<F>(e, route, frames)?,
        _ => width3::<F>(e, route, frames)?,
    };
    for c in 0..3 {
        let from = if c >= n { None } else if route % 2 == 0 { Some(c) } else { Some(n - 1 - c) };
        for t in 0..frames {
            let w: F = from.map(|c| eval(e, n, c, t)).unwrap_or(F::ZERO);
            let (got, w) = (Float::to_f64(y[c][t]), Float::to_f64(w));
            check!(got == w || got.is_nan() && w.is_nan(), "value", "frame {t}, output {c}: {got} rather than {w}");
            rec.transitions += 1;
        }
    }
    rec.state(&format!("{n}{e:?}"));
    Ok(())
}
fn exprs(n: u16, wide: bool, e: &E, route: usize, rec: &mut Rec) -> Result<(), Fail> {
    if wide { expr::<f64>(n as usize, e, route, rec) } else { expr::<f32>(n as usize, e, route, rec) }
}
fn bin(o: O, a: E, b: E) -> E {
    E::B(o, Box::new(a), Box::new(b))
}
fn konst(e: &E) -> bool {
    matches!(e, E::K(_))
}

// ------------------------------------------------------------ routing
/// Sources with one, two and four outputs, sinks with as many inputs.
#[derive(Clone, Copy, Debug, PartialEq)]
enum So {
    A,
    AOut10,
    B,
    BOut10,
    In01,
    In10,
    COutA1,
    C,
    A1,
    In1,
    AB,
    BA,
}
const SO2: [So; 7] = [So::A, So::AOut10, So::B, So::BOut10, So::In01, So::In10, So::COutA1];
const SO1: [So; 3] = [So::C, So::A1, So::In1];
const SO4: [So; 2] = [So::AB, So::BA];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Si {
    B,
    C,
    BC,
    CB,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Md {
    To,
    Shr,
    Fb,
    Rep,
    FbRep,
    Try,
    /// static to dynamic, dynamic to static
    ShrSD,
    ShrDS,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rt {
    To(So, Si, Md),
    /// to the graph's outputs: replacing, reversed channels
    Out(So, bool, bool),
    DiscOut(So, u16),
    DiscIn(Si, u16),
    /// parameter of C from the first output
    Link(So, usize),
}
fn so(s: So) -> Vec<(R, u16)> {
    let (a, b, c, i) = (R::N(0), R::N(1), R::N(2), R::G);
    match s {
        So::A => vec![(a, 0), (a, 1)],
        So::AOut10 => vec![(a, 1), (a, 0)],
        So::B => vec![(b, 0), (b, 1)],
        So::BOut10 => vec![(b, 1), (b, 0)],
        So::In01 => vec![(i, 0), (i, 1)],
        So::In10 => vec![(i, 1), (i, 0)],
        So::COutA1 => vec![(c, 0), (a, 1)],
        So::C => vec![(c, 0)],
        So::A1 => vec![(a, 1)],
        So::In1 => vec![(i, 1)],
        So::AB => vec![(a, 0), (a, 1), (b, 0), (b, 1)],
        So::BA => vec![(b, 0), (b, 1), (a, 0), (a, 1)],
    }
}
fn si(s: Si) -> Vec<(R, u16)> {
    let (b, c) = (R::N(1), R::N(2));
    match s {
        Si::B => vec![(b, 0), (b, 1)],
        Si::C => vec![(c, 0), (c, 1)],
        Si::BC => vec![(b, 0), (b, 1), (c, 0), (c, 1)],
        Si::CB => vec![(c, 0), (c, 1), (b, 0), (b, 1)],
    }
}
/// What a routing method denotes: edits of single channels
fn denote(r: Rt) -> Vec<Op> {
    match r {
        Rt::To(s, k, m) => {
            let mode = match m {
                Md::Fb => Mode::Fb,
                Md::Rep => Mode::Rep,
                Md::FbRep => Mode::FbRep,
                _ => Mode::Add,
            };
            so(s).iter().zip(si(k)).map(|((s, c), (k, d))| Op::Conn(*s, *c, k, d, mode)).collect()
        }
        Rt::Out(s, rep, rev) => {
            let v = so(s);
            let n = v.len();
            v.iter().enumerate().map(|(i, (s, c))| Op::Conn(*s, *c, R::G, if rev { n - 1 - i } else { i } as u16, if rep { Mode::Rep } else { Mode::Add })).collect()
        }
        Rt::DiscOut(s, c) => so(s).get(c as usize).map(|(s, c)| Op::DiscOut(*s, *c)).into_iter().collect(),
        Rt::DiscIn(s, c) => si(s).get(c as usize).map(|(s, c)| Op::DiscIn(*s, *c)).into_iter().collect(),
        Rt::Link(s, p) => {
            let (s, c) = so(s)[0];
            vec![Op::Par(s, c, R::N(2), Prm::I(p as u16), true)]
        }
    }
}
type TA = TU<U0, U2>;
type TB = TU<U2, U2>;
type TC = WrArParams<TU<U2, U1>>;
#[derive(Clone, Copy)]
struct Three<'a, 'b> {
    g: &'a GraphEdit<'b, S>,
    a: SH<'a, 'b, S, Handle3<TA>>,
    b: SH<'a, 'b, S, Handle3<TB>>,
    c: SH<'a, 'b, S, Handle3<TC>>,
}
/// `$f!(handle)` with the static handle of two, one or four outputs
macro_rules! so2 { ($x:expr, $s:expr, $f:ident $(, $r:expr)*) => { match $s {
    So::A => $f!($x.a $(, $r)*),
    So::AOut10 => $f!($x.a.out([1, 0]) $(, $r)*),
    So::B => $f!($x.b $(, $r)*),
    So::BOut10 => $f!($x.b.out([1, 0]) $(, $r)*),
    So::In01 => $f!($x.g.from_inputs([0, 1]).unwrap() $(, $r)*),
    So::In10 => $f!($x.g.from_inputs([1, 0]).unwrap() $(, $r)*),
    So::COutA1 => $f!($x.c.out(0).stack($x.a.out(1)) $(, $r)*),
    _ => panic!("outputs"),
} } }
macro_rules! so1 { ($x:expr, $s:expr, $f:ident $(, $r:expr)*) => { match $s {
    So::C => $f!($x.c $(, $r)*),
    So::A1 => $f!($x.a.out(1) $(, $r)*),
    So::In1 => $f!($x.g.from_inputs(1).unwrap() $(, $r)*),
    _ => panic!("outputs"),
} } }
macro_rules! so4 { ($x:expr, $s:expr, $f:ident $(, $r:expr)*) => { match $s {
    So::AB => $f!($x.a | $x.b $(, $r)*),
    So::BA => $f!($x.b.stack($x.a) $(, $r)*),
    _ => panic!("outputs"),
} } }
fn static_edit(x: Three, r: Rt) {
    match r {
        Rt::To(s, k, m) => {
            macro_rules! go { ($s:expr, $k:expr) => {{
                let (s, k) = ($s, $k);
                match m {
                    Md::To => { s.to(k); }
                    Md::Shr => { s >> k; }
                    Md::Fb => { s.to_feedback(k); }
                    Md::Rep => { s.to_replace(k); }
                    Md::FbRep => { s.to_feedback_replace(k); }
                    Md::ShrSD | Md::Try => { s >> k.dynamic(); }
                    Md::ShrDS => { s.dynamic() >> k; }
                }
            }} }
            match k {
                Si::B => so2!(x, s, go, x.b),
                Si::C => so2!(x, s, go, x.c),
                Si::BC => so4!(x, s, go, x.b | x.c),
                Si::CB => so4!(x, s, go, x.c.stack(x.b)),
            }
        }
        Rt::Out(s, rep, rev) => {
            macro_rules! two { ($s:expr) => { match (rep, rev) {
                (false, false) => $s.to_graph_out(),
                (true, false) => $s.to_graph_out_replace(),
                (false, true) => $s.to_graph_out_channels([1, 0]),
                (true, true) => $s.to_graph_out_channels_replace([1, 0]),
            } } }
            macro_rules! one { ($s:expr) => { match (rep, rev) {
                (false, false) => $s.to_graph_out(),
                (true, false) => $s.to_graph_out_replace(),
                (false, true) => $s.to_graph_out_channels(0),
                (true, true) => $s.to_graph_out_channels_replace(0),
            } } }
            if SO2.contains(&s) { so2!(x, s, two) } else { so1!(x, s, one) }
        }
        Rt::DiscOut(s, ch) => {
            macro_rules! go { ($s:expr) => { ($s).disconnect_output(ch) } }
            if SO2.contains(&s) { so2!(x, s, go) } else if SO1.contains(&s) { so1!(x, s, go) } else { so4!(x, s, go) }
        }
        Rt::DiscIn(k, ch) => match k {
            Si::B => x.b.disconnect_input(ch),
            Si::C => x.c.disconnect_input(ch),
            Si::BC => (x.b | x.c).disconnect_input(ch),
            Si::CB => x.c.stack(x.b).disconnect_input(ch),
        },
        Rt::Link(s, p) => {
            macro_rules! go { ($s:expr) => {{ x.c.link(Param::Index(p), $s); }} }
            so1!(x, s, go)
        }
    }
}
type Dy<'a, 'b> = DH<'a, 'b, S, DynamicChannelsHandle>;
fn dyn_edit<'a, 'b>(g: &'a GraphEdit<'b, S>, h: [DH<'a, 'b, S, DynamicHandle3>; 3], r: Rt) -> Result<(), knaster_graph::graph::GraphError> {
    let [a, b, c] = h;
    // a handle of a node stays one, everything else is channels
    let src = |s: So| -> Dy {
        match s {
            So::A => a.to_channels_handle(),
            So::AOut10 => a.out([1, 0]),
            So::B => b.to_channels_handle(),
            So::BOut10 => b.out([1, 0]),
            So::In01 => g.from_inputs([0, 1]).unwrap().dynamic(),
            So::In10 => g.from_inputs([1, 0]).unwrap().dynamic(),
            So::COutA1 => c.out(0).stack(a.out(1)),
            So::C => c.out(0),
            So::A1 => a.out(1),
            So::In1 => g.from_inputs(1).unwrap().dynamic(),
            So::AB => a | b,
            So::BA => b.stack(a),
        }
    };
    let sink = |k: Si| -> Dy {
        match k {
            Si::B => b.to_channels_handle(),
            Si::C => c.to_channels_handle(),
            Si::BC => b | c,
            Si::CB => c.stack(b),
        }
    };
    match r {
        Rt::To(s, k, m) => {
            macro_rules! go { ($s:expr, $k:expr) => {{
                let (s, k) = ($s, $k);
                match m {
                    Md::To | Md::ShrDS => { s.to(k); }
                    Md::Shr | Md::ShrSD => { s >> k; }
                    Md::Fb => { s.to_feedback(k); }
                    Md::Rep => { s.to_replace(k); }
                    Md::FbRep => { s.to_feedback_replace(k); }
                    Md::Try => { s.try_to(k)?; }
                }
            }} }
            match (s, k) {
                (So::A, Si::B) => go!(a, b),
                (So::B, Si::C) => go!(b, c),
                (So::B, Si::B) => go!(b, b),
                (So::C, Si::B) => go!(c, b),
                (s, Si::B) => go!(src(s), b),
                (So::A, k) => go!(a, sink(k)),
                (s, k) => go!(src(s), sink(k)),
            }
        }
        Rt::Out(s, rep, rev) => {
            macro_rules! go { ($s:expr) => {{
                let s = $s;
                match (rep, rev, so(r_so(r)).len()) {
                    (false, false, _) => s.to_graph_out(),
                    (true, false, _) => s.to_graph_out_replace(),
                    (false, true, 1) => s.to_graph_out_channels::<U1>(0),
                    (true, true, 1) => s.to_graph_out_channels_replace::<U1>(0),
                    (false, true, 2) => s.to_graph_out_channels::<U2>([1, 0]),
                    (true, true, 2) => s.to_graph_out_channels_replace::<U2>([1, 0]),
                    (false, true, _) => s.to_graph_out_channels::<U4>([3, 2, 1, 0]),
                    (true, true, _) => s.to_graph_out_channels_replace::<U4>([3, 2, 1, 0]),
                }
            }} }
            match s {
                So::A => go!(a),
                So::B => go!(b),
                So::C => go!(c),
                s => go!(src(s)),
            }
        }
        Rt::DiscOut(s, ch) => match s {
            So::A => a.disconnect_output(ch),
            So::B => b.disconnect_output(ch),
            s => src(s).disconnect_output(ch),
        },
        Rt::DiscIn(k, ch) => match k {
            Si::B => b.disconnect_input(ch),
            k => sink(k).disconnect_input(ch),
        },
        Rt::Link(s, p) => {
            match s {
                So::In1 => c.link(Param::Index(p), g.from_inputs(1).unwrap()),
                // a link takes static handles only
                _ => return Ok(()),
            };
        }
    }
    Ok(())
}
fn r_so(r: Rt) -> So {
    match r {
        Rt::To(s, ..) | Rt::Out(s, ..) | Rt::DiscOut(s, _) | Rt::Link(s, _) => s,
        _ => So::A,
    }
}
/// All routings of a kind of handles
fn alphabet(dynamic: bool) -> Vec<Rt> {
    let mut v = vec![];
    let modes: &[Md] = if dynamic { &[Md::To, Md::Shr, Md::Fb, Md::Rep, Md::FbRep, Md::Try] } else { &[Md::To, Md::Shr, Md::Fb, Md::Rep, Md::FbRep, Md::ShrSD, Md::ShrDS] };
    for m in modes {
        for s in SO2 {
            v.push(Rt::To(s, Si::B, *m));
            v.push(Rt::To(s, Si::C, *m));
        }
        for s in SO4 {
            v.push(Rt::To(s, Si::BC, *m));
            v.push(Rt::To(s, Si::CB, *m));
        }
        if dynamic {
            // as many as both have
            v.push(Rt::To(So::C, Si::B, *m));
            v.push(Rt::To(So::AB, Si::C, *m));
            v.push(Rt::To(So::A1, Si::BC, *m));
            v.push(Rt::To(So::B, Si::BC, *m));
        }
    }
    for s in SO2.into_iter().chain(SO1).chain(if dynamic { SO4.to_vec() } else { vec![] }) {
        for (rep, rev) in [(false, false), (true, false), (false, true), (true, true)] {
            v.push(Rt::Out(s, rep, rev));
        }
    }
    for (s, c) in [(So::A, 0), (So::A, 1), (So::AOut10, 0), (So::B, 1), (So::C, 0), (So::In01, 1), (So::In1, 0), (So::COutA1, 1), (So::AB, 2), (So::BA, 0)] {
        v.push(Rt::DiscOut(s, c));
    }
    for (s, c) in [(Si::B, 0), (Si::B, 1), (Si::C, 0), (Si::C, 1), (Si::BC, 2), (Si::CB, 3)] {
        v.push(Rt::DiscIn(s, c));
    }
    if !dynamic {
        v.push(Rt::Link(So::A1, 0));
        v.push(Rt::Link(So::A1, 1));
        v.push(Rt::Link(So::C, 0));
    }
    v.push(Rt::Link(So::In1, 1));
    v
}
/// The same in the model; whether anything was refused
fn in_model(w: &mut World, r: Rt) -> bool {
    if let Rt::Link(So::In1, _) = r {
        // documented not to be supported
        return false;
    }
    let mut refused = false;
    for op in denote(r) {
        if !w.model_only(&op).is_empty() {
            refused = true;
            if let Rt::To(_, _, Md::Try) = r {
                break;
            }
        }
    }
    refused
}
/// The static interface panics on some refusals, by design
fn panics(w: &mut World, r: Rt) -> bool {
    matches!(r, Rt::To(_, _, Md::Rep | Md::FbRep) | Rt::Out(..) | Rt::DiscOut(..) | Rt::DiscIn(..)) && w.any_refused(&denote(r))
}
fn start(w: &mut World) {
    for (i, o, ar) in [(0, 2, false), (2, 2, false), (2, 1, true)] {
        w.model_push(Kind { i, o, ar });
    }
}
fn check_runs(w: &mut World, rec: &mut Rec, n: usize) -> Result<(), Fail> {
    for _ in 0..n {
        w.run()?;
        rec.transitions += 1;
    }
    rec.state(&(&w.pend, &w.com));
    Ok(())
}
const CFG: Cfg = Cfg::new(3, 2, 2);
/// all routings within one edit, by static handles (and after it an edit with dynamic ones)
fn routes_static(rs: &[Rt], then: Option<Rt>, rec: &mut Rec) -> Result<(), Fail> {
    let mut w = World::new(&CFG);
    start(&mut w);
    let ((ta, oa), (tb, ob), (tc, oc)) = (TA::new(1), TB::new(2), TU::<U2, U1>::new(3));
    let mut graph = w.graph.0.take().unwrap();
    let ids = graph.edit(|g| {
        let x = Three { g: &g, a: g.push(ta).name("a"), b: g.push(tb).name("b"), c: g.push(WrArParams::new(tc)).name("c") };
        for r in rs {
            if panics(&mut w, *r) {
                continue;
            }
            in_model(&mut w, *r);
            static_edit(x, *r);
            rec.step();
        }
        [x.a.id(), x.b.id(), x.c.id()]
    });
    for (id, obs) in ids.into_iter().zip([oa, ob, oc]) {
        w.adopt(id, obs);
    }
    w.graph.0 = Some(graph);
    w.dirty = true;
    w.com = w.pend.clone();
    check_runs(&mut w, rec, 2)?;
    if let Some(r) = then {
        dynamic_one(&mut w, r, rec)?;
        check_runs(&mut w, rec, 2)?;
    }
    w.check_count()
}
fn dynamic_one(w: &mut World, r: Rt, rec: &mut Rec) -> Result<(), Fail> {
    if matches!(r, Rt::DiscOut(..) | Rt::DiscIn(..)) && panics(w, r) {
        return Ok(());
    }
    let ids = [0, 1, 2].map(|i| w.node_id(R::N(i)));
    let refused = in_model(w, r);
    let mut graph = w.graph.0.take().unwrap();
    let res = graph.edit(|g| {
        let h = [g.handle(ids[0]).unwrap(), g.handle_from_name("b").unwrap_or_else(|| g.handle(ids[1]).unwrap()), g.handle(ids[2]).unwrap()];
        dyn_edit(&g, h, r)
    });
    w.graph.0 = Some(graph);
    if let Rt::To(_, _, Md::Try) = r {
        check!(res.is_err() == refused, "try-to", "{r:?} returned {res:?}, refused connections: {refused}");
    }
    w.com = w.pend.clone();
    rec.step();
    Ok(())
}
fn routes_dynamic(rs: &[Rt], rec: &mut Rec) -> Result<(), Fail> {
    let mut w = World::new(&CFG);
    for (i, o, ar) in [(0, 2, false), (2, 2, false), (2, 1, true)] {
        w.apply(&Op::Push(Kind { i, o, ar }))?;
    }
    w.commit();
    for r in rs {
        dynamic_one(&mut w, *r, rec)?;
        check_runs(&mut w, rec, 1)?;
    }
    check_runs(&mut w, rec, 1)?;
    w.check_count()
}
// ------------------------------------------------------------ many channels
/// Passes its inputs to its outputs.
struct Pass<F, N: Size>(PhantomData<(F, NumericArray<(), N>)>);
unsafe impl<F, N: Size> Send for Pass<F, N> {}
impl<F: Float, N: Size> UGen for Pass<F, N> {
    type Sample = F;
    type Inputs = N;
    type Outputs = N;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, x: Frame<F, N>) -> Frame<F, N> {
        x
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
const MOST: usize = 20;
const FR: usize = 4;
fn wide_proc<F: Float>() -> (knaster_graph::graph::Graph<F>, AudioProcessor<F>, knaster_core::log::ArLogReceiver<U1>) {
    AudioProcessor::<F>::new::<U20, U20>(AudioProcessorOptions { block_size: FR, sample_rate: 48000, ring_buffer_size: 16, log_channel_capacity: 4 })
}
/// the graph inputs have the values of table 8
fn wide_run<F: Float>(proc: &mut AudioProcessor<F>, from: usize) -> Vec<Vec<F>> {
    let input: Vec<Vec<F>> = (0..MOST).map(|c| (0..FR).map(|t| table(8, c, from + t)).collect()).collect();
    proc.run(&input.iter().map(|v| v.as_slice()).collect::<Vec<_>>());
    use knaster_core::BlockRead;
    let ob = proc.output_block();
    (0..MOST).map(|c| ob.channel_as_slice(c).to_vec()).collect()
}
fn same<F: Float>(what: &str, got: &[Vec<F>], want: impl Fn(usize, usize) -> F, rec: &mut Rec) -> Result<(), Fail> {
    for c in 0..MOST {
        for t in 0..FR {
            let (g, w) = (Float::to_f64(got[c][t]), Float::to_f64(want(c, t)));
            check!(g == w || g.is_nan() && w.is_nan(), "value", "{what}frame {t}, output {c}: {g} rather than {w}");
            rec.transitions += 1;
        }
    }
    Ok(())
}
const FOLDS: [&str; 4] = ["each appended", "each put in front", "by halves", "by twos"];
const DOINGS: usize = 5 + 8 + 3;
/// `n` nodes stacked, an operation and a way out
fn wide_dynamic<F: Float>(n: usize, fold: usize, what: usize, way: usize, rec: &mut Rec) -> Result<(), Fail> {
    let (mut graph, mut proc, _log) = wide_proc::<F>();
    graph.edit(|g| {
        let pass = g.push(Pass::<F, U20>(PhantomData));
        let xs: Vec<_> = (0..n).map(|i| g.push(Sg::<F, U1>::new(i))).collect();
        fn stack<'a, 'b, F: Float>(xs: &[SH<'a, 'b, F, Handle3<Sg<F, U1>>>], fold: usize) -> DH<'a, 'b, F, DynamicChannelsHandle> {
            match fold {
                0 => xs[1..].iter().fold(xs[0].out(0).dynamic(), |a, x| a | *x),
                1 => xs[..xs.len() - 1].iter().rev().fold(xs[xs.len() - 1].out(0).dynamic(), |a, x| *x | a),
                2 if xs.len() > 1 => {
                    let (a, b) = xs.split_at(xs.len() / 2);
                    stack(a, 2) | stack(b, 2)
                }
                3 if xs.len() > 1 => {
                    let mut c: Vec<DH<F, DynamicChannelsHandle>> = xs.chunks(2).map(|p| if p.len() == 2 { p[0].stack(p[1]).dynamic() } else { p[0].out(0).dynamic() }).collect();
                    let first = c.remove(0);
                    c.into_iter().fold(first, |a, x| a.stack(x))
                }
                _ => xs[0].out(0).dynamic(),
            }
        }
        let back: Vec<_> = xs.iter().rev().copied().collect();
        macro_rules! out { ($h:expr) => {{
            let h = $h;
            match way {
                0 => h.to_graph_out(),
                1 => {
                    g.from_inputs::<U20>(std::array::from_fn::<u16, 20, _>(|i| i as u16)).unwrap().to_graph_out();
                    h.to_graph_out_replace()
                }
                2 => { h.to(pass.dynamic()).to_graph_out() }
                3 => {
                    h.to_feedback(pass.dynamic());
                    pass.to_graph_out()
                }
                _ => {
                    pass.dynamic().to_graph_out();
                    h >> pass;
                }
            }
        }} }
        let (a, b) = (stack(&xs, fold), stack(&back, (fold + 1) % 4));
        match what {
            0 => out!(a + b),
            1 => out!(a - b),
            2 => out!(a * b),
            3 => out!(a / b),
            4 => out!(a.pow(b)),
            5 => out!(a + 0.1f64),
            6 => out!(a - 3usize),
            7 => out!(a * -2i32),
            8 => out!(a / 0.7f32),
            9 => out!(0.1f64 + a),
            10 => out!(3usize - a),
            11 => out!(-2i32 * a),
            12 => out!(0.7f32 / a),
            13 => out!(a),
            // all in one: sum, and operations by turns
            14 => out!(xs[1..].iter().fold(xs[0].out(0).dynamic(), |a, x| a + *x)),
            _ => out!(xs[1..].iter().enumerate().fold(xs[0].out([0u16; 1]), |a, (i, x)| match i % 4 { 0 => a - *x, 1 => *x + a, 2 => a * *x, _ => a / 2.0f64 }).dynamic()),
        }
    });
    for b in 0..2 {
        let got = wide_run(&mut proc, b * FR);
        if way == 3 && b == 0 {
            same("", &got, |_, _| F::ZERO, rec)?;
            continue;
        }
        let t0 = if way == 3 { 0 } else { b * FR };
        same(&format!("block {b}: "), &got, |c, t| {
            let t = t + t0;
            let x = |i: usize| table::<F>(i, 0, t);
            let width = if what >= 14 { 1 } else { n };
            if c >= width {
                // replaced are only those connected
                return if way == 1 { table(8, c, t) } else { F::ZERO };
            }
            let (a, b) = (x(c), x(n - 1 - c));
            match what {
                0 => a + b,
                1 => a - b,
                2 => a * b,
                3 => a / b,
                4 => a.powf(b),
                5 => a + F::new(0.1),
                6 => a - F::new(3.0),
                7 => a * F::new(-2.0),
                8 => a / F::new(0.7f32 as f64),
                9 => F::new(0.1) + a,
                10 => F::new(3.0) - a,
                11 => F::new(-2.0) * a,
                12 => F::new(0.7f32 as f64) / a,
                13 => a,
                14 => (1..n).fold(x(0), |s, i| s + x(i)),
                _ => (1..n).enumerate().fold(x(0), |s, (j, i)| match j % 4 { 0 => s - x(i), 1 => x(i) + s, 2 => s * x(i), _ => s / F::new(2.0) }),
            }
        }, rec)?;
    }
    rec.state(&(n, fold, what, way));
    Ok(())
}
macro_rules! wide_static {
    ($name:ident, $n:literal, $N:ty) => {
        fn $name<F: Float>(what: usize, chosen: usize, way: usize, rec: &mut Rec) -> Result<(), Fail> {
            // which of the node's channels are used
            let ord: [u16; $n] = std::array::from_fn(|i| match chosen {
                0 => i,
                1 => $n - 1 - i,
                2 => (i * 3 + 1) % $n,
                3 => i / 2,
                _ => 0,
            } as u16);
            let rot: [u16; $n] = std::array::from_fn(|i| ((i + 5) % MOST) as u16);
            let (mut graph, mut proc, _log) = wide_proc::<F>();
            graph.edit(|g| {
                let pass = g.push(Pass::<F, $N>(PhantomData));
                let x = g.push(Sg::<F, $N>::new(3));
                let y = g.push(Sg::<F, $N>::new(1));
                macro_rules! out_to { ($h:expr, $pass:expr) => {{
                    let (h, pass) = ($h, $pass);
                    match way {
                        0 => h.to_graph_out(),
                        1 => h.to_graph_out_channels::<$N>(rot),
                        2 => {
                            g.from_inputs::<U20>(std::array::from_fn::<u16, 20, _>(|i| i as u16)).unwrap().to_graph_out();
                            h.to_graph_out_replace()
                        }
                        3 => {
                            g.from_inputs::<U20>(std::array::from_fn::<u16, 20, _>(|i| i as u16)).unwrap().to_graph_out();
                            h.to_graph_out_channels_replace::<$N>(rot)
                        }
                        4 => h.to(pass).to_graph_out(),
                        5 => (h >> pass).to_graph_out(),
                        6 => {
                            y.dynamic() >> pass;
                            h.to_replace(pass).to_graph_out()
                        }
                        _ => h.to_feedback(pass).to_graph_out(),
                    }
                }} }
                macro_rules! out { ($h:expr) => { out_to!($h, pass) } }
                let o = x.out(ord);
                match what {
                    0 => out!(o + y),
                    1 => out!(y - o),
                    2 => out!(o * y),
                    3 => out!(y / o),
                    4 => out!(o.pow(y)),
                    5 => out!(o + 0.1f64),
                    6 => out!(o - 3usize),
                    7 => out!(-2i32 * o),
                    8 => out!(0.7f32 / o),
                    9 => out!(g.from_inputs::<$N>(ord).unwrap()),
                    10 => out!(g.from_inputs::<$N>(ord).unwrap() - o),
                    11 => out!(o),
                    12 => out_to!(x.out(ord).dynamic() - y.out(ord), pass.dynamic()),
                    _ => out!(o * (y + o) - y),
                }
            });
            for b in 0..2 {
                let got = wide_run(&mut proc, b * FR);
                if way == 7 && b == 0 {
                    same("", &got, |_, _| F::ZERO, rec)?;
                    continue;
                }
                let t0 = if way == 7 { 0 } else { b * FR };
                same(&format!("block {b}: "), &got, |out, t| {
                    let t = t + t0;
                    let c = if way == 1 || way == 3 { (out + MOST - 5) % MOST } else { out };
                    if c >= $n {
                        return if way == 2 || way == 3 { table(8, out, t) } else { F::ZERO };
                    }
                    let k = ord[c] as usize;
                    let (o, y, i): (F, F, F) = (table(3, k, t), table(1, c, t), table(8, k, t));
                    match what {
                        0 => o + y,
                        1 => y - o,
                        2 => o * y,
                        3 => y / o,
                        4 => o.powf(y),
                        5 => o + F::new(0.1),
                        6 => o - F::new(3.0),
                        7 => F::new(-2.0) * o,
                        8 => F::new(0.7f32 as f64) / o,
                        9 => i,
                        10 => i - o,
                        11 => o,
                        12 => o - table(1, k, t),
                        _ => o * (y + o) - y,
                    }
                }, rec)?;
            }
            rec.state(&($n, what, chosen, way));
            Ok(())
        }
    };
}
wide_static!(wide4, 4, U4);
wide_static!(wide5, 5, U5);
wide_static!(wide8, 8, U8);
wide_static!(wide17, 17, U17);
wide_static!(wide20, 20, U20);
fn wide(run: &Run) {
    run.explore(&Product {
        name: "many channels, dynamic handles: type x width x stacking x operation x way out".into(),
        dims: vec![2, MOST, 4, DOINGS, 5],
        f: |c: &[u16], rec: &mut Rec| {
            let (n, fold, what, way) = (c[1] as usize + 1, c[2] as usize, c[3] as usize, c[4] as usize);
            if c[0] == 0 { wide_dynamic::<f32>(n, fold, what, way, rec) } else { wide_dynamic::<f64>(n, fold, what, way, rec) }
        },
        d: |c| format!("f64 {}, {} nodes stacked {}, operation {}, way out {}", c[0] == 1, c[1] + 1, FOLDS[c[2] as usize], c[3], c[4]),
    });
    run.explore(&Product {
        name: "many channels, static handles: type x width x operation x channels x way out".into(),
        dims: vec![2, 5, 14, 5, 8],
        f: |c: &[u16], rec: &mut Rec| {
            let (what, chosen, way) = (c[2] as usize, c[3] as usize, c[4] as usize);
            // graph inputs aren't delayed
            if what == 9 && way == 7 {
                return Ok(());
            }
            match (c[0], c[1]) {
                (0, 0) => wide4::<f32>(what, chosen, way, rec),
                (_, 0) => wide4::<f64>(what, chosen, way, rec),
                (0, 1) => wide5::<f32>(what, chosen, way, rec),
                (_, 1) => wide5::<f64>(what, chosen, way, rec),
                (0, 2) => wide8::<f32>(what, chosen, way, rec),
                (_, 2) => wide8::<f64>(what, chosen, way, rec),
                (0, 3) => wide17::<f32>(what, chosen, way, rec),
                (_, 3) => wide17::<f64>(what, chosen, way, rec),
                (0, _) => wide20::<f32>(what, chosen, way, rec),
                (_, _) => wide20::<f64>(what, chosen, way, rec),
            }
        },
        d: |c| format!("f64 {}, {} channels, operation {}, channels chosen {}, way out {}", c[0] == 1, [4, 5, 8, 17, 20][c[1] as usize], c[2], c[3], c[4]),
    });
}
pub fn g15(run: &Run) {
    wide(run);
    run.assume("connections refused by the static interface panic in its replacing, graph output and disconnecting methods, by design");
    run.explore(&Product {
        name: "operations: width x type x operation x forms of both sides x routing".into(),
        dims: vec![3, 2, 5, 9, 9, 4, 4],
        f: |c: &[u16], rec: &mut Rec| {
            let which = c[5] as usize;
            exprs(c[0] + 1, c[1] == 0, &bin(OPS[c[2] as usize], E::L(FORMS[c[3] as usize], which % 2), E::L(FORMS[c[4] as usize], which / 2)), c[6] as usize, rec)
        },
        d: |c| format!("{} channels, f64 {}, {:?} of {:?} {} and {:?} {}, routed {}", c[0] + 1, c[1] == 0, OPS[c[2] as usize], FORMS[c[3] as usize], c[5] % 2, FORMS[c[4] as usize], c[5] / 2, c[6]),
    });
    run.explore(&Product {
        name: "operations with constants: width x type x operation x form x constant x side x routing".into(),
        dims: vec![3, 2, 4, 9, KS.len(), 2, 4],
        f: |c: &[u16], rec: &mut Rec| {
            let (l, k) = (E::L(FORMS[c[3] as usize], c[6] as usize % 2), E::K(KS[c[4] as usize]));
            let e = if c[5] == 0 { bin(OPS[c[2] as usize], l, k) } else { bin(OPS[c[2] as usize], k, l) };
            exprs(c[0] + 1, c[1] == 0, &e, c[6] as usize, rec)
        },
        d: |c| format!("{} channels, f64 {}, {:?} of {:?} and {:?}, constant first {}, routed {}", c[0] + 1, c[1] == 0, OPS[c[2] as usize], FORMS[c[3] as usize], KS[c[4] as usize], c[5], c[6]),
    });
    // leaves: handles, dynamic handles, constants
    const LEAVES: usize = 7;
    fn leaf(i: u16) -> E {
        match i {
            0 => E::L(Form::Node, 0),
            1 => E::L(Form::Dyn, 1),
            2 => E::L(Form::Out, 1),
            3 => E::K(KS[0]),
            4 => E::L(Form::Inputs, 0),
            5 => E::K(KS[1]),
            _ => E::L(Form::DynStack, 0),
        }
    }
    fn ok(o: O, a: &E, b: &E) -> bool {
        !(konst(a) && konst(b)) && !(o == O::Pow && (konst(a) || konst(b)))
    }
    run.explore(&Product {
        name: "expressions of three values: width x type x operations x values x side".into(),
        dims: vec![run.pick(2, 3), 2, 5, 5, LEAVES, LEAVES, LEAVES, 2],
        f: |c: &[u16], rec: &mut Rec| {
            let (o1, o2) = (OPS[c[2] as usize], OPS[c[3] as usize]);
            let (x, y, z) = (leaf(c[4]), leaf(c[5]), leaf(c[6]));
            if !ok(o1, &x, &y) || o2 == O::Pow && konst(&z) {
                return Ok(());
            }
            let i = bin(o1, x, y);
            let e = if c[7] == 0 { bin(o2, i, z) } else { bin(o2, z, i) };
            exprs([2, 1, 3][c[0] as usize], c[1] == 0, &e, (c[4] + c[5] + c[6]) as usize % 4, rec)
        },
        d: |c| format!("{} channels, f64 {}, {:?} {:?} of {:?} {:?} {:?}, side {}", c[0], c[1] == 0, OPS[c[2] as usize], OPS[c[3] as usize], leaf(c[4]), leaf(c[5]), leaf(c[6]), c[7]),
    });
    if run.thorough() {
        run.explore(&Product {
            name: "expressions of four values: width x type x operations x values x shape".into(),
            dims: vec![2, 5, 5, 5, 5, 5, 5, 5, 3],
            f: |c: &[u16], rec: &mut Rec| {
                let (o1, o2, o3) = (OPS[c[1] as usize], OPS[c[2] as usize], OPS[c[3] as usize]);
                let (x, y, z, v) = (leaf(c[4]), leaf(c[5]), leaf(c[6]), leaf(c[7]));
                let e = match c[8] {
                    0 if ok(o1, &x, &y) && ok(o2, &z, &v) => bin(o3, bin(o1, x, y), bin(o2, z, v)),
                    1 if ok(o1, &x, &y) && !(o2 == O::Pow && konst(&z)) && !(o3 == O::Pow && konst(&v)) => bin(o3, bin(o2, bin(o1, x, y), z), v),
                    2 if ok(o1, &x, &y) && !(o2 == O::Pow && konst(&z)) && !(o3 == O::Pow && konst(&v)) => bin(o3, v, bin(o2, z, bin(o1, x, y))),
                    _ => return Ok(()),
                };
                exprs(2 - c[0] % 2, c[0] == 0, &e, (c[4] + c[5] + c[6]) as usize % 4, rec)
            },
            d: |c| format!("{c:?}"),
        });
    }
    let (a, d) = (alphabet(false), alphabet(true));
    let (na, nd) = (a.len(), d.len());
    run.explore(&Product {
        name: "routing by static handles: two methods in one edit, then a method of dynamic handles".into(),
        dims: vec![na, na, nd],
        f: {
            let (a, d) = (a.clone(), d.clone());
            let sparse = !run.thorough();
            move |c: &[u16], rec: &mut Rec| {
                // (quick: a third of the combinations with a later edit)
                if sparse && (c[0] + c[1] + c[2]) % 3 != 0 {
                    return Ok(());
                }
                routes_static(&[a[c[0] as usize], a[c[1] as usize]], Some(d[c[2] as usize]), rec)
            }
        },
        d: |c| format!("{:?} {:?}, then {:?}", alphabet(false)[c[0] as usize], alphabet(false)[c[1] as usize], alphabet(true)[c[2] as usize]),
    });
    run.explore(&Product {
        name: format!("routing by dynamic handles: {} methods, each its own edit", 2),
        dims: vec![nd, nd],
        f: {
            let d = d.clone();
            move |c: &[u16], rec: &mut Rec| routes_dynamic(&c.iter().map(|i| d[*i as usize]).collect::<Vec<_>>(), rec)
        },
        d: |c| format!("{:?}", c.iter().map(|i| alphabet(true)[*i as usize]).collect::<Vec<_>>()),
    });
    let short: Vec<Rt> = d.iter().copied().filter(|r| match r { Rt::To(s, k, m) => *m != Md::Shr && (*k == Si::C || *k == Si::BC) && *s != So::BOut10 && *s != So::In10, Rt::Out(s, ..) => matches!(s, So::B | So::C), _ => true }).collect();
    let n = short.len();
    run.explore(&Product {
        name: "routing by dynamic handles: three methods, each its own edit".into(),
        dims: vec![n, n, n],
        f: {
            let s = short.clone();
            move |c: &[u16], rec: &mut Rec| routes_dynamic(&c.iter().map(|i| s[*i as usize]).collect::<Vec<_>>(), rec)
        },
        d: |c| format!("{c:?}"),
    });
    if run.thorough() {
        run.explore(&Product {
            name: "routing by static handles: three methods in one edit".into(),
            dims: vec![na, na, na],
            f: move |c: &[u16], rec: &mut Rec| routes_static(&c.iter().map(|i| a[*i as usize]).collect::<Vec<_>>(), None, rec),
            d: |c| format!("{:?}", c.iter().map(|i| alphabet(false)[*i as usize]).collect::<Vec<_>>()),
        });
    }
}
