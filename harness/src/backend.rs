//! G17: the audio backends, on devices driven by the explorer (shims/cpal, shims/jack).
use crate::common::*;
use crate::tu::on_audio_checked;
use cpal::{FromSample, SampleFormat as SF};
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Float, UGenFlags};
use knaster_core_dsp::util::Constant;
use knaster_graph::audio_backend::cpal::{CpalBackend, CpalBackendOptions};
use knaster_graph::audio_backend::jack::JackBackend;
use knaster_graph::audio_backend::{AudioBackend, AudioBackendError};
use knaster_graph::graph::{Graph, NodeOrGraph};
use knaster_graph::graph_edit::GraphEdit;
use knaster_graph::handle::HandleTrait;
use knaster_graph::log::ArLogReceiver;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// The sample of a channel at a frame: unlike all near it, sometimes outside of -1 to 1
fn val(ch: usize, frame: u64, start: u64) -> f64 {
    let k = start * 7 + frame * 5 + ch as u64;
    match k % 23 {
        3 => 1.5,
        5 => -2.0,
        7 => f64::NAN,
        9 => 1.0,
        11 => -1.0,
        13 => 0.0,
        15 => f64::INFINITY,
        _ => ((k * 37) % 1999) as f64 / 1000.0 - 0.9993,
    }
}
struct Src<F> {
    ch: usize,
    start: u64,
    n: u64,
    dropped: Arc<AtomicU64>,
    _f: std::marker::PhantomData<F>,
}
impl<F> Drop for Src<F> {
    fn drop(&mut self) {
        self.dropped.fetch_add(1, SeqCst);
    }
}
#[knaster_macros::impl_ugen]
impl<F: Float> Src<F> {
    fn process(&mut self, ctx: &mut AudioCtx, _f: &mut UGenFlags) -> [F; 1] {
        let r = val(self.ch, self.n, self.start);
        self.n += 1;
        if self.n == 5 && self.start == 99 {
            knaster_core::rt_log!(ctx.logger(); "frame", 5.0);
        }
        [F::new(r)]
    }
}
type Rt<F> = (Graph<F>, AudioProcessor<F>, ArLogReceiver<U1>);
/// A graph with a source for every output; input i is added to output i, input 0 to all without an input of their own.
fn fill<F: Float>(g: &mut Graph<F>, nin: usize, nout: usize, start: u64, dropped: &Arc<AtomicU64>) {
    for ch in 0..nout {
        #[allow(deprecated)]
        let h = g.push(Src::<F> { ch, start, n: 0, dropped: dropped.clone(), _f: Default::default() });
        g.connect2(NodeOrGraph::Node(h.node_id()), 0, ch as u16, NodeOrGraph::Graph).unwrap();
        if nin > 0 {
            let i = if ch < nin { ch } else { 0 };
            g.connect2(NodeOrGraph::Graph, i as u16, ch as u16, NodeOrGraph::Graph).unwrap();
        }
    }
    g.edit(|_: GraphEdit<F>| {});
}
fn processor<F: Float>(nin: usize, nout: usize, sr: u32, bs: usize, start: u64, dropped: &Arc<AtomicU64>) -> Rt<F> {
    let o = AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: 16, log_channel_capacity: 64 };
    macro_rules! p { ($($i:literal $o:literal $it:ty, $ot:ty;)*) => { match (nin, nout) { $(($i,$o) => AudioProcessor::<F>::new::<$it,$ot>(o),)* _ => panic!() } } }
    let mut r: Rt<F> = p!(0 1 U0,U1; 1 1 U1,U1; 2 1 U2,U1; 0 2 U0,U2; 1 2 U1,U2; 2 2 U2,U2; 0 3 U0,U3; 1 3 U1,U3; 2 3 U2,U3;);
    fill(&mut r.0, nin, nout, start, dropped);
    r
}
const FORMATS: [SF; 10] = [SF::F32, SF::I16, SF::U8, SF::F64, SF::I8, SF::U16, SF::I32, SF::U32, SF::I64, SF::U64];
/// One sample in the format of the device, as bytes
fn convert(f: SF, x: f32) -> Vec<u8> {
    macro_rules! c { ($t:ty) => { <$t>::from_sample_(x).to_ne_bytes().to_vec() } }
    match f {
        SF::F32 => c!(f32),
        SF::I16 => c!(i16),
        SF::U8 => c!(u8),
        SF::F64 => c!(f64),
        SF::I8 => c!(i8),
        SF::U16 => c!(u16),
        SF::I32 => c!(i32),
        SF::U32 => c!(u32),
        SF::I64 => c!(i64),
        _ => c!(u64),
    }
}
const FILL: u8 = 0x5b;
/// One callback of so many frames: is it what comes next?
fn cpal_callback<F: Float>(frames: usize, at: &mut u64, start: u64, shape: (SF, usize, u32), rec: &mut Rec) -> Result<(), Fail> {
    let got = on_audio_checked(|| cpal::platform::mc::callback(frames, FILL))?;
    let Some((bytes, f, ch, rate)) = got else { return fail("stopped", "nothing is playing") };
    check!((f, ch as usize, rate) == shape, "config", "the stream has format {f:?}, {ch} channels and rate {rate} rather than {shape:?}");
    let s = f.sample_size();
    for i in 0..frames {
        for c in 0..shape.1 {
            let x = F::new(val(c, *at, start)).to_f32();
            let (a, b) = (&bytes[(i * shape.1 + c) * s..][..s], convert(f, x));
            // any NaN will do
            let nan = x.is_nan() && match f {
                SF::F32 => f32::from_ne_bytes(a.try_into().unwrap()).is_nan(),
                SF::F64 => f64::from_ne_bytes(a.try_into().unwrap()).is_nan(),
                _ => false,
            };
            check!(nan || a == b, "samples", "frame {at} of channel {c} is {x}, in the format {b:?}; the device got {a:?}");
        }
        *at += 1;
        rec.step();
    }
    Ok(())
}
const CB: [usize; 7] = [1, 0, 2, 3, 4, 7, 11];
fn e(err: AudioBackendError) -> Fail {
    Fail { key: "refused".into(), msg: format!("{err:?}") }
}
fn cpal_stream<F: Float>(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (f, ch, bs, nin) = (FORMATS[c[0] as usize], c[1] as usize + 1, [1, 2, 3, 5][c[2] as usize], c[4] as usize);
    let rate = [48000, 44100, 96000][ch - 1];
    cpal::platform::mc::device(ch as u16, rate, f);
    let mut b = CpalBackend::<F>::new(CpalBackendOptions::default()).map_err(e)?;
    check!(b.sample_rate() == rate && b.native_output_channels() == Some(ch) && b.num_outputs() == ch && b.block_size().is_none(), "reported", "the backend reports rate {}, {:?} outputs, block size {:?}", b.sample_rate(), b.native_output_channels(), b.block_size());
    let d = Arc::new(AtomicU64::new(0));
    let (graph, p, _log) = processor::<F>(nin, ch, rate, bs, 0, &d);
    b.start_processing(p).map_err(e)?;
    check!(cpal::platform::mc::playing() == 1, "streams", "{} streams", cpal::platform::mc::playing());
    let mut at = 0;
    for k in &c[5..] {
        cpal_callback::<F>(CB[*k as usize], &mut at, 0, (f, ch, rate), rec)?;
    }
    rec.state(&(at, c[0], ch, bs, c[3]));
    drop(b);
    check!(cpal::platform::mc::playing() == 0, "streams", "a stream goes on after the backend was dropped");
    drop(graph);
    check!(d.load(SeqCst) == ch as u64, "drops", "{} of {ch} units were dropped", d.load(SeqCst));
    Ok(())
}
/// Words of start, stop and callbacks
fn cpal_control<F: Float>(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let shape = (SF::F32, 2, 48000);
    cpal::platform::mc::device(2, 48000, SF::F32);
    let mut b = CpalBackend::<F>::new(CpalBackendOptions { device: ["default", "the device"][c[0] as usize % 2].into(), verbose: true }).map_err(e)?;
    let d = Arc::new(AtomicU64::new(0));
    let (mut running, mut at, mut starts) = (false, 0, 0);
    let mut graphs = vec![];
    for op in c {
        match op {
            0 => {
                starts += 1;
                let (g, p, l) = processor::<F>(0, 2, 48000, 3, starts, &d);
                graphs.push((g, l));
                match b.start_processing(p) {
                    Ok(()) => {
                        check!(!running, "started-twice", "a running backend was started");
                        running = true;
                        at = 0;
                    }
                    Err(AudioBackendError::BackendAlreadyRunning) if running => starts -= 1,
                    Err(x) => return Err(e(x)),
                }
            }
            1 => {
                let r = b.stop();
                check!(r.is_ok() || !running, "stop", "{r:?}");
                running = false;
            }
            n => {
                if running {
                    cpal_callback::<F>(*n as usize, &mut at, starts, shape, rec)?;
                } else {
                    let r = on_audio_checked(|| cpal::platform::mc::callback(2, FILL))?;
                    check!(r.is_none(), "not-stopped", "a stopped backend plays");
                }
            }
        }
        check!(cpal::platform::mc::playing() == running as usize, "streams", "{} streams are playing, running is {running}", cpal::platform::mc::playing());
        rec.state(&(running, at));
    }
    drop(b);
    let n = graphs.len() as u64;
    drop(graphs);
    check!(d.load(SeqCst) == 2 * n, "drops", "{} of {} units were dropped", d.load(SeqCst), 2 * n);
    Ok(())
}
fn jin(i: usize, cycle: u64, n: usize) -> Vec<f32> {
    (0..n).map(|f| ((cycle * 31 + f as u64 * 3 + i as u64 * 100) % 256) as f32 / 512.0 - 0.25).collect()
}
/// One cycle of the JACK server
fn jack_cycle<F: Float>(nin: usize, nout: usize, bs: usize, at: &mut u64, start: u64, rec: &mut Rec) -> Result<(), Fail> {
    let cycle = *at / bs as u64;
    // what it sends is made before
    let ins: Vec<Vec<f32>> = (0..nin).map(|i| jin(i, cycle, bs)).collect();
    let out = jack::mc::cycle(|i| ins[i].clone(), -77.0);
    check!(out.len() == nout, "ports", "{} output ports rather than {nout}", out.len());
    for (c, (name, got)) in out.iter().enumerate() {
        check!(*name == format!("out_{c}"), "ports", "output port {c} is called {name}");
        for (f, y) in got.iter().enumerate() {
            let mut x = F::new(val(c, *at + f as u64, start));
            if nin > 0 {
                x = x + F::new(ins[if c < nin { c } else { 0 }][f]);
            }
            let x = x.to_f64();
            let want = if x.is_nan() { 0.0 } else { x.clamp(-1.0, 1.0) as f32 };
            check!(*y == want, "samples", "frame {} of channel {c} is {x}, JACK got {y} rather than {want}", *at + f as u64);
            rec.step();
        }
    }
    *at += bs as u64;
    Ok(())
}
fn jack_stream<F: Float>(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (nin, nout, bs, rate) = (c[0] as usize, c[1] as usize + 1, [1, 2, 5, 16][c[2] as usize], [48000, 44100][c[4] as usize]);
    jack::mc::server(rate, bs as u32);
    let mut b = JackBackend::<F>::new("test").map_err(|x| Fail { key: "refused".into(), msg: format!("{x}") })?;
    check!(b.sample_rate() == rate && b.block_size() == Some(bs), "reported", "the backend reports rate {}, block size {:?}", b.sample_rate(), b.block_size());
    let d = Arc::new(AtomicU64::new(0));
    let (graph, p, _log) = processor::<F>(nin, nout, rate, bs, 0, &d);
    b.start_processing(p).map_err(e)?;
    let mut at = 0;
    for _ in 0..6 {
        jack_cycle::<F>(nin, nout, bs, &mut at, 0, rec)?;
    }
    rec.state(&(nin, nout, bs, c[3]));
    b.stop().map_err(e)?;
    check!(jack::mc::active() == 0, "not-stopped", "a stopped backend plays");
    drop((b, graph));
    check!(d.load(SeqCst) == nout as u64, "drops", "{} of {nout} units were dropped", d.load(SeqCst));
    Ok(())
}
fn jack_control<F: Float>(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (nin, nout, bs) = (1, 2, 3);
    jack::mc::server(48000, bs as u32);
    let mut b = JackBackend::<F>::new("test").map_err(|x| Fail { key: "refused".into(), msg: format!("{x}") })?;
    let d = Arc::new(AtomicU64::new(0));
    let (mut running, mut at, mut starts) = (false, 0, 0);
    let mut graphs = vec![];
    for op in c {
        match op {
            0 => {
                starts += 1;
                let (g, p, l) = processor::<F>(nin, nout, 48000, bs, starts, &d);
                graphs.push((g, l));
                match b.start_processing(p) {
                    Ok(()) => {
                        check!(!running, "started-twice", "a running backend was started");
                        running = true;
                        at = 0;
                    }
                    Err(AudioBackendError::BackendAlreadyRunning) if running => starts -= 1,
                    Err(x) => return Err(e(x)),
                }
            }
            1 => {
                match b.stop() {
                    Ok(()) => check!(running, "stop", "a backend that wasn't running was stopped"),
                    Err(AudioBackendError::BackendNotRunning) if !running => (),
                    Err(x) => return Err(e(x)),
                }
                running = false;
            }
            _ if running => jack_cycle::<F>(nin, nout, bs, &mut at, starts, rec)?,
            _ => check!(jack::mc::cycle(|i| jin(i, 0, bs), 0.0).is_empty(), "not-stopped", "a stopped backend plays"),
        }
        check!(jack::mc::active() == running as usize, "clients", "{} clients are active, running is {running}", jack::mc::active());
        rec.state(&(running, at));
    }
    let n = graphs.len() as u64;
    drop((b, graphs));
    check!(d.load(SeqCst) == 2 * n, "drops", "{} of {} units were dropped", d.load(SeqCst), 2 * n);
    Ok(())
}
/// The builder: the graph runs at the rate and block size of the backend.
fn builder<F: Float>(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (which, rate, f) = (c[0], [48000, 44100, 96000][c[1] as usize], [SF::F32, SF::I16][c[2] as usize]);
    cpal::platform::mc::device(2, rate, f);
    let bs = [64, 5][c[2] as usize];
    jack::mc::server(rate, bs as u32);
    let logged = Arc::new(AtomicU64::new(0));
    let l = logged.clone();
    let k = knaster::knaster::<F>().log_handler(Box::new(move |m| {
        l.fetch_add(m.len() as u64, SeqCst);
    }));
    let mut graph = match which {
        0 => k.start(),
        1 => k.backend(CpalBackend::new(CpalBackendOptions::default()).map_err(e)?).start(),
        _ => k.backend(JackBackend::new("test").map_err(|x| Fail { key: "refused".into(), msg: format!("{x}") })?).start(),
    }
    .map_err(e)?;
    let want_bs = if which == 2 { bs } else { 64 };
    check!(graph.sample_rate() == rate, "builder-rate", "the graph runs at {} and the device at {rate}", graph.sample_rate());
    check!(graph.block_size() == want_bs, "builder-block", "the graph's block size is {} rather than {want_bs}", graph.block_size());
    let d = Arc::new(AtomicU64::new(0));
    // silent so far
    if which == 2 {
        let out = jack::mc::cycle(|_| vec![], 3.0);
        check!(out.len() == 2 && out.iter().all(|o| o.1 == vec![0.0; bs]), "silence", "{out:?}");
    } else {
        let r = cpal::platform::mc::callback(64, FILL);
        let silence = convert(f, 0.0).repeat(2 * 64);
        check!(r.map(|r| r.0) == Some(silence), "silence", "an empty graph isn't silent");
    }
    #[allow(deprecated)]
    let _k = graph.push(Constant::new(F::new(0.5)));
    fill(&mut graph, 0, 2, 99, &d);
    let mut at = 0;
    for n in [1, 7, 64, 100] {
        if which == 2 {
            jack_cycle::<F>(0, 2, bs, &mut at, 99, rec)?;
        } else {
            cpal_callback::<F>(n, &mut at, 99, (f, 2, rate), rec)?;
        }
    }
    for i in 0.. {
        if logged.load(SeqCst) >= 1 {
            break;
        }
        check!(i < 4000, "log-handler", "a message of the audio thread didn't get to the log handler within 40 seconds");
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    rec.state(&(which, rate, c[2]));
    Ok(())
}
pub fn g17(run: &Run) {
    run.assume("the graph given to a backend has the block size the backend reports (JACK), and as many outputs as the device has (CPAL), as documented");
    run.assume("the device side is a stand-in for CPAL and JACK with their interface; conversion to sample formats is that of dasp_sample");
    let n = run.pick(3, 5);
    run.explore(&Product {
        name: format!("CPAL: format x channels x block size x type x graph inputs x {n} callbacks"),
        dims: [vec![FORMATS.len(), 3, 4, 2, 3], vec![CB.len(); n]].concat(),
        f: |c: &[u16], rec: &mut Rec| if c[3] == 0 { cpal_stream::<f32>(c, rec) } else { cpal_stream::<f64>(c, rec) },
        d: |c| format!("{:?}, {} channels, block size {}, type {}, {} inputs, callbacks of {:?}", FORMATS[c[0] as usize], c[1] + 1, [1, 2, 3, 5][c[2] as usize], ["f32", "f64"][c[3] as usize], c[4], c[5..].iter().map(|k| CB[*k as usize]).collect::<Vec<_>>()),
    });
    let n = run.pick(6, 9);
    run.explore(&Product {
        name: format!("CPAL: {n} of start, stop and callbacks"),
        dims: vec![4; n],
        f: |c: &[u16], rec: &mut Rec| cpal_control::<f32>(c, rec),
        d: |c| c.iter().map(|k| ["start", "stop", "2 frames", "3 frames"][*k as usize]).collect::<Vec<_>>().join(", "),
    });
    run.explore(&Product {
        name: "JACK: inputs x outputs x block size x type x sample rate".into(),
        dims: vec![3, 3, 4, 2, 2],
        f: |c: &[u16], rec: &mut Rec| if c[3] == 0 { jack_stream::<f32>(c, rec) } else { jack_stream::<f64>(c, rec) },
        d: |c| format!("{} inputs, {} outputs, block size {}, type {}", c[0], c[1] + 1, [1, 2, 5, 16][c[2] as usize], ["f32", "f64"][c[3] as usize]),
    });
    let n = run.pick(8, 11);
    run.explore(&Product {
        name: format!("JACK: {n} of start, stop and cycles"),
        dims: vec![3; n],
        f: |c: &[u16], rec: &mut Rec| jack_control::<f64>(c, rec),
        d: |c| c.iter().map(|k| ["start", "stop", "cycle"][*k as usize]).collect::<Vec<_>>().join(", "),
    });
    run.explore(&Product {
        name: "builder: backend x sample rate x format x type".into(),
        dims: vec![3, 3, 2, 2],
        f: |c: &[u16], rec: &mut Rec| if c[3] == 0 { builder::<f32>(c, rec) } else { builder::<f64>(c, rec) },
        d: |c| format!("{}, rate {}, {}, type {}", ["no backend given", "CPAL", "JACK"][c[0] as usize], [48000, 44100, 96000][c[1] as usize], ["F32, JACK block size 64", "I16, JACK block size 5"][c[2] as usize], ["f32", "f64"][c[3] as usize]),
    });
}
