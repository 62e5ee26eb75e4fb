#![allow(dead_code, unused_imports)]
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Block, Done, Frame, Param, ParameterHint, ParameterSmoothing, ParameterValue, PTrigger, Seconds, Size, UGen, UGenFlags};
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphError, NodeId, NodeOrGraph};
use knaster_graph::handle::HandleTrait;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};

/// Outputs `value` (parameter 0) plus its inputs plus the number of frames it has processed times `step`.
struct Src {
    value: f64,
    step: f64,
    n: u64,
}
impl Src {
    fn new(value: f64, step: f64) -> Self {
        Src { value, step, n: 0 }
    }
}
macro_rules! unit {
    ($name:ident, $i:ty, $o:ty) => {
        struct $name(Src);
        impl $name {
            fn new(value: f64, step: f64) -> Self {
                $name(Src::new(value, step))
            }
        }
        impl UGen for $name {
            type Sample = f64;
            type Inputs = $i;
            type Outputs = $o;
            type Parameters = U1;
            fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, input: Frame<f64, $i>) -> Frame<f64, $o> {
                let v = self.0.value + self.0.step * self.0.n as f64 + input.iter().sum::<f64>();
                self.0.n += 1;
                let mut out: Frame<f64, $o> = Default::default();
                for (c, o) in out.iter_mut().enumerate() {
                    *o = v + 1000.0 * c as f64;
                }
                out
            }
            fn param_descriptions() -> NumericArray<&'static str, U1> {
                ["value"].into()
            }
            fn param_hints() -> NumericArray<ParameterHint, U1> {
                [ParameterHint::infinite_float()].into()
            }
            fn param_apply(&mut self, _: &mut AudioCtx, _: usize, v: ParameterValue) {
                if let Some(v) = v.float() {
                    self.0.value = v as f64;
                }
            }
        }
    };
}
unit!(U01, U0, U1);
unit!(U02, U0, U2);
unit!(U11, U1, U1);
unit!(U21, U2, U1);
fn opts(block_size: usize) -> AudioProcessorOptions {
    AudioProcessorOptions { block_size, sample_rate: 48000, ring_buffer_size: 50, ..Default::default() }
}
