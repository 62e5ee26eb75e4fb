W="knaster_core_dsp/src/wrappers_core/"; U="knaster_core_dsp/src/ugens/"; GE="knaster_graph/src/graph_edit.rs"; LO="knaster_core/src/log.rs"
CTX="""
fn ctx(block_size: usize) -> AudioCtx {
    let (tx, rx) = knaster_core::log::ArLogReceiver::new().sender(100);
    std::mem::forget(rx);
    AudioCtx::new(1000, block_size, tx)
}
fn run<T: UGen<Sample = f64>>(u: &mut T, c: &mut AudioCtx, x: &[f64]) -> Vec<f64> {
    let mut flags = UGenFlags::new();
    x.iter().map(|x| u.process(c, &mut flags, NumericArray::from_iter(std::iter::repeat_n(*x, T::Inputs::USIZE)))[0]).collect()
}
"""
SEEDS=[
("d01-scale-kept","D01",[(U+"envelopes.rs","""            AsrState::Sustaining => {
                self.release_scale = F::ONE;
""","""            AsrState::Sustaining => {
""")],
 "a release during the attack, a restart which gets to the sustain, and another release","the second release starts from the level of the first",
"""
    use knaster_core_dsp::envelopes::EnvAsr;
    let mut c = ctx(8);
    let mut e = EnvAsr::<f64>::new(0.008, 0.004);
    e.init(1000, 8);
    e.t_restart();
    run(&mut e, &mut c, &[0.0; 4]);
    e.t_release();
    run(&mut e, &mut c, &[0.0; 10]);
    e.t_restart();
    assert_eq!(run(&mut e, &mut c, &[0.0; 12])[11], 1.0);
    e.t_release();
    assert_eq!(run(&mut e, &mut c, &[0.0; 1])[0], 1.0);
""",CTX),
("d02-read-at-border","D02",[(U+"delay.rs","self.read_frame = if self.write_frame >= self.num_frames {","self.read_frame = if self.write_frame > self.num_frames {")],
 "an allpass delay set to exactly the number of frames written since the start of its buffer","the read position is one past the end",
"""
    use knaster_core_dsp::delay::AllpassDelay;
    let mut c = ctx(8);
    let mut d = AllpassDelay::<f64>::new(Seconds::from_secs_f64(0.008));
    d.init(1000, 8);
    run(&mut d, &mut c, &[1.0, 2.0]);
    d.set_delay_in_frames(3.0);
    let got = run(&mut d, &mut c, &[4.0, 5.0, 6.0, 7.0, 8.0, 9.0]);
    assert!(got.iter().all(|x| x.is_finite()));
""",CTX),
("d02-clear-keeps-lines","D02",[(U+"delay.rs","""        for sample in &mut self.buffer {
            *sample = F::ZERO;
        }
""","")],
 "set_delay_in_frames_and_clear on a line that has been written to","what was written before is still heard",
"""
    use knaster_core_dsp::delay::AllpassDelay;
    let mut c = ctx(8);
    let mut d = AllpassDelay::<f64>::new(Seconds::from_secs_f64(0.008));
    d.init(1000, 8);
    run(&mut d, &mut c, &[1.0; 8]);
    d.set_delay_in_frames_and_clear(4.0);
    assert_eq!(run(&mut d, &mut c, &[0.0; 8]), vec![0.0; 8]);
""",CTX),
("d03-end-ignores-start","D03",[(U+"buffer.rs","""        self.start_frame = self.seconds_to_frames(start_s).max(0.0);
        self.end_frame = self.start_frame + self.dur_frame;""","""        self.start_frame = self.seconds_to_frames(start_s).max(0.0);
        self.end_frame = self.end_frame.max(self.start_frame + self.dur_frame);""")],
 "a start position set to earlier than it was","the end stays where it was",
"""
    use knaster_core_dsp::{dsp::buffer::Buffer, buffer::BufferReader};
    let mut c = ctx(8);
    let mut b = BufferReader::<f64, U1>::new(Buffer::from_vec_interleaved((0..20).map(|x| x as f64 + 1.0).collect(), 1, 1000.0), 1.0, false);
    b.init(1000, 8);
    b.duration_s(0.004);
    b.start_s(0.01);
    b.start_s(0.002);
    b.t_restart();
    assert_eq!(run(&mut b, &mut c, &[0.0; 6]), [3.0, 4.0, 5.0, 6.0, 0.0, 0.0]);
""",CTX),
("d04-phasor-freq-zero","D04",[(U+"osc.rs","""        if self.freq_to_phase_step_mult == 0.0 {
            self.step = freq;""","""        if self.freq_to_phase_step_mult == 0.0 || freq == 0.0 && self.phase == 0.0 {
            self.step = freq.max(self.step);""")],
 "a phasor which is set to frequency zero when its phase is exactly zero","it goes on at the frequency it had",
"""
    use knaster_core_dsp::osc::Phasor;
    let mut c = ctx(8);
    let mut p = Phasor::<f64>::new(250.0);
    p.init(1000, 8);
    run(&mut p, &mut c, &[0.0; 4]);
    p.freq(0.0);
    assert_eq!(run(&mut p, &mut c, &[0.0; 3]), [0.0; 3]);
""",CTX),
("d04-random-lin-early-freq","D04",[(U+"noise.rs","""            // freq is stored in phase_step until init
            self.phase_step = F::new(value);
        } else {""","""            // freq is stored in phase_step until init
            self.phase_step = F::new(value) * self.freq_to_phase_inc;
        } else {""")],
 "the frequency of a RandomLin set before it's initialised","it never moves",
"""
    use knaster_core_dsp::noise::RandomLin;
    let mut c = ctx(8);
    let mut r = RandomLin::<f64>::new(1.0);
    r.freq(250.0);
    r.init(1000, 8);
    let v = run(&mut r, &mut c, &[0.0; 9]);
    assert!(v[0] != v[2] && v[4] != v[6]);
""",CTX),
("d05-highshelf-stale-k","D05",[(U+"svf.rs","""                let g = ((F::PI * cutoff) / sample_rate).tan() * amp.sqrt();
                let k = F::ONE / q;""","""                let g = ((F::PI * cutoff) / sample_rate).tan() * amp.sqrt();
                let k = F::ONE / q.max(F::new(0.5));""")],
 "a high shelf with a resonance below a half","the resonance is limited",
"""
    use knaster_core_dsp::svf::{SvfFilter, SvfFilterType};
    let mut c = ctx(8);
    let mut f = SvfFilter::<f64>::new(SvfFilterType::HighShelf, 100.0, 0.25, 6.0);
    f.init(1000, 8);
    let mut g = SvfFilter::<f64>::new(SvfFilterType::HighShelf, 100.0, 0.5, 6.0);
    g.init(1000, 8);
    let x = [1.0, 0.0, 0.0, 0.0];
    assert_ne!(run(&mut f, &mut c, &x), run(&mut g, &mut c, &x));
""",CTX),
("u01-ar-index-of-part","U01",[(W+"audio_rate.rs","self.block_index = (self.block_index + 1) % ctx.block_size();","self.block_index = (self.block_index + 1) % ctx.frames_to_process();")],
 "audio rate control of a parameter while a part of a block is processed","values of other frames are used",
"""
    use knaster_core_dsp::wrappers_core::{WrArParams, WrPreciseTiming};
    let mut c = ctx(8);
    let mut u = WrPreciseTiming::<4, _>::new(WrArParams::new(U02::new(0.0, 0.0)));
    u.init(1000, 8);
    let values: Vec<f64> = (0..8).map(|x| x as f64).collect();
    unsafe { u.set_ar_param_buffer(&mut c, 0, values.as_ptr()) };
    u.set_delay_within_block_for_param(&mut c, 0, 5);
    u.param_apply(&mut c, 0, ParameterValue::Float(7.0));
    let mut out = knaster_core::VecBlock::<f64>::new(2, 8);
    let input = knaster_core::VecBlock::<f64>::new(0, 8);
    u.process_block(&mut c, &mut UGenFlags::new(), &input, &mut out);
    assert_eq!(out.channel_as_slice(0), &values[..]);
""",CTX),
("u02-due-at-end-of-part","U02",[(W+"precise_timing.rs","if (*delay as usize) <= block_i + ctx.block_start_offset() {","if (*delay as usize) <= block_i.max(ctx.block_start_offset()) {")],
 "a delayed change in a part of a block which doesn't start with it, after another","the change is late",
"""
    use knaster_core_dsp::wrappers_core::WrPreciseTiming;
    let mut c = ctx(16);
    let mut u = WrPreciseTiming::<4, _>::new(U01::new(0.0, 0.0));
    u.init(1000, 16);
    for (d, v) in [(9, 1.0), (12, 2.0)] {
        u.set_delay_within_block_for_param(&mut c, 0, d);
        u.param_apply(&mut c, 0, ParameterValue::Float(v));
    }
    let mut out = knaster_core::VecBlock::<f64>::new(1, 8);
    let input = knaster_core::VecBlock::<f64>::new(0, 8);
    let whole = c.block;
    for part in 0..2 {
        c.block = whole.make_partial(part * 8, 8);
        u.process_block(&mut c, &mut UGenFlags::new(), &input, &mut out);
    }
    assert_eq!(out.channel_as_slice(0), [0.0, 1.0, 1.0, 1.0, 2.0, 2.0, 2.0, 2.0]);
""",CTX),
("u03-integers-dropped","U03",[(W+"smooth_params.rs","""            ParameterValue::Integer(_) | ParameterValue::Trigger | ParameterValue::Bool(_) => {
                self.ugen.param_apply(ctx, index, value)
            }""","""            ParameterValue::Integer(_) | ParameterValue::Trigger | ParameterValue::Bool(_) => {
                if !self.smoothing_state[index].has_new_ar_value() {
                    self.ugen.param_apply(ctx, index, value)
                }
            }""")],
 "a trigger for a parameter while it is smoothed at audio rate","the trigger gets lost",
"""
    use knaster_core_dsp::wrappers_core::WrSmoothParams;
    struct Count(f64);
    impl UGen for Count {
        type Sample = f64;
        type Inputs = U0;
        type Outputs = U1;
        type Parameters = U1;
        fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U1> {
            [self.0].into()
        }
        fn param_descriptions() -> NumericArray<&'static str, U1> {
            ["p"].into()
        }
        fn param_hints() -> NumericArray<ParameterHint, U1> {
            [ParameterHint::infinite_float()].into()
        }
        fn param_apply(&mut self, _: &mut AudioCtx, _: usize, v: ParameterValue) {
            if let ParameterValue::Trigger = v {
                self.0 += 1.0;
            }
        }
    }
    let mut c = ctx(8);
    let mut u = WrSmoothParams::new(Count(0.0));
    u.init(1000, 8);
    u.param_apply(&mut c, 0, ParameterValue::Float(0.0));
    u.param_apply(&mut c, 0, ParameterValue::Smoothing(ParameterSmoothing::Linear(0.01), knaster_core::Rate::AudioRate));
    u.param_apply(&mut c, 0, ParameterValue::Float(1.0));
    run(&mut u, &mut c, &[0.0; 2]);
    u.param_apply(&mut c, 0, ParameterValue::Trigger);
    assert_eq!(run(&mut u, &mut c, &[0.0]), [1.0]);
""",CTX),
("u04-osc-block-offset","U04",[(U+"osc.rs","""            // TODO: Try SIMDifying this with a buffer of phase etc
            for out in output[0].iter_mut() {
                *out = self.next_sample();
            }
        }
    }
}""","""            // TODO: Try SIMDifying this with a buffer of phase etc
            let offset = self.phase_offset;
            for out in output[0].iter_mut() {
                let sample = self.wavetable.get(self.phase + offset);
                self.phase.increase(self.phase_increment & !0xff);
                *out = F::new(sample);
            }
        }
    }
}""")],
 "a sine oscillator processed in blocks at a frequency whose phase step has small fractional bits","it runs at another frequency than frame by frame",
"""
    use knaster_core_dsp::osc::SinWt;
    let mut c = ctx(4096);
    let mut u = SinWt::<f64>::new(441.777);
    let mut v = SinWt::<f64>::new(441.777);
    u.init(1000, 4096);
    v.init(1000, 4096);
    let mut out = knaster_core::VecBlock::<f64>::new(1, 4096);
    let input = knaster_core::VecBlock::<f64>::new(0, 4096);
    let mut want = vec![];
    for _ in 0..4 {
        want = run(&mut u, &mut c, &[0.0; 4096]);
        UGen::process_block(&mut v, &mut c, &mut UGenFlags::new(), &input, &mut out);
    }
    assert_eq!(out.channel_as_slice(0), want);
""",CTX),
("u05-sub-second-channel","U05",[(U+"math.rs","""        for ((a, b), out) in a.iter().zip(b.iter()).zip(out.iter_mut()) {
            *out = *a - *b;
        }""","""        for (i, ((a, b), out)) in a.iter().zip(b.iter()).zip(out.iter_mut()).enumerate() {
            *out = if i < 32 { *a - *b } else { *b - *a };
        }""")],
 "a subtraction in blocks of more than 32 frames","the operands are swapped in the rest of the block",
"""
    use knaster_core_dsp::math::{MathUGen, Sub};
    let mut c = ctx(64);
    let mut u = MathUGen::<f64, U1, Sub>::new();
    u.init(1000, 64);
    let mut out = knaster_core::VecBlock::<f64>::new(1, 64);
    let mut input = knaster_core::VecBlock::<f64>::new(2, 64);
    input.channel_as_slice_mut(0).fill(3.0);
    u.process_block(&mut c, &mut UGenFlags::new(), &input, &mut out);
    assert_eq!(out.channel_as_slice(0), [3.0; 64]);
""",CTX),
("g15-stack-order","G15",[(GE,"""        for chan in Dynamic::iter_inputs(&self.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_inputs(&s.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&self.nodes) {""","""        for chan in Dynamic::iter_inputs(&s.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_inputs(&self.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&self.nodes) {""")],
 "something connected to the inputs of stacked dynamic handles","the inputs are in the opposite order",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U2>(opts(4));
    g.edit(|g| {
        let s = g.push(U02::new(1.0, 0.0)).dynamic();
        let a = g.push(U11::new(0.0, 0.0)).dynamic();
        let b = g.push(U11::new(0.0, 0.0)).dynamic();
        s.to(a.stack(b)).to_graph_out();
    });
    p.run_without_inputs();
    assert_eq!((p.output_block().read(0, 0), p.output_block().read(1, 0)), (1.0, 1001.0));
"""),
("l01-wrapped-message","L01",[(LO,"""                    let slice1 = if last_end + pos < s0.len() {""","""                    let slice1 = if last_end + pos <= s0.len() {""")],
 "a message whose end is the first item after the wrap of the channel's buffer","its end is not delivered",
"""
    use knaster_core::{log::ArLogReceiver, rt_log};
    let (mut tx, mut rx) = ArLogReceiver::new().sender(4);
    let mut ends = 0;
    rt_log!(tx; 1);
    rx.recv(|m| ends += m.iter().filter(|m| m.is_end()).count());
    rt_log!(tx; 1, 2);
    rx.recv(|m| ends += m.iter().filter(|m| m.is_end()).count());
    assert_eq!(ends, 2);
"""),
("l01-partial-committed","L01",[(LO,"read_chunk.commit(last_end);","read_chunk.commit(if last_end == 0 { slots } else { last_end });")],
 "a poll while a message has been sent in part","the beginning of the message gets lost",
"""
    use knaster_core::log::{ArLogMessage, ArLogReceiver};
    let (mut tx, mut rx) = ArLogReceiver::new().sender(8);
    let mut got = 0;
    tx.send(ArLogMessage::Float(1.0));
    rx.recv(|m| got += m.len());
    tx.send(ArLogMessage::Float(2.0));
    tx.send(ArLogMessage::End);
    rx.recv(|m| got += m.len());
    assert_eq!(got, 3);
"""),
]
