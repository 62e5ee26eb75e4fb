GR="knaster_graph/src/graph.rs"; GG="knaster_graph/src/graph_gen.rs"; DN="knaster_graph/src/wrappers_graph/done.rs"; HA="knaster_graph/src/handle.rs"
TI="knaster_primitives/src/time.rs"; BL="knaster_primitives/src/block.rs"
SEEDS=[
("p01-equal-fractions","P01",[(TI,"""            Some(if self.subsecond_tesimals >= rhs.subsecond_tesimals {""","""            Some(if self.subsecond_tesimals > rhs.subsecond_tesimals {""")],
 "subtracting times with equal fractional parts","the difference has a whole second in its fractional part",
"""
    let d = Seconds::new(2, 5).checked_sub(Seconds::new(1, 5)).unwrap();
    assert_eq!(d, Seconds::new(1, 0));
"""),
("p02-slice-to-end","P02",[(BL,"""        &mut self.block.channel_as_slice_mut(channel)
            [self.start_offset..(self.start_offset + self.length)]""","""        &mut self.block.channel_as_slice_mut(channel)[self.start_offset..]""")],
 "a mutable view of a part which doesn't reach the end of its block","channel slices reach frames after the view",
"""
    let mut b = knaster_core::VecBlock::<f64>::new(2, 8);
    {
        let mut part = b.partial_mut(2, 3);
        part.channel_as_slice_mut(1).fill(1.0);
    }
    let got: Vec<f64> = (0..8).map(|f| b.read(1, f)).collect();
    assert_eq!(got, [0., 0., 1., 1., 1., 0., 0., 0.]);
"""),
("p03-name-prefix","P03",[(HA,"self.parameters.iter().position(|d| *d == desc)","self.parameters.iter().position(|d| d.starts_with(desc))")],
 "an untyped handle and a parameter name which is the beginning of an earlier one","another parameter is set",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let id = g.edit(|g| {
        let a = g.push(U01::new(3.0, 0.0));
        a.to_graph_out();
        a.id()
    });
    p.run_without_inputs();
    let h = g.inspection().node_handles().into_iter().find(|h| h.node_id() == id).unwrap();
    assert!(h.set(("val", 5.0)).is_err());
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 3.0);
"""),
("g11-done-leaks","G11",[(DN,"""        flags.clear_node_flags();
        flags.mark_remove_self_supported();
        self.ugen.process_block(ctx, flags, input, output);""","""        flags.mark_remove_self_supported();
        self.ugen.process_block(ctx, flags, input, output);""")],
 "a unit pushed without a done action reports done and runs before a unit with one","the other unit is removed",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    g.edit(|g| {
        let a = g.push(DoneAt2 { n: 0 });
        let b = g.push_with_done_action(U11::new(1.0, 0.0), Done::FreeSelf);
        a.to(b).to_graph_out();
    });
    for _ in 0..3 {
        p.run_without_inputs();
        g.edit(|_| {});
    }
    p.run_without_inputs();
    assert_eq!(g.inspection().nodes.len(), 2);
    assert_eq!(p.output_block().read(0, 3), 2.0);
""","""
struct DoneAt2 { n: u64 }
impl UGen for DoneAt2 {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, flags: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U1> {
        if self.n == 2 {
            flags.mark_done(2);
        }
        self.n += 1;
        [1.0].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
"""),
("g11-zero-one-channel","G11",[(GG,"""                for channel in output.iter_mut() {
                    for sample in &mut channel[frame_num as usize..] {""","""                for channel in output.iter_mut().take(1) {
                    for sample in &mut channel[frame_num as usize..] {""")],
 "a graph with more than one output channel is terminated in the middle of a block","only the first channel is silenced from the reported frame",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U2>(opts(4));
    g.edit(|g| {
        let a = g.push(U02::new(1.0, 0.0));
        a.to_graph_out();
        g.push_with_done_action(DoneAt2 { n: 0 }, Done::FreeParent);
    });
    p.run_without_inputs();
    assert_eq!(p.output_block().read(1, 1), 1001.0);
    assert_eq!(p.output_block().read(1, 2), 0.0);
""","""
struct DoneAt2 { n: u64 }
impl UGen for DoneAt2 {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U1> {
        [1.0].into()
    }
    fn process_block<I, O>(&mut self, _: &mut AudioCtx, flags: &mut UGenFlags, _: &I, output: &mut O)
    where
        I: knaster_core::BlockRead<Sample = f64> + ?Sized,
        O: Block<Sample = f64> + ?Sized,
    {
        output.channel_as_slice_mut(0).fill(1.0);
        if self.n == 0 {
            flags.mark_done(2);
        }
        self.n += 1;
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
"""),
("g12-own-clock","G12",[(GR,"""        let (mut subgraph, graph_gen) = Self::new::<Inputs, Outputs>(
            options,
            temporary_invalid_node_id,
            self.graph_gen_communicator.shared_frame_clock.clone(),
            self.block_size,
            self.sample_rate,
            init_callback,
        );""","""        let (mut subgraph, graph_gen) = Self::new::<Inputs, Outputs>(
            options,
            temporary_invalid_node_id,
            SharedFrameClock::new(),
            self.block_size,
            self.sample_rate,
            init_callback,
        );""")],
 "the current time read through a handle to a node in a subgraph","the clock of the subgraph's nodes stays at zero",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let mut keep = None;
    let time = g.edit(|g| {
        let mut h = None;
        let (sh, sub) = g.subgraph::<U0, U1>(Default::default(), |mut s| {
            let a = s.push(U01::new(1.0, 0.0));
            a.to_graph_out();
            h = Some(a.id());
        });
        sh.to_graph_out();
        let t = sub.inspection().node_handles().pop().unwrap();
        keep = Some(sub);
        t
    });
    for _ in 0..3 {
        p.run_without_inputs();
    }
    assert_eq!(p.output_block().read(0, 0), 1.0);
    assert_eq!(time.current_frame_time(), Seconds::from_samples(12, 48000));
"""),
("g04-isolated-node","G04",[(GR,"""    fn push_node(&mut self, mut node: Node<F>) -> NodeKey {
        self.recalculation_required = true;
""","""    fn push_node(&mut self, mut node: Node<F>) -> NodeKey {
        // A node without any channels doesn't affect the others
        self.recalculation_required |= node.data.inputs + node.data.outputs > 0;
""")],
 "a node with neither inputs nor outputs is the only thing a commit adds","it doesn't run until something else is changed",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    g.edit(|g| {
        g.push(U01::new(3.0, 0.0)).to_graph_out();
    });
    p.run_without_inputs();
    g.edit(|g| { g.push(Count); });
    p.run_without_inputs();
    assert_eq!(FRAMES.load(std::sync::atomic::Ordering::SeqCst), 4);
""","""
static FRAMES: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
struct Count;
impl UGen for Count {
    type Sample = f64;
    type Inputs = U0;
    type Outputs = U0;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f64, U0>) -> Frame<f64, U0> {
        FRAMES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        [].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
"""),
]
