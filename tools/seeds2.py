GR="knaster_graph/src/graph.rs"; GG="knaster_graph/src/graph_gen.rs"; TK="knaster_graph/src/task.rs"; PR="knaster_graph/src/processor.rs"; SC="knaster_graph/src/scheduling.rs"; HA="knaster_graph/src/handle.rs"
SEEDS=[
("g13-clock-accumulates","G13",[(PR,"""        let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.block_size as u64;
        self.shared_frame_clock
            .store_new_time(Seconds::from_samples(
                self.frame_clock,
                self.sample_rate as u64,
            ));
    }
""","""        let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.block_size as u64;
        let block_duration =
            Seconds::from_samples(self.block_size as u64, self.sample_rate as u64);
        self.shared_frame_clock
            .store_new_time(self.shared_frame_clock.get() + block_duration);
    }
""")],
 "a sample rate at which a block isn't a whole number of time units, run by the raw pointer entry point for a number of blocks","the shared clock adds up rounded block durations and drifts from the frames processed",
"""
    let mut o = opts(64);
    o.sample_rate = 44101;
    let (g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(o);
    for _ in 0..1000 {
        p.run_without_inputs();
    }
    assert_eq!(g.shared_frame_clock().get(), Seconds::from_samples(64_000, 44101));
"""),
("g07-take-ar-changes","G07",[(TK,"for apc in &self.ar_parameter_changes {","for apc in core::mem::take(&mut self.ar_parameter_changes) {")],
 "a commit with an audio rate parameter connection","the list of parameter buffers is deallocated on the audio thread",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let (a, b) = g.edit(|g| {
        let a = g.push(U01::new(3.0, 0.0));
        let b = g.push(U01::new(5.0, 0.0).ar_params());
        b.to_graph_out();
        (a.id(), b.id())
    });
    p.run_without_inputs();
    g.connect_replace_to_parameter(a, 0, 0, b).unwrap();
    g.edit(|_| {});
    ON_AUDIO.set(true);
    p.run_without_inputs();
    ON_AUDIO.set(false);
    assert_eq!(p.output_block().read(0, 2), 3.0);
    assert_eq!(FREED.get(), 0);
""",ALLOC:="""
use std::cell::Cell;
thread_local! { static ON_AUDIO: Cell<bool> = const { Cell::new(false) }; static FREED: Cell<u32> = const { Cell::new(0) }; }
struct Counting;
#[global_allocator]
static COUNTING: Counting = Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if ON_AUDIO.get() { FREED.set(FREED.get() + 1) }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if ON_AUDIO.get() { FREED.set(FREED.get() + 1) }
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
"""),
("g09-few-waiting","G09",[(GG,"let num_waiting_parameter_changes = self.waiting_parameter_changes.len();","let num_waiting_parameter_changes = self.waiting_parameter_changes.len().min(4);")],
 "more than four changes waiting for the same token","changes sharing a token take effect in different blocks",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let mut hs = vec![];
    g.edit(|g| {
        for _ in 0..6 {
            let n = g.push(U01::new(1.0, 0.0));
            n.to_graph_out();
            hs.push(n.id());
        }
    });
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 6.0);
    let insp = g.inspection();
    let t = SchedulingToken::new();
    let mut handles: Vec<_> = insp.node_handles();
    for h in handles.iter_mut() {
        h.set((0usize, 10.0, t.clone())).ok();
    }
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 6.0);
    t.activate_inner();
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 60.0);
""","use knaster_graph::SchedulingToken;\n"),
("g08-due-at-border","G08",[(GG,"ready_to_apply = ready_to_apply && (delay_in_block < block_size);","ready_to_apply = ready_to_apply && (delay_in_block <= block_size);")],
 "a change due exactly at the first frame of the next block","it is applied a block early",
"""
    let mut o = opts(16);
    o.sample_rate = 16000;
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(o);
    let id = g.edit(|g| {
        let a = g.push(U01::new(3.0, 0.0));
        a.to_graph_out();
        a.id()
    });
    p.run_without_inputs();
    // frame 32 is the first frame of the third block
    g.set(id, 0usize, 5.0, Time::at(Seconds::from_samples(32, 16000))).unwrap();
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 15), 3.0);
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 5.0);
"""),
("g05-keeps-task-data","G05",[(GR,"""        self.graph_gen_communicator.free_old_task_data();
        if self.recalculation_required {
            self.calculate_node_order();""","""        if self.recalculation_required {
            self.graph_gen_communicator.free_old_task_data();
            self.calculate_node_order();""")],
 "a removed node with only commits after it which don't change anything","the removed node is never dropped",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let id = g.edit(|g| {
        let a = g.push(Dropped(Src::new(1.0, 0.0)));
        a.to_graph_out();
        a.id()
    });
    p.run_without_inputs();
    g.edit(|g| { g.free_node(id).unwrap(); });
    for _ in 0..5 {
        p.run_without_inputs();
        g.edit(|_| {});
    }
    assert_eq!(DROPS.load(std::sync::atomic::Ordering::SeqCst), 1);
""","""
static DROPS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
unit!(Dropped, U0, U1);
impl Drop for Dropped {
    fn drop(&mut self) {
        DROPS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}
"""),
("g16-leftover-feedback","G16",[(GR,"""        if let Some(dep) = self.get_nodes()[node_key].strong_dependent {
            self.free_node_from_key(dep).ok();
        }""","""        if let Some(dep) = self.get_nodes()[node_key].strong_dependent {
            if !self.has_dependents(dep) {
                self.free_node_from_key(dep).ok();
            }
        }""")],
 "the source of a feedback connection is freed while its destination remains","the feedback helper node stays in the graph forever",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let sink = g.edit(|g| {
        let b = g.push(U11::new(0.0, 0.0));
        b.to_graph_out();
        b.id()
    });
    for _ in 0..4 {
        let a = g.edit(|g| g.push(U01::new(2.0, 0.0)).id());
        g.connect2_feedback(NodeOrGraph::Node(a), 0, 0, NodeOrGraph::Node(sink)).unwrap();
        g.edit(|_| {});
        p.run_without_inputs();
        g.edit(|g| { g.free_node(a).unwrap(); });
        for _ in 0..4 {
            p.run_without_inputs();
            g.edit(|_| {});
        }
    }
    assert_eq!(g.inspection().nodes.len(), 1);
"""),
]
